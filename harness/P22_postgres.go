//verif:pkg internal/ratelimiter/persistence

package persistence

import (
	"context"
	"database/sql"
	"errors"
	"vsa/internal/zzverif/rt"
)

func zzVecP22() int64 {
	v := rt.Int64("vector")
	rt.Assume(v >= -(1<<60) && v <= 1<<60)
	return v
}

func (d *zzDBP22) scalar(key string) int64 {
	if r := d.row("counters", key); r != nil {
		return r["scalar"].num
	}
	return 0
}

// zzCheckP22: every entry's counter is its start value lowered by each of its commits' vectors once.
func zzCheckP22(d *zzDBP22, es []CommitEntry, start int64) {
	for _, e := range es {
		want := start
		for j, f := range es {
			dup := false
			for _, g := range es[:j] {
				dup = dup || g.CommitID == f.CommitID
			}
			if !dup && f.Key == e.Key {
				want -= f.Vector
			}
		}
		rt.Assert(d.row("counters", e.Key) != nil && d.scalar(e.Key) == want, "the durable scalar is lowered by each commit's vector exactly once")
		m := d.row("applied_commits", e.CommitID)
		rt.Assert(m != nil && m["key"].str == e.Key && m["vc"].num == e.Vector, "an applied commit is recorded")
	}
	for _, r := range d.tab("counters").rows {
		known := r.col["key"].str == "z"
		for _, e := range es {
			known = known || r.col["key"].str == e.Key
		}
		rt.Assert(known, "no other counter appears")
	}
	rt.Assert(d.scalar("z") == 1000, "no other counter changes")
}

// However statements fail and however often the batch is retried, each commit is applied exactly once, and an attempt
// that failed before its commit point has changed nothing.
// verif: preempt=0 ticks=0
// bound: a batch of 2 commits with any vectors in +-2^60 to the same or different keys, the ids equal or not, counters existing or created, one of the commits applied before or not; failure of any one statement, begin or commit (taking effect or not) per attempt; 2 (thorough 3) failing attempts, then one that works, then one more
func VH_P22_once() {
	tries := 2
	if rt.Thorough() {
		tries = 3
	}
	d := zzNewDBP22()
	d.addCounter("z", 1000)
	create := rt.Choose("create", 2) == 1
	start := int64(0)
	keys := [...]string{"a", "a", "b:c"}
	k := rt.Choose("keys", 2)
	es := []CommitEntry{{Key: keys[k], Vector: zzVecP22(), CommitID: "0a"}, {Key: keys[k+1], Vector: zzVecP22(), CommitID: "0b"}}
	if k == 0 && rt.Choose("again", 2) == 1 {
		es[1] = es[0]
	}
	if !create || rt.Choose("exists", 2) == 1 {
		start = zzVecP22()
		d.addCounter("a", start)
		if k == 1 {
			d.addCounter("b:c", start)
		}
	}
	p := NewPostgresPersister(d.sql(), create)
	if early := rt.Choose("early", 3); early > 0 { // one of the two was applied before, with another batch
		rt.Assert(p.CommitBatch(context.Background(), es[early-1:early]) == nil, "a batch succeeds when every statement does")
	}
	for t := 0; t < tries; t++ {
		failed := false
		d.fault = func(what string) error {
			if failed || rt.Choose("fault", 2) == 0 {
				return nil
			}
			failed = true
			d.ackLost = what == "commit" && rt.Choose("ack", 2) == 1
			if what == "commit" && !d.ackLost {
				return []error{errors.New("down"), sql.ErrTxDone, context.DeadlineExceeded}[rt.Choose("error", 3)]
			}
			return errors.New("down")
		}
		d.ackLost = false
		n, m, sa, sb := len(d.tab("applied_commits").rows), len(d.tab("counters").rows), d.scalar("a"), d.scalar("b:c")
		err := p.CommitBatch(context.Background(), es)
		rt.Assert((err != nil) == failed, "a batch fails exactly when one of its statements did")
		rt.Assert(!d.open, "no transaction is left open")
		if err == nil {
			zzCheckP22(d, es, start)
		} else if !d.ackLost {
			rt.Assert(n == len(d.tab("applied_commits").rows) && m == len(d.tab("counters").rows) && sa == d.scalar("a") && sb == d.scalar("b:c"), "a failed attempt changes nothing")
		}
	}
	d.fault = nil
	rt.Assert(p.CommitBatch(context.Background(), es) == nil, "a batch succeeds when every statement does")
	zzCheckP22(d, es, start)
	rt.Assert(p.CommitBatch(context.Background(), es) == nil, "repeating an applied batch succeeds")
	zzCheckP22(d, es, start)
}

// A lower fencing token never overwrites a higher one's effects; commits without a token are not fenced.
// verif: preempt=0 ticks=0
// bound: 3 single commits to one key with any vectors, each with any token or none
func VH_P22_fence() {
	d := zzNewDBP22()
	d.addCounter("z", 1000)
	d.addCounter("a", 0)
	p := NewPostgresPersister(d.sql(), rt.Choose("create", 2) == 1)
	var last *int64
	var sum int64
	for _, id := range []string{"0a", "0b", "0c"} {
		e := CommitEntry{Key: "a", Vector: zzVecP22(), CommitID: id}
		if rt.Choose("token", 2) == 1 {
			t := rt.Int64("token")
			e.FencingToken = &t
		}
		stale := e.FencingToken != nil && last != nil && *e.FencingToken < *last
		err := p.CommitBatch(context.Background(), []CommitEntry{e})
		rt.Assert((err != nil) == stale, "a commit is rejected exactly when its token is lower than one seen before")
		if !stale {
			sum -= e.Vector
			if e.FencingToken != nil {
				last = e.FencingToken
			}
		}
		rt.Assert(d.scalar("a") == sum, "only accepted commits change the counter")
		rt.Assert((d.row("applied_commits", id) != nil) == !stale, "a rejected commit is not recorded as applied")
		c := d.row("counters", "a")["last_token"]
		rt.Assert(c.null == (last == nil) && (last == nil || c.num == *last), "the highest token seen is remembered")
		if !stale && rt.Choose("retry", 2) == 1 {
			rt.Assert(p.CommitBatch(context.Background(), []CommitEntry{e}) == nil && d.scalar("a") == sum, "retrying an applied commit is a no-op")
		}
	}
	rt.Assert(d.scalar("z") == 1000 && d.row("counters", "z")["last_token"].null, "no other counter changes")
}

// A batch is applied as a whole or not at all.
// verif: preempt=0 ticks=0
// bound: a batch of 2 commits of which the second is stale or has no id, with any vectors and tokens
func VH_P22_atomic() {
	d := zzNewDBP22()
	d.addCounter("z", 1000)
	d.addCounter("a", 7)
	d.addCounter("b", 8)
	p := NewPostgresPersister(d.sql(), rt.Choose("create", 2) == 1)
	hi, lo := rt.Int64("hi"), rt.Int64("lo")
	rt.Assume(lo < hi)
	v := zzVecP22()
	rt.Assert(p.CommitBatch(context.Background(), []CommitEntry{{Key: "b", Vector: v, CommitID: "00", FencingToken: &hi}}) == nil, "a first token is accepted")
	es := []CommitEntry{{Key: "a", Vector: zzVecP22(), CommitID: "0a"}, {Key: "b", Vector: zzVecP22(), CommitID: "0b", FencingToken: &lo}}
	if rt.Choose("noid", 2) == 1 {
		es[1].CommitID, es[1].FencingToken = "", nil
	}
	if rt.Choose("swap", 2) == 1 {
		es[0], es[1] = es[1], es[0]
	}
	rt.Assert(p.CommitBatch(context.Background(), es) != nil, "a stale or nameless commit is refused")
	rt.Assert(d.scalar("a") == 7 && d.scalar("b") == 8-v && len(d.tab("applied_commits").rows) == 1, "a refused batch changes nothing")
	rt.Assert(!d.open, "no transaction is left open")
	rt.Assert(p.CommitBatch(context.Background(), nil) == nil, "an empty batch does nothing")
}

// Commits to a key that does not exist yet create its counter when configured.
// verif: preempt=0 ticks=0
// bound: 2 commits with any vectors and a token or none to keys of 1 arbitrary byte
func VH_P22_create() {
	d := zzNewDBP22()
	d.addCounter("z", 1000)
	p := NewPostgresPersister(d.sql(), true)
	es := []CommitEntry{{Key: rt.String("key", 1), Vector: zzVecP22(), CommitID: "0a"}, {Key: rt.String("key", 1), Vector: zzVecP22(), CommitID: "0b"}}
	rt.Assume(es[0].Key != "z" && es[1].Key != "z")
	if rt.Choose("token", 2) == 1 {
		t := rt.Int64("token")
		es[0].FencingToken = &t
	}
	rt.Assert(p.CommitBatch(nil, es) == nil, "the batch is applied")
	zzCheckP22(d, es, 0)
}
