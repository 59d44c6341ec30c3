//verif:pkg internal/ratelimiter/persistence

package persistence

import (
	"context"
	"errors"
	"time"
	"vsa/internal/zzverif/rt"
)

type zzClientP21 struct{ r *zzRedisP21 }

func (c zzClientP21) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	return c.r.Eval(script, keys, args)
}

func zzVecP21() int64 {
	v := rt.Int64("vector")
	rt.Assume(v >= -(1<<53) && v <= 1<<53)
	return v
}

func (r *zzRedisP21) scalar(key string) int64 {
	for _, h := range r.hashes {
		if h.key == RedisCounterKey(key) && h.field == "scalar" {
			return h.val
		}
	}
	return 0
}

func zzKeyP21(i int) string {
	switch rt.Choose("key", 3) {
	case 0:
		return "a"
	case 1:
		return "b:"
	}
	return rt.String("keybytes", 1)
}

// However calls fail and however often the batch is retried, each commit is applied exactly once.
// bound: a batch of 2 (thorough 3) commits with any vectors in +-2^53 to keys of 1-2 bytes, the ids equal or not; per call a failure before or after it takes effect; 2 (thorough 3) attempts, then one that works, then one more
func VH_P21_once() {
	n, tries := 2, 2
	if rt.Thorough() {
		n, tries = 3, 3
	}
	r := &zzRedisP21{}
	p := NewRedisPersister(zzClientP21{r}, time.Hour)
	es := make([]CommitEntry, n)
	ids := [...]string{"0123456789abcdef", "0123456789abcdeg", "0123456789abcdeh"}
	for i := range es {
		es[i] = CommitEntry{Key: zzKeyP21(i), Vector: zzVecP21(), CommitID: ids[i]}
		if i > 0 && rt.Choose("again", 2) == 1 {
			es[i] = es[i-1]
		}
	}
	r.fault = func(int) (before, after error) {
		switch rt.Choose("fault", 3) {
		case 1:
			return errors.New("down"), nil
		case 2:
			return nil, errors.New("reply lost")
		}
		return nil, nil
	}
	for t := 0; t < tries; t++ {
		c0 := r.calls
		err := p.CommitBatch(context.Background(), es)
		if err == nil {
			rt.Assert(r.calls-c0 >= 1, "a batch is sent")
			zzCheckP21(r, es)
		}
	}
	r.fault = nil
	rt.Assert(p.CommitBatch(context.Background(), es) == nil, "a batch succeeds when every call does")
	zzCheckP21(r, es)
	rt.Assert(p.CommitBatch(context.Background(), es) == nil, "repeating an applied batch succeeds")
	zzCheckP21(r, es)
}

func zzCheckP21(r *zzRedisP21, es []CommitEntry) {
	for _, e := range es {
		var want int64
		for j, f := range es {
			dup := false
			for _, g := range es[:j] {
				dup = dup || g.CommitID == f.CommitID
			}
			if !dup && f.Key == e.Key {
				want -= f.Vector
			}
		}
		rt.Assert(r.scalar(e.Key) == want, "the durable scalar is lowered by each commit's vector exactly once")
	}
	for _, h := range r.hashes {
		known := false
		for _, e := range es {
			known = known || h.key == RedisCounterKey(e.Key)
		}
		rt.Assert(known || h.val == 0, "no other counter is touched")
	}
}

// A commit that fails reports it, and nothing that was reported as done is missing.
// bound: 2 commits with any vectors, one attempt, any failure pattern
func VH_P21_report() {
	r := &zzRedisP21{}
	p := NewRedisPersister(zzClientP21{r}, time.Hour)
	es := []CommitEntry{{Key: "a", Vector: zzVecP21(), CommitID: "0a"}, {Key: "b", Vector: zzVecP21(), CommitID: "0b"}}
	failed := false
	down := []error{errors.New("down"), context.DeadlineExceeded, errors.New("redis: nil")}[rt.Choose("error", 3)]
	r.fault = func(int) (before, after error) {
		switch rt.Choose("fault", 3) {
		case 1:
			failed = true
			return down, nil
		case 2:
			failed = true
			return nil, down
		}
		return nil, nil
	}
	err := p.CommitBatch(context.Background(), es)
	rt.Assert((err != nil) == failed, "a batch fails exactly when one of its commits did")
	rt.Assert(err == nil || errors.Is(err, down), "the cause is reported")
}

// A commit without an id is refused and not applied; an empty batch does nothing.
// bound: 2 commits, the first, second or both without an id
func VH_P21_noid() {
	r := &zzRedisP21{}
	p := NewRedisPersister(zzClientP21{r}, 0)
	ids := [...]string{"", "0a"}
	a, b := rt.Choose("a", 2), rt.Choose("b", 2)
	rt.Assume(a == 0 || b == 0)
	es := []CommitEntry{{Key: "a", Vector: zzVecP21(), CommitID: ids[a]}, {Key: "b", Vector: zzVecP21(), CommitID: ids[b]}}
	rt.Assert(p.CommitBatch(context.Background(), es) != nil, "a commit without an id is refused")
	rt.Assert((a == 1 || r.scalar("a") == 0) && (b == 1 || r.scalar("b") == 0), "a commit without an id is not applied")
	n := r.calls
	rt.Assert(p.CommitBatch(context.Background(), nil) == nil && r.calls == n, "an empty batch does nothing")
}

// The markers of applied commits are kept for the configured time and never appear without their update.
// bound: marker lifetimes of 0 (the default, 24h), 1s, 90s, 36h and below a second; one commit with any vector
func VH_P21_marker() {
	ttls := [...]time.Duration{0, time.Second, 90 * time.Second, 36 * time.Hour, time.Millisecond, -time.Hour}
	want := [...]int64{86400, 1, 90, 36 * 3600, -1, 86400}
	i := rt.Choose("ttl", len(ttls))
	r := &zzRedisP21{}
	p := NewRedisPersister(zzClientP21{r}, ttls[i])
	v := zzVecP21()
	rt.Assert(p.CommitBatch(context.Background(), []CommitEntry{{Key: "k", Vector: v, CommitID: "id"}}) == nil, "a commit succeeds")
	rt.Assert(r.scalar("k") == -v, "the commit is applied")
	m := r.str(RedisCommitMarkerKey("k", "id"))
	rt.Assert(m >= 0 && len(r.strs) == 1, "an applied commit leaves its marker")
	rt.Assert(r.strs[m].ttl == want[i] || i == 4 && r.strs[m].ttl > 0, "the marker lives as long as configured")
}

// Commits of different keys with the same id, and of one key with different ids, are different commits.
// bound: 2 commits with any vectors; keys and ids of 1 to 2 bytes without a colon in the id
func VH_P21_distinct() {
	r := &zzRedisP21{}
	p := NewRedisPersister(zzClientP21{r}, time.Hour)
	var es [2]CommitEntry
	for i := range es {
		es[i] = CommitEntry{Key: rt.String("key", 1+rt.Choose("n", 2)), Vector: zzVecP21(), CommitID: rt.String("id", 1)}
		rt.Assume(es[i].CommitID[0] != ':')
	}
	rt.Assume(es[0].Key != es[1].Key || es[0].CommitID != es[1].CommitID)
	rt.Assert(p.CommitBatch(context.Background(), es[:]) == nil, "the batch is applied")
	w0, w1 := -es[0].Vector, -es[1].Vector
	if es[0].Key == es[1].Key {
		w0 += w1
		w1 = w0
	}
	rt.Assert(r.scalar(es[0].Key) == w0 && r.scalar(es[1].Key) == w1, "distinct commits are both applied, each to its own key")
}
