//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import (
	"context"
	"sync/atomic"
	"time"
	"vsa"
	"vsa/internal/zzverif/rt"
)

type zzSinkP14 struct {
	sum    map[string]int64
	fail   map[string]bool
	during func(key string)
}

func (p *zzSinkP14) CommitBatch(cs []Commit) error {
	if p.during != nil {
		f := p.during
		p.during = nil
		f(cs[0].Key)
	}
	for _, c := range cs {
		if p.fail[c.Key] {
			return context.DeadlineExceeded
		}
	}
	for _, c := range cs {
		p.sum[c.Key] += c.Vector
	}
	return nil
}
func (p *zzSinkP14) PrintFinalMetrics() {}

func zzInP14(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzAgeP14(s *Store, key string, ns int64) {
	s.ForEach(func(k string, v *managedVSA) {
		if k == key {
			atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-ns)
		}
	})
}

func zzHasP14(s *Store, key string) (has bool) {
	s.ForEach(func(k string, v *managedVSA) { has = has || k == key })
	return
}

// A key leaves memory only when it has been idle longer than the eviction age and its remainder is durable.
// verif: ticks=1
// bound: 3 keys, each idle for any time not within 0.5 s of the eviction age, with any vector, persist failing or not per key; any eviction age
func VH_P14_rule() {
	const margin = int64(time.Second / 2)
	st := NewStoreWithOptions(7, vsa.Options{Stripes: 8})
	p := &zzSinkP14{sum: map[string]int64{}, fail: map[string]bool{}}
	age := zzInP14("age", 0, 1<<50)
	w := NewWorker(st, p, 1<<60, 0, time.Second, 0, time.Duration(age), time.Hour)
	keys := [3]string{"a", "b", "c"}
	var net [3]int64
	var idle, fail [3]bool
	t0 := rt.Now()
	for i, k := range keys {
		since := zzInP14("since", 0, 1<<51)
		rt.Assume(since >= age+margin || since <= age-margin)
		idle[i], fail[i] = since > age, rt.Bool("fail")
		if fail[i] {
			p.fail[k] = true
		}
		net[i] = zzInP14("net", -(1 << 40), 1<<40)
		st.GetOrCreate(k).Update(net[i])
		zzAgeP14(st, k, since)
	}
	w.runEvictionCycle()
	rt.Assume(rt.Now()-t0 < margin)
	for i, k := range keys {
		gone := idle[i] && (net[i] == 0 || !fail[i])
		rt.Assert(zzHasP14(st, k) == !gone, "a key is evicted exactly when it is stale and nothing of it would be lost")
		if gone {
			rt.Assert(p.sum[k] == net[i], "an evicted key's remainder is durable")
			sc, n := st.GetOrCreate(k).State()
			rt.Assert(sc == 7 && n == 0, "an evicted key comes back fresh")
		} else {
			_, n := st.GetOrCreate(k).State()
			rt.Assert(n == net[i] && p.sum[k] == 0, "a kept key is untouched")
		}
	}
}

// A key used while its remainder is being persisted for eviction loses nothing.
// bound: one key; a remainder of either sign; one lookup and one update of the same sign or consume of any size during the write
func VH_P14_touched() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzSinkP14{sum: map[string]int64{}, fail: map[string]bool{}}
	w := NewWorker(st, p, 1<<60, 0, time.Second, 0, time.Minute, time.Hour)
	tot := zzInP14("pre", 1, 1<<40)
	n := zzInP14("n", 0, 1<<40)
	kind := rt.Choose("kind", 3)
	if kind == 2 { // a negative remainder that grows
		tot, n, kind = -tot, -n, 0
	}
	st.GetOrCreate("k").Update(tot)
	zzAgeP14(st, "k", int64(time.Hour))
	p.during = func(string) {
		v := st.GetOrCreate("k")
		if kind == 0 {
			v.Update(n)
			tot += n
		} else if v.TryConsume(n) {
			tot += n
		}
	}
	w.runEvictionCycle()
	_, m := st.GetOrCreate("k").State()
	rt.Assert(p.sum["k"]+m == tot, "units that arrive during the eviction write are not lost")
}

// A key touched between being listed as stale and being evicted stays.
// verif: ticks=0
// bound: two stale keys; the write for the first touches the second
func VH_P14_retouched() {
	st := NewStoreWithOptions(5, vsa.Options{Stripes: 8})
	p := &zzSinkP14{sum: map[string]int64{}, fail: map[string]bool{}}
	w := NewWorker(st, p, 1<<60, 0, time.Second, 0, time.Minute, time.Hour)
	for _, k := range []string{"a", "b"} {
		st.GetOrCreate(k).Update(1)
		zzAgeP14(st, k, int64(time.Hour))
	}
	t0 := rt.Now()
	keys := [2]string{"a", "b"}
	other := 0
	lookup := rt.Bool("lookup")
	p.during = func(key string) {
		// the other key is used while this one is written
		if key == keys[0] {
			other = 1
		}
		if lookup {
			st.GetOrCreate(keys[other])
		} else {
			zzAgeP14(st, keys[other], -int64(time.Hour))
		}
	}
	w.runEvictionCycle()
	rt.Assume(rt.Now()-t0 < int64(time.Second))
	rt.Assert(p.during == nil && !zzHasP14(st, keys[1-other]) && p.sum[keys[1-other]] == 1, "a stale key is evicted with its remainder durable")
	rt.Assert(zzHasP14(st, keys[other]), "a key used since it was listed as stale stays")
	_, m := st.GetOrCreate(keys[other]).State()
	rt.Assert(p.sum[keys[other]]+m == 1, "a kept key loses nothing")
}

// A request for a stale key races with its eviction.
// verif: preempt=2 ticks=0
// bound: one lookup and consume racing with one eviction cycle of a stale key; up to 2 preemptions
func VH_P14_lookup_race() {
	st := NewStoreWithOptions(5, vsa.Options{Stripes: 8})
	p := &zzSinkP14{sum: map[string]int64{}, fail: map[string]bool{}}
	w := NewWorker(st, p, 1<<60, 0, time.Second, 0, time.Minute, time.Hour)
	st.GetOrCreate("k")
	zzAgeP14(st, "k", int64(time.Hour))
	ok := false
	rt.Par(func() { ok = st.GetOrCreate("k").TryConsume(3) }, func() { w.runEvictionCycle() })
	_, m := st.GetOrCreate("k").State()
	rt.Assert(ok, "a request within the limit is admitted")
	rt.Assert(p.sum["k"]+m == 3, "a unit admitted while its key is being evicted is not forgotten")
}
