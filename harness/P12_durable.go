//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import (
	"sync/atomic"
	"time"
	"vsa"
	"vsa/internal/zzverif/rt"
)

// zzLedgerP12 applies batches to a durable per-key sum.
type zzLedgerP12 struct {
	sum    map[string]int64
	during func()
}

func (p *zzLedgerP12) CommitBatch(cs []Commit) error {
	if p.during != nil {
		f := p.during
		p.during = nil
		f()
	}
	for _, c := range cs {
		p.sum[c.Key] += c.Vector
	}
	return nil
}
func (p *zzLedgerP12) PrintFinalMetrics() {}

func zzInP12(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzAgeP12(s *Store, key string, ns int64) {
	s.ForEach(func(k string, v *managedVSA) {
		if k == key {
			atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-ns)
		}
	})
}

// zzTrafficP12 applies one arbitrary operation and returns its effect on the key's running total.
func zzTrafficP12(v *vsa.VSA) int64 {
	switch rt.Choose("op", 3) {
	case 0:
		n := zzInP12("take", 0, 1<<40)
		if v.TryConsume(n) {
			return n
		}
	case 1:
		_, before := v.State()
		if v.TryRefund(zzInP12("give", 0, 1<<40)) {
			_, after := v.State()
			return after - before
		}
	case 2:
		x := zzInP12("upd", -(1 << 40), 1<<40)
		v.Update(x)
		return x
	}
	return 0
}

// Any history of traffic and cycles: what is durable plus what is still in memory is exactly what happened, for every
// key, and after the final flush everything is durable.
// bound: 2 keys; 3 (thorough 5) steps, each an operation, a commit cycle or an eviction cycle; arbitrary amounts and watermarks
func VH_P12_history() {
	const hour = int64(time.Hour)
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP12{sum: map[string]int64{}}
	w := NewWorker(st, p, zzInP12("high", 1, 1<<40), zzInP12("low", 0, 1<<40), time.Second, 0, time.Minute, time.Hour)
	keys := [2]string{"a", "b"}
	var tot [2]int64
	steps := 3
	if rt.Thorough() {
		steps = 5
	}
	t0 := rt.Now()
	for i := 0; i < steps; i++ {
		k := rt.Choose("key", 2)
		switch rt.Choose("step", 3) {
		case 0:
			tot[k] += zzTrafficP12(st.GetOrCreate(keys[k]))
		case 1:
			w.runCommitCycle()
		case 2:
			zzAgeP12(st, keys[k], hour)
			w.runEvictionCycle()
		}
	}
	rt.Assume(rt.Now()-t0 < int64(30*time.Second))
	var mem [2]int64
	st.ForEach(func(key string, v *managedVSA) {
		_, n := v.instance.State()
		for i, k := range keys {
			if k == key {
				mem[i] = n
			}
		}
	})
	for i, k := range keys {
		rt.Assert(p.sum[k]+mem[i] == tot[i], "durable plus in-memory equals what happened")
	}
	w.runFinalFlush()
	for i, k := range keys {
		rt.Assert(p.sum[k] == tot[i], "after the final flush everything is durable")
	}
	w.runFinalFlush()
	w.runCommitCycle()
	for i, k := range keys {
		rt.Assert(p.sum[k] == tot[i], "nothing is persisted twice")
	}
}

// Consumption that arrives while a batch is being persisted is neither lost nor persisted twice.
// bound: one or two keys; one consume or positive update on either key at the moment the batch is written; each kind of cycle
func VH_P12_during() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP12{sum: map[string]int64{}}
	w := NewWorker(st, p, 1, 0, time.Second, 0, time.Minute, time.Hour)
	keys := [2]string{"a", "b"}
	var tot [2]int64
	for i, k := range keys {
		tot[i] = zzInP12("pre", 0, 1<<40)
		st.GetOrCreate(k).Update(tot[i])
	}
	hit := rt.Choose("key", 2)
	kind := rt.Choose("kind", 2)
	n := zzInP12("n", 0, 1<<40)
	p.during = func() {
		live := st.GetOrCreate(keys[hit])
		tot[hit] += n
		if kind == 0 {
			if !live.TryConsume(n) {
				tot[hit] -= n
			}
		} else {
			live.Update(n)
		}
	}
	switch rt.Choose("cycle", 3) {
	case 0:
		w.runCommitCycle()
	case 1:
		w.runFinalFlush()
	case 2:
		zzAgeP12(st, keys[0], int64(time.Hour))
		zzAgeP12(st, keys[1], int64(time.Hour))
		w.runEvictionCycle()
	}
	for i, k := range keys {
		_, m := st.GetOrCreate(k).State()
		rt.Assert(p.sum[k]+m == tot[i], "durable plus in-memory equals what happened")
	}
	w.runFinalFlush()
	for i, k := range keys {
		rt.Assert(p.sum[k] == tot[i], "after the final flush everything is durable")
	}
}

// A refund that arrives while a batch is being persisted.
// bound: one key, one refund of any size at the moment the batch is written
func VH_P12_refund_during() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP12{sum: map[string]int64{}}
	w := NewWorker(st, p, 1, 0, time.Second, 0, time.Minute, time.Hour)
	v := st.GetOrCreate("a")
	tot := zzInP12("pre", 1, 1<<40)
	v.Update(tot)
	n := zzInP12("n", 1, 1<<40)
	p.during = func() {
		_, b := v.State()
		v.TryRefund(n)
		_, a := v.State()
		tot += a - b
	}
	w.runCommitCycle()
	_, m := v.State()
	rt.Assert(p.sum["a"]+m == tot, "durable plus in-memory equals what happened, also with a refund during the write")
}
