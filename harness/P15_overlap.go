//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import (
	"sync"
	"sync/atomic"
	"time"
	"vsa"
	"vsa/internal/zzverif/rt"
)

// zzLedgerP15 applies batches to a durable per-key sum.
type zzLedgerP15 struct {
	mu  sync.Mutex
	sum map[string]int64
}

func (p *zzLedgerP15) CommitBatch(cs []Commit) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, c := range cs {
		p.sum[c.Key] += c.Vector
	}
	return nil
}
func (p *zzLedgerP15) PrintFinalMetrics() {}

func zzInP15(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzAgeP15(s *Store, key string, ns int64) {
	s.ForEach(func(k string, v *managedVSA) {
		if k == key {
			atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-ns)
		}
	})
}

func zzMemP15(s *Store, key string) (net int64) {
	s.ForEach(func(k string, v *managedVSA) {
		if k == key {
			_, net = v.instance.State()
		}
	})
	return
}

// Two cycles of any kind overlap: nothing is persisted twice and nothing is dropped.
// verif: preempt=2 ticks=0
// bound: 2 overlapping cycles (each commit, eviction or final flush) over one key with any vector; up to 2 preemptions
func VH_P15_cycles() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP15{sum: map[string]int64{}}
	w := NewWorker(st, p, 1, 0, time.Second, 0, time.Minute, time.Hour)
	tot := zzInP15("pre", 1, 1<<40)
	st.GetOrCreate("a").Update(tot)
	zzAgeP15(st, "a", int64(time.Hour))
	run := func(k int) {
		switch k {
		case 0:
			w.runCommitCycle()
		case 1:
			w.runFinalFlush()
		case 2:
			w.runEvictionCycle()
		}
	}
	a := rt.Choose("first", 3)
	b := rt.Choose("second", 3)
	rt.Assume(a <= b)
	rt.Par(func() { run(a) }, func() { run(b) })
	rt.Assert(p.sum["a"]+zzMemP15(st, "a") == tot, "overlapping cycles persist each unit once")
	w.runFinalFlush()
	rt.Assert(p.sum["a"] == tot, "the final flush leaves nothing behind")
}

// A commit cycle overlaps with consumption.
// verif: preempt=2 ticks=0
// bound: one cycle (commit or final flush) overlapping one consume of any size on its key; up to 2 preemptions
func VH_P15_traffic() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP15{sum: map[string]int64{}}
	w := NewWorker(st, p, 1, 0, time.Second, 0, time.Minute, time.Hour)
	pre, n := zzInP15("pre", 0, 1<<40), zzInP15("n", 1, 1<<40)
	st.GetOrCreate("a").Update(pre)
	flush := rt.Bool("flush")
	ok := false
	rt.Par(func() {
		if flush {
			w.runFinalFlush()
		} else {
			w.runCommitCycle()
		}
	}, func() { ok = st.GetOrCreate("a").TryConsume(n) })
	rt.Assert(ok, "a request within the limit is admitted during a cycle")
	rt.Assert(p.sum["a"]+zzMemP15(st, "a") == pre+n, "durable plus in-memory equals what was consumed")
	sc, _ := st.GetOrCreate("a").State()
	rt.Assert(sc+p.sum["a"] == 1<<45, "the scalar drops by what was persisted")
}

// Start, ticks and Stop: after Stop everything is durable exactly once and both goroutines are gone.
// verif: preempt=1 ticks=1
// bound: one worker over 2 keys, up to 1 tick before the stop, Stop called twice in turn (thorough: also concurrently); 1 preemption
func VH_P15_stop() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP15{sum: map[string]int64{}}
	w := NewWorker(st, p, zzInP15("high", 1, 1<<40), 0, time.Second, 0, time.Hour, time.Hour)
	a, b := zzInP15("a", 0, 1<<40), zzInP15("b", -(1<<40), 0)
	st.GetOrCreate("a").Update(a)
	st.GetOrCreate("b").Update(b)
	t0 := rt.Now()
	w.Start()
	if rt.Thorough() && rt.Bool("together") {
		rt.Par(func() { w.Stop() }, func() { w.Stop() })
	} else {
		w.Stop()
		w.Stop()
	}
	rt.Assume(rt.Now()-t0 < int64(time.Minute))
	rt.Assert(p.sum["a"] == a && p.sum["b"] == b, "after Stop every key's remainder is durable exactly once")
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "Stop ends both background goroutines")
}

// Stop called from two places at once.
// verif: preempt=1 ticks=0
// bound: one worker over 1 key, no tick before the stop, two concurrent Stop calls; 1 preemption
func VH_P15_stop_together() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP15{sum: map[string]int64{}}
	w := NewWorker(st, p, 1<<45, 0, time.Second, 0, time.Hour, time.Hour)
	a := zzInP15("a", 0, 1<<40)
	st.GetOrCreate("a").Update(a)
	w.Start()
	rt.Par(func() { w.Stop() }, func() { w.Stop() })
	rt.Assert(p.sum["a"] == a, "after Stop every key's remainder is durable exactly once")
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "Stop ends both background goroutines")
}

// Once Stop has returned, neither loop touches the store or the adapter any more.
// verif: preempt=1 ticks=1
// bound: one worker over a stale key with or without a remainder, up to 1 tick (commit or eviction) before or during the stop; 1 preemption
func VH_P15_still() {
	st := NewStoreWithOptions(1<<45, vsa.Options{Stripes: 8})
	p := &zzLedgerP15{sum: map[string]int64{}}
	w := NewWorker(st, p, 1<<45, 0, time.Second, 0, time.Minute, time.Hour)
	a := zzInP15("a", 0, 1)
	st.GetOrCreate("a").Update(a)
	zzAgeP15(st, "a", int64(time.Hour))
	n := func() (n int) {
		st.ForEach(func(string, *managedVSA) { n++ })
		return
	}
	w.Start()
	w.Stop()
	was := n()
	rt.Assert(p.sum["a"] == a, "after Stop the remainder is durable exactly once")
	rt.Quiesce()
	rt.Assert(n() == was, "nothing is evicted after Stop has returned")
	st.GetOrCreate("a").Update(1)
	rt.Quiesce()
	rt.Assert(p.sum["a"] == a, "nothing is written after Stop has returned")
}
