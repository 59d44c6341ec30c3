//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"time"
	"vsa"
	"vsa/internal/zzverif/rt"
)

// zzFlakyP13 fails the calls the solver picks; a failed call stores nothing.
type zzFlakyP13 struct {
	sum         map[string]int64
	calls, good int
	never       bool
	kind        int // of the failures of this run
}

func (p *zzFlakyP13) CommitBatch(cs []Commit) error {
	p.calls++
	if !p.never && rt.Bool("fail") {
		if p.kind == 0 {
			p.kind = 1 + rt.Choose("error", 3)
		}
		return []error{errors.New("storage down"), context.DeadlineExceeded, fmt.Errorf("write: %w", context.Canceled)}[p.kind-1]
	}
	p.good++
	for _, c := range cs {
		p.sum[c.Key] += c.Vector
	}
	return nil
}
func (p *zzFlakyP13) PrintFinalMetrics() {}

func zzInP13(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

// Storage failures at any points of any short history of cycles lose nothing and duplicate nothing; a failed cycle leaves
// every in-memory value as it was; once storage works a flush makes everything durable.
// bound: 2 keys with any vectors; 3 (thorough 4) cycles of any kind, each storage call failing or not, traffic in between
func VH_P13_faults() {
	st := NewStoreWithOptions(0, vsa.Options{Stripes: 8})
	p := &zzFlakyP13{sum: map[string]int64{}}
	w := NewWorker(st, p, zzInP13("high", 1, 1<<40), 0, time.Second, 0, time.Minute, time.Hour)
	keys := [2]string{"a", "b"}
	var tot [2]int64
	for i, k := range keys {
		tot[i] = zzInP13("pre", -(1 << 40), 1<<40)
		st.GetOrCreate(k).Update(tot[i])
	}
	n := 3
	if rt.Thorough() {
		n = 4
	}
	t0 := rt.Now()
	for i := 0; i < n; i++ {
		var sc, net [2]int64
		for j, k := range keys {
			sc[j], net[j] = st.GetOrCreate(k).State()
		}
		good := p.good
		switch rt.Choose("cycle", 3) {
		case 0:
			w.runCommitCycle()
		case 1:
			w.runFinalFlush()
		case 2:
			st.ForEach(func(k string, v *managedVSA) {
				atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-int64(time.Hour))
			})
			w.runEvictionCycle()
		}
		if p.good == good {
			st.ForEach(func(k string, v *managedVSA) {
				s1, n1 := v.instance.State()
				for j := range keys {
					if keys[j] == k {
						rt.Assert(s1 == sc[j] && n1 == net[j], "a failed write leaves the in-memory value as it was")
					}
				}
			})
		}
		for j, k := range keys {
			_, m := st.GetOrCreate(k).State()
			rt.Assert(p.sum[k]+m == tot[j], "failed writes lose nothing and duplicate nothing")
		}
		if i == 0 {
			x := zzInP13("more", -(1 << 40), 1<<40)
			st.GetOrCreate("a").Update(x)
			tot[0] += x
		}
	}
	rt.Assume(rt.Now()-t0 < int64(30*time.Second))
	p.never = true
	w.runFinalFlush()
	for j, k := range keys {
		rt.Assert(p.sum[k] == tot[j], "once storage works again a flush makes everything durable")
	}
}

// Without hysteresis a failed threshold commit is retried by the next cycle.
// bound: one key, any vector and threshold, up to 2 failures in a row
func VH_P13_retry() {
	st := NewStoreWithOptions(0, vsa.Options{Stripes: 8})
	p := &zzFlakyP13{sum: map[string]int64{}}
	thr := zzInP13("high", 1, 1<<40)
	w := NewWorker(st, p, thr, 0, time.Second, 0, time.Minute, time.Hour)
	x := zzInP13("x", -(1 << 40), 1<<40)
	rt.Assume(x >= thr || -x >= thr)
	st.GetOrCreate("k").Update(x)
	w.runCommitCycle()
	if p.good == 0 {
		w.runCommitCycle()
		rt.Assert(p.calls == 2, "the next cycle tries again")
	}
	p.never = true
	w.runCommitCycle()
	rt.Assert(p.sum["k"] == x && p.good == 1, "the vector ends up durable exactly once")
}
