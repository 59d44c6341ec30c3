//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzInP07(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

// Close, called any number of times from any goroutines, stops the background refresher and never panics or blocks.
// verif: preempt=2 ticks=1
// bound: refresher plus two closers (two calls each) and one operation; up to 2 preemptions and 1 tick
func VH_P07_close() {
	o := Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1}
	if rt.Choose("hier", 2) == 1 {
		o.HierarchicalGroups = 2
	}
	v := NewWithOptions(zzInP07("scalar", 0, 1<<40), o)
	rt.Par(func() { v.Close(); v.Close() }, func() { v.TryConsume(1); v.Close() })
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "Close stops the background goroutine")
	v.Close()
	v.Update(3)
	rt.Assert(v.Available() <= 1<<40, "the instance stays usable after Close")
}

// Without a cached gate there is no background goroutine and Close is a no-op.
// bound: every other option set
func VH_P07_none() {
	v := NewWithOptions(10, Options{Stripes: 8, GroupCount: 2, HierarchicalGroups: 2, FastPathGuard: 1, CheapUpdateChooser: rt.Bool("cheap"), PerPUpdateChooser: rt.Bool("perp")})
	rt.Assert(rt.Live() <= 0, "no background goroutine without the cached gate")
	v.Close()
	v.Close()
	rt.Assert(v.TryConsume(10), "usable after Close")
	rt.Assert(!v.TryConsume(1), "usable after Close, still bounded")
}
