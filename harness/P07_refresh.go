//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzInP07r(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

// Once the refresher has ticked with nothing in flight, the cached gate sees the true net.
// verif: preempt=1 ticks=2
// bound: up to two ticks, net from an update and a commit, slack 0..2^40, request of any size; refresh scheduling symbolic
func VH_P07_refresh() {
	sl := zzInP07r("slack", 0, 1<<40)
	o := Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1, CacheSlack: sl}
	if rt.Choose("hier", 2) == 1 {
		o.HierarchicalGroups = 2
	}
	s := zzInP07r("scalar", 0, 1<<40)
	v := NewWithOptions(s, o)
	v.Update(zzInP07r("u", -(1 << 40), 1<<40))
	v.Commit(zzInP07r("k", 0, 1<<40))
	rt.Ticks(1)
	rt.Quiesce()
	av := v.Available()
	n := zzInP07r("n", 1, 1<<41)
	fresh := v.cachedAt.Load() != 0
	ok := v.TryConsume(n)
	if fresh {
		rt.Reach("fresh")
		rt.Assert(ok == (n <= av-sl), "with a fresh cache admission is exact up to the slack")
	}
	rt.Assert(!ok || n <= av, "never above what is available")
	v.Close()
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "Close stops the background goroutine")
}
