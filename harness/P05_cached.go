//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzInP05c(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzSumP05c(ok bool, n int64) int64 {
	if ok {
		return n
	}
	return 0
}

// The cached gate, whatever its cache holds, under concurrency.
// verif: sched
// bound: all interleavings of two consumers and a committer; arbitrary cached value and slack; the refresher is replaced by the arbitrary cached value
func VH_P05_cached() {
	s := zzInP05c("scalar", 0, 1<<50)
	v := NewWithOptions(s, Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1000000000, CacheSlack: zzInP05c("slack", 0, 1<<50)})
	v.Close()
	rt.Quiesce()
	v.Update(zzInP05c("u", 0, 1<<50))
	rt.Assume(v.Available() >= 0)
	v.cachedNet.Store(zzInP05c("cached", -(1 << 50), 1<<50))
	av := v.Available()
	a, b, k := zzInP05c("a", 1, 1<<50), zzInP05c("b", 1, 1<<50), zzInP05c("k", -(1<<50), 1<<50)
	var ra, rb bool
	rt.Concurrent(func() {
		rt.Assert(zzSumP05c(ra, a)+zzSumP05c(rb, b) <= av, "the cached gate never oversubscribes")
		rt.Assert(v.Available() >= 0, "availability never becomes negative")
	}, func() { ra = v.TryConsume(a) }, func() { rb = v.TryConsume(b) }, func() { v.Commit(k) })
}
