//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzCfgP03(k int) Options {
	o := Options{Stripes: 8}
	switch k {
	case 1:
		o.HierarchicalGroups = 3
	case 2:
		o.FastPathGuard = zzInP03("guard", 1<<61)
	case 3:
		o.GroupCount = 4
		o.GroupSlack = rt.Int64("gslack")
	case 4:
		o.FastPathGuard = zzInP03("guard", 1<<61)
		o.GroupCount = 3
		o.HierarchicalGroups = 8
		o.CheapUpdateChooser = true
	}
	return o
}

func zzInP03(name string, b int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= -b && x <= b)
	return x
}

// From any reachable state a request is admitted exactly when 0 < n <= Available.
// bound: pre-state from two updates, one consume and one commit in +-2^59, any int64 request, 5 configurations; 2 consecutive requests
func VH_P03_exact() {
	const B = 1 << 59
	s := zzInP03("scalar", B)
	v := NewWithOptions(s, zzCfgP03(rt.Choose("cfg", 5)))
	v.Update(zzInP03("a", B))
	v.TryConsume(zzInP03("c", B))
	v.Commit(zzInP03("k", B))
	v.Update(zzInP03("b", B))
	for i := 0; i < 2; i++ {
		av := v.Available()
		_, net := v.State()
		n := rt.Int64("n")
		ok := v.TryConsume(n)
		s1, net1 := v.State()
		rt.Assert(!ok || n > 0, "non-positive requests are never admitted")
		rt.Assert(!ok || n <= av, "a request above what is available is never admitted")
		rt.Assert(ok || n <= 0 || n > av, "a request within what is available is not denied")
		if ok {
			rt.Assert(net1 == net+n, "an admitted request reserves exactly n")
		} else {
			rt.Assert(net1 == net && v.Available() == av, "a denied request changes nothing")
		}
		_ = s1
	}
}

// With a capacity of S and nothing else happening, the admitted total never exceeds S and the last unit is still given out.
// bound: 3 requests (5 when thorough) of any size, capacity up to 2^59, 5 configurations
func VH_P03_total() {
	s := zzInP03("scalar", 1<<59)
	v := NewWithOptions(s, zzCfgP03(rt.Choose("cfg", 5)))
	var total int64
	k := 3
	if rt.Thorough() {
		k = 5
	}
	for i := 0; i < k; i++ {
		n := zzInP03("n", 1<<59)
		if v.TryConsume(n) {
			total += n
			rt.Assert(total <= s, "admitted total never exceeds the capacity")
		}
	}
	left := s - total
	if left > 0 && total >= 0 {
		rt.Assert(v.TryConsume(left), "the remaining capacity can be consumed to the last unit")
		rt.Assert(!v.TryConsume(1), "nothing is admitted beyond the capacity")
	}
}

// The cached gate may deny, but whatever its cache holds it never admits more than is available.
// bound: arbitrary cached value, slack in +-2^59 and interval 1s; 2 requests of any int64 size
func VH_P03_cached() {
	const B = 1 << 59
	s := zzInP03("scalar", B)
	o := Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1000000000, CacheSlack: zzInP03("slack", B)}
	if rt.Choose("hier", 2) == 1 {
		o.HierarchicalGroups = 3
	}
	v := NewWithOptions(s, o)
	v.Update(zzInP03("a", B))
	v.Commit(zzInP03("k", B))
	v.cachedNet.Store(zzInP03("cached", B))
	for i := 0; i < 2; i++ {
		av := v.Available()
		_, net := v.State()
		n := rt.Int64("n")
		ok := v.TryConsume(n)
		_, net1 := v.State()
		rt.Assert(!ok || (n > 0 && n <= av), "the cached gate never admits more than is available")
		if ok {
			rt.Assert(net1 == net+n, "an admitted request reserves exactly n")
		} else {
			rt.Assert(net1 == net, "a denied request changes nothing")
		}
	}
	v.Close()
}

// Once its cache is fresh, the cached gate denies only within its slack: up to there admission is exact.
// verif: preempt=1 ticks=2
// bound: up to two refresher ticks, net from an update and a commit, cache and group slack 0..2^40, request of any size; refresh scheduling symbolic
func VH_P03_margin() {
	in := func(name string, lo, hi int64) int64 {
		x := rt.Int64(name)
		rt.Assume(x >= lo && x <= hi)
		return x
	}
	sl := in("slack", 0, 1<<40)
	o := Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1, CacheSlack: sl}
	switch rt.Choose("cfg", 3) {
	case 1:
		o.HierarchicalGroups = 2
	case 2:
		o.GroupCount, o.GroupSlack = 4, in("gslack", 0, 1<<40)
		sl += o.GroupSlack
	}
	v := NewWithOptions(in("scalar", 0, 1<<40), o)
	v.Update(in("u", -(1 << 40), 1<<40))
	v.Commit(in("k", 0, 1<<40))
	rt.Ticks(1)
	rt.Quiesce()
	av := v.Available()
	_, net := v.State()
	n := in("n", 1, 1<<41)
	fresh := v.cachedAt.Load() != 0
	ok := v.TryConsume(n)
	_, net1 := v.State()
	if fresh {
		rt.Reach("fresh")
		rt.Assert(ok || n > av-sl, "with a fresh cache nothing is denied that is available beyond the slack")
		rt.Assert(!ok || n <= av-sl, "with a fresh cache nothing is admitted within the slack")
	}
	rt.Assert(!ok || n <= av, "never above what is available")
	rt.Assert(net1 == net || (ok && net1 == net+n), "an admitted request reserves exactly n, a denied one nothing")
	v.Close()
}
