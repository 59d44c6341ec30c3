//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzCfgP05(k int) Options {
	o := Options{Stripes: 8}
	switch k {
	case 1:
		o.HierarchicalGroups = 2
	case 2:
		o.GroupCount = 4
	}
	return o
}

func zzInP05(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

// zzPreP05 brings v to an arbitrary non-oversubscribed state.
func zzPreP05(s int64, o Options) *VSA {
	v := NewWithOptions(s, o)
	v.Update(zzInP05("u", 0, 1<<50))
	v.Commit(zzInP05("k0", 0, 1<<50))
	v.Update(zzInP05("u2", -(1 << 50), 1<<50))
	_, net := v.State()
	rt.Assume(net >= 0 && v.Available() >= 0)
	return v
}

func zzSumP05(ok bool, n int64) int64 {
	if ok {
		return n
	}
	return 0
}

// Two concurrent consumers and a committer, any amounts: what was admitted never exceeds what was available.
// verif: sched
// bound: all interleavings of 3 threads (one operation each), arbitrary non-oversubscribed pre-state, amounts up to 2^50, 3 configurations
func VH_P05_consume2_commit() {
	s := zzInP05("scalar", 0, 1<<50)
	v := zzPreP05(s, zzCfgP05(rt.Choose("cfg", 3)))
	av := v.Available()
	a, b, k := zzInP05("a", -1, 1<<50), zzInP05("b", 1, 1<<50), zzInP05("k", -(1<<50), 1<<50)
	var ra, rb bool
	rt.Concurrent(func() {
		rt.Assert(zzSumP05(ra, a)+zzSumP05(rb, b) <= av, "admitted total never exceeds what was available")
		rt.Assert(v.Available() >= 0, "availability never becomes negative")
		rt.Assert(v.Available() == av-zzSumP05(ra, a)-zzSumP05(rb, b), "availability drops by exactly what was admitted")
	}, func() { ra = v.TryConsume(a) }, func() { rb = v.TryConsume(b) }, func() { v.Commit(k) })
}

// Three concurrent consumers compete for the last units.
// verif: sched
// bound: all interleavings of 3 consumers, amounts up to 2^50, 3 configurations
func VH_P05_consume3() {
	s := zzInP05("scalar", 0, 1<<50)
	v := zzPreP05(s, zzCfgP05(rt.Choose("cfg", 3)))
	av := v.Available()
	a, b, c := zzInP05("a", 1, 1<<50), zzInP05("b", 1, 1<<50), zzInP05("c", 1, 1<<50)
	var ra, rb, rc bool
	rt.Concurrent(func() {
		t := zzSumP05(ra, a) + zzSumP05(rb, b) + zzSumP05(rc, c)
		rt.Assert(t <= av, "admitted total never exceeds what was available")
		rt.Assert(v.Available() == av-t, "availability drops by exactly what was admitted")
		if a == 1 && b == 1 && c == 1 && av >= 1 {
			w := int64(3)
			if av < w {
				w = av
			}
			rt.Assert(t == w, "single units are given out to the last one")
		}
	}, func() { ra = v.TryConsume(a) }, func() { rb = v.TryConsume(b) }, func() { rc = v.TryConsume(c) })
}

// A consumer, a refund and a committer race.
// verif: sched
// bound: all interleavings of 3 threads, any amounts, 3 configurations
func VH_P05_consume_refund_commit() {
	s := zzInP05("scalar", 0, 1<<50)
	v := zzPreP05(s, zzCfgP05(rt.Choose("cfg", 3)))
	a, r, k := zzInP05("a", 1, 1<<50), zzInP05("r", 1, 1<<50), zzInP05("k", -(1<<50), 1<<50)
	var ra, rr bool
	rt.Concurrent(func() {
		rt.Assert(v.Available() >= 0, "availability never becomes negative")
		_, net := v.State()
		rt.Assert(net >= 0, "refunds never drive the net vector below zero")
		_, _ = ra, rr
	}, func() { ra = v.TryConsume(a) }, func() { rr = v.TryRefund(r) }, func() { v.Commit(k) })
}

// Two refunds and a consumer: refunds never give back more than was reserved.
// verif: sched
// bound: all interleavings of 3 threads, any amounts, 3 configurations
func VH_P05_refund2() {
	s := zzInP05("scalar", 0, 1<<50)
	v := zzPreP05(s, zzCfgP05(rt.Choose("cfg", 3)))
	a, r, q := zzInP05("a", 1, 1<<50), zzInP05("r", 1, 1<<50), zzInP05("q", 1, 1<<50)
	rt.Concurrent(func() {
		sc, net := v.State()
		rt.Assert(net >= 0, "refunds never drive the net vector below zero")
		rt.Assert(v.Available() <= sc, "refunds never raise availability above the scalar")
		rt.Assert(v.Available() >= 0, "availability never becomes negative")
	}, func() { v.TryConsume(a) }, func() { v.TryRefund(r) }, func() { v.TryRefund(q) })
}

// The lock-free fast path, with a guard at least as large as the amounts in flight.
// verif: sched
// bound: all interleavings of two consumers, optionally a third operation (commit, refund, consumer), in-flight total <= guard, 2 configurations
func VH_P05_fastpath() {
	s := zzInP05("scalar", 0, 1<<50)
	o := Options{Stripes: 8, FastPathGuard: zzInP05("guard", 1, 1<<50)}
	if rt.Choose("hier", 2) == 1 {
		o.HierarchicalGroups = 2
	}
	v := zzPreP05(s, o)
	av := v.Available()
	a, b, x := zzInP05("a", 1, 1<<40), zzInP05("b", 1, 1<<40), zzInP05("x", 1, 1<<40)
	rt.Assume(a+b+x <= o.FastPathGuard)
	third := rt.Choose("third", 3)
	var ra, rb, rx bool
	rt.Concurrent(func() {
		rt.Assert(v.Available() >= 0, "the fast path never oversubscribes within its guard")
		if third != 1 {
			rt.Assert(zzSumP05(ra, a)+zzSumP05(rb, b)+zzSumP05(rx, x) <= av, "admitted total never exceeds what was available")
		}
	}, func() { ra = v.TryConsume(a) }, func() { rb = v.TryConsume(b) }, func() {
		switch third {
		case 0:
			v.Commit(x)
		case 1:
			v.TryRefund(x)
		case 2:
			rx = v.TryConsume(x)
		}
	})
}

// Threads with two operations each.
// verif: sched tier=thorough
// bound: all interleavings of 3 threads with two operations each
func VH_P05_two_ops() {
	s := zzInP05("scalar", 0, 1<<50)
	v := zzPreP05(s, zzCfgP05(rt.Choose("cfg", 2)))
	a, b, c := zzInP05("a", 1, 1<<50), zzInP05("b", 1, 1<<50), zzInP05("c", 1, 1<<50)
	r, k := zzInP05("r", 1, 1<<50), zzInP05("k", 0, 1<<50)
	rt.Concurrent(func() {
		rt.Assert(v.Available() >= 0, "availability never becomes negative")
	}, func() { v.TryConsume(a); v.TryRefund(r) }, func() { v.TryConsume(b); v.TryConsume(c) }, func() { v.Commit(k); v.Commit(k) })
}

// Four fast-path consumers and a committer.
// verif: sched tier=thorough
// bound: all interleavings of 4 threads, in-flight total <= guard
func VH_P05_fastpath4() {
	s := zzInP05("scalar", 0, 1<<50)
	guard := zzInP05("guard", 1, 1<<50)
	v := zzPreP05(s, Options{Stripes: 8, FastPathGuard: guard})
	a, b, c, k := zzInP05("a", 1, 1<<40), zzInP05("b", 1, 1<<40), zzInP05("c", 1, 1<<40), zzInP05("k", 0, 1<<50)
	rt.Assume(a+b+c <= guard)
	rt.Concurrent(func() {
		rt.Assert(v.Available() >= 0, "the fast path never oversubscribes within its guard")
	}, func() { v.TryConsume(a) }, func() { v.TryConsume(b) }, func() { v.TryConsume(c) }, func() { v.Commit(k) })
}
