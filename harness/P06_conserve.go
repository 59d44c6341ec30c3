//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzCfgP06(k int) Options {
	o := Options{Stripes: 8}
	switch k {
	case 1:
		o.HierarchicalGroups = 2
	case 2:
		o.CheapUpdateChooser = true
	case 3:
		o.FastPathGuard = 4
	case 4:
		o.PerPUpdateChooser = true
		o.HierarchicalGroups = 3
	}
	return o
}

func zzInP06(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzSumP06(ok bool, n int64) int64 {
	if ok {
		return n
	}
	return 0
}

// Concurrent updates are never lost or doubled.
// verif: sched
// bound: all interleavings of 3 updaters, any amounts, 5 configurations
func VH_P06_updates() {
	s := zzInP06("scalar", -(1 << 50), 1<<50)
	v := NewWithOptions(s, zzCfgP06(rt.Choose("cfg", 5)))
	a, b, c := zzInP06("a", -(1<<50), 1<<50), zzInP06("b", -(1<<50), 1<<50), zzInP06("c", -(1<<50), 1<<50)
	rt.Concurrent(func() {
		sc, net := v.State()
		rt.Assert(sc == s, "updates never touch the scalar")
		rt.Assert(net == a+b+c, "no concurrent update is lost or doubled")
	}, func() { v.Update(a) }, func() { v.Update(b) }, func() { v.Update(c) })
}

// Updates racing with a commit: every unit ends up either in the vector or in the scalar, once.
// verif: sched
// bound: all interleavings of two updaters and a committer, any amounts, pre-existing net, 5 configurations
func VH_P06_update_commit() {
	s := zzInP06("scalar", -(1 << 50), 1<<50)
	v := NewWithOptions(s, zzCfgP06(rt.Choose("cfg", 5)))
	u := zzInP06("u", -(1 << 50), 1<<50)
	v.Update(u)
	a, b, k := zzInP06("a", -(1<<50), 1<<50), zzInP06("b", -(1<<50), 1<<50), zzInP06("k", -(1<<50), 1<<50)
	rt.Concurrent(func() {
		sc, net := v.State()
		c := s - sc
		rt.Assert(c >= 0, "a commit never raises the scalar")
		rt.Assert(net+c == u+a+b || net-c == u+a+b, "every unit is in the vector or in the scalar, once")
		rt.Assert(c <= zzAbsP06(k), "no more than the requested magnitude is folded")
	}, func() { v.Update(a) }, func() { v.Update(b) }, func() { v.Commit(k) })
}

func zzAbsP06(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// Consumers, refunds, updates and commits together: the books balance.
// verif: sched
// bound: all interleavings of a consumer, a refund and one of {update, commit, commit+commit}, any amounts, 5 configurations
func VH_P06_mixed() {
	s := zzInP06("scalar", 0, 1<<50)
	v := NewWithOptions(s, zzCfgP06(rt.Choose("cfg", 5)))
	u := zzInP06("u", 0, 1<<50)
	v.Update(u)
	a, r, x := zzInP06("a", 1, 1<<50), zzInP06("r", 1, 1<<50), zzInP06("x", 0, 1<<50)
	third := rt.Choose("third", 3)
	var ra, rr bool
	rt.Concurrent(func() {
		sc, net := v.State()
		c := s - sc
		in := u + zzSumP06(ra, a)
		if third == 0 {
			in += x
		}
		back := in - c - net
		rt.Assert(c >= 0 && (third != 0 || c == 0), "only commits move the scalar")
		rt.Assert(back >= 0 && back <= zzSumP06(rr, r), "every unit is in the vector, in the scalar, or was refunded")
		rt.Assert(!rr || back > 0, "a reported refund gave something back")
	}, func() { ra = v.TryConsume(a) }, func() { rr = v.TryRefund(r) }, func() {
		switch third {
		case 0:
			v.Update(x)
		case 1:
			v.Commit(x)
		case 2:
			v.Commit(x)
			v.Commit(x)
		}
	})
}

// After concurrent activity the fast path still sees the true net: it admits nothing that is not available.
// verif: sched
// bound: all interleavings of two of {update, consume, refund} and a commit, then one request of any size
func VH_P06_fast_consistent() {
	s := zzInP06("scalar", 0, 1<<50)
	v := NewWithOptions(s, Options{Stripes: 8, FastPathGuard: zzInP06("guard", 1, 1<<50)})
	v.Update(zzInP06("u", 0, 1<<50))
	a, b, k := zzInP06("a", 0, 1<<50), zzInP06("b", 0, 1<<50), zzInP06("k", 0, 1<<50)
	pair := rt.Choose("pair", 3)
	n := zzInP06("n", 1, 1<<50)
	rt.Concurrent(func() {
		av := v.Available()
		ok := v.TryConsume(n)
		rt.Assert(ok == (n <= av), "after concurrent activity admission is exact again")
	}, func() {
		if pair == 2 {
			v.TryRefund(a)
		} else {
			v.Update(a)
		}
	}, func() {
		if pair == 0 {
			v.Update(-b)
		} else {
			v.TryRefund(b)
		}
	}, func() { v.Commit(k) })
}
