//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzCfgP04(k int) Options {
	o := Options{Stripes: 8}
	switch k {
	case 1:
		o.HierarchicalGroups = 3
	case 2:
		o.FastPathGuard = 3
	case 3:
		o.GroupCount = 4
	}
	return o
}

func zzInP04(name string, b int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= -b && x <= b)
	return x
}

// A refund gives back min(n, net) of a positive net vector, never drives it below zero, and otherwise does nothing.
// bound: pre-state from two updates and a commit in +-2^60, then 2 refunds of any int64 size
func VH_P04_clamp() {
	const B = 1 << 60
	s := zzInP04("scalar", B)
	v := NewWithOptions(s, zzCfgP04(rt.Choose("cfg", 4)))
	v.Update(zzInP04("a", B))
	v.Commit(zzInP04("k", B))
	v.Update(zzInP04("b", B))
	for i := 0; i < 2; i++ {
		s0, n0 := v.State()
		av0 := v.Available()
		n := rt.Int64("n")
		ok := v.TryRefund(n)
		s1, n1 := v.State()
		rt.Assert(s1 == s0, "a refund never touches the scalar")
		rt.Assert(ok == (n > 0 && n0 > 0), "a refund is reported exactly when something was given back")
		if ok {
			want := n
			if want > n0 {
				want = n0
			}
			rt.Assert(n1 == n0-want && n1 >= 0, "a refund gives back min(n, net) and never overshoots zero")
			rt.Assert(v.Available() == av0+want, "a refund raises availability by what it gave back")
		} else {
			rt.Assert(n1 == n0, "a refused refund changes nothing")
		}
	}
}

// consume then refund of the same amount restores the state; refunds can never mint capacity beyond the scalar.
// bound: one consume, one commit, two refunds, one consume; amounts in +-2^60
func VH_P04_nomint() {
	const B = 1 << 60
	s := zzInP04("scalar", B)
	v := NewWithOptions(s, zzCfgP04(rt.Choose("cfg", 4)))
	n := zzInP04("n", B)
	if !v.TryConsume(n) {
		return
	}
	switch rt.Choose("mid", 3) {
	case 0:
		rt.Assert(v.TryRefund(n), "a consumed amount can be refunded")
		sc, net := v.State()
		rt.Assert(sc == s && net == 0, "consume then refund restores the state")
	case 1:
		v.Commit(zzInP04("k", B))
		before, _ := v.State()
		v.TryRefund(zzInP04("r", B))
		v.TryRefund(zzInP04("r2", B))
		after, net := v.State()
		rt.Assert(before == after && net >= 0, "committed units cannot be refunded")
		rt.Assert(v.Available() <= after, "refunds never raise availability above the scalar")
	case 2:
		v.TryRefund(zzInP04("r", B))
		v.TryRefund(zzInP04("r2", B))
		rt.Assert(v.Available() <= s, "refunds never raise availability above the scalar")
		m := zzInP04("m", B)
		if v.TryConsume(m) {
			rt.Assert(v.Available() >= 0 && v.Available() <= s, "availability stays within [0, scalar]")
		}
	}
}
