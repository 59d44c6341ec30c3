//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

func zzCfgP02(k int) Options {
	o := Options{Stripes: 8}
	switch k {
	case 1:
		o.CheapUpdateChooser = true
	case 2:
		o.HierarchicalGroups = 3
	case 3:
		o.FastPathGuard = 5
	case 4:
		o.GroupCount = 4
	case 5:
		o.PerPUpdateChooser = true
		o.HierarchicalGroups = 2
		o.FastPathGuard = 1
	}
	return o
}

func zzInP02(name string, b int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= -b && x <= b)
	return x
}

func zzAbsP02(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// Committing any amount leaves availability unchanged and moves exactly min(|k|,|net|) from the vector to the scalar.
// bound: scalar, two updates, one consume, two commits with amounts in +-2^60; 6 configurations
func VH_P02_invariance() {
	const B = 1 << 60
	s := zzInP02("scalar", B)
	v := NewWithOptions(s, zzCfgP02(rt.Choose("cfg", 6)))
	v.Update(zzInP02("a", B))
	v.TryConsume(zzInP02("n", B))
	v.Commit(zzInP02("k0", B))
	v.Update(zzInP02("b", B))
	s0, n0 := v.State()
	av0 := v.Available()
	k := rt.Int64("k")
	rt.Assume(k > -(1 << 62))
	v.Commit(k)
	s1, n1 := v.State()
	rt.Assert(v.Available() == av0, "Commit leaves availability unchanged")
	m := zzAbsP02(k)
	if m > zzAbsP02(n0) {
		m = zzAbsP02(n0)
	}
	rt.Assert(s1 == s0-m, "Commit lowers the scalar by the folded magnitude")
	rt.Assert(zzAbsP02(n1) == zzAbsP02(n0)-m, "Commit shrinks |net| by the folded magnitude")
	rt.Assert(n1 == 0 || (n1 > 0) == (n0 > 0), "Commit never flips the sign of the net vector")
}

// Committing the reported vector drains it, and committing again is a no-op.
// bound: any net in +-2^60 reached by two updates, any threshold
func VH_P02_drain() {
	const B = 1 << 60
	s := zzInP02("scalar", B)
	v := NewWithOptions(s, zzCfgP02(rt.Choose("cfg", 6)))
	v.Update(zzInP02("a", B))
	v.Update(zzInP02("b", B))
	av := v.Available()
	if ok, vec := v.CheckCommit(rt.Int64("th")); ok {
		v.Commit(vec)
		s1, n1 := v.State()
		rt.Assert(n1 == 0 && s1 == av, "committing the reported vector drains it into the scalar")
		v.Commit(vec)
		s2, n2 := v.State()
		rt.Assert(n2 == 0 && s2 == s1, "a repeated commit of the same vector is a no-op")
	}
	v.Commit(0)
	rt.Assert(v.Available() == av, "availability survives")
}

// Admission decisions do not depend on how much of the vector has been committed.
// bound: two instances with the same history, one committing arbitrary amounts in between
func VH_P02_transparent() {
	const B = 1 << 60
	s := zzInP02("scalar", B)
	o := zzCfgP02(rt.Choose("cfg", 6))
	v, w := NewWithOptions(s, o), NewWithOptions(s, o)
	a := zzInP02("a", B)
	rt.Assume(a >= 0)
	v.Update(a)
	w.Update(a)
	w.Commit(zzInP02("k", B))
	n := zzInP02("n", B)
	rt.Assume(n > 0)
	rv, rw := v.TryConsume(n), w.TryConsume(n)
	rt.Assert(rv == rw, "a commit does not change which requests are admitted")
	w.Commit(zzInP02("k2", B))
	m := zzInP02("m", B)
	rt.Assert(v.TryConsume(m) == w.TryConsume(m), "commits between requests do not change which are admitted")
	rt.Assert(v.Available() == w.Available(), "both instances agree on what is available")
}
