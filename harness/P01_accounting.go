//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

// zzCfg picks a configuration; the gating parameters that do not select code are symbolic.
func zzCfgP01(k int) Options {
	o := Options{Stripes: 8}
	switch k {
	case 0:
	case 1:
		o.CheapUpdateChooser = true
	case 2:
		o.PerPUpdateChooser = true
	case 3:
		o.HierarchicalGroups = 3
	case 4:
		o.FastPathGuard = zzRangeP01("guard", 1, 1<<50)
	case 5:
		o.GroupCount = 4
		o.GroupSlack = zzRangeP01("slack", 0, 1<<50)
	case 6:
		o.HierarchicalGroups = 8
		o.FastPathGuard = zzRangeP01("guard", 1, 1<<50)
		o.GroupCount = 3
	case 7:
		o.PerPUpdateChooser = true
		o.HierarchicalGroups = 2
		o.FastPathGuard = zzRangeP01("guard", 1, 1<<50)
	case 8:
		o.CheapUpdateChooser = true
		o.HierarchicalGroups = 4
		o.FastPathGuard = zzRangeP01("guard", 1, 1<<50)
		o.GroupCount = 2
	case 9:
		o.UseCachedGate = true
		o.CacheInterval = 1 << 60
		o.CacheSlack = zzRangeP01("slack", 0, 1<<50)
		o.HierarchicalGroups = 3
		o.FastPathGuard = zzRangeP01("guard", 1, 1<<50)
		o.PerPUpdateChooser = rt.Bool("perp")
	}
	return o
}

func zzRangeP01(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzAbsP01(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// zzStepP01 applies one arbitrary operation and checks its exact effect against the reference (s, net).
func zzStepP01(v *VSA, s, net int64, op int) (int64, int64) {
	const big = 1 << 50
	switch op {
	case 0:
		x := zzRangeP01("upd", -big, big)
		v.Update(x)
		net += x
	case 1:
		n := zzRangeP01("take", -big, big)
		if v.TryConsume(n) {
			rt.Assert(n > 0, "only positive amounts are admitted")
			net += n
		}
	case 2:
		n := zzRangeP01("give", -big, big)
		ok := v.TryRefund(n)
		rt.Assert(ok == (n > 0 && net > 0), "a refund is applied exactly when there is something to refund")
		if ok {
			if n > net {
				n = net
			}
			net -= n
		}
	case 3:
		k := zzRangeP01("commit", -big, big)
		v.Commit(k)
		m := zzAbsP01(k)
		if m > zzAbsP01(net) {
			m = zzAbsP01(net)
		}
		s -= m
		if net > 0 {
			net -= m
		} else {
			net += m
		}
	}
	gs, gn := v.State()
	rt.Assert(gs == s, "scalar changes only by the committed magnitude")
	rt.Assert(gn == net, "net vector equals the sum of all effects")
	rt.Assert(v.Available() == s-zzAbsP01(net), "Available is scalar minus |net|")
	return s, net
}

// Every operation has exactly its documented effect, for every configuration.
// bound: initial scalar in +-2^50, 2 operations (3 when thorough) of any kind with amounts in +-2^50, 10 configurations
func VH_P01_history() {
	s := zzRangeP01("scalar", -(1 << 50), 1<<50)
	v := NewWithOptions(s, zzCfgP01(rt.Choose("cfg", 10)))
	var net int64
	k := 2
	if rt.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		s, net = zzStepP01(v, s, net, rt.Choose("op", 4))
	}
}

// The effect of an operation from an arbitrary reachable state (any scalar, any net, spread over stripes and commit offset).
// bound: pre-state built by two updates, a consume and a commit with symbolic amounts; then one operation of any kind
func VH_P01_step() {
	s := zzRangeP01("scalar", -(1 << 50), 1<<50)
	v := NewWithOptions(s, zzCfgP01(rt.Choose("cfg", 7)))
	a := zzRangeP01("a", -(1 << 50), 1<<50)
	b := zzRangeP01("b", -(1 << 50), 1<<50)
	v.Update(a)
	v.Commit(zzRangeP01("c", -(1 << 50), 1<<50))
	v.Update(b)
	s, net := v.State()
	zzStepP01(v, s, net, rt.Choose("op", 4))
}

// CheckCommit reports a commit exactly when |net| reaches the threshold, with the net itself, and changes nothing.
// bound: one update of any int64 in +-2^50, any threshold
func VH_P01_checkcommit() {
	s := zzRangeP01("scalar", -(1 << 50), 1<<50)
	v := NewWithOptions(s, zzCfgP01(rt.Choose("cfg", 10)))
	x := zzRangeP01("x", -(1 << 50), 1<<50)
	y := zzRangeP01("y", -(1 << 50), 1<<50)
	v.Update(x)
	v.Update(y)
	th := rt.Int64("th")
	ok, vec := v.CheckCommit(th)
	rt.Assert(ok == (zzAbsP01(x+y) >= th), "CheckCommit compares |net| with the threshold")
	if ok {
		rt.Assert(vec == x+y, "CheckCommit returns the net vector")
	} else {
		rt.Assert(vec == 0, "CheckCommit returns 0 below the threshold")
	}
	gs, gn := v.State()
	rt.Assert(gs == s && gn == x+y, "CheckCommit changes nothing")
}
