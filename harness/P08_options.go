//verif:pkg .

package vsa

import "vsa/internal/zzverif/rt"

// Any option values give a working instance: no operation panics and the accounting is right.
// verif: fanout=400 concidx=1
// bound: every int value of Stripes, GroupCount, GroupSlack, FastPathGuard (up to 2^61), CacheSlack; GOMAXPROCS 1..256
func VH_P08_any() {
	o := Options{
		Stripes:       rt.Int("stripes"),
		GroupCount:    rt.Int("groups"),
		GroupSlack:    rt.Int64("gslack"),
		FastPathGuard: rt.Int64("guard"),
		CacheSlack:    rt.Int64("cslack"),
	}
	rt.Assume(o.FastPathGuard <= 1<<61)
	zzUseP08(o)
}

// Every stripe chooser stays in range and counts each update once, for every stripe count.
// verif: fanout=400 concidx=1
// bound: every int value of Stripes; all chooser combinations; one update of any size
func VH_P08_choosers() {
	o := Options{Stripes: rt.Int("stripes"), CheapUpdateChooser: rt.Bool("cheap"), PerPUpdateChooser: rt.Bool("perp")}
	if rt.Choose("hier", 2) == 1 {
		o.HierarchicalGroups = 5
	}
	v := NewWithOptions(0, o)
	x := rt.Int64("x")
	rt.Assume(x >= -(1<<52) && x <= 1<<52)
	v.Update(x)
	_, net := v.State()
	rt.Assert(net == x, "an update is counted once whatever the chooser")
}

// Hierarchical aggregation with any number of groups.
// verif: fanout=400 concidx=1
// bound: every HierarchicalGroups value, stripes 8 (8..64 when thorough), symbolic stripe choice
func VH_P08_hier() {
	st := 8
	if rt.Thorough() {
		st = 8 << rt.Choose("st", 4)
	}
	o := Options{Stripes: st, HierarchicalGroups: rt.Int("h"), CheapUpdateChooser: true}
	if rt.Choose("chooser", 2) == 1 {
		o.CheapUpdateChooser, o.PerPUpdateChooser = false, true
	}
	zzUseP08(o)
}

// Grouped scans with any group count.
// verif: fanout=400 concidx=1
// bound: every GroupCount value, stripes 8, 3 consecutive requests
func VH_P08_groups() {
	o := Options{Stripes: 8, GroupCount: rt.Int("groups"), GroupSlack: rt.Int64("gslack")}
	v := NewWithOptions(10, o)
	for i := 0; i < 9; i++ {
		rt.Assert(v.TryConsume(1), "capacity is handed out whatever the options")
	}
	rt.Assert(!v.TryConsume(2), "and never exceeded")
	rt.Assert(v.TryConsume(1), "down to the last unit")
	rt.Assert(!v.TryConsume(1), "and never exceeded afterwards")
}

// The instance configured with a cached gate and any interval and slack.
// verif: ticks=0
// bound: every interval and slack value
func VH_P08_cached() {
	o := Options{Stripes: 8, UseCachedGate: true, CacheSlack: rt.Int64("cslack")}
	if rt.Choose("iv", 2) == 1 {
		o.CacheInterval = -5
	}
	rt.Assume(o.CacheSlack <= 1<<61 && o.CacheSlack >= -(1<<61))
	if rt.Choose("groups", 2) == 1 {
		o.GroupCount = 3
		o.GroupSlack = 1
	}
	zzUseP08(o)
}

func zzUseP08(o Options) {
	s := rt.Int64("scalar")
	rt.Assume(s >= -(1<<60) && s <= 1<<60)
	v := NewWithOptions(s, o)
	x := rt.Int64("x")
	rt.Assume(x >= -(1<<52) && x <= 1<<52)
	v.Update(x)
	if !o.CheapUpdateChooser && !o.PerPUpdateChooser {
		v.Update(-x)
		v.Update(x)
	}
	sc, net := v.State()
	rt.Assert(sc == s && net == x, "updates are counted whatever the options")
	av := v.Available()
	n := rt.Int64("n")
	ok := v.TryConsume(n)
	rt.Assert(!ok || (n > 0 && n <= av), "no option admits more than is available")
	if o.UseCachedGate == false {
		rt.Assert(ok || n <= 0 || n > av, "no option denies what is available")
	}
	v.TryRefund(n)
	v.Commit(1)
	v.CheckCommit(5)
	rt.Assert(v.Available() <= s, "availability never exceeds the scalar")
	v.Close()
}
