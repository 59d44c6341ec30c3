//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import "vsa/internal/zzverif/rt"

func zzSumP16(xs ...int64) (s int64) {
	for _, x := range xs {
		if x > 0 {
			s += x
		}
	}
	return
}

// The process totals are the exact sums of the positive amounts recorded, each kind for itself.
// bound: 4 records of any kind with any amount in +-2^59
func VH_P16_sums() {
	var want [3]int64
	a0, b0, c0 := getEventTotals()
	for i := 0; i < 4; i++ {
		n := rt.Int64("n")
		rt.Assume(n >= -(1<<59) && n <= 1<<59)
		k := rt.Choose("kind", 3)
		switch k {
		case 0:
			RecordAttempt(n)
		case 1:
			RecordAdmit(n)
		case 2:
			RecordRefund(n)
		}
		want[k] += zzSumP16(n)
	}
	a, b, c := getEventTotals()
	rt.Assert(a-a0 == want[0], "attempts are summed exactly")
	rt.Assert(b-b0 == want[1], "admits are summed exactly")
	rt.Assert(c-c0 == want[2], "refunds are summed exactly")
}

// Concurrent recording loses and duplicates nothing.
// bound: 3 concurrent recorders of one kind each with any amount in +-2^59
func VH_P16_concurrent() {
	var k [3]int
	var n, want [3]int64
	for i := range n {
		n[i] = rt.Int64("n")
		rt.Assume(n[i] >= -(1<<59) && n[i] <= 1<<59)
		k[i] = rt.Choose("kind", 3)
		want[k[i]] += zzSumP16(n[i])
	}
	a0, b0, c0 := getEventTotals()
	rec := func(i int) {
		switch k[i] {
		case 0:
			RecordAttempt(n[i])
		case 1:
			RecordAdmit(n[i])
		case 2:
			RecordRefund(n[i])
		}
	}
	rt.Concurrent(func() {
		a, b, c := getEventTotals()
		rt.Assert(a-a0 == want[0] && b-b0 == want[1] && c-c0 == want[2], "concurrent records are all counted once")
	}, func() { rec(0) }, func() { rec(1) }, func() { rec(2) })
}

// The captured thresholds are the last values set, and a snapshot is independent of later changes.
// verif: preempt=2 ticks=0
// bound: two names (equal or not) set concurrently and one set afterwards; values of one arbitrary byte
func VH_P16_thresholds() {
	v1, v2, v3 := rt.String("v1", 1), rt.String("v2", 1), rt.String("v3", 1)
	same := rt.Bool("same")
	n2 := "zz-b"
	if same {
		n2 = "zz-a"
	}
	rt.Par(func() { SetThreshold("zz-a", v1) }, func() { SetThreshold(n2, v2) })
	s := getThresholdSnapshot()
	if same {
		rt.Assert(s["zz-a"] == v1 || s["zz-a"] == v2, "a threshold holds a value that was set")
	} else {
		rt.Assert(s["zz-a"] == v1 && s["zz-b"] == v2, "each threshold holds its own value")
	}
	old := s["zz-a"]
	SetThreshold("zz-a", v3)
	rt.Assert(s["zz-a"] == old, "a snapshot does not change afterwards")
	rt.Assert(getThresholdSnapshot()["zz-a"] == v3, "a snapshot shows the latest value")
}
