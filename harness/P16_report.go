//verif:pkg internal/ratelimiter/core
//verif:models prom os

package core

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"vsa/internal/zzverif/rt"
)

// zzOutP16 collects what is printed until the returned function is called.
func zzOutP16() func() string {
	out := "/zz/out"
	if !rt.Symbolic() {
		d, err := os.MkdirTemp("", "zzverif")
		rt.Assume(err == nil)
		out = filepath.Join(d, "out")
	}
	f, err := os.Create(out)
	rt.Assume(err == nil)
	old := os.Stdout
	os.Stdout = f
	return func() string {
		os.Stdout = old
		f.Close()
		g, err := os.Open(out)
		rt.Assume(err == nil)
		b, _ := io.ReadAll(g)
		g.Close()
		if !rt.Symbolic() {
			os.RemoveAll(filepath.Dir(out))
		}
		return string(b)
	}
}

// zzLineP16 is what the report says behind a label.
func zzLineP16(out, label string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, label+" ") {
			return strings.TrimSpace(l[len(label):])
		}
	}
	return "missing"
}

var zzNumsP16 = [...]string{"0", "1", "2", "3", "4", "5", "6"}

// The final report gives the process totals, the rows and batches the demo adapter took and the fraction of writes avoided.
// verif: preempt=0 ticks=0
// bound: 0-3 admits of 0-1 more attempts, 0-2 refunds, 2 batches of 0-2 rows, with one configured value or none
func VH_P16_report() {
	resetEventTotals()
	resetThresholdsForTests()
	p := NewMockPersister()
	done := zzOutP16()
	admits, denied, refunds := rt.Choose("admits", 4), rt.Choose("denied", 2), rt.Choose("refunds", 3)
	RecordAttempt(int64(admits + denied))
	RecordAdmit(int64(admits))
	for i := 0; i < refunds; i++ {
		RecordRefund(1)
	}
	rows, batches := 0, 0
	for i := 0; i < 2; i++ {
		n := rt.Choose("rows", 3)
		cs := []Commit{{Key: "a", Vector: 2}, {Key: "b", Vector: -1}}[:n]
		rt.Assert(p.CommitBatch(cs) == nil, "the demo adapter takes every batch")
		rows += n
		if n > 0 {
			batches++
		}
	}
	if rt.Choose("threshold", 2) == 1 {
		SetThresholdInt64("zz_limit", 5)
	}
	p.PrintFinalMetrics()
	out := done()
	rt.Assert(zzLineP16(out, "Attempted") == zzNumsP16[admits+denied], "the report gives the attempts")
	rt.Assert(zzLineP16(out, "Admits") == zzNumsP16[admits], "the report gives the admitted requests")
	rt.Assert(zzLineP16(out, "Refunds") == zzNumsP16[refunds], "the report gives the refunds")
	rt.Assert(zzLineP16(out, "Writes") == zzNumsP16[rows], "the report gives the rows written")
	rt.Assert(zzLineP16(out, "Batches") == zzNumsP16[batches], "the report gives the batches written")
	want := "n/a"
	if ev := admits + refunds; ev > 0 {
		tenths := 1000 * max(0, ev-rows) / ev // ev <= 5, so only 1/3 and 2/3 need rounding
		if ev == 3 && max(0, ev-rows) == 2 {
			tenths++
		}
		want = zzDecP16(tenths/10) + "." + zzDecP16(tenths%10) + "%"
	}
	rt.Assert(zzLineP16(out, "Write reduction") == want, "the report gives the fraction of writes avoided")
	th, _ := getThresholdSnapshot()["zz_limit"]
	rt.Assert(zzLineP16(out, "zz_limit") == map[string]string{"5": "5", "": "missing"}[th], "the report lists the configured values")
}

func zzDecP16(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return zzDecP16(n/10) + zzDecP16(n%10)
}

// Batches taken concurrently are all in the report.
// verif: preempt=1 ticks=0
// bound: 2 concurrent batches of 1-2 rows, at most 1 preemption, data races reported
func VH_P16_report_race() {
	resetEventTotals()
	resetThresholdsForTests()
	p := NewMockPersister()
	done := zzOutP16()
	n := [2]int{1 + rt.Choose("rows", 2), 1 + rt.Choose("rows", 2)}
	var err [2]error
	rt.Races(true)
	put := func(i int) func() {
		return func() { err[i] = p.CommitBatch([]Commit{{Key: "a", Vector: 2}, {Key: "b", Vector: -1}}[:n[i]]) }
	}
	rt.Par(put(0), put(1))
	rt.Races(false)
	rt.Assert(errors.Join(err[0], err[1]) == nil, "the demo adapter takes every batch")
	p.PrintFinalMetrics()
	out := done()
	rt.Assert(zzLineP16(out, "Writes") == zzNumsP16[n[0]+n[1]], "the report gives the rows of concurrent batches")
	rt.Assert(zzLineP16(out, "Batches") == "2", "the report gives concurrent batches")
}
