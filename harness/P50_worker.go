//verif:pkg internal/ratelimiter/core
//verif:models prom promhttp

package core

import (
	"errors"
	"sync/atomic"
	"time"
	"vsa"
	"vsa/internal/ratelimiter/telemetry/churn"
	"vsa/internal/zzverif/rt"

	"github.com/prometheus/client_golang/prometheus"
)

// zzMetP50 reads a metric by its exported name; for a histogram, n is the number of observations.
func zzMetP50(name string) (v float64, n uint64) {
	mfs, err := prometheus.DefaultGatherer.Gather()
	rt.Assert(err == nil, "the metrics can be gathered")
	for _, mf := range mfs {
		if mf.GetName() != name {
			continue
		}
		m := mf.Metric[0]
		if m.Histogram != nil {
			return m.Histogram.GetSampleSum(), m.Histogram.GetSampleCount()
		}
		return m.Counter.GetValue(), 0
	}
	rt.Assert(false, "every documented metric is exported")
	return 0, 0
}

type zzSinkP50 struct {
	fail                bool
	rows, batches, errs int
}

func (p *zzSinkP50) CommitBatch(cs []Commit) error {
	if p.fail {
		p.errs++
		return errors.New("no")
	}
	p.rows += len(cs)
	p.batches++
	return nil
}
func (p *zzSinkP50) PrintFinalMetrics() {}

// Every row the worker persists, by whichever loop, and every failed attempt is counted.
// verif: ticks=1
// bound: 2 keys with any vector, one of them idle or fresh; a commit cycle, an eviction cycle and the final flush, the store failing or not at each
func VH_P50_rows() {
	const hour = int64(time.Hour)
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1})
	rows0, _ := zzMetP50("vsa_commits_rows_total")
	errs0, _ := zzMetP50("vsa_commit_errors_total")
	sum0, n0 := zzMetP50("vsa_rows_per_batch")
	st := NewStoreWithOptions(1000, vsa.Options{Stripes: 8})
	p := &zzSinkP50{}
	w := NewWorker(st, p, 10, 0, time.Hour, 0, time.Minute, time.Hour)
	t0 := rt.Now()
	use := func(key string) {
		x := rt.Int64("used")
		rt.Assume(x >= 0 && x <= 20)
		st.GetOrCreate(key).Update(x)
	}
	use("a")
	use("b")
	check := func() {
		rows, _ := zzMetP50("vsa_commits_rows_total")
		errs, _ := zzMetP50("vsa_commit_errors_total")
		sum, n := zzMetP50("vsa_rows_per_batch")
		rt.Assert(rows == rows0+float64(p.rows), "commits_rows_total is the number of rows written")
		rt.Assert(errs == errs0+float64(p.errs), "commit_errors_total is the number of failed attempts")
		rt.Assert(sum == sum0+float64(p.rows) && n == n0+uint64(p.batches), "rows_per_batch has one observation per batch written")
	}
	p.fail = rt.Bool("fail1")
	w.runCommitCycle()
	check()
	if rt.Bool("idle") {
		st.ForEach(func(k string, v *managedVSA) {
			if k == "a" {
				atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-hour)
			}
		})
	}
	p.fail = rt.Bool("fail2")
	w.runEvictionCycle()
	check()
	use("b")
	p.fail = rt.Bool("fail3")
	w.runFinalFlush()
	check()
	rt.Assume(!rt.Symbolic() || rt.Now()-t0 < int64(time.Second))
}

// What the worker persists, by whichever loop, enters the churn figure with its size.
// verif: ticks=0 preempt=0
// bound: 2 keys with 0, 5 or -12 units, a commit cycle, an eviction cycle and a final flush that succeed; one snapshot before and one after
func VH_P50_churned() {
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1, Window: time.Hour, TopN: 1, LogInterval: time.Second})
	snap := func() {
		if !rt.Symbolic() {
			time.Sleep(1500 * time.Millisecond)
			return
		}
		rt.Ticks(1)
		rt.Quiesce()
		rt.Ticks(0)
	}
	t0 := rt.Now()
	snap()
	st := NewStoreWithOptions(1000, vsa.Options{Stripes: 8})
	p := &zzSinkP50{}
	w := NewWorker(st, p, 10, 0, time.Hour, 0, time.Minute, time.Hour)
	churn.ObserveRequest("a", true)
	net := int64(0)
	for _, k := range []string{"a", "b"} {
		v := []int64{0, 5, -12}[rt.Choose("units", 3)]
		if v != 0 {
			st.GetOrCreate(k).Update(v)
		}
		net += max(v, -v)
	}
	w.runCommitCycle()
	if rt.Choose("idle", 2) == 1 {
		st.ForEach(func(k string, v *managedVSA) {
			atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-int64(time.Hour))
		})
		w.runEvictionCycle()
	}
	w.runFinalFlush()
	snap()
	rt.Assume(!rt.Symbolic() || rt.Now()-t0 < int64(time.Minute))
	mfs, err := prometheus.DefaultGatherer.Gather()
	rt.Assert(err == nil, "the metrics can be gathered")
	for _, mf := range mfs {
		if mf.GetName() == "vsa_churn_ratio" {
			rt.Assert(mf.Metric[0].Gauge.GetValue() == 1/float64(max(1, net)), "churn_ratio is updates/|committed| over the window, whichever loop commits")
		}
	}
	churn.Enable(churn.Config{})
}
