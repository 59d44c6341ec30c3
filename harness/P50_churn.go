//verif:pkg internal/ratelimiter/telemetry/churn
//verif:models prom promhttp os

package churn

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"
	"vsa/internal/zzverif/rt"

	"github.com/prometheus/client_golang/prometheus"
)

// zzMetP50 reads a metric by its exported name; for a histogram, n is the number of observations.
func zzMetP50(name string) (v float64, n uint64) {
	mfs, err := prometheus.DefaultGatherer.Gather()
	rt.Assert(err == nil, "the metrics can be gathered")
	for _, mf := range mfs {
		if mf.GetName() != name {
			continue
		}
		m := mf.Metric[0]
		switch {
		case m.Counter != nil:
			return m.Counter.GetValue(), 0
		case m.Gauge != nil:
			return m.Gauge.GetValue(), 0
		case m.Histogram != nil:
			return m.Histogram.GetSampleSum(), m.Histogram.GetSampleCount()
		}
	}
	rt.Assert(false, "every documented metric is exported")
	return 0, 0
}

type zzCountsP50 struct {
	naive, rows, errs, rowSum float64
	batches                   uint64
}

func zzReadP50() (c zzCountsP50) {
	c.naive, _ = zzMetP50("vsa_naive_writes_total")
	c.rows, _ = zzMetP50("vsa_commits_rows_total")
	c.errs, _ = zzMetP50("vsa_commit_errors_total")
	c.rowSum, c.batches = zzMetP50("vsa_rows_per_batch")
	return
}

// zzOutP50 sends standard output to a file until the returned function is called, which gives what was printed.
func zzOutP50() func() string {
	out := "out"
	if !rt.Symbolic() {
		dir, err := os.MkdirTemp("", "zzp50")
		rt.Assume(err == nil)
		out = filepath.Join(dir, "out")
	}
	f, err := os.Create(out)
	rt.Assume(err == nil)
	old := os.Stdout
	os.Stdout = f
	return func() string {
		os.Stdout = old
		f.Close()
		g, err := os.Open(out)
		rt.Assume(err == nil)
		b, _ := io.ReadAll(g)
		g.Close()
		if !rt.Symbolic() {
			os.RemoveAll(filepath.Dir(out))
		}
		return string(b)
	}
}

func zzOnP50(rate float64) {
	Enable(Config{Enabled: true, SampleRate: rate, Window: 200 * time.Millisecond, TopN: 2})
}

func zzTrackedP50() float64 {
	done := zzOutP50()
	publishSnapshot()
	done()
	v, _ := zzMetP50("vsa_keys_tracked")
	return v
}

// Disabled telemetry records nothing, whatever it is told.
// bound: 2 calls of any kind, sizes -1..2, any 2-byte key, any vector; never enabled or enabled and then disabled
func VH_P50_off() {
	if rt.Bool("was_on") {
		zzOnP50(1)
	}
	Enable(Config{SampleRate: 1})
	rt.Assert(!Enabled(), "the module says it is off")
	c := zzReadP50()
	key := rt.String("key", 2)
	for i := 0; i < 2; i++ {
		n := rt.Choose("n", 4) - 1
		switch rt.Choose("call", 4) {
		case 0:
			ObserveRequest(key, rt.Bool("admitted"))
		case 1:
			ObserveBatch(n)
		case 2:
			ObserveCommit(key, rt.Int64("v"))
		default:
			ObserveCommitError(n)
		}
	}
	rt.Assert(zzReadP50() == c, "nothing is counted while disabled")
	rt.Assert(zzTrackedP50() == 0, "no key is tracked while disabled")
}

// Enabled telemetry counts each admit, batch, row and failure exactly once.
// bound: 3 calls of any kind (thorough: 4), sizes -1..3, keys of 0..1 bytes; rates 0, 0.5 and 1
func VH_P50_counts() {
	zzOnP50([]float64{0, 0.5, 1}[rt.Choose("rate", 3)])
	rt.Assert(Enabled(), "the module says it is on")
	c := zzReadP50()
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rt.Clock(1_700_000_000_000_000_000)
	key := rt.String("key", rt.Choose("len", 2))
	for i := 0; i < n; i++ {
		switch rt.Choose("call", 5) {
		case 0:
			ObserveRequest(key, true)
			c.naive++
		case 1:
			ObserveRequest(key, false)
		case 2:
			k := rt.Choose("k", 5) - 1
			ObserveBatch(k)
			if k > 0 {
				c.rows += float64(k)
				c.rowSum += float64(k)
				c.batches++
			}
		case 3:
			ObserveCommit(key, 2)
		default:
			k := rt.Choose("k", 5) - 1
			ObserveCommitError(k)
			if k > 0 {
				c.errs += float64(k)
			}
		}
	}
	g := zzReadP50()
	rt.Assert(g.naive == c.naive, "each admitted request is one naive write and a rejection none")
	rt.Assert(g.rows == c.rows && g.rowSum == c.rowSum && g.batches == c.batches, "each batch counts its rows once")
	rt.Assert(g.errs == c.errs, "each failed commit is counted once")
}

func zzFnvP50(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Which keys are sampled depends on the key and the rate alone, in proportion to the rate, and nests.
// bound: every key of 1..4 bytes; rates below 0, 0, tiny, 1/4, 1/2, near 1, 1 and above 1
func VH_P50_sample() {
	rates := []float64{-1, 0, 0.0000152587890625, 0.25, 0.5, 0.9990234375, 1, 7}
	cuts := []uint64{0, 0, 1 << 48, 1 << 62, 1 << 63, 1<<64 - 1<<54, 0, 0}
	rt.Clock(1_700_000_000_000_000_000)
	i := rt.Choose("rate", len(rates))
	key := rt.String("key", 1+rt.Choose("len", 4))
	zzOnP50(rates[i])
	in := sampled(key)
	switch {
	case i <= 1:
		rt.Assert(!in, "rate 0 samples no key")
	case i >= 6:
		rt.Assert(in, "rate 1 samples every key")
	default:
		rt.Assert(in == (zzFnvP50(key) < cuts[i]), "a key is sampled exactly when its hash is in the rate's share")
	}
	rt.Assert(sampled(key) == in, "sampling a key is deterministic")
	c := zzReadP50()
	ObserveRequest(key, true)
	rt.Assert(zzReadP50().naive == c.naive+1, "the naive baseline does not depend on sampling")
	ObserveCommit(key, 5)
	want := 0.0
	if in {
		want = 1
	}
	rt.Assert(zzTrackedP50() == want, "exactly the sampled keys are tracked")
	j := rt.Choose("other", len(rates))
	zzOnP50(rates[j])
	rt.Assert(sampled(key) == in || sampled(key) == (j > i), "a key sampled at one rate is sampled at every higher rate")
}

type zzPointP50 struct {
	at                    int64
	naive, rows, abs, net int64
}

// The gauges give the changes over the window: fraction of writes avoided and churn.
// verif: ticks=0
// bound: 3 snapshots with any time (0..0.5 s) between them, one of 4 mixes (thorough: 6) of 0..3 admits, a batch of 0..2 and a commit of -2..3 before each
func VH_P50_window() {
	zzOnP50(1)
	const win = int64(200 * time.Millisecond)
	var now, tot = int64(0), zzPointP50{}
	var pts []zzPointP50
	rt.Advance(0)
	n := 4
	if rt.Thorough() {
		n = 6
	}
	for s := 0; s < 3; s++ {
		k := rt.Choose("mix", n)
		a, b, v := []int{0, 2, 1, 0, 1, 3}[k], []int{0, 1, 0, 2, 1, 0}[k], []int64{0, -2, 0, 3, 1, 2}[k]
		for i := 0; i < a; i++ {
			ObserveRequest("k", true)
		}
		ObserveBatch(b)
		ObserveCommit("k", v)
		tot.naive += int64(a)
		tot.abs += int64(a)
		tot.rows += int64(b)
		tot.net += max(v, -v)
		if s > 0 {
			d := rt.Int64("gap")
			rt.Assume(d >= 0 && d <= 5*win/2)
			rt.Advance(d)
			now += d
		}
		tot.at = now
		pts = append(pts, tot)
		zzTrackedP50()
		old := 0
		for pts[old].at < now-win {
			old++
		}
		o := pts[old]
		pts = pts[old:]
		wr, _ := zzMetP50("vsa_write_reduction_ratio")
		rt.Assert(wr == 1-float64(tot.rows-o.rows)/float64(max(1, tot.naive-o.naive)), "write_reduction_ratio is 1 - rows/admits over the window")
		cr, _ := zzMetP50("vsa_churn_ratio")
		rt.Assert(cr == float64(tot.abs-o.abs)/float64(max(1, tot.net-o.net)), "churn_ratio is updates/|committed| over the window")
	}
}

// A key is tracked until it has been idle for more than twice the window.
// verif: ticks=0
// bound: 2 keys, each touched by a request or a commit at any time, then two snapshots at any later times
func VH_P50_idle() {
	zzOnP50(1)
	const win = int64(200 * time.Millisecond)
	rt.Advance(0)
	var now int64
	var at [2]int64
	var has [2]bool
	gap := func(name string) {
		d := rt.Int64(name)
		rt.Assume(d >= 0 && d <= 4*win)
		rt.Advance(d)
		now += d
	}
	touch := func(i int) {
		if rt.Bool("commit") {
			ObserveCommit([]string{"a", "b"}[i], -3)
		} else {
			ObserveRequest([]string{"a", "b"}[i], true)
		}
		at[i], has[i] = now, true
	}
	check := func() {
		want := 0.0
		for i := range at {
			if has[i] && now-at[i] > 2*win {
				has[i] = false
			}
			if has[i] {
				want++
			}
		}
		rt.Assert(zzTrackedP50() == want, "a key is dropped exactly when idle for more than twice the window")
	}
	touch(0)
	gap("g1")
	touch(1)
	if rt.Bool("again") {
		touch(0)
	}
	gap("g2")
	check()
	gap("g3")
	check()
	touch(0)
	check()
}

// The periodic line names a key with the highest churn and its own figures.
// verif: ticks=0
// bound: 0-2 admits and 0-2 commits of -2 to 2 for each of 2 keys, colours and live rendering off
func VH_P50_top() {
	os.Setenv("VSA_CHURN_LIVE", "0")
	os.Setenv("NO_COLOR", "1")
	rt.Advance(0)
	zzOnP50(1)
	var abs, net [2]int64
	keys := [2]string{"ka", "kb"}
	for i := range keys {
		for n := rt.Choose("admits", 3); n > 0; n-- {
			ObserveRequest(keys[i], true)
			abs[i]++
		}
		for n := rt.Choose("commits", 3); n > 0; n-- {
			v := []int64{-2, 1, 2}[rt.Choose("v", 3)]
			ObserveCommit(keys[i], v)
			net[i] += max(v, -v)
		}
	}
	done := zzOutP50()
	publishSnapshot()
	out := done()
	at := strings.Index(out, "top key")
	rt.Assert(at >= 0, "the line names a top key")
	out = out[at:]
	if abs[0]+abs[1]+net[0]+net[1] == 0 {
		rt.Assert(strings.Contains(out, "(none yet)"), "without traffic there is no top key")
		return
	}
	ok := false
	for i := range keys {
		o := 1 - i
		// churn is abs/max(1,net)
		mine, other := abs[i]*max(1, net[o]), abs[o]*max(1, net[i])
		seen := abs[i]+net[i] > 0
		if seen && (mine >= other || abs[o]+net[o] == 0) {
			ok = ok || strings.Contains(out, fmt.Sprintf("abs=%d net=%d", abs[i], net[i]))
		}
	}
	rt.Assert(ok, "the line gives the admits and the committed amount of a key with the highest churn")
}

// Concurrent first observers of a key are all part of its figures.
// verif: ticks=0 preempt=-1
// bound: 2 observers of one new key (a request or a commit each), every interleaving
func VH_P50_top_race() {
	os.Setenv("VSA_CHURN_LIVE", "0")
	os.Setenv("NO_COLOR", "1")
	rt.Clock(1_700_000_000_000_000_000)
	zzOnP50(1)
	var abs, net int
	op := func(name string) func() {
		if rt.Choose(name, 2) == 0 {
			abs++
			return func() { ObserveRequest("k", true) }
		}
		net += 2
		return func() { ObserveCommit("k", -2) }
	}
	rt.Par(op("a"), op("b"))
	done := zzOutP50()
	publishSnapshot()
	rt.Assert(strings.Contains(done(), fmt.Sprintf("abs=%d net=%d", abs, net)), "the key's figures count every observer")
}

// Concurrent observers race with nothing and lose nothing.
// verif: ticks=0 preempt=-1
// bound: 2 observers of one new key (a request, a batch, a commit or an error each), every interleaving
func VH_P50_race() { zzRaceP50(func() {}) }

// Observers may overlap a snapshot.
// verif: ticks=0 preempt=1
// bound: 2 observers of one new key and a snapshot, at most 1 preemption
func VH_P50_race_snap() { zzRaceP50(publishSnapshot) }

func zzRaceP50(snap func()) {
	rt.Races(true)
	rt.Clock(1_700_000_000_000_000_000)
	zzOnP50(1)
	c := zzReadP50()
	done := zzOutP50()
	publishSnapshot()
	k := [2]int{rt.Choose("k0", 3), rt.Choose("k1", 3)}
	op := func(i int) func() {
		return func() {
			switch k[i] {
			case 0:
				ObserveRequest("new", true)
			case 1:
				ObserveBatch(2)
				ObserveCommit("new", 3)
			default:
				ObserveCommitError(1)
			}
		}
	}
	rt.Par(op(0), op(1), snap)
	var abs, net float64
	for _, x := range k {
		switch x {
		case 0:
			c.naive++
			abs++
		case 1:
			c.rows += 2
			c.rowSum += 2
			c.batches++
			net += 3
		default:
			c.errs++
		}
	}
	rt.Assert(zzReadP50() == c, "concurrent observations are each counted once")
	publishSnapshot()
	done()
	wr, _ := zzMetP50("vsa_write_reduction_ratio")
	rt.Assert(wr == 1-(2*net/3)/max(1, abs), "a snapshot after concurrent observations includes them all")
	cr, _ := zzMetP50("vsa_churn_ratio")
	rt.Assert(cr == abs/max(1, net), "a snapshot after concurrent observations includes their vectors")
	n := 0.0
	if abs+net > 0 {
		n = 1
	}
	kt, _ := zzMetP50("vsa_keys_tracked")
	rt.Assert(kt == n, "one key is tracked once")
}

// Reconfiguring, also concurrently, leaves at most one reporting loop and disabling leaves none.
// verif: ticks=1 preempt=1
// bound: two Enables at once (each on with a loop, on without, or off), an observer, then a disable; at most 1 preemption and 1 tick
func VH_P50_loop() {
	rt.Clock(1_700_000_000_000_000_000)
	done := zzOutP50()
	base := rt.Live()
	cfg := func(k int) Config {
		return Config{Enabled: k < 2, SampleRate: 1, LogInterval: time.Duration(1-k%2) * 10 * time.Millisecond}
	}
	Enable(cfg(rt.Choose("c0", 2)))
	rt.MustTerminate(200000, "reconfiguring returns")
	a, b := cfg(rt.Choose("c1", 3)), cfg(rt.Choose("c2", 3))
	rt.Par(func() { Enable(a) }, func() { Enable(b) })
	ObserveRequest("k", true)
	if rt.Symbolic() {
		rt.Assert(rt.Live()-base <= 1, "at most one reporting loop runs")
	}
	Enable(Config{})
	rt.EndTerminate()
	if rt.Symbolic() {
		rt.Quiesce()
		rt.Assert(rt.Live() == base, "disabling stops the reporting loop")
	}
	done()
	rt.Assert(!Enabled(), "the last configuration is the one in force")
}

// zzScreenP50 is what a terminal line shows after the bytes are printed, trailing blanks aside.
func zzScreenP50(s string) string {
	var line []byte
	col := 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\r':
			col = 0
		case s[i] == 0x1b:
			for i++; i < len(s) && s[i] != 'm'; i++ {
			}
		default:
			if col == len(line) {
				line = append(line, ' ')
			}
			line[col] = s[i]
			col++
		}
	}
	for len(line) > 0 && line[len(line)-1] == ' ' {
		line = line[:len(line)-1]
	}
	return string(line)
}

// A line rewritten in place leaves nothing of the one before it on the screen.
// bound: 3 lines of 0..3 coloured or plain bytes each, with or without a top-key part of 0..2 bytes
func VH_P50_line() {
	done := zzOutP50()
	want := ""
	for i := 0; i < 3; i++ {
		vis := rt.String("sum", rt.Choose("len", 3)*2)
		for j := 0; j < len(vis); j++ {
			rt.Assume(vis[j] >= 'a' && vis[j] <= 'z')
		}
		line, top := vis, []string{"", "top key: (none yet)", "xy"}[rt.Choose("top", 3)]
		if rt.Bool("colour") {
			line = ansiBold + vis + ansiReset
		}
		renderSimple(line, top)
		if want = vis; top == "xy" {
			want += " | xy"
		}
	}
	rt.Assert(zzScreenP50(done()) == want, "only the last line is visible")
}

// The visible length leaves out exactly the escape sequences.
// bound: every string of 0..5 bytes (thorough: 7)
func VH_P50_visible() {
	n := 5
	if rt.Thorough() {
		n = 7
	}
	s := rt.String("s", rt.Choose("len", n+1))
	want := 0
	const (
		plain = iota
		esc
		csi
	)
	st := plain
	for i := 0; i < len(s); i++ {
		final := s[i] >= 0x40 && s[i] <= 0x7e
		switch {
		case st == plain && s[i] == 0x1b:
			st = esc
		case st == plain:
			want++
		case st == esc && s[i] == '[':
			st = csi
		case final:
			st = plain
		}
	}
	rt.Assert(printableLen(s) == want, "printable length counts the bytes outside escape sequences")
}

// Observers may overlap a snapshot (deeper).
// verif: ticks=0 preempt=2 tier=thorough
// bound: 2 observers of one new key and a snapshot, at most 2 preemptions
func VH_P50_race_deep() { zzRaceP50(publishSnapshot) }
