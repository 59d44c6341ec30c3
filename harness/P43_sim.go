//verif:pkg cmd/tfd-sim
//verif:models prom promhttp os net

package main

import (
	"flag"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"syscall"
	"time"
	"vsa/internal/sinks"
	"vsa/internal/zzverif/rt"
	tfd "vsa/plugin/tfd"

	"github.com/prometheus/client_golang/prometheus"
)

// zzAppP43 is the running program.
type zzAppP43 struct {
	addr, dir, slog, vlog string
	done                  chan struct{}
	t0                    time.Time
}

func zzStartP43(args ...string) *zzAppP43 {
	a := &zzAppP43{addr: "127.0.0.1:1", slog: "s.log", vlog: "v.log", done: make(chan struct{})}
	if !rt.Symbolic() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		rt.Assume(err == nil)
		a.addr = l.Addr().String()
		l.Close()
		a.dir, err = os.MkdirTemp("", "zzp43")
		rt.Assume(err == nil)
		a.slog, a.vlog = filepath.Join(a.dir, "s.log"), filepath.Join(a.dir, "v.log")
	}
	os.Args = append([]string{"tfd-sim", "-http", a.addr, "-s_log", a.slog, "-v_log", a.vlog, "-shards", "1", "-order_pow2", "2"}, args...)
	flag.CommandLine = flag.NewFlagSet("tfd-sim", flag.ContinueOnError)
	rt.Clock(1_700_000_000_000_000_000)
	a.t0 = time.Now()
	rt.Serial(true)
	go func() {
		main()
		close(a.done)
	}()
	rt.Quiesce()
	for i := 0; !rt.Symbolic() && i < 200; i++ {
		if c, err := net.Dial("tcp", a.addr); err == nil {
			c.Close()
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	rt.Serial(false)
	return a
}

// consume makes one request; 0 means it was not served.
func (a *zzAppP43) consume(q string) int {
	r, err := http.Post("http://"+a.addr+"/consume?"+q, "", nil)
	if err != nil {
		return 0
	}
	r.Body.Close()
	return r.StatusCode
}

// zzEndP43 is what a run left behind: what the logs hold and what the metrics say.
type zzEndP43 struct {
	sum                            map[[2]uint64]int64
	total, lines, vlines           int64
	ops, sops, vops, in, out, seen int64
	flushes                        uint64
	flushSum                       float64
}

// end stops the program (or waits for it) and reads its logs and metrics.
func (a *zzAppP43) end(sig bool) (e zzEndP43) {
	if sig {
		syscall.Kill(os.Getpid(), syscall.SIGTERM)
	}
	<-a.done
	rt.Serial(true)
	sb, err := sinks.ReadAllSLog(a.slog)
	rt.Assert(err == nil, "after a graceful stop the S log is readable")
	ve, err := sinks.ReadAllVLog(a.vlog)
	rt.Assert(err == nil, "after a graceful stop the V log is readable")
	e.sum = map[[2]uint64]int64{}
	for _, b := range sb {
		e.sum[[2]uint64{b.KeyID, b.BucketID}] += b.NetDelta
		e.total += b.NetDelta
	}
	e.lines, e.vlines = int64(len(sb)), int64(len(ve))
	if !rt.Symbolic() {
		os.RemoveAll(a.dir)
	}
	mfs, err := prometheus.DefaultGatherer.Gather()
	rt.Assert(err == nil, "the metrics can be gathered")
	for _, mf := range mfs {
		m := mf.Metric[0]
		var v int64
		if m.Counter != nil {
			v = int64(m.Counter.GetValue())
		}
		switch mf.GetName() {
		case "tfd_total_ops":
			e.ops = v
		case "tfd_s_ops":
			e.sops = v
		case "tfd_v_ops":
			e.vops = v
		case "tfd_s_batches_in_total":
			e.in = v
		case "tfd_s_batches_out_total":
			e.out = v
		case "tfd_s_flush_interval_seconds":
			e.flushes, e.flushSum = m.Histogram.GetSampleCount(), m.Histogram.GetSampleSum()
		}
	}
	rt.Assert(e.out == e.lines, "tfd_s_batches_out_total is the number of batches written")
	rt.Assert(e.in >= e.out, "compression never adds batches")
	rt.Assert(e.flushSum <= time.Since(a.t0).Seconds(), "flush intervals lie within the run")
	return
}

// What the generator counts is what its logs hold.
// verif: preempt=0
// bound: up to 2 ticks (thorough: 3), each a flush, a burst of 1 operation (thorough: 2) over 2 buckets, or the end of the run, S share 0, 1/2 or 1; ended by SIGTERM or the run's duration
func VH_P43_generated() {
	sig := rt.Bool("sig")
	d := "50ms"
	if sig {
		d = "0"
	}
	rt.Ticks(0)
	cov := rt.Choose("cov", 3)
	burst := 1
	if rt.Thorough() {
		burst += rt.Choose("burst", 2)
	}
	a := zzStartP43("-keys", "1", "-buckets", "2", "-qps", "100", "-burst", strconv.Itoa(burst),
		"-s_coverage", []string{"0", "0.5", "1"}[cov], "-duration", d)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	rt.Ticks(n)
	if rt.Symbolic() && (!sig || rt.Bool("wait")) {
		rt.Quiesce()
		select {
		case <-a.done:
		default:
			sig = true // the end of the run was none of the ticks
		}
	}
	e := a.end(sig)
	rt.Assert(e.ops == e.sops+e.vops, "every generated operation goes to one lane")
	rt.Assert(cov > 0 || e.sops == 0, "at S share 0 nothing is generated for the S lane")
	rt.Assert(cov < 2 || e.vops == 0, "at S share 1 nothing is generated for the V lane")
	rt.Assert(e.total == e.sops, "the S log holds exactly the S operations counted")
	rt.Assert(e.vlines == e.vops, "the V log holds exactly the V operations counted")
}

// What the endpoint accepts is in the logs after the stop, also for requests in flight.
// verif: ticks=0 preempt=1
// bound: 2 requests before the stop or 1 in flight during SIGTERM, amounts of one digit, missing or malformed keys included; 1 preemption
func VH_P43_consume() {
	a := zzStartP43("-duration", "0")
	want := map[[2]uint64]int64{}
	ask := func(key, amt string, n int64) {
		c := a.consume("key=" + key + "&bucket=b0" + amt)
		if key == "" {
			rt.Assert(c == 400 || c == 0, "a request without a key is refused")
			return
		}
		rt.Assert(c == 202 || c == 0, "a request is accepted unless the server is down")
		if c == 202 {
			want[[2]uint64{tfd.HashKey(key), tfd.HashKey("b0")}] += n
		}
	}
	var e zzEndP43
	if rt.Bool("inflight") {
		rt.Par(func() { ask("ka", "&n=3", 3) }, func() { e = a.end(true) })
	} else {
		rt.Serial(true)
		d := rt.String("n", 1)
		rt.Assume(d[0] >= '0' && d[0] <= '9')
		ask([]string{"ka", "kb", ""}[rt.Choose("k", 3)], "&n="+d, int64(d[0]-'0'))
		f := rt.Choose("form", 3)
		ask("ka", []string{"", "&n=-2", "&n=x"}[f], []int64{1, -2, 1}[f])
		e = a.end(true)
	}
	n := int64(0)
	for _, v := range want {
		n += v
	}
	for k, v := range want {
		rt.Assert(e.sum[k] == v, "the S log holds exactly what was accepted")
	}
	rt.Assert(e.total == n && e.vlines == 0, "the logs hold nothing else")
}

// A full ingress buffer delays operations and loses none.
// verif: preempt=0 ticks=0 chancap=1
// bound: 3 requests, amounts of one digit, against an ingress buffer of one instead of 8192
func VH_P43_full() {
	a := zzStartP43("-duration", "0")
	rt.Serial(true)
	n := int64(0)
	for i := 0; i < 3; i++ {
		d := rt.String("n", 1)
		rt.Assume(d[0] >= '0' && d[0] <= '9')
		rt.Assert(a.consume("key=ka&bucket=b0&n="+d) == 202, "a request is accepted")
		n += int64(d[0] - '0')
	}
	e := a.end(true)
	rt.Assert(e.total == n && e.sum[[2]uint64{tfd.HashKey("ka"), tfd.HashKey("b0")}] == n, "the S log holds what was accepted")
	rt.Assert(e.sops == 3 && e.vops == 0, "every accepted operation is counted")
}

// The same for a burst of the generator.
// verif: preempt=0 chancap=1
// bound: a burst of 3 operations at S share 1 on at most 2 ticks, against an ingress buffer of one instead of 8192
func VH_P43_burst() {
	rt.Ticks(0)
	a := zzStartP43("-keys", "1", "-buckets", "1", "-qps", "100", "-burst", "3", "-s_coverage", "1", "-duration", "0")
	rt.Ticks(2)
	if rt.Symbolic() {
		rt.Quiesce()
	}
	e := a.end(true)
	rt.Assert(e.ops == e.sops && e.vops == 0, "at S share 1 every operation goes to the S lane")
	rt.Assert(e.total == e.sops, "the S log holds exactly the S operations counted")
}
