//verif:pkg cmd/ratelimiter-api
//verif:models prom promhttp os net

package main

import (
	"flag"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"vsa/internal/zzverif/rt"
)

// zzAppP17 is the running program.
type zzAppP17 struct {
	addr, out string
	limit     string
	stdout    *os.File
	done      chan struct{}
}

func zzFreePort() string {
	if rt.Symbolic() {
		return "127.0.0.1:1"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	rt.Assume(err == nil)
	defer l.Close()
	return l.Addr().String()
}

// zzStartP17 runs main with the flags, its standard output going to a file.
func zzStartP17(args ...string) *zzAppP17 {
	a := &zzAppP17{addr: zzFreePort(), out: "out", done: make(chan struct{})}
	if !rt.Symbolic() {
		dir, err := os.MkdirTemp("", "zzp17")
		rt.Assume(err == nil)
		a.out = filepath.Join(dir, "out")
	}
	f, err := os.Create(a.out)
	rt.Assume(err == nil)
	a.stdout, os.Stdout = os.Stdout, f
	os.Args = append([]string{"ratelimiter-api", "-http_addr", a.addr}, args...)
	flag.CommandLine = flag.NewFlagSet("ratelimiter-api", flag.ContinueOnError)
	rt.Serial(true)
	go func() {
		main()
		close(a.done)
	}()
	rt.Quiesce()
	for i := 0; !rt.Symbolic() && i < 200; i++ {
		if c, err := net.Dial("tcp", a.addr); err == nil {
			c.Close()
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	rt.Serial(false)
	return a
}

// get makes one request; 0 means it was not served.
func (a *zzAppP17) get(pq string) int {
	r, err := http.Get("http://" + a.addr + pq)
	if err != nil {
		return 0
	}
	io.Copy(io.Discard, r.Body)
	r.Body.Close()
	if strings.HasPrefix(pq, "/check") {
		rt.Assert(a.limit == "" || r.Header.Get("X-RateLimit-Limit") == a.limit, "the limit announced is the configured one")
	}
	return r.StatusCode
}

// stop sends SIGTERM, waits for main to return and gives what was printed.
func (a *zzAppP17) stop() string {
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-a.done
	os.Stdout.Close()
	os.Stdout = a.stdout
	b, err := os.ReadFile(a.out)
	rt.Assume(err == nil)
	if !rt.Symbolic() {
		os.RemoveAll(filepath.Dir(a.out))
	}
	return string(b)
}

// zzSumP17 adds up what the adapter reported as persisted for a key.
func zzSumP17(out, key string) int64 {
	var sum int64
	for _, l := range strings.Split(out, "\n") {
		var f []string
		var at int
		switch {
		case strings.Contains(l, "KEY: "+key+" ") && strings.Contains(l, "VECTOR: "):
			f, at = strings.Fields(l[strings.Index(l, "VECTOR: ")+8:]), 0
		case strings.HasPrefix(l, "[kafka-demo]") && strings.Contains(l, "\"key\":\""+key+"\""):
			rest := l[strings.Index(l, "\"vc\":")+5:]
			f, at = []string{rest[:strings.IndexAny(rest, ",}")]}, 0
		default:
			continue
		}
		n, err := strconv.ParseInt(f[at], 10, 64)
		rt.Assert(err == nil, "what is persisted is a number")
		sum += n
	}
	return sum
}

// Whatever was admitted before a graceful stop has been handed to the adapter, exactly once, when the program ends.
// verif: ticks=0 preempt=0
// bound: 0-2 (thorough 3) checks or releases of 2 keys before SIGTERM, thresholds 1, 2 and 50, mock and Kafka adapters; no worker tick before the stop
func VH_P17_stop() {
	th := []string{"1", "2", "50"}[rt.Choose("threshold", 3)]
	ad := []string{"mock", "kafka"}[rt.Choose("adapter", 2)]
	a := zzStartP17("-rate_limit", "2", "-commit_threshold", th, "-persistence_adapter", ad, "-commit_interval", "1h", "-vsa_stripes", "8")
	keys := [2]string{"ka", "kb"}
	var used [2]int64
	most := 2
	if rt.Thorough() {
		most = 3
	}
	n := rt.Choose("requests", most+1)
	t0 := rt.Now()
	for i := 0; i < n; i++ {
		k := rt.Choose("key", 2)
		if rt.Choose("op", 2) == 0 {
			c := a.get("/check?api_key=" + keys[k])
			rt.Assert((c == 200) == (used[k] < 2) && (c == 200 || c == 429), "the program admits exactly up to the limit")
			if c == 200 {
				used[k]++
			}
		} else {
			rt.Assert(a.get("/release?api_key="+keys[k]) == 204, "the program serves releases")
			if used[k] > 0 {
				used[k]--
			}
		}
		rt.Assume(rt.Now()-t0 < 100e6)
	}
	out := a.stop()
	for i, k := range keys {
		rt.Assert(zzSumP17(out, k) == used[i], "after a graceful stop exactly what was admitted has been persisted")
	}
	rt.Assert(a.get("/check?api_key=ka") == 0, "after the stop nothing is admitted")
}

// A request that races with the stop is either not served or counted: nothing admitted is lost, nothing is counted twice.
// verif: ticks=0 preempt=-1
// bound: 0-1 checks before and 1 (thorough: 2, of the same or another key) checks in flight during SIGTERM; all interleavings up to commutation; mock adapter, threshold 50 (thorough: or 1)
func VH_P17_inflight() {
	th := []string{"1", "50"}[rt.Choose("threshold", 2)]
	a := zzStartP17("-rate_limit", "4", "-commit_threshold", th, "-commit_interval", "1h", "-vsa_stripes", "8")
	t0 := rt.Now()
	used := int64(rt.Choose("before", 2))
	if used == 1 {
		rt.Assert(a.get("/check?api_key=ka") == 200, "a request within the limit is admitted")
	}
	var c1, c2 int
	op := rt.Choose("second", 3)
	rt.Assume(op == 0 || rt.Thorough())
	rt.Assume(th == "50" || rt.Thorough())
	var out string
	rt.Par(func() {
		c1 = a.get("/check?api_key=ka")
	}, func() {
		switch op {
		case 1:
			c2 = a.get("/check?api_key=ka")
		case 2:
			c2 = a.get("/check?api_key=kb")
		}
	}, func() { out = a.stop() })
	rt.Assume(!rt.Symbolic() || rt.Now()-t0 < 100e6)
	if c1 == 200 {
		used++
	}
	if c2 == 200 && op == 1 {
		used++
	}
	rt.Assert(zzSumP17(out, "ka") == used, "what was admitted while stopping has been persisted exactly once")
	rt.Assert((zzSumP17(out, "kb") == 1) == (op == 2 && c2 == 200), "another key's request is persisted exactly if it was admitted")
}

// zzMidP17 reads what has been printed so far.
func (a *zzAppP17) printed() string {
	b, err := os.ReadFile(a.out)
	rt.Assume(err == nil)
	return string(b)
}

// The flags mean what they say: the limit is the configured one under every gate, a key below the commit threshold is not
// written before the stop, one at or above it is written by the worker, and the total is exact in the end.
// verif: ticks=2 preempt=0
// bound: 1-3 checks with a limit of 2 or 3 and a threshold of 2, 6 engine configurations given by flags; up to 2 worker ticks; one schedule per tick choice
func VH_P17_flags() {
	gates := [...][]string{nil, {"-vsa_group_count", "2"}, {"-vsa_fast_path_guard", "1"}, {"-vsa_hierarchical_groups", "2"}, {"-vsa_cheap_update_chooser"}, {"-commit_low_watermark", "1"}}
	lim := rt.Choose("limit", 2) + 2
	rt.Ticks(0)
	a := zzStartP17(append([]string{"-rate_limit", strconv.Itoa(lim), "-commit_threshold", "2", "-commit_interval", "5ms", "-vsa_stripes", "8"}, gates[rt.Choose("gate", len(gates))]...)...)
	a.limit = strconv.Itoa(lim)
	t0 := rt.Now()
	n := rt.Choose("checks", 3) + 1
	used := int64(0)
	for i := 0; i < n; i++ {
		c := a.get("/check?api_key=ka")
		rt.Assert((c == 200) == (i < lim), "the configured limit is what is enforced")
		if c == 200 {
			used++
		}
		rt.Assume(!rt.Symbolic() || rt.Now()-t0 < 100e6)
	}
	rt.Serial(true)
	rt.Ticks(2)
	rt.Quiesce()
	rt.Ticks(0)
	mid := zzSumP17(a.printed(), "ka")
	rt.Assert(mid == 0 || used >= 2, "below the commit threshold nothing is written before the stop")
	rt.Assert(mid == 0 || mid == used || !rt.Symbolic(), "what the worker writes is the whole net amount")
	if mid != 0 {
		rt.Reach("written by the worker")
	}
	rt.Assert(zzSumP17(a.stop(), "ka") == used, "in the end exactly what was admitted has been persisted")
}

// A client that never finishes its request does not keep the program from persisting what was admitted.
// verif: ticks=0 preempt=0
// bound: one request whose body never arrives, 0-1 further checks, threshold 1 or 50, then SIGTERM
func VH_P17_slow() {
	th := []string{"1", "50"}[rt.Choose("threshold", 2)]
	a := zzStartP17("-rate_limit", "4", "-commit_threshold", th, "-commit_interval", "1h", "-vsa_stripes", "8")
	t0 := rt.Now()
	c, err := net.Dial("tcp", a.addr)
	rt.Assume(err == nil)
	_, err = c.Write([]byte("GET /check?api_key=ks HTTP/1.1\r\nHost: x\r\nContent-Length: 9\r\n\r\n"))
	rt.Assume(err == nil)
	if !rt.Symbolic() {
		time.Sleep(300 * time.Millisecond)
	}
	n := rt.Choose("checks", 2)
	if n == 1 {
		rt.Assert(a.get("/check?api_key=ka") == 200, "another client is served")
	}
	rt.Assume(!rt.Symbolic() || rt.Now()-t0 < 100e6)
	out := a.stop()
	rt.Assert(zzSumP17(out, "ks") == 1 && zzSumP17(out, "ka") == int64(n), "what was admitted is persisted even if a client never finishes")
	c.Close()
}
