//verif:pkg cmd/tfd-proxy
//verif:models promhttp os net

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"vsa/internal/sinks"
	"vsa/internal/zzverif/rt"
	tfd "vsa/plugin/tfd"
)

// zzAppP42 is the running program.
type zzAppP42 struct {
	addr, dir, slog, vlog string
	done                  chan struct{}
}

// zzBeforeP42, when set, prepares the logs before the program starts.
var zzBeforeP42 func(a *zzAppP42)

func zzStartP42(args ...string) *zzAppP42 {
	a := &zzAppP42{addr: "127.0.0.1:1", slog: "s.log", vlog: "v.log", done: make(chan struct{})}
	if !rt.Symbolic() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		rt.Assume(err == nil)
		a.addr = l.Addr().String()
		l.Close()
		a.dir, err = os.MkdirTemp("", "zzp42")
		rt.Assume(err == nil)
		a.slog, a.vlog = filepath.Join(a.dir, "s.log"), filepath.Join(a.dir, "v.log")
	}
	if zzBeforeP42 != nil {
		zzBeforeP42(a)
	}
	os.Args = append([]string{"tfd-proxy", "-http", a.addr, "-s_log", a.slog, "-v_log", a.vlog}, args...)
	flag.CommandLine = flag.NewFlagSet("tfd-proxy", flag.ContinueOnError)
	rt.Clock(1_700_000_000_000_000_000)
	rt.Serial(true)
	go func() {
		main()
		close(a.done)
	}()
	rt.Quiesce()
	for i := 0; !rt.Symbolic() && i < 200; i++ {
		if c, err := net.Dial("tcp", a.addr); err == nil {
			c.Close()
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	rt.Serial(false)
	return a
}

// call makes one request; code 0 means it was not served.
func (a *zzAppP42) call(pq string) (int, string) {
	r, err := http.Post("http://"+a.addr+pq, "", nil)
	if err != nil {
		return 0, ""
	}
	b, _ := io.ReadAll(r.Body)
	r.Body.Close()
	return r.StatusCode, string(b)
}

// sum asks the program for the total of a key (and bucket).
func (a *zzAppP42) sum(key, bucket string) int64 {
	q := "/state?sum=1&key=" + key
	if bucket != "" {
		q += "&bucket=" + bucket
	}
	c, b := a.call(q)
	rt.Assert(c == 200, "the state can be read")
	b = strings.TrimSpace(b)
	rt.Assert(strings.HasPrefix(b, "{\"sum\":") && strings.HasSuffix(b, "}"), "the sum is a JSON object")
	n, err := strconv.ParseInt(b[7:len(b)-1], 10, 64)
	rt.Assert(err == nil, "the sum is a number")
	return n
}

// replay stops the program and adds up what its logs replay to.
func (a *zzAppP42) replay() map[[2]uint64]int64 {
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-a.done
	sb, err := sinks.ReadAllSLog(a.slog)
	rt.Assert(err == nil, "after a graceful stop the S log is readable")
	ve, err := sinks.ReadAllVLog(a.vlog)
	rt.Assert(err == nil, "after a graceful stop the V log is readable")
	st := tfd.NewState()
	st.Reconstruct(sb, ve)
	if !rt.Symbolic() {
		os.RemoveAll(a.dir)
	}
	return st.Cells()
}

// Sequential requests: the state the program reports, and what its logs replay to after the stop, is the sum of what it accepted.
// verif: ticks=0 preempt=0
// bound: 1-2 requests to /consume, /reverse and /set_limit over 2 keys and 2 buckets or none
func VH_P42_state() {
	a := zzStartP42("-shards", "1", "-order_pow2", "2")
	keys, buckets := [2]string{"ka", "kb"}, [3]string{"b0", "b1", ""}
	ids := [3]uint64{tfd.HashKey("b0"), tfd.HashKey("b1"), 0}
	var want [2][3]int64
	n := 1 + rt.Choose("requests", 2)
	rt.Serial(true)
	for i := 0; i < n; i++ {
		k := rt.Choose("key", 2)
		rt.Assume(rt.Thorough() || i > 0 || n == 1 || k == 0)
		op := rt.Choose("op", 3)
		d := rt.String("n", 1)
		rt.Assume(d[0] >= '0' && d[0] <= '9')
		amt := int64(d[0] - '0')
		b := 0
		if op != 2 {
			b = rt.Choose("bucket", 3)
			rt.Assume(rt.Thorough() || i > 0 || n == 1 || b == 0)
		}
		var c int
		q := "&n=" + d
		if buckets[b] != "" {
			q += "&bucket=" + buckets[b]
		}
		switch op {
		case 0:
			c, _ = a.call("/consume?key=" + keys[k] + q)
			want[k][b] += amt
		case 1:
			c, _ = a.call("/reverse?key=" + keys[k] + q)
			want[k][b] -= amt
		case 2:
			c, _ = a.call("/set_limit?key=" + keys[k] + "&rps=9")
		}
		rt.Assert(c == 202, "the operation is accepted")
	}
	switch rt.Choose("read", 4) {
	case 1:
		for k := range keys {
			rt.Assert(a.sum(keys[k], "") == want[k][0]+want[k][1]+want[k][2], "the reported total of a key is what was accepted for it")
		}
	case 2:
		k, b := rt.Choose("rkey", 2), rt.Choose("rbucket", 2)
		rt.Assert(a.sum(keys[k], buckets[b]) == want[k][b], "the reported total of a bucket is what was accepted for it")
	case 3:
		k := rt.Choose("rkey", 3)
		q := "/state"
		if k < 2 {
			q += "?key=" + keys[k]
		}
		c, body := a.call(q)
		m := map[string]int64{}
		rt.Assert(c == 200 && json.Unmarshal([]byte(body), &m) == nil, "the state is a JSON object")
		rest := int64(0)
		for _, v := range m {
			rest += v
		}
		for i := range keys {
			for j := range buckets {
				v, ok := m[fmt.Sprintf("%d:%d", tfd.HashKey(keys[i]), ids[j])]
				rest -= v
				if k == 2 || k == i {
					rt.Assert(v == want[i][j], "the reported state is what was accepted")
				} else {
					rt.Assert(!ok, "the state of one key has no other key's cells")
				}
			}
		}
		rt.Assert(rest == 0, "the state has no other cells")
	}
	cells := a.replay()
	for k := range keys {
		for b := range buckets {
			rt.Assert(cells[[2]uint64{tfd.HashKey(keys[k]), ids[b]}] == want[k][b], "the logs replay to what was accepted")
		}
	}
}

// A request that races with the stop is either refused or recorded: what was accepted is what the logs replay to.
// verif: ticks=0 preempt=1
// bound: 1 request to /consume or /reverse in flight during SIGTERM; 1 preemption
func VH_P42_inflight() {
	a := zzStartP42("-shards", "1", "-order_pow2", "2")
	op := rt.Choose("op", 2)
	var c int
	var cells map[[2]uint64]int64
	rt.Par(func() {
		c, _ = a.call([2]string{"/consume", "/reverse"}[op] + "?key=ka&bucket=b0&n=3")
	}, func() { cells = a.replay() })
	want := int64(0)
	if c == 202 {
		want = [2]int64{3, -3}[op]
	}
	rt.Assert(c == 202 || c == 0, "a request is served or refused")
	rt.Assert(cells[[2]uint64{tfd.HashKey("ka"), tfd.HashKey("b0")}] == want, "the logs replay to what was accepted, also while stopping")
}

// What a request means: the amount defaults to 1 and may be negative, the bucket may be left out, and a request without a
// key is refused and changes nothing.
// verif: ticks=0 preempt=0
// bound: 1 request to each of /consume and /reverse, amounts missing, or of 1-2 digits with or without a sign, with or without a bucket
func VH_P42_request() {
	a := zzStartP42("-shards", "2", "-order_pow2", "2")
	rt.Serial(true)
	q := "?key=ka"
	if rt.Choose("bucket", 2) == 1 {
		q += "&bucket=b0"
	}
	amt := int64(1)
	if f := rt.Choose("form", 3); f > 0 {
		d := rt.String("n", rt.Choose("len", 2)+1)
		amt = 0
		for i := 0; i < len(d); i++ {
			rt.Assume(d[i] >= '0' && d[i] <= '9')
			amt = amt*10 + int64(d[i]-'0')
		}
		if f == 1 {
			q += "&n=" + d
		} else {
			q += "&n=-" + d
			amt = -amt
		}
	}
	op := rt.Choose("op", 2)
	c, _ := a.call([2]string{"/consume", "/reverse"}[op] + q)
	rt.Assert(c == 202, "the operation is accepted")
	if op == 1 {
		amt = -amt
	}
	for _, p := range [...]string{"/consume?bucket=b0&n=2", "/reverse?key=&bucket=b0", "/set_limit?rps=3"} {
		c, _ = a.call(p)
		rt.Assert(c == 400, "an operation without a key is refused")
	}
	rt.Assert(a.sum("ka", "") == amt, "the amount of an operation is the one requested")
	var sum int64
	for _, v := range a.replay() {
		sum += v
	}
	rt.Assert(sum == amt, "the logs hold nothing that was refused")
}

// Two requests at the same time: both are accepted and both count, in the reported state and in the logs.
// verif: ticks=0 preempt=1
// bound: 2 concurrent requests, each /consume or /reverse, or /consume with a /state, for one key; 1 preemption
func VH_P42_race() {
	a := zzStartP42("-shards", "1", "-order_pow2", "2")
	op := rt.Choose("op", 4)
	var c1, c2 int
	var mid int64
	rt.Par(func() {
		c1, _ = a.call([...]string{"/consume", "/reverse", "/consume", "/consume"}[op] + "?key=ka&bucket=b0&n=3")
	}, func() {
		if op == 3 {
			c2 = 202
			mid = a.sum("ka", "")
			return
		}
		c2, _ = a.call([...]string{"/consume", "/reverse", "/reverse"}[op] + "?key=ka&bucket=b0&n=4")
	})
	want := [...]int64{7, -7, -1, 3}[op]
	rt.Serial(true)
	rt.Assert(c1 == 202 && c2 == 202, "concurrent operations are accepted")
	rt.Assert(op != 3 || mid == 0 || mid == 3, "a concurrent read sees an operation as a whole or not at all")
	rt.Assert(a.sum("ka", "b0") == want, "both operations count in the reported state")
	rt.Assert(a.replay()[[2]uint64{tfd.HashKey("ka"), tfd.HashKey("b0")}] == want, "both operations count in the logs")
}

// A restart continues from the logs: the state is what they held plus what is accepted now, and a last line torn by a crash
// costs that line only.
// verif: ticks=0 preempt=0
// bound: earlier logs of one S batch and one V operation of one digit each, either torn at its end or not; 1 operation after the restart
func VH_P42_restart() {
	d := [2]int64{int64(rt.Uint8("s")), int64(rt.Uint8("v"))}
	rt.Assume(d[0] <= 9 && d[1] <= 9)
	torn := rt.Choose("torn", 3)
	zzBeforeP42 = func(a *zzAppP42) {
		ss, err := sinks.NewSBatchFileSink(a.slog)
		rt.Assume(err == nil)
		ss.OnSBatches([]tfd.SBatch{{KeyID: tfd.HashKey("ka"), BucketID: tfd.HashKey("b0"), NetDelta: d[0], SeqEnd: 5}})
		ss.Close()
		vs, err := sinks.NewVEnvFileSink(a.vlog)
		rt.Assume(err == nil)
		vs.Append(tfd.Envelope{Channel: tfd.ChannelVector, Footprint: tfd.Footprint{KeyID: tfd.HashKey("ka"), Time: tfd.TimeFootprint{BucketID: tfd.HashKey("b0")}, Scope: tfd.ChannelVector}, Delta: d[1], SeqEnd: 6})
		vs.Close()
		if torn > 0 {
			f, err := os.OpenFile([2]string{a.slog, a.vlog}[torn-1], os.O_WRONLY|os.O_APPEND, 0)
			rt.Assume(err == nil)
			f.Write([]byte("{\"KeyID\":1"))
			f.Close()
		}
	}
	a := zzStartP42("-shards", "1", "-order_pow2", "2")
	rt.Serial(true)
	op := rt.Choose("op", 2)
	c, _ := a.call([2]string{"/consume", "/reverse"}[op] + "?key=ka&bucket=b0&n=3")
	rt.Assert(c == 202, "the operation is accepted")
	want := d[0] + d[1] + [2]int64{3, -3}[op]
	rt.Assert(a.sum("ka", "") == want, "after a restart the state is the logged history plus what is accepted now")
	rt.Assert(a.replay()[[2]uint64{tfd.HashKey("ka"), tfd.HashKey("b0")}] == want, "the logs keep the history across a restart")
}

// Where an operation goes: consumption into the S log, reversals and policy changes into the V log with a sequence number
// and an audit link, a refused request into neither; the answer says so.
// verif: ticks=0 preempt=0
// bound: 1 request to /consume, /reverse or /set_limit, with or without a key and a bucket
func VH_P42_lanes() {
	a := zzStartP42("-shards", "1", "-order_pow2", "2")
	rt.Serial(true)
	op, keyed, bucketed := rt.Choose("op", 3), rt.Choose("key", 2) == 1, rt.Choose("bucket", 2) == 1
	q, key, bucket := "?n=3", uint64(0), uint64(0)
	if keyed {
		q, key = q+"&key=ka", tfd.HashKey("ka")
	}
	if bucketed && op < 2 {
		q, bucket = q+"&bucket=b0", tfd.HashKey("b0")
	}
	c, body := a.call([...]string{"/consume", "/reverse", "/set_limit"}[op] + q)
	rt.Assert(c == 202 == keyed && c == 400 == !keyed, "an operation is accepted exactly if it names a key")
	var ans struct {
		Accepted bool   `json:"accepted"`
		Channel  string `json:"channel"`
		KeyID    uint64 `json:"key_id"`
		BucketID uint64 `json:"bucket_id"`
	}
	if keyed {
		rt.Assert(json.Unmarshal([]byte(body), &ans) == nil && ans.Accepted, "the answer is JSON and confirms the operation")
		rt.Assert(ans.Channel == [...]string{"S", "V", "V"}[op] && ans.KeyID == key && ans.BucketID == bucket, "the answer names the lane and the cell")
	}
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-a.done
	sb, err := sinks.ReadAllSLog(a.slog)
	rt.Assert(err == nil, "after a graceful stop the S log is readable")
	ve, err := sinks.ReadAllVLog(a.vlog)
	rt.Assert(err == nil, "after a graceful stop the V log is readable")
	if !rt.Symbolic() {
		os.RemoveAll(a.dir)
	}
	ns, nv := 0, 0
	if keyed && op == 0 {
		ns = 1
	} else if keyed {
		nv = 1
	}
	rt.Assert(len(sb) == ns && len(ve) == nv, "an operation is logged in its own lane's log, a refused one in none")
	for _, b := range sb {
		rt.Assert(b.KeyID == key && b.BucketID == bucket && b.NetDelta == 3 && b.SeqEnd != 0, "the S log carries the operation")
	}
	for _, e := range ve {
		rt.Assert(e.Channel == tfd.ChannelVector && e.Footprint.KeyID == key && e.Footprint.Time.BucketID == bucket && e.Footprint.Time.All == (bucket == 0), "the V log carries the operation's footprint")
		rt.Assert(e.Delta == [...]int64{0, -3, 0}[op] && e.SeqEnd != 0 && e.HashPrev != [16]byte{}, "the V log carries the amount, the sequence number and the audit link")
	}
}

// A full ingress buffer delays operations and loses none.
// verif: preempt=0 ticks=0 chancap=1
// bound: 3 requests to /consume, amounts of one digit, against an ingress buffer of one instead of 8192
func VH_P42_full() {
	a := zzStartP42("-shards", "1", "-order_pow2", "2")
	rt.Serial(true)
	n := int64(0)
	for i := 0; i < 3; i++ {
		d := rt.String("n", 1)
		rt.Assume(d[0] >= '0' && d[0] <= '9')
		c, _ := a.call("/consume?key=ka&bucket=b0&n=" + d)
		rt.Assert(c == 202, "the operation is accepted")
		n += int64(d[0] - '0')
	}
	if rt.Bool("read") {
		rt.Assert(a.sum("ka", "b0") == n, "the reported total is what was accepted")
	}
	rt.Assert(a.replay()[[2]uint64{tfd.HashKey("ka"), tfd.HashKey("b0")}] == n, "the logs replay to what was accepted")
}
