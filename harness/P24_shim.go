//verif:pkg internal/ratelimiter/persistence
//verif:models os

package persistence

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/zzverif/rt"
)

type zzImplP24 struct {
	calls int
	got   []CommitEntry
	err   error
}

func (z *zzImplP24) CommitBatch(ctx context.Context, es []CommitEntry) error {
	z.calls++
	rt.Assert(ctx != nil, "a context is passed on")
	z.got = append([]CommitEntry{}, es...)
	return z.err
}

// The worker's commits reach the adapter one for one, in order and unchanged, each with an id of its own, and the
// adapter's verdict reaches the worker.
// verif: preempt=0 ticks=0
// bound: batches of 0-3 commits with any int64 vectors and keys of one arbitrary byte; the adapter succeeds or fails; two batches; any random bytes
func VH_P24_shim() {
	z := &zzImplP24{}
	s := NewIdemShim(z)
	down := []error{errors.New("down"), context.DeadlineExceeded, fmt.Errorf("write: %w", context.Canceled)}[rt.Choose("error", 3)]
	var ids []string
	for round := 0; round < 2; round++ {
		n := rt.Choose("n", 4)
		if round == 1 {
			n = 1
		}
		cs := make([]core.Commit, n)
		for i := range cs {
			cs[i] = core.Commit{Key: rt.String("key", 1), Vector: rt.Int64("vector")}
		}
		z.err = nil
		if rt.Choose("fail", 2) == 1 {
			z.err = down
		}
		c0 := z.calls
		err := s.CommitBatch(cs)
		if n == 0 {
			rt.Assert(err == nil && z.calls == c0, "an empty batch is not sent")
			continue
		}
		rt.Assert(z.calls == c0+1, "a batch is sent once")
		rt.Assert((err == nil) == (z.err == nil) && errors.Is(err, z.err), "the adapter's verdict is passed on")
		rt.Assert(len(z.got) == n, "every commit is sent")
		for i, e := range z.got {
			rt.Assert(e.Key == cs[i].Key && e.Vector == cs[i].Vector, "a commit is sent unchanged and in order")
			rt.Assert(len(e.CommitID) >= 16, "a commit gets an id long enough to be unique")
			ids = append(ids, e.CommitID)
		}
	}
}

// Two ids are equal only when all the random bytes they are drawn from are.
// verif: preempt=0 ticks=0
// bound: two commits of one batch, any random bytes
func VH_P24_ids() {
	z := &zzImplP24{}
	rt.Assert(NewIdemShim(z).CommitBatch([]core.Commit{{Key: "a", Vector: 1}, {Key: "a", Vector: 1}}) == nil, "the batch is sent")
	a, b := z.got[0].CommitID, z.got[1].CommitID
	rt.Assert(len(a) == len(b), "ids have one length")
	d := rt.Random()
	h := len(d) / 2
	same := h >= 8 && string(d[:h]) == string(d[h:]) // ids drawn from fewer bytes have to differ by other means
	rt.Assert(a != b || same, "ids differ whenever the random bytes they are drawn from do")
}

// An adapter is chosen by name; an unknown or unavailable one is an error, not a silent fallback.
// verif: preempt=0 ticks=0
// bound: the five names and any other name of up to 5 bytes
func VH_P24_factory() {
	names := [...]string{"", "mock", "redis", "kafka", "postgres", "?"}
	i := rt.Choose("name", 6)
	name := names[i]
	if i == 5 {
		name = rt.String("other", 1+rt.Choose("len", 5))
		for _, n := range names[:5] {
			rt.Assume(name != n)
		}
	}
	p, err := BuildPersister(name, DemoOptions{})
	rt.Assert((err == nil) == (i < 4), "known adapters are built and others are refused")
	rt.Assert((p != nil) == (i < 4), "a refused adapter yields nothing to write to")
	if i == 2 || i == 3 {
		rt.Assert(p.CommitBatch([]core.Commit{{Key: "a", Vector: 1}}) == nil, "the demo adapter accepts a batch")
	}
}

// What the demo adapters say they send is what the options ask for: the topic of a commit and how long a marker lives.
// verif: preempt=0 ticks=0
// bound: the topic and the marker's life configured or not, one commit
func VH_P24_options() {
	out := "/zz/out"
	if !rt.Symbolic() {
		d, err := os.MkdirTemp("", "zzverif")
		rt.Assume(err == nil)
		defer os.RemoveAll(d)
		out = filepath.Join(d, "out")
	}
	f, err := os.Create(out)
	rt.Assume(err == nil)
	old := os.Stdout
	os.Stdout = f
	name := []string{"kafka", "redis"}[rt.Choose("name", 2)]
	var o DemoOptions
	set := rt.Choose("set", 2) == 1
	if set {
		o.KafkaTopic, o.RedisMarkerTTL = "orders", 7531*time.Second
	}
	p, err := BuildPersister(name, o)
	rt.Assert(err == nil && p != nil, "the adapter is built")
	rt.Assert(p.CommitBatch([]core.Commit{{Key: "k", Vector: 77}}) == nil, "the demo adapter accepts a batch")
	os.Stdout = old
	f.Close()
	b, err := os.ReadFile(out)
	rt.Assume(err == nil)
	s := string(b)
	if name == "kafka" {
		rt.Assert(strings.Contains(s, "orders") == set, "commits go to the configured topic")
		rt.Assert(strings.Contains(s, "vsa-commits") == !set, "commits go to the default topic when none is configured")
	} else {
		// ids are hexadecimal and may contain either number themselves
		rt.Assert(!set || strings.Contains(s, "7531"), "markers live as long as configured")
		rt.Assert(set || strings.Contains(s, "86400"), "markers live a day when nothing is configured")
	}
}
