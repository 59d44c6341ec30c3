//verif:pkg internal/ratelimiter/persistence

package persistence

import (
	"context"
	"encoding/json"
	"errors"
	"vsa/internal/zzverif/rt"
)

type zzMsgP23 struct {
	topic string
	key   string
	value []byte
}

// zzBrokerP23 keeps what was produced; a failing call may still have delivered its message.
type zzBrokerP23 struct {
	msgs  []zzMsgP23
	calls int
	fault bool
	fails int
}

func (b *zzBrokerP23) Produce(ctx context.Context, topic string, key []byte, value []byte, headers map[string]string) error {
	b.calls++
	if ctx == nil {
		rt.Assert(false, "a context is passed on")
	}
	f := 0
	if b.fault {
		f = rt.Choose("fault", 3)
	}
	if f != 1 {
		b.msgs = append(b.msgs, zzMsgP23{topic, string(key), append([]byte{}, value...)})
	}
	if f != 0 {
		b.fails++
		return []error{errors.New("down"), context.DeadlineExceeded}[rt.Choose("error", 2)]
	}
	return nil
}

func zzKeyP23() string {
	if rt.Choose("key", 2) == 0 {
		return "user:é<1>"
	}
	b := rt.Uint8("keybyte")
	rt.Assume(b < 0x80)
	return "k" + string([]byte{b})
}

func zzTokP23() *int64 {
	switch rt.Choose("token", 3) {
	case 0:
		return nil
	case 1:
		t := int64(0)
		return &t
	}
	t := rt.Int64("token")
	rt.Assume(t >= -9 && t <= 99)
	return &t
}

func zzSameTokP23(a, b *int64) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

// Every commit becomes one message, in order, keyed by its id and carrying everything a consumer needs to apply it.
// verif: preempt=0 ticks=0
// bound: one commit with any int64 vector, or any int64 token, or a fixed key with escapes and non-ASCII letters or any ASCII byte in it and a token in [-9,99] or none; then a second one
func VH_P23_payload() {
	b := &zzBrokerP23{}
	p := NewKafkaPersister(b, "topic")
	es := []CommitEntry{{Key: "k1", Vector: 12, CommitID: "0123456789abcdef"}, {Key: "k", Vector: -7, CommitID: "id\"2"}}
	switch rt.Choose("what", 3) {
	case 0:
		es[0].Key, es[0].FencingToken = zzKeyP23(), zzTokP23()
	case 1:
		es[0].Vector = rt.Int64("vector")
	case 2:
		t := rt.Int64("token")
		es[0].FencingToken = &t
	}
	rt.Assert(p.CommitBatch(nil, es) == nil, "the batch is published")
	rt.Assert(len(b.msgs) == 2, "each commit is published once")
	for i, m := range b.msgs {
		var d CommitMessage
		rt.Assert(m.topic == "topic", "messages go to the configured topic")
		rt.Assert(m.key == es[i].CommitID, "the message key is the commit id")
		rt.Assert(json.Unmarshal(m.value, &d) == nil, "a message decodes")
		rt.Assert(d.Key == es[i].Key && d.Vector == es[i].Vector && d.CommitID == es[i].CommitID, "a message carries its commit")
		rt.Assert(zzSameTokP23(d.FencingToken, es[i].FencingToken), "a message carries its commit's fencing token")
	}
}

// Nothing is lost: a batch that reports success has delivered every commit, in order; one that fails stops at the failure;
// and a consumer that applies each commit id once ends where one exact application of the batch does.
// verif: preempt=0 ticks=0
// bound: a batch of 3 commits with any vectors in [10,99] to the same or different keys, ids equal or not; per produce a failure with or without delivery; 2 (thorough 3) attempts that may fail, then one that works
func VH_P23_retry() {
	b := &zzBrokerP23{fault: true}
	p := NewKafkaPersister(b, "t")
	es := []CommitEntry{{Key: "a", CommitID: "i1"}, {Key: "a", CommitID: "i2"}, {Key: "b", CommitID: "i3"}}
	for i := range es {
		v := rt.Int64("vector")
		rt.Assume(v >= 10 && v <= 99)
		es[i].Vector = v
	}
	if rt.Choose("again", 2) == 1 {
		es[1] = es[0]
	}
	tries := 2
	if rt.Thorough() {
		tries = 3
	}
	for t := 0; t <= tries; t++ {
		b.fault = t < tries
		n, f0, c0 := len(b.msgs), b.fails, b.calls
		err := p.CommitBatch(context.Background(), es)
		rt.Assert((err != nil) == (b.fails != f0), "a batch fails exactly when a message could not be produced")
		rt.Assert(b.fails <= f0+1, "a batch stops at its first failure")
		if err == nil {
			rt.Assert(b.calls == c0+3 && len(b.msgs) == n+3, "a successful batch has published every commit once")
		}
		for i, m := range b.msgs[n:] {
			rt.Assert(m.key == es[i].CommitID, "commits are published in order")
		}
	}
	var applied []string
	var ga, gb int64
	for _, m := range b.msgs {
		var d CommitMessage
		rt.Assert(json.Unmarshal(m.value, &d) == nil, "a message decodes")
		seen := false
		for _, id := range applied {
			seen = seen || id == d.CommitID
		}
		if seen {
			continue
		}
		applied = append(applied, d.CommitID)
		if d.Key == "a" {
			ga -= d.Vector
		} else {
			rt.Assert(d.Key == "b", "only the batch's keys are named")
			gb -= d.Vector
		}
	}
	wa := -es[0].Vector
	if es[1].CommitID != es[0].CommitID {
		wa -= es[1].Vector
	}
	rt.Assert(ga == wa && gb == -es[2].Vector, "a consumer applying each id once reaches the exact state")
}

// A commit without an id, which a consumer could not deduplicate, is refused, and nothing after it is published.
// verif: preempt=0 ticks=0
// bound: 2 commits, either or none without an id
func VH_P23_noid() {
	b := &zzBrokerP23{}
	p := NewKafkaPersister(b, "t")
	es := []CommitEntry{{Key: "a", Vector: 1, CommitID: "x"}, {Key: "a", Vector: 2, CommitID: "y"}}
	bad := rt.Choose("bad", 3)
	if bad < 2 {
		es[bad].CommitID = ""
	}
	err := p.CommitBatch(context.Background(), es)
	rt.Assert((err != nil) == (bad < 2), "a commit without an id is refused")
	rt.Assert(len(b.msgs) <= bad, "nothing is published from the refused commit on")
	for _, m := range b.msgs {
		rt.Assert(m.key != "", "no message goes out without a key")
	}
	rt.Assert(bad < 2 || len(b.msgs) == 2, "the batch is published")
	c0 := b.calls
	rt.Assert(p.CommitBatch(context.Background(), nil) == nil && b.calls == c0, "an empty batch publishes nothing")
}
