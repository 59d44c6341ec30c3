//verif:pkg plugin/tfd

package tfd

import "vsa/internal/zzverif/rt"

func zzEnvP33(keys int) Envelope {
	ch := ChannelVector
	if rt.Choose("scalar", 4) == 0 {
		ch = ChannelScalar
	}
	return Envelope{Channel: ch, Footprint: Footprint{KeyID: zzKeysP33[rt.Choose("key", keys)], Time: TimeFootprint{BucketID: rt.Uint64("bucket"), All: rt.Bool("all")}, Scope: ch}, Delta: rt.Int64("delta"), SeqEnd: rt.Uint64("seq")}
}

var zzKeysP33 = [...]uint64{0, 7, 1 << 63}

func zzSameP33(a, b Envelope) bool {
	d := a.Footprint.KeyID ^ b.Footprint.KeyID | a.Footprint.Time.BucketID ^ b.Footprint.Time.BucketID | uint64(a.Delta) ^ uint64(b.Delta) | a.SeqEnd ^ b.SeqEnd
	return d == 0 && a.Channel == b.Channel && a.Footprint.Time.All == b.Footprint.Time.All && a.Footprint.Scope == b.Footprint.Scope
}

func zzDrainP33(p *Pipeline, r *VRouter, key uint64) []Envelope {
	if p != nil {
		return p.DrainV(key)
	}
	return r.Route(key).Drain()
}

// Every vector envelope waits in its key's queue in the order of arrival, unchanged, until one drain takes it.
// bound: 3 (thorough 4) envelopes of either lane to 3 keys, any contents and sequence order, a drain of one key anywhere among them, through the pipeline or the router
func VH_P33_fifo() {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	var p *Pipeline
	r := NewVRouter()
	if rt.Choose("pipeline", 2) == 1 {
		p = NewPipeline(PipelineOptions{Shards: 1, OrderPow2: 1, CountThresh: 10, TimeCap: 1 << 40, Buffer: 8})
	}
	var want [len(zzKeysP33)][]Envelope
	check := func(k int) {
		got := zzDrainP33(p, r, zzKeysP33[k])
		rt.Assert(len(got) == len(want[k]), "a drain takes exactly the waiting vector envelopes of its key")
		for i, e := range got {
			rt.Assert(zzSameP33(e, want[k][i]), "vector envelopes come out in order of arrival, unchanged")
			rt.Assert(e.HashPrev == Hash128(zzKeysP33[k], want[k][i].SeqEnd), "the audit link is derived from key and sequence number")
		}
		want[k] = nil
	}
	at := rt.Choose("drain", n)
	for i := 0; i < n; i++ {
		e := zzEnvP33(len(zzKeysP33))
		if i == at {
			check(rt.Choose("key", len(zzKeysP33)))
		}
		if p != nil {
			p.Handle(e, nil)
		} else {
			r.Route(e.Footprint.KeyID).Enqueue(e)
		}
		if e.Channel == ChannelVector {
			for k, id := range zzKeysP33 {
				if id == e.Footprint.KeyID {
					want[k] = append(want[k], e)
				}
			}
		}
	}
	for k := range want {
		check(k)
	}
	for k := range want {
		check(k)
	}
}

// The audit link tells keys and sequence numbers apart.
// bound: two keys or two sequence numbers that differ in any one byte, the other bytes from 3 patterns
func VH_P33_link() {
	pat := [...]uint64{0, 0x1122334455667788, ^uint64(0)}
	base := pat[rt.Choose("base", len(pat))]
	sh := 8 * rt.Choose("byte", 8)
	m := uint64(0xff) << sh
	a, b := base&^m|uint64(rt.Uint8("a"))<<sh, base&^m|uint64(rt.Uint8("b"))<<sh
	rt.Assume(a != b)
	r := NewVRouter()
	if rt.Choose("seq", 2) == 1 {
		e := Envelope{Channel: ChannelVector, Footprint: Footprint{KeyID: 7}, SeqEnd: a}
		r.Route(7).Enqueue(e)
		e.SeqEnd = b
		r.Route(7).Enqueue(e)
		d := r.Route(7).Drain()
		rt.Assert(d[0].HashPrev != d[1].HashPrev, "different sequence numbers have different links")
	} else {
		rt.Assert(Hash128(a, 9) != Hash128(b, 9), "different keys have different links")
	}
}

// Hash128 depends on every part and on their number.
// bound: 0 to 2 zero parts; fixed values
func VH_P33_arity() {
	rt.Assert(Hash128() != Hash128(0) && Hash128(0) != Hash128(0, 0), "the number of parts matters")
	x := uint64(rt.Uint8("x"))
	y := uint64(rt.Uint8("y"))
	rt.Assume(x != y)
	rt.Assert(Hash128(x, y) != Hash128(y, x), "the order of parts matters")
}
