//verif:pkg plugin/tfd

package tfd

import (
	"time"
	"vsa/internal/zzverif/rt"
)

var zzCellsP35 = [...][2]uint64{{7, 5}, {7, 6}, {8, 5}, {0, 0}}

func zzOpsP35(n int) []Envelope {
	var es []Envelope
	for i := 0; i < n; i++ {
		c := zzCellsP35[rt.Choose("cell", 2+n/3)]
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		e := Envelope{Channel: Channel(rt.Choose("lane", 2)), Footprint: Footprint{KeyID: c[0], Time: TimeFootprint{BucketID: c[1]}}, Delta: d, SeqEnd: uint64(i)}
		es = append(es, e)
	}
	return es
}

func zzSameP35(a, b *State, es []Envelope, msg string) {
	for _, c := range zzCellsP35 {
		rt.Assert(a.Cells()[c] == b.Cells()[c], msg)
	}
	rt.Assert(a.Cells()[[2]uint64{99, 1}] == 0 && b.Cells()[[2]uint64{99, 1}] == 0, "a cell nobody wrote holds nothing")
	for _, c := range zzCellsP35 {
		var want int64
		for _, e := range es {
			if e.Footprint.KeyID == c[0] && e.Footprint.Time.BucketID == c[1] {
				want += e.Delta
			}
		}
		rt.Assert(a.Cells()[c] == want, "a cell holds the sum of its deltas")
	}
}

// Replaying the scalar batches in any order and then the vector envelopes, however they were read back, gives the state
// of applying everything in its original order; replay in two parts gives the same.
// bound: 4 (thorough 5) envelopes of either lane to 3 cells, deltas in +-2^60, every order of either log, the scalar log cut anywhere
func VH_P35_order() {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	es := zzOpsP35(n)
	base := NewState()
	base.BaselineApply(es)
	var sb []SBatch
	var ve []Envelope
	for _, e := range es {
		if e.Channel == ChannelScalar {
			b := SBatch{KeyID: e.Footprint.KeyID, BucketID: e.Footprint.Time.BucketID, NetDelta: e.Delta, SeqEnd: e.SeqEnd}
			i := rt.Choose("s-at", len(sb)+1)
			sb = append(sb, b)
			copy(sb[i+1:], sb[i:])
			sb[i] = b
		} else {
			i := rt.Choose("v-at", len(ve)+1)
			ve = append(ve, e)
			copy(ve[i+1:], ve[i:])
			ve[i] = e
		}
	}
	st := NewState()
	if cut := rt.Choose("cut", 2); cut == 1 && len(sb) > 0 {
		st.Reconstruct(sb[:1], nil)
		sb = sb[1:]
	}
	st.Reconstruct(sb, ve)
	zzSameP35(st, base, es, "replay in any order equals applying in order")
}

// Coalescing and compressing scalar traffic and replaying what remains loses nothing.
// bound: 4 (thorough 5) envelopes of either lane to 3 cells, deltas in +-2^60, a flush anywhere, 2-slot tables that grow, one or two shards, with and without compression
func VH_P35_pipeline() {
	Now = func() time.Time { return time.Unix(1000, 0) }
	n := 4
	if rt.Thorough() {
		n = 5
	}
	es := zzOpsP35(n)
	base := NewState()
	base.BaselineApply(es)
	acc := NewSAccumulator(1+rt.Choose("shards", 2), 1, 1000, time.Hour)
	at := rt.Choose("flush", n)
	squeeze := rt.Choose("vsa", 2) == 1
	st := NewState()
	r := NewVRouter()
	var sb []SBatch
	flush := func() {
		b := acc.FlushAll()
		if squeeze {
			b = SimpleVSA{}.Compress(b)
		}
		sb = append(sb, b...)
	}
	for i, e := range es {
		if i == at {
			flush()
		}
		acc.Ingest(e)
		if e.Channel == ChannelVector {
			r.Route(e.Footprint.KeyID).Enqueue(e)
		}
	}
	flush()
	if squeeze {
		sb = SimpleVSA{}.Compress(sb)
	}
	ve := append(r.Route(8).Drain(), r.Route(7).Drain()...)
	st.Reconstruct(sb, append(ve, r.Route(0).Drain()...))
	zzSameP35(st, base, es, "coalesced, compressed and replayed equals applied in order")
}

// Replay adds up every envelope whatever else it carries: equal or missing sequence numbers, whole-key footprints, audit
// links.
// bound: 3 envelopes of either lane to 2 cells, deltas in +-2^60, any sequence numbers, any footprint flags, identical envelopes included
func VH_P35_fields() {
	var es []Envelope
	var sb []SBatch
	var ve []Envelope
	for i := 0; i < 3; i++ {
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		e := Envelope{Channel: Channel(rt.Choose("lane", 2)), Footprint: Footprint{KeyID: 7, Time: TimeFootprint{BucketID: zzCellsP35[rt.Choose("cell", 2)][1], All: rt.Bool("all")}}, Delta: d, SeqEnd: rt.Uint64("seq")}
		e.Footprint.Scope = e.Channel
		e.HashPrev[15] = byte(rt.Choose("prev", 2))
		es = append(es, e)
		if e.Channel == ChannelScalar {
			sb = append(sb, SBatch{KeyID: e.Footprint.KeyID, BucketID: e.Footprint.Time.BucketID, NetDelta: e.Delta, SeqEnd: e.SeqEnd})
		} else {
			ve = append(ve, e)
		}
	}
	base, st := NewState(), NewState()
	base.BaselineApply(es)
	st.Reconstruct(sb, ve)
	zzSameP35(st, base, es, "replay equals applying in order whatever the envelopes carry")
}
