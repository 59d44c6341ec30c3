//verif:pkg plugin/tfd

package tfd

import (
	"time"
	"vsa/internal/zzverif/rt"
)

func zzPickP32() Envelope {
	c := zzCellsP32[rt.Choose("cell", len(zzCellsP32))]
	d := rt.Int64("delta")
	rt.Assume(d >= -(1<<60) && d <= 1<<60)
	return Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: c[0], Time: TimeFootprint{BucketID: c[1]}}, Delta: d, SeqEnd: rt.Uint64("seq")}
}

// Fencing a key flushes exactly that key's cells; nothing is lost or flushed twice, also for cells written afterwards.
// bound: 2 deltas, a flush of one key, 1 more delta and a final flush; easily confused cells, any sizes; 4-slot table
func VH_P32_fence() {
	Now = func() time.Time { return time.Unix(1000, 0) }
	s := newSShard(2, 1000, time.Hour)
	es := []Envelope{zzPickP32(), zzPickP32()}
	for _, e := range es {
		s.Ingest(e)
	}
	key := rt.Uint64("fence")
	var first []SBatch
	s.FlushKey(key, &first)
	for _, b := range first {
		rt.Assert(b.KeyID == key, "only the fenced key is flushed")
	}
	for _, e := range es {
		ws, _ := zzWantP32(es, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		gs, n := zzSumP32(first, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		if e.Footprint.KeyID == key {
			rt.Assert(n == 1 && gs == ws, "every cell of the fenced key is flushed")
		} else {
			rt.Assert(n == 0, "cells of other keys are not flushed")
		}
	}
	es = append(es, zzPickP32())
	s.Ingest(es[2])
	s.Flush(&first)
	for _, e := range es {
		ws, _ := zzWantP32(es, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		gs, _ := zzSumP32(first, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		rt.Assert(gs == ws, "fencing loses and duplicates nothing")
	}
}

// A fence that removes a cell in the middle of a probe chain neither splits nor loses the cells behind it, also when the
// table grows afterwards.
// bound: 5 deltas of any size to 4 colliding cells of 3 keys in a 4-slot table; one fence after the first 2 and a final flush
func VH_P32_chain() {
	Now = func() time.Time { return time.Unix(1000, 0) }
	s := newSShard(2, 1000, time.Hour)
	cell := func() Envelope {
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		// the packed ids put every cell at the start of the same chain
		c := [...][2]uint64{{0, 0}, {4, 0}, {8, 0}, {4, 2}}[rt.Choose("cell", 4)]
		return Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: c[0], Time: TimeFootprint{BucketID: c[1]}}, Delta: d, SeqEnd: 7}
	}
	var es []Envelope
	for i := 0; i < 2; i++ {
		es = append(es, cell())
		s.Ingest(es[i])
	}
	var first, rest []SBatch
	s.FlushKey(4*uint64(rt.Choose("fence", 3)), &first)
	for i := 2; i < 5; i++ {
		es = append(es, cell())
		s.Ingest(es[i])
	}
	s.Flush(&rest)
	for _, e := range es {
		ws, _ := zzWantP32(es, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		g1, _ := zzSumP32(first, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		g2, n := zzSumP32(rest, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		rt.Assert(g1+g2 == ws, "fencing loses and duplicates nothing")
		rt.Assert(n <= 1, "each cell is flushed once")
	}
}
