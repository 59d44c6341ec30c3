//verif:pkg plugin/tfd

package tfd

import (
	"time"
	"vsa/internal/zzverif/rt"
)

func zzEnvP32(i int) Envelope {
	d := rt.Int64("delta")
	rt.Assume(d >= -(1<<60) && d <= 1<<60)
	return Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: rt.Uint64("key"), Time: TimeFootprint{BucketID: rt.Uint64("bucket")}}, Delta: d, SeqEnd: rt.Uint64("seq")}
}

// zzSumP32 adds up the batches of a cell; seq is the sequence number of the latest one (batches come out in order).
func zzSumP32(bs []SBatch, key, bucket uint64) (sum int64, n int) {
	for _, b := range bs {
		if b.KeyID == key && b.BucketID == bucket {
			n++
			sum += b.NetDelta
		}
	}
	return
}

func zzWantP32(es []Envelope, key, bucket uint64) (sum int64, n int) {
	for _, e := range es {
		if e.Footprint.KeyID == key && e.Footprint.Time.BucketID == bucket {
			n++
			sum += e.Delta
		}
	}
	return
}

func zzCheckP32(es []Envelope, out []SBatch) {
	for _, b := range out {
		ws, n := zzWantP32(es, b.KeyID, b.BucketID)
		rt.Assert(n > 0, "only cells that were written are flushed")
		rt.Assert(b.NetDelta == ws, "a flushed cell carries the sum of its deltas")
		none := uint64(1)
		for _, e := range es {
			if e.Footprint.KeyID == b.KeyID && e.Footprint.Time.BucketID == b.BucketID {
				rt.Assert(b.SeqEnd >= e.SeqEnd, "a flushed cell carries its latest sequence number")
				d := b.SeqEnd ^ e.SeqEnd
				none &= (d | -d) >> 63
			}
		}
		rt.Assert(none == 0, "the sequence number of a cell is one of its deltas'")
	}
	for _, e := range es {
		_, n := zzSumP32(out, e.Footprint.KeyID, e.Footprint.Time.BucketID)
		rt.Assert(n == 1, "each cell is flushed once")
	}
}

// zzAccP32 makes an accumulator whose flush thresholds are always or never reached.
func zzAccP32(shards, order int) *SAccumulator {
	Now = func() time.Time { return time.Unix(1000, 0) }
	if rt.Choose("due", 2) == 1 {
		return NewSAccumulator(shards, order, 0, -1)
	}
	return NewSAccumulator(shards, order, 1000, time.Hour)
}

// zzCellsP32 are cells that are easily confused: id 0, the same key in buckets differing in the lowest or highest bit, a
// packed id of 0, the same bucket of different keys.
var zzCellsP32 = [...][2]uint64{{0, 0}, {7, 5}, {7, 5 | 1<<63}, {2, 0x1e3779b97f4a7c15}, {7, 4}, {5, 7}}

// Whatever cells the deltas hit - colliding ids, id 0, more cells than slots - every cell is flushed once with its exact sum.
// bound: 3 (thorough 4) deltas of any size and sequence number to any of 6 easily confused cells, tables of 2 slots that grow, 1 or 2 shards; then a second round
func VH_P32_coalesce() {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	acc := zzAccP32(1+rt.Choose("shards", 2), 1)
	var es []Envelope
	rt.MustTerminate(4000, "a full table does not hang the accumulator")
	for i := 0; i < n; i++ {
		c := zzCellsP32[rt.Choose("cell", len(zzCellsP32))]
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		e := Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: c[0], Time: TimeFootprint{BucketID: c[1]}}, Delta: d, SeqEnd: rt.Uint64("seq")}
		es = append(es, e)
		acc.Ingest(e)
	}
	rt.EndTerminate()
	zzCheckP32(es, acc.FlushAll())
	rt.Assert(len(acc.FlushAll()) == 0, "flushed cells are gone")
	acc.Ingest(es[0])
	zzCheckP32(es[:1], acc.FlushAll())
}

// Any two cells: they are merged exactly when they are the same cell.
// bound: 2 deltas to any 64-bit buckets of 5 key ids, 2-slot table
func VH_P32_any() {
	ids := [...]uint64{0, 1, 7, 1 << 63, 0xf1de83e19937733d}
	acc := zzAccP32(1, 1)
	es := []Envelope{zzEnvP32(0), zzEnvP32(1)}
	for i := range es {
		es[i].Footprint.KeyID = ids[rt.Choose("id", len(ids))]
	}
	acc.Ingest(es[0])
	acc.Ingest(es[1])
	zzCheckP32(es, acc.FlushAll())
}

// More distinct cells than the table has slots, and cells whose packed ids are equal or zero.
// bound: 6 cells in a 2-slot table; two cells differing only in the top bucket bit or with a packed id of 0
func VH_P32_full() {
	acc := zzAccP32(1, 1)
	var es []Envelope
	rt.MustTerminate(8000, "a full table does not hang the accumulator")
	top := rt.Bool("top")
	for i := 0; i < 6; i++ {
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		e := Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: uint64(i / 2), Time: TimeFootprint{BucketID: uint64(i % 2)}}, Delta: d, SeqEnd: uint64(i)}
		if top {
			e.Footprint.Time.BucketID <<= 63
		}
		es = append(es, e)
		acc.Ingest(e)
	}
	rt.EndTerminate()
	zzCheckP32(es, acc.FlushAll())
}

// Vector envelopes never enter the scalar accumulator.
// bound: one vector envelope with any contents, one scalar envelope with any delta; shard and table sizes of -1 to 1 (defaults kick in)
func VH_P32_lane() {
	acc := NewSAccumulator(rt.Choose("shards", 3)-1, rt.Choose("order", 3)-1, 10, time.Hour)
	e := Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: 7, Time: TimeFootprint{BucketID: 5}}, Delta: rt.Int64("delta"), SeqEnd: rt.Uint64("seq")}
	v := zzEnvP32(1)
	v.Channel = ChannelVector
	acc.Ingest(v)
	rt.Assert(len(acc.FlushAll()) == 0, "a vector envelope is not accumulated")
	acc.Ingest(e)
	acc.Ingest(v)
	zzCheckP32([]Envelope{e}, acc.FlushAll())
}
