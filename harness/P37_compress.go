//verif:pkg plugin/tfd

package tfd

import "vsa/internal/zzverif/rt"

var zzCellsP37 = [...][2]uint64{{0, 0}, {7, 5}, {7, 5 | 1<<63}, {2, 0x1e3779b97f4a7c15}, {7, 4}}

func zzCheckP37(in, out []SBatch) {
	for _, b := range in {
		var sum int64
		for _, c := range in {
			if c.KeyID == b.KeyID && c.BucketID == b.BucketID {
				sum += c.NetDelta
			}
		}
		n := 0
		for _, o := range out {
			if o.KeyID == b.KeyID && o.BucketID == b.BucketID {
				n++
				rt.Assert(o.NetDelta == sum, "a cell keeps its exact sum")
				none := uint64(1)
				for _, c := range in {
					if c.KeyID == b.KeyID && c.BucketID == b.BucketID {
						rt.Assert(o.SeqEnd >= c.SeqEnd, "a cell keeps its latest sequence number")
						d := o.SeqEnd ^ c.SeqEnd
						none &= (d | -d) >> 63
					}
				}
				rt.Assert(none == 0, "a cell's sequence number is one of its batches'")
			}
		}
		if sum == 0 {
			rt.Assert(n == 0, "cells that cancel out are dropped")
		} else {
			rt.Assert(n == 1, "every cell that changed comes out once")
		}
	}
	for _, o := range out {
		n := 0
		for _, b := range in {
			if o.KeyID == b.KeyID && o.BucketID == b.BucketID {
				n++
			}
		}
		rt.Assert(n > 0, "no cell appears from nowhere")
	}
}

func zzSqueezeP37(in []SBatch) []SBatch {
	rt.MustTerminate(400000, "compression terminates")
	out := SimpleVSA{}.Compress(append([]SBatch(nil), in...))
	rt.EndTerminate()
	return out
}

func zzPickP37(cells int) SBatch {
	c := zzCellsP37[rt.Choose("cell", cells)]
	d := rt.Int64("delta")
	rt.Assume(d >= -(1<<60) && d <= 1<<60)
	return SBatch{KeyID: c[0], BucketID: c[1], NetDelta: d, SeqEnd: rt.Uint64("seq")}
}

// Compression keeps every cell's exact sum and latest sequence number, merges duplicates and drops cells that cancel out.
// bound: 0 to 4 (thorough 5) batches for 5 easily confused cells, deltas in +-2^60 (zero included), any sequence numbers
func VH_P37_small() {
	most := 4
	if rt.Thorough() {
		most = 5
	}
	n := rt.Choose("n", most+1)
	var in []SBatch
	for i := 0; i < n; i++ {
		in = append(in, zzPickP37(len(zzCellsP37)))
	}
	zzCheckP37(in, zzSqueezeP37(in))
}

// The same around the size where the implementation changes its table.
// bound: 63 to 67 batches of which 2 are symbolic (first, last, anywhere between), the rest fixed and to 30 cells
func VH_P37_large() {
	n := 63 + rt.Choose("n", 5)
	var in []SBatch
	for i := 0; i < n; i++ {
		in = append(in, SBatch{KeyID: uint64(i % 6), BucketID: uint64(i % 5), NetDelta: int64(i - 20), SeqEnd: uint64(1000 - i)})
	}
	at := [...]int{0, 31, n - 1}
	a := rt.Choose("at", 3)
	for _, i := range []int{at[a], at[(a+1)%3]} {
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		in[i].NetDelta, in[i].SeqEnd = d, rt.Uint64("seq")
	}
	zzCheckP37(in, zzSqueezeP37(in))
}

// Distinct cells are never merged, whatever their ids hash to.
// bound: 2 batches to any 64-bit buckets of 4 key ids
func VH_P37_any() {
	ids := [...]uint64{0, 7, 1 << 63, 0xf1de83e19937733d}
	in := []SBatch{zzPickP37(1), zzPickP37(1)}
	for i := range in {
		in[i].KeyID, in[i].BucketID = ids[rt.Choose("id", len(ids))], rt.Uint64("bucket")
		rt.Assume(in[i].NetDelta > 0)
	}
	zzCheckP37(in, zzSqueezeP37(in))
}

// Batches that share no cell all come out, however many there are.
// bound: 1 to 5, 8, 9, 16, 63 to 67 or 100 batches to distinct cells, two deltas symbolic in +-2^60
func VH_P37_distinct() {
	n := [...]int{1, 2, 3, 4, 5, 8, 9, 16, 63, 64, 65, 66, 67, 100}[rt.Choose("n", 14)]
	var in []SBatch
	for i := 0; i < n; i++ {
		in = append(in, SBatch{KeyID: uint64(i % 3), BucketID: uint64(i), NetDelta: int64(i + 1), SeqEnd: uint64(i)})
	}
	for _, i := range []int{0, n - 1} {
		d := rt.Int64("delta")
		rt.Assume(d >= -(1<<60) && d <= 1<<60)
		in[i].NetDelta = d
	}
	zzCheckP37(in, zzSqueezeP37(in))
}
