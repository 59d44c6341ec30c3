//verif:pkg plugin/tfd

package tfd

import "vsa/internal/zzverif/rt"

func zzFootP31() Footprint {
	f := Footprint{KeyID: rt.Uint64("key"), Time: TimeFootprint{BucketID: rt.Uint64("bucket"), All: rt.Bool("all")}}
	f.Scope = Channel(rt.Choose("scope", 2))
	return f
}

// touches reports whether f may touch the cell (key, bucket).
func zzTouchesP31(f Footprint, key, bucket uint64) bool {
	return f.KeyID == key && (f.Time.All || f.Time.BucketID == bucket)
}

// Two operations may run in parallel exactly when both are scalar and no cell is touched by both.
// bound: every pair of footprints, and every cell
func VH_P31_cells() {
	a, b := zzFootP31(), zzFootP31()
	d := a.Disjoint(b)
	rt.Assert(d == b.Disjoint(a), "disjointness is symmetric")
	rt.Assert(!a.Disjoint(a), "an operation is not disjoint from itself")
	if a.Scope != ChannelScalar || b.Scope != ChannelScalar {
		rt.Assert(!d, "vector operations are never parallel")
		return
	}
	k, bu := rt.Uint64("cellkey"), rt.Uint64("cellbucket")
	if d {
		rt.Assert(!(zzTouchesP31(a, k, bu) && zzTouchesP31(b, k, bu)), "disjoint operations touch no common cell")
	} else {
		// a common cell exists: one of the two named buckets of the common key
		rt.Assert(zzTouchesP31(a, a.KeyID, a.Time.BucketID) && zzTouchesP31(b, a.KeyID, a.Time.BucketID) ||
			zzTouchesP31(a, a.KeyID, b.Time.BucketID) && zzTouchesP31(b, a.KeyID, b.Time.BucketID), "operations that share no cell are disjoint")
	}
}

// Operations on different keys or different windows classified from names are parallel, all-bucket ones are not.
// bound: keys of 1 byte, buckets of 0-1 bytes
func VH_P31_classified() {
	mk := func() (Footprint, string, string) {
		k, b := rt.String("key", 1), rt.String("bucket", rt.Choose("nb", 2))
		ch, fp, _, err := Classify(Op{Key: k, Bucket: b, Amount: 1, IsSingleKey: true, IsConservativeDelta: true})
		rt.Assert(err == nil && ch == ChannelScalar, "a safe operation is scalar")
		return fp, k, b
	}
	f1, k1, b1 := mk()
	f2, k2, b2 := mk()
	rt.Assert(f1.Disjoint(f2) == (k1 != k2 || b1 != "" && b2 != "" && b1 != b2), "classified operations are parallel exactly when their cells differ")
}
