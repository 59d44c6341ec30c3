//verif:pkg plugin/tfd

package tfd

import "vsa/internal/zzverif/rt"

// Every operation goes to the scalar lane exactly when the rules allow it, and carries its own footprint and amount.
// bound: keys and buckets of 0-2 arbitrary bytes, every combination of rule flags, any amount and sequence number
func VH_P30_rules() {
	op := Op{
		Key: rt.String("key", rt.Choose("nk", 3)), Bucket: rt.String("bucket", rt.Choose("nb", 3)), Amount: rt.Int64("amount"),
		IsBackdated: rt.Bool("backdated"), IsCrossKey: rt.Bool("cross"), ChangesPolicy: rt.Bool("policy"),
		NeedsExternalDecision: rt.Bool("external"), IsGlobal: rt.Bool("global"),
		IsSingleKey: rt.Bool("single"), IsConservativeDelta: rt.Bool("conservative"), SeqEnd: rt.Uint64("seq"),
	}
	ch, fp, delta, err := Classify(op)
	rt.Assert((err != nil) == (op.Key == ""), "an operation is refused exactly when it has no key")
	if err != nil {
		rt.Assert(ch != ChannelScalar, "a refused operation is not sent to the scalar lane")
		return
	}
	scalar := op.IsSingleKey && op.IsConservativeDelta && !op.IsBackdated && !op.IsCrossKey && !op.ChangesPolicy && !op.NeedsExternalDecision && !op.IsGlobal
	rt.Assert((ch == ChannelScalar) == scalar, "an operation is scalar exactly when it is single-key, conservative and not forced to the vector lane")
	rt.Assert(ch == ChannelScalar || ch == ChannelVector, "an operation is scalar or vector")
	rt.Assert(fp.Scope == ch, "the footprint carries the lane")
	rt.Assert(delta == op.Amount, "the amount is unchanged")
	rt.Assert(fp.KeyID == HashKey(op.Key), "the footprint names the operation's key")
	rt.Assert(fp.Time.All == (op.Bucket == ""), "an operation without a bucket covers all buckets")
	if op.Bucket != "" {
		rt.Assert(fp.Time.BucketID == HashKey(op.Bucket), "the footprint names the operation's bucket")
	}
}

// Ids are functions of the string alone and short strings never collide.
// bound: two strings of up to 2 arbitrary bytes
func VH_P30_ids() {
	n := 3
	a, b := rt.String("a", rt.Choose("na", n)), rt.String("b", rt.Choose("nb", n))
	rt.Assert((HashKey(a) == HashKey(b)) == (a == b), "short names have distinct ids")
}

// No part of a long name is ignored: names that differ in one byte have distinct ids, wherever the byte is.
// bound: names of 16, 33, 64 or 130 bytes differing in one arbitrary byte: the first, the middle or one of the last 3
func VH_P30_long() {
	n := [...]int{16, 33, 64, 130}[rt.Choose("len", 4)]
	p := [...]int{n - 1, n - 2, n - 3, n / 2, 0}[rt.Choose("pos", 5)]
	a, b := make([]byte, n), make([]byte, n)
	for i := range a {
		a[i] = byte('a' + i%23)
		b[i] = a[i]
	}
	if p >= n-3 {
		a[p], b[p] = rt.String("x", 1)[0], rt.String("y", 1)[0]
		rt.Assume(a[p] != b[p])
	} else {
		b[p]++
	}
	rt.Assert(HashKey(string(a)) != HashKey(string(b)), "long names that differ in one byte have distinct ids")
	op := Op{Key: string(a), Bucket: string(b), Amount: 1, IsSingleKey: true, IsConservativeDelta: true}
	_, fa, _, err := Classify(op)
	op.Key, op.Bucket = op.Bucket, op.Key
	_, fb, _, err2 := Classify(op)
	rt.Assert(err == nil && err2 == nil, "long names are accepted")
	rt.Assert(fa.KeyID != fb.KeyID && fa.Time.BucketID != fb.Time.BucketID, "long names that differ in one byte are different cells")
}
