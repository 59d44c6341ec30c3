//verif:pkg plugin/tfd

package tfd

import "vsa/internal/zzverif/rt"

func zzVecP34(key uint64) Envelope {
	return Envelope{Channel: ChannelVector, Footprint: Footprint{KeyID: key, Scope: ChannelVector}, Delta: rt.Int64("delta"), SeqEnd: rt.Uint64("seq")}
}

func zzPipeP34() *Pipeline {
	return NewPipeline(PipelineOptions{Shards: 1, OrderPow2: 2, CountThresh: 100, TimeCap: 1 << 40, FlushInterval: 1 << 50, Buffer: 4})
}

// Vector envelopes handled at the same time are each queued and persisted once, in one order per key.
// verif: preempt=2
// bound: 2 (thorough 3) concurrent Handle calls to one or two keys with any sequence numbers
func VH_P34_handle() {
	n := 2
	if rt.Thorough() {
		n = 3
	}
	p := zzPipeP34()
	keys := []uint64{5, 5 + uint64(rt.Choose("other", 2)), 5}
	es := make([]Envelope, n)
	fs := make([]func(), n)
	var logged []Envelope
	for i := range es {
		es[i] = zzVecP34(keys[i])
		fs[i] = func() { p.Handle(es[i], func(e Envelope) { logged = append(logged, e) }) }
	}
	rt.Races(true)
	rt.Par(fs...)
	rt.Races(false)
	{
		rt.Assert(len(logged) == n, "every vector envelope is persisted once")
		total := 0
		for _, k := range []uint64{5, 6} {
			d := p.DrainV(k)
			total += len(d)
			i := 0
			for _, e := range logged {
				if e.Footprint.KeyID == k {
					rt.Assert(i < len(d) && d[i].SeqEnd == e.SeqEnd && d[i].Delta == e.Delta && d[i].HashPrev == e.HashPrev, "queue and log agree on a key's envelopes and their order")
					rt.Assert(e.HashPrev == Hash128(k, e.SeqEnd), "the persisted envelope carries its audit link")
					i++
				}
			}
			rt.Assert(i == len(d), "the queue holds what was persisted")
		}
		rt.Assert(total == n, "every vector envelope is queued once")
		for _, e := range es {
			m := 0
			for _, l := range logged {
				if l.SeqEnd == e.SeqEnd && l.Delta == e.Delta && l.Footprint.KeyID == e.Footprint.KeyID {
					m++
				}
			}
			rt.Assert(m >= 1, "what is persisted is what was handled")
		}
	}
}

// A drain running at the same time as an arrival takes the envelope or leaves it, never loses or repeats it.
// verif: preempt=2
// bound: one queued envelope with any delta; a Handle and two drains of the same key at the same time
func VH_P34_drain() {
	p := zzPipeP34()
	a, b := zzVecP34(5), zzVecP34(5)
	a.SeqEnd, b.SeqEnd = 10, 9
	p.Handle(a, nil)
	var d1, d2 []Envelope
	rt.Races(true)
	rt.Par(func() { p.Handle(b, nil) }, func() { d1 = p.DrainV(5) }, func() { d2 = p.DrainV(5) })
	rt.Races(false)
	{
		d3 := p.DrainV(5)
		rt.Assert(len(d1)+len(d2)+len(d3) == 2, "every envelope is drained exactly once")
		na, nb := 0, 0
		for _, d := range [][]Envelope{d1, d2, d3} {
			for i, e := range d {
				if e.SeqEnd == 10 {
					na++
					rt.Assert(i == 0 && e.Delta == a.Delta, "earlier envelopes come first, unchanged")
				} else {
					nb++
					rt.Assert(e.SeqEnd == 9 && e.Delta == b.Delta, "an envelope is drained unchanged")
				}
			}
		}
		rt.Assert(na == 1 && nb == 1, "both envelopes are drained")
	}
}

type zzSinkP34 struct{ out []SBatch }

func (s *zzSinkP34) OnSBatches(b []SBatch) {
	rt.Yield() // a slow sink
	s.out = append(s.out, b...)
}

// Each envelope goes to its own lane: scalar ones reach the batch sink and never the V log, vector ones the reverse.
// verif: ticks=1
// bound: 2 envelopes of either lane to one key and bucket, any deltas, then stop; a buffer of one, one tick
func VH_P34_lanes() {
	sink := &zzSinkP34{}
	p := NewPipeline(PipelineOptions{Shards: 1, OrderPow2: 1, CountThresh: 100, TimeCap: 1 << 40, FlushInterval: 1 << 50, Buffer: 1, SSink: sink})
	var s, v int64
	var vn int
	var logged []Envelope
	es := []Envelope{zzVecP34(5), zzVecP34(5)}
	p.Start()
	for _, e := range es {
		rt.Assume(e.Delta > -(1<<60) && e.Delta < 1<<60)
		if rt.Choose("scalar", 2) == 1 {
			e.Channel, e.Footprint.Scope = ChannelScalar, ChannelScalar
			s += e.Delta
		} else {
			v += e.Delta
			vn++
		}
		p.Handle(e, func(e Envelope) { logged = append(logged, e) })
	}
	p.Stop()
	var gs, gv int64
	for _, b := range sink.out {
		rt.Assert(b.KeyID == 5 && b.BucketID == 0, "a scalar delta keeps its cell")
		gs += b.NetDelta
	}
	rt.Assert(gs == s, "scalar deltas reach the batch sink, and nothing else does")
	for _, e := range logged {
		gv += e.Delta
	}
	rt.Assert(len(logged) == vn && gv == v, "vector envelopes reach the V log, and nothing else does")
	rt.Assert(len(p.DrainV(5)) == vn, "vector envelopes wait in the queue")
}
