//verif:pkg plugin/tfd

package tfd

import (
	"time"
	"vsa/internal/zzverif/rt"
)

type zzSinkP36 struct {
	out     []SBatch
	empty   bool
	squeeze bool
}

func (s *zzSinkP36) OnSBatches(b []SBatch) {
	rt.Yield() // a slow sink
	s.empty = s.empty || len(b) == 0
	for _, x := range b {
		s.out = append(s.out, x)
	}
}

func (s *zzSinkP36) sum(key uint64) (r int64) {
	for _, b := range s.out {
		if b.KeyID == key {
			r += b.NetDelta
		}
	}
	return
}

func zzEnvP36(key uint64) Envelope {
	d := rt.Int64("delta")
	rt.Assume(d >= -(1<<60) && d <= 1<<60)
	return Envelope{Channel: ChannelScalar, Footprint: Footprint{KeyID: key}, Delta: d, SeqEnd: 3}
}

func zzSvcP36(buffer int) (*SService, *zzSinkP36) {
	Now = func() time.Time { return time.Unix(1000, 0) }
	sink := &zzSinkP36{}
	var v VSATransformer
	if rt.Choose("vsa", 2) == 1 {
		v = SimpleVSA{}
		sink.squeeze = true
	}
	return NewSService(NewSAccumulator(1, 2, 1000, time.Hour), v, sink, SServiceOptions{Buffer: buffer, FlushInterval: time.Millisecond}), sink
}

// Everything accepted before a flush or a stop has reached the sink exactly once when it returns; ticks change nothing.
// verif: preempt=2 ticks=1
// bound: 2 deltas to one or two cells, buffer of 1, one ticker firing, a flush between or after, compression on or off; up to 2 preemptions
func VH_P36_deliver() {
	s, sink := zzSvcP36(1)
	a, b := zzEnvP36(5), zzEnvP36(5+uint64(rt.Choose("other", 2)))
	s.Start()
	s.Start()
	s.Ingest(a)
	if rt.Choose("flush", 2) == 1 {
		s.Flush()
		rt.Assert(sink.sum(5) == a.Delta, "a flush delivers what was accepted before it")
	}
	v := b
	v.Channel = ChannelVector
	s.Ingest(v)
	rt.Assert(s.TryIngest(v), "a vector envelope is ignored by the scalar service")
	s.Ingest(b)
	s.Stop()
	want5, want6 := a.Delta, int64(0)
	if b.Footprint.KeyID == 5 {
		want5 += b.Delta
	} else {
		want6 = b.Delta
	}
	rt.Assert(sink.sum(5) == want5 && sink.sum(6) == want6, "a stop delivers everything accepted, exactly once")
	rt.Assert(!sink.empty, "the sink is not called for nothing")
	for _, x := range sink.out {
		rt.Assert(!sink.squeeze || x.NetDelta != 0, "what compression drops is not delivered")
	}
	n := len(sink.out)
	s.Stop()
	s.Flush()
	rt.Assert(len(sink.out) == n, "nothing is delivered twice")
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "no goroutine is left after a stop")
}

// Concurrent producers: what each hand-over accepted is delivered once, what was refused is not.
// verif: preempt=2 ticks=0
// bound: 2 concurrent producers (blocking and refusing), buffer of 1, then stop; up to 2 preemptions
func VH_P36_producers() {
	s, sink := zzSvcP36(1)
	a, b, c := zzEnvP36(5), zzEnvP36(5), zzEnvP36(6)
	s.Start()
	var okb, okc bool
	rt.Par(func() { s.Ingest(a) }, func() { okb = s.TryIngest(b); okc = s.TryIngest(c) })
	s.Stop()
	want5, want6 := a.Delta, int64(0)
	if okb {
		want5 += b.Delta
	}
	if okc {
		want6 = c.Delta
	}
	rt.Assert(sink.sum(5) == want5 && sink.sum(6) == want6, "accepted deltas are delivered once, refused ones are not")
}

// Stop and Flush may be called by several callers at once: all return, and nothing is lost or repeated.
// verif: preempt=2 ticks=0
// bound: 2 concurrent calls among Stop and Flush after one delta; up to 2 preemptions
func VH_P36_stops() {
	s, sink := zzSvcP36(2)
	a := zzEnvP36(5)
	s.Start()
	s.Ingest(a)
	second := rt.Choose("second", 2) == 1
	rt.Par(func() { s.Stop() }, func() {
		if second {
			s.Stop()
		} else {
			s.Flush()
		}
		rt.Assert(sink.sum(5) == a.Delta, "what was accepted is delivered when a stop or flush returns")
	})
	rt.Assert(sink.sum(5) == a.Delta, "what was accepted is delivered once")
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "no goroutine is left after a stop")
}

// Concurrent flushes each deliver what was accepted before them.
// verif: preempt=2 ticks=0
// bound: 2 concurrent callers, each handing over one delta and flushing; up to 2 preemptions
func VH_P36_flushes() {
	s, sink := zzSvcP36(2)
	a, b := zzEnvP36(5), zzEnvP36(6)
	s.Start()
	rt.Par(func() {
		s.Ingest(a)
		s.Flush()
		rt.Assert(sink.sum(5) == a.Delta, "a flush delivers what was accepted before it")
	}, func() {
		s.Ingest(b)
		s.Flush()
		rt.Assert(sink.sum(6) == b.Delta, "a flush delivers what was accepted before it")
	})
	s.Stop()
	rt.Assert(sink.sum(5) == a.Delta && sink.sum(6) == b.Delta, "everything is delivered once")
}

// With no sink, and with default options, the service still starts, flushes and stops.
// verif: preempt=1 ticks=1
// bound: no sink, no compression, default buffer and cadence (options of zero or below)
func VH_P36_defaults() {
	s := NewSService(NewSAccumulator(0, 0, 0, 0), nil, nil, SServiceOptions{Buffer: -rt.Choose("buffer", 2), FlushInterval: -time.Duration(rt.Choose("every", 2))})
	s.Start()
	rt.Assert(s.TryIngest(zzEnvP36(1)), "the default buffer accepts")
	s.Flush()
	s.Stop()
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "no goroutine is left after a stop")
}
