//verif:pkg internal/sinks
//verif:models os

package sinks

import (
	"os"
	"time"
	"vsa/internal/zzverif/rt"
	tfd "vsa/plugin/tfd"
)

func zzPathP41() string {
	if rt.Symbolic() {
		return "/zz/v.jsonl"
	}
	d, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		panic(err)
	}
	return d + "/v.jsonl"
}

func zzOpenP41(path string) *VEnvFileSink {
	s, err := NewVEnvFileSink(path)
	rt.Assert(err == nil && s != nil, "the log opens")
	return s
}

// zzEnvP41 has a number of digits that does not depend on its value.
func zzEnvP41(i int) tfd.Envelope {
	d := rt.Int64("delta")
	rt.Assume(d >= 10 && d <= 99)
	e := tfd.Envelope{Channel: tfd.ChannelVector, Delta: d, SeqEnd: 18446744073709551615 - uint64(i)}
	e.Footprint = tfd.Footprint{KeyID: 1 << 63, Time: tfd.TimeFootprint{BucketID: 9223372036854775807, All: i == 0}, Scope: tfd.ChannelVector}
	e.HashPrev = [16]byte{0, 9, 10, 99, 100, 255, 15: 1}
	return e
}

func zzSameP41(path string, want []tfd.Envelope) bool {
	got, err := ReadAllVLog(path)
	if err != nil || len(got) != len(want) {
		return false
	}
	ok := true
	for i := range want {
		ok = ok && got[i] == want[i]
	}
	return ok
}

// What is written is read back exactly: after Flush and after Close, across reopening.
// verif: preempt=0 ticks=0
// bound: 4 envelopes in calls of 0-2 or one by one, one field any value of its type, or equal envelopes in a row, or else the flush timer running out at any time; the log closed and reopened between any two calls
func VH_P41_roundtrip() {
	path := zzPathP41()
	s := zzOpenP41(path)
	var want []tfd.Envelope
	field := rt.Choose("field", 8)
	t0 := rt.Now()
	quick := func() { // the flush timer runs out at any time only when no field is arbitrary
		rt.Assume(field == 6 || rt.Now()-t0 < int64(100*time.Millisecond))
	}
	s.AppendAll(nil)
	for k := 0; k < 2; k++ {
		b := []tfd.Envelope{zzEnvP41(k), {}}
		if k == 0 {
			switch field {
			case 0:
				b[1].Footprint.KeyID = rt.Uint64("keyid")
			case 1:
				b[1].Footprint.Time.BucketID = rt.Uint64("bucket")
				b[1].Footprint.Time.All = rt.Bool("all")
			case 2:
				b[1].Delta = rt.Int64("delta")
			case 3:
				b[1].SeqEnd = rt.Uint64("seq")
			case 4:
				b[1].HashPrev[rt.Choose("byte", 16)] = rt.Uint8("hash")
			case 5:
				b[1].Channel, b[1].Footprint.Scope = tfd.Channel(rt.Choose("ch", 2)), tfd.Channel(rt.Choose("scope", 2))
			}
		}
		if field == 7 {
			b[1] = b[0] // equal records are records all the same
		}
		n, then := 2, 0
		if k == 0 || field == 6 {
			n, then = 1+rt.Choose("per call", 2), rt.Choose("then", 3)
		}
		s.AppendAll(b[:n])
		quick()
		if n < 2 {
			s.Append(b[1])
		}
		quick()
		want = append(want, b...)
		switch then {
		case 1:
			rt.Assert(s.Flush() == nil, "the log flushes")
			rt.Assert(zzSameP41(path, want), "what was flushed is read back exactly")
		case 2:
			rt.Assert(s.Close() == nil, "the log closes")
			rt.Assert(zzSameP41(path, want), "what was written before Close is read back exactly")
			s = zzOpenP41(path)
		}
	}
	rt.Assert(s.Close() == nil, "the log closes")
	rt.Assert(zzSameP41(path, want), "what was written before Close is read back exactly")
}

// After a crash that cuts the file at any byte, the log yields exactly the records that were complete, and what is
// appended after reopening is read back in full behind them.
// verif: preempt=0 ticks=0
// bound: 2 records (deltas any two-digit numbers, HashPrev fixed) flushed, the file cut at any byte offset, then 2 more records flushed after reopening; thorough: a second cut at any byte and one record after it
func VH_P41_crash() {
	path := zzPathP41()
	t0 := rt.Now()
	s := zzOpenP41(path)
	var recs []tfd.Envelope // with the file offset at which each is complete
	var ends []int64
	app := func(s *VEnvFileSink, n int) {
		for i := 0; i < n; i++ {
			b := zzEnvP41(len(recs))
			s.Append(b)
			rt.Assume(rt.Now()-t0 < int64(100*time.Millisecond))
			rt.Assert(s.Flush() == nil, "the log flushes")
			st, err := os.Stat(path)
			rt.Assert(err == nil, "the log exists")
			recs, ends = append(recs, b), append(ends, st.Size())
		}
	}
	app(s, 2)
	rounds := 1
	if rt.Thorough() {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		st, _ := os.Stat(path)
		cut := int64(rt.Choose("cut", int(st.Size())+1))
		rt.Assert(os.Truncate(path, cut) == nil, "the file is cut")
		var left []tfd.Envelope
		var le []int64
		whole := false
		for i, r := range recs {
			if ends[i] <= cut {
				left, le = append(left, r), append(le, ends[i])
			} else if ends[i] == cut+1 {
				whole = true // all of the record but its newline: recovered if the reader can
				left, le = append(left, r), append(le, ends[i])
			}
		}
		got, err := ReadAllVLog(path)
		rt.Assert(err == nil, "a torn log is readable")
		if whole && len(got) == len(left)-1 {
			left, le = left[:len(got)], le[:len(got)]
		}
		rt.Assert(zzSameP41(path, left), "a torn log yields exactly its complete records")
		recs, ends = left, le
		s = zzOpenP41(path)
		app(s, 2-k)
		rt.Assert(zzSameP41(path, recs), "records appended after a crash follow the complete ones")
	}
	rt.Assert(s.Close() == nil, "the log closes")
	rt.Assert(zzSameP41(path, recs), "records appended after a crash follow the complete ones")
}

// Writers do not garble each other: every record is there once, each writer's in its order.
// verif: preempt=2 ticks=0
// bound: 2 writers of 2 records each and a flusher, all interleavings with at most 2 (thorough 3) preemptions, data races reported
func VH_P41_writers() {
	path := zzPathP41()
	s := zzOpenP41(path)
	rt.Races(true)
	w := func(k uint64) func() {
		return func() {
			s.Append(tfd.Envelope{Delta: int64(k), SeqEnd: 1})
			s.AppendAll([]tfd.Envelope{{Delta: int64(k), SeqEnd: 2}})
		}
	}
	rt.Par(w(1), w(2), func() { _ = s.Flush() })
	rt.Races(false)
	rt.Assert(s.Close() == nil, "the log closes")
	got, err := ReadAllVLog(path)
	rt.Assert(err == nil && len(got) == 4, "every record is in the log once")
	var last [3]uint64
	for _, b := range got {
		rt.Assert(b.Delta == 1 || b.Delta == 2, "records are not garbled")
		rt.Assert(b.SeqEnd == last[b.Delta]+1, "a writer's records keep their order")
		last[b.Delta] = b.SeqEnd
	}
}

// A write that comes 100 ms or more after the last flush puts everything written so far on disk.
// verif: preempt=0 ticks=0
// bound: 2 records at any times
func VH_P41_bounded() {
	path := zzPathP41()
	s := zzOpenP41(path)
	t1 := rt.Now()
	a, b := zzEnvP41(0), zzEnvP41(1)
	s.AppendAll([]tfd.Envelope{a})
	if rt.Choose("flush", 2) == 1 {
		rt.Assert(s.Flush() == nil, "the log flushes")
		t1 = rt.Now()
	}
	if !rt.Symbolic() {
		time.Sleep(101 * time.Millisecond)
	}
	t2 := rt.Now()
	rt.Assume(t2-t1 > int64(100*time.Millisecond))
	if rt.Choose("append", 2) == 1 {
		s.Append(b)
	} else {
		s.AppendAll([]tfd.Envelope{b})
	}
	got, err := ReadAllVLog(path)
	rt.Assert(err == nil, "the log is readable")
	n := len(got)
	early := n >= 1 // the first write may have flushed already, which restarts the clock
	rt.Assert(n == 2 && got[0] == a && got[1] == b || n <= 1 && early, "a write long after the last flush puts everything on disk")
	rt.Assert(s.Close() == nil, "the log closes")
	rt.Assert(zzSameP41(path, []tfd.Envelope{a, b}), "nothing is lost or doubled")
}
