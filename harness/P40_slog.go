//verif:pkg internal/sinks
//verif:models os

package sinks

import (
	"os"
	"time"
	"vsa/internal/zzverif/rt"
	tfd "vsa/plugin/tfd"
)

func zzPathP40() string {
	if rt.Symbolic() {
		return "/zz/s.jsonl"
	}
	d, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		panic(err)
	}
	return d + "/s.jsonl"
}

func zzOpenP40(path string) *SBatchFileSink {
	s, err := NewSBatchFileSink(path)
	rt.Assert(err == nil && s != nil, "the log opens")
	return s
}

// zzBatchP40 has a number of digits that does not depend on its value.
func zzBatchP40(i int) tfd.SBatch {
	d := rt.Int64("delta")
	rt.Assume(d >= 10 && d <= 99)
	return tfd.SBatch{KeyID: 18446744073709551615 - uint64(i), BucketID: uint64(i), NetDelta: d, SeqEnd: 7}
}

func zzSameP40(path string, want []tfd.SBatch) bool {
	got, err := ReadAllSLog(path)
	if err != nil || len(got) != len(want) {
		return false
	}
	ok := true
	for i := range want {
		ok = ok && got[i] == want[i]
	}
	return ok
}

// What is written is read back exactly: after Flush and after Close, across reopening.
// verif: preempt=0 ticks=0
// bound: 4 batches in calls of 0-2, one field any value of its type, or equal batches in a row, or else the flush timer running out at any time; the log closed and reopened between any two calls
func VH_P40_roundtrip() {
	path := zzPathP40()
	s := zzOpenP40(path)
	var want []tfd.SBatch
	field := rt.Choose("field", 6)
	t0 := rt.Now()
	quick := func() { // the flush timer runs out at any time only when no field is arbitrary
		rt.Assume(field == 4 || rt.Now()-t0 < int64(100*time.Millisecond))
	}
	s.OnSBatches(nil)
	for k := 0; k < 2; k++ {
		b := []tfd.SBatch{zzBatchP40(k), {}}
		if k == 0 {
			switch field {
			case 0:
				b[1].KeyID = rt.Uint64("keyid")
			case 1:
				b[1].BucketID = rt.Uint64("bucket")
			case 2:
				b[1].NetDelta = rt.Int64("delta")
			case 3:
				b[1].SeqEnd = rt.Uint64("seq")
			}
		}
		if field == 5 {
			b[1] = b[0] // equal records are records all the same
		}
		n, then := 2, 0
		if k == 0 || field == 4 {
			n, then = 1+rt.Choose("per call", 2), rt.Choose("then", 3)
		}
		s.OnSBatches(b[:n])
		quick()
		s.OnSBatches(b[n:])
		quick()
		want = append(want, b...)
		switch then {
		case 1:
			rt.Assert(s.Flush() == nil, "the log flushes")
			rt.Assert(zzSameP40(path, want), "what was flushed is read back exactly")
		case 2:
			rt.Assert(s.Close() == nil, "the log closes")
			rt.Assert(zzSameP40(path, want), "what was written before Close is read back exactly")
			s = zzOpenP40(path)
		}
	}
	rt.Assert(s.Close() == nil, "the log closes")
	rt.Assert(zzSameP40(path, want), "what was written before Close is read back exactly")
}

// After a crash that cuts the file at any byte, the log yields exactly the records that were complete, and what is
// appended after reopening is read back in full behind them.
// verif: preempt=0 ticks=0
// bound: 2 records (deltas any two-digit numbers) flushed, the file cut at any byte offset, then 2 more records flushed after reopening; thorough: a second cut at any byte and one record after it
func VH_P40_crash() {
	path := zzPathP40()
	t0 := rt.Now()
	s := zzOpenP40(path)
	var recs []tfd.SBatch // with the file offset at which each is complete
	var ends []int64
	app := func(s *SBatchFileSink, n int) {
		for i := 0; i < n; i++ {
			b := zzBatchP40(len(recs))
			s.OnSBatches([]tfd.SBatch{b})
			rt.Assume(rt.Now()-t0 < int64(100*time.Millisecond))
			rt.Assert(s.Flush() == nil, "the log flushes")
			st, err := os.Stat(path)
			rt.Assert(err == nil, "the log exists")
			recs, ends = append(recs, b), append(ends, st.Size())
		}
	}
	app(s, 2)
	rounds := 1
	if rt.Thorough() {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		st, _ := os.Stat(path)
		cut := int64(rt.Choose("cut", int(st.Size())+1))
		rt.Assert(os.Truncate(path, cut) == nil, "the file is cut")
		var left []tfd.SBatch
		var le []int64
		whole := false
		for i, r := range recs {
			if ends[i] <= cut {
				left, le = append(left, r), append(le, ends[i])
			} else if ends[i] == cut+1 {
				whole = true // all of the record but its newline: recovered if the reader can
				left, le = append(left, r), append(le, ends[i])
			}
		}
		got, err := ReadAllSLog(path)
		rt.Assert(err == nil, "a torn log is readable")
		if whole && len(got) == len(left)-1 {
			left, le = left[:len(got)], le[:len(got)]
		}
		rt.Assert(zzSameP40(path, left), "a torn log yields exactly its complete records")
		recs, ends = left, le
		s = zzOpenP40(path)
		app(s, 2-k)
		rt.Assert(zzSameP40(path, recs), "records appended after a crash follow the complete ones")
	}
	rt.Assert(s.Close() == nil, "the log closes")
	rt.Assert(zzSameP40(path, recs), "records appended after a crash follow the complete ones")
}

// Writers do not garble each other: every record is there once, each writer's in its order.
// verif: preempt=2 ticks=0
// bound: 2 writers of 2 records each and a flusher, all interleavings with at most 2 (thorough 3) preemptions, data races reported
func VH_P40_writers() {
	path := zzPathP40()
	s := zzOpenP40(path)
	rt.Races(true)
	w := func(k uint64) func() {
		return func() {
			s.OnSBatches([]tfd.SBatch{{KeyID: k, SeqEnd: 1}})
			s.OnSBatches([]tfd.SBatch{{KeyID: k, SeqEnd: 2}})
		}
	}
	rt.Par(w(1), w(2), func() { _ = s.Flush() })
	rt.Races(false)
	rt.Assert(s.Close() == nil, "the log closes")
	got, err := ReadAllSLog(path)
	rt.Assert(err == nil && len(got) == 4, "every record is in the log once")
	var last [3]uint64
	for _, b := range got {
		rt.Assert(b.KeyID == 1 || b.KeyID == 2, "records are not garbled")
		rt.Assert(b.SeqEnd == last[b.KeyID]+1, "a writer's records keep their order")
		last[b.KeyID] = b.SeqEnd
	}
}

// A write that comes 100 ms or more after the last flush puts everything written so far on disk.
// verif: preempt=0 ticks=0
// bound: 2 records at any times
func VH_P40_bounded() {
	path := zzPathP40()
	s := zzOpenP40(path)
	t1 := rt.Now()
	a, b := zzBatchP40(0), zzBatchP40(1)
	s.OnSBatches([]tfd.SBatch{a})
	if rt.Choose("flush", 2) == 1 {
		rt.Assert(s.Flush() == nil, "the log flushes")
		t1 = rt.Now()
	}
	if !rt.Symbolic() {
		time.Sleep(101 * time.Millisecond)
	}
	t2 := rt.Now()
	rt.Assume(t2-t1 > int64(100*time.Millisecond))
	s.OnSBatches([]tfd.SBatch{b})
	got, err := ReadAllSLog(path)
	rt.Assert(err == nil, "the log is readable")
	n := len(got)
	early := n >= 1 // the first write may have flushed already, which restarts the clock
	rt.Assert(n == 2 && got[0] == a && got[1] == b || n <= 1 && early, "a write long after the last flush puts everything on disk")
	rt.Assert(s.Close() == nil, "the log closes")
	rt.Assert(zzSameP40(path, []tfd.SBatch{a, b}), "nothing is lost or doubled")
}
