//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import (
	"errors"
	"sync/atomic"
	"time"
	"vsa"
	"vsa/internal/zzverif/rt"
)

// zzSinkP11 is a persister that records the batches it is given.
type zzSinkP11 struct {
	batches [][]Commit
	fail    bool
}

func (p *zzSinkP11) CommitBatch(c []Commit) error {
	p.batches = append(p.batches, append([]Commit(nil), c...))
	if p.fail {
		return errors.New("persist failed")
	}
	return nil
}
func (p *zzSinkP11) PrintFinalMetrics() {}

func zzInP11(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

func zzAbsP11(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// zzAgeP11 makes the key look untouched for ns nanoseconds.
func zzAgeP11(s *Store, key string, ns int64) {
	s.ForEach(func(k string, v *managedVSA) {
		if k == key {
			atomic.StoreInt64(&v.lastAccessed, time.Now().UnixNano()-ns)
		}
	})
}

// One cycle over two keys: a key is persisted exactly when its vector reached the threshold (and it is armed) or it has
// been idle for the maximum age with something left; what is persisted is its whole vector, once, in one batch.
// bound: 2 keys with any vectors, any threshold and maximum age settings, any idle times not within 0.5 s of the maximum age
func VH_P11_decide() {
	const margin = int64(time.Second / 2)
	st := NewStoreWithOptions(0, vsa.Options{Stripes: 8})
	p := &zzSinkP11{}
	thr := zzInP11("threshold", 0, 1<<50)
	low := zzInP11("low", -1, 1<<50)
	age := zzInP11("maxage", -5, 1<<50)
	w := NewWorker(st, p, thr, low, time.Second, time.Duration(age), time.Hour, time.Hour)
	keys := [2]string{"a", "b"}
	t0 := rt.Now()
	var net [2]int64
	var idle [2]bool
	for i, k := range keys {
		net[i] = zzInP11("net", -(1 << 50), 1<<50)
		since := zzInP11("since", 0, 1<<51)
		rt.Assume(since >= age+margin || since <= age-margin)
		idle[i] = since > age
		st.GetOrCreate(k).Update(net[i])
		zzAgeP11(st, k, since)
	}
	w.runCommitCycle()
	rt.Assume(rt.Now()-t0 < margin)
	want := 0
	for i, k := range keys {
		due := zzAbsP11(net[i]) >= thr || age > 0 && idle[i] && net[i] != 0
		got, vec := 0, int64(0)
		for _, b := range p.batches {
			for _, c := range b {
				if c.Key == k {
					got++
					vec = c.Vector
				}
			}
		}
		if due {
			want++
			rt.Assert(got == 1 && vec == net[i], "a due key is persisted once with its whole vector")
			_, n := st.GetOrCreate(k).State()
			rt.Assert(n == 0, "a persisted vector is folded in memory")
		} else {
			rt.Assert(got == 0, "a key that is not due is not persisted")
			sc, n := st.GetOrCreate(k).State()
			rt.Assert(n == net[i] && sc == 0, "a key that is not due keeps its vector")
		}
	}
	if want > 0 {
		rt.Assert(len(p.batches) == 1 && len(p.batches[0]) == want, "the due keys go out in one batch")
	} else {
		rt.Assert(len(p.batches) == 0, "an empty cycle writes nothing")
	}
}

// Hysteresis: after a threshold commit the key is not threshold-committed again until a cycle has seen it at or below the low mark.
// Any commit, also one for age, disarms it.
// bound: 3 cycles with an update of any size before each, the key idle for any time not within 0.5 s of the maximum age; any high and low watermarks; persist success or failure per cycle
func VH_P11_hysteresis() {
	st := NewStoreWithOptions(0, vsa.Options{Stripes: 8})
	p := &zzSinkP11{}
	thr := zzInP11("threshold", 1, 1<<50)
	low := zzInP11("low", 0, 1<<50)
	const margin = int64(time.Second / 2)
	age := int64(0)
	if rt.Bool("aging") {
		age = zzInP11("maxage", 1, 1<<50)
	}
	w := NewWorker(st, p, thr, low, time.Second, time.Duration(age), time.Hour, time.Hour)
	t0 := rt.Now()
	v := st.GetOrCreate("k")
	armed := true
	net, total, durable := int64(0), int64(0), int64(0)
	for i := 0; i < 3; i++ {
		x := zzInP11("x", -(1 << 50), 1<<50)
		v.Update(x)
		net += x
		total += x
		p.fail = rt.Bool("fail")
		before := len(p.batches)
		old := false
		if age > 0 {
			since := zzInP11("since", 0, 1<<51)
			rt.Assume(since >= age+margin || since <= age-margin)
			old = since > age
			zzAgeP11(st, "k", since)
		}
		w.runCommitCycle()
		rt.Assume(rt.Now()-t0 < margin)
		a := zzAbsP11(net)
		due := a >= thr && (low <= 0 || armed) || old && net != 0
		if a < thr && low > 0 && a <= low {
			armed = true
		}
		rt.Assert((len(p.batches) == before+1) == due, "a commit happens exactly when the key reached the high mark and is armed, or is past the maximum age")
		if due {
			b := p.batches[before]
			rt.Assert(len(b) == 1 && b[0].Key == "k" && b[0].Vector == net, "the whole vector is persisted")
			armed = false
			if !p.fail {
				durable += net
				net = 0
			}
		}
		_, n := v.State()
		rt.Assert(n == net && durable+n == total, "the vector is folded exactly when persisting succeeded")
	}
}
