//verif:pkg internal/ratelimiter/core
//verif:models prom

package core

import (
	"time"
	"vsa"
	"vsa/internal/zzverif/rt"
)

func zzCountP10(s *Store) (n int) {
	s.ForEach(func(key string, v *managedVSA) { n++ })
	return
}

// A key always maps to one instance and different keys never share one.
// bound: two keys of up to 2 arbitrary bytes each, looked up three times; any initial scalar
func VH_P10_identity() {
	init := rt.Int64("init")
	s := NewStoreWithOptions(init, vsa.Options{Stripes: 8})
	k1, k2 := rt.String("k1", rt.Choose("n1", 3)), rt.String("k2", rt.Choose("n2", 3))
	a := s.GetOrCreate(k1)
	a.Update(1)
	b := s.GetOrCreate(k2)
	rt.Assert((a == b) == (k1 == k2), "two keys share an instance exactly when they are equal")
	rt.Assert(s.GetOrCreate(k1) == a && s.GetOrCreate(k2) == b, "a key keeps its instance")
	sa, na := a.State()
	rt.Assert(sa == init && na == 1, "a new instance starts at the configured scalar")
	want := 2
	if k1 == k2 {
		want = 1
	}
	rt.Assert(zzCountP10(s) == want, "iteration visits every key once")
	s.ForEach(func(key string, v *managedVSA) {
		rt.Assert(key == k1 && v.instance == a || key == k2 && v.instance == b, "iteration pairs each key with its instance")
	})
	s.Delete(k1)
	if k1 != k2 {
		rt.Assert(zzCountP10(s) == 1 && s.GetOrCreate(k2) == b, "deleting a key leaves the others")
	} else {
		rt.Assert(zzCountP10(s) == 0, "a deleted key is gone")
	}
	c := s.GetOrCreate(k1)
	rt.Assert(c != a, "a deleted key comes back fresh")
	sc, nc := c.State()
	rt.Assert(sc == init && nc == 0, "a recreated key starts from the configured scalar")
}

// Concurrent first lookups of a key agree on one instance and leave no discarded background goroutine behind.
// verif: preempt=2 ticks=0
// bound: 2 lookups of one key with background aggregators on; up to 2 preemptions
func VH_P10_race() {
	s := NewStoreWithOptions(10, vsa.Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1})
	var a, b *vsa.VSA
	rt.Par(func() { a = s.GetOrCreate("k"); a.Update(1) }, func() { b = s.GetOrCreate("k"); b.Update(2) })
	rt.Assert(a == b && s.GetOrCreate("k") == a, "concurrent first lookups agree on one instance")
	_, n := a.State()
	rt.Assert(n == 3, "no update is lost in a discarded instance")
	rt.Quiesce()
	cnt := zzCountP10(s)
	rt.Assert(rt.Live() <= cnt, "only live keys have background goroutines")
	s.CloseAll()
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "CloseAll stops every background goroutine")
	s.Delete("k")
	rt.Assert(zzCountP10(s) == cnt-1, "closing does not remove keys, deleting does")
}

// Deleting while others look up or delete: every removed instance is stopped, every kept one stays reachable.
// verif: preempt=2 ticks=0
// bound: a delete racing with a lookup and a second delete; up to 2 preemptions
func VH_P10_delete_race() {
	s := NewStoreWithOptions(10, vsa.Options{Stripes: 8, UseCachedGate: true, CacheInterval: 1})
	s.GetOrCreate("k")
	var b *vsa.VSA
	rt.Par(func() { s.Delete("k") }, func() { b = s.GetOrCreate("k") }, func() { s.Delete("k") })
	_ = b
	cnt := zzCountP10(s)
	rt.Quiesce()
	rt.Assert(rt.Live() <= cnt, "a removed instance has no background goroutine left")
	rt.Assert(cnt <= 1, "a key is listed at most once")
	s.CloseAll()
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "CloseAll stops every background goroutine")
}

// Closing the store ends the background work of every key.
// verif: preempt=0 ticks=1
// bound: up to 3 keys with cached gates, one of them deleted before; CloseAll once or twice
func VH_P10_closeall() {
	st := NewStoreWithOptions(9, vsa.Options{Stripes: 8, UseCachedGate: true, CacheInterval: time.Hour})
	keys := []string{"a", "b", "c"}[:rt.Choose("n", 4)]
	for _, k := range keys {
		st.GetOrCreate(k).Update(1)
	}
	if rt.Bool("del") {
		st.Delete("a")
	}
	st.CloseAll()
	if rt.Bool("twice") {
		st.CloseAll()
	}
	rt.Quiesce()
	rt.Assert(rt.Live() <= 0, "no background goroutine of any key is left")
	for i, k := range keys {
		_, net := st.GetOrCreate(k).State()
		rt.Assert(net == 1 || i == 0 && net == 0, "closing keeps every key's state")
	}
}

// The same with a third caller that looks another key up.
// verif: preempt=2 ticks=0 tier=thorough
// bound: 2 lookups of one key and one of another; up to 2 preemptions
func VH_P10_race3() {
	s := NewStoreWithOptions(10, vsa.Options{Stripes: 8})
	var a, b, c *vsa.VSA
	rt.Par(func() { a = s.GetOrCreate("k"); a.Update(1) }, func() { b = s.GetOrCreate("k"); b.Update(2) }, func() { c = s.GetOrCreate("j"); c.Update(4) })
	_, n := c.State()
	rt.Assert(n == 4 && c != a && s.GetOrCreate("j") == c, "another key is not affected")
	_, n = a.State()
	rt.Assert(a == b && s.GetOrCreate("k") == a && n == 3, "concurrent first lookups agree on one instance")
}
