//verif:pkg internal/ratelimiter/api
//verif:models prom promhttp

package api

import (
	"fmt"
	"net/http"
	"net/url"
	"vsa"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/zzverif/rt"
)

// zzRespP20 records a response.
type zzRespP20 struct {
	h    http.Header
	code int
	body string
}

func (r *zzRespP20) Header() http.Header { return r.h }
func (r *zzRespP20) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *zzRespP20) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.body += string(b)
	return len(b), nil
}

type zzSrvP20 struct {
	mux    *http.ServeMux
	store  *core.Store
	method string
}

func zzNewP20(init, limit int64, o vsa.Options) *zzSrvP20 {
	st := core.NewStoreWithOptions(init, o)
	mux := http.NewServeMux()
	NewServer(st, limit).RegisterRoutes(mux)
	return &zzSrvP20{mux, st, "GET"}
}

func (s *zzSrvP20) do(path, query string) *zzRespP20 {
	w := &zzRespP20{h: http.Header{}}
	r := &http.Request{Method: s.method, Host: "h", RequestURI: path + "?" + query, URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	s.mux.ServeHTTP(w, r)
	return w
}

func zzInP20(name string, lo, hi int64) int64 {
	x := rt.Int64(name)
	rt.Assume(x >= lo && x <= hi)
	return x
}

// One request from any state: admitted exactly when a unit is available, with exact headers; nothing else changes.
// bound: any initial scalar and limit, any vector from one update and one commit; one check then one release, by GET, POST or HEAD
func VH_P20_one() {
	init, limit := zzInP20("init", -(1<<50), 1<<50), zzInP20("limit", -(1<<50), 1<<50)
	s := zzNewP20(init, limit, vsa.Options{Stripes: 8})
	v := s.store.GetOrCreate("k")
	v.Update(zzInP20("x", -(1 << 50), 1<<50))
	v.Commit(zzInP20("c", -(1 << 50), 1<<50))
	av := v.Available()
	_, n := v.State()
	s.method = [...]string{"GET", "POST", "HEAD"}[rt.Choose("method", 3)]
	w := s.do("/check", "api_key=k")
	rt.Assert((w.code == 200) == (av >= 1), "a request is admitted exactly when a unit is available")
	rt.Assert(w.code == 200 || w.code == 429, "a request is answered 200 or 429")
	left := av
	_, n2 := v.State()
	if w.code == 200 {
		rt.Assert(n2 == n+1, "an admitted request consumes exactly one unit")
		left = v.Available()
		rt.Assert(w.h.Get("X-RateLimit-Status") == "OK" && w.h.Get("Retry-After") == "", "an admitted request reports OK")
	} else {
		rt.Assert(n2 == n && v.Available() == av, "a denied request consumes nothing")
		rt.Assert(w.h.Get("X-RateLimit-Status") == "Exceeded" && w.h.Get("Retry-After") != "", "a denied request reports Exceeded and when to retry")
	}
	rt.Assert(w.h.Get("X-RateLimit-Limit") == fmt.Sprintf("%d", limit), "the limit header is the configured limit")
	rt.Assert(w.h.Get("X-RateLimit-Remaining") == fmt.Sprintf("%d", left), "the remaining header is what is left")
	rt.Assert(s.store.GetOrCreate("k") == v, "the request uses the key's instance")
	w = s.do("/release", "api_key=k")
	_, n3 := v.State()
	rt.Assert(w.code == 204 && w.body == "", "a release is answered 204")
	if n2 > 0 {
		rt.Assert(n3 == n2-1, "a release returns one consumed unit")
	} else {
		rt.Assert(n3 == n2, "a release with nothing consumed changes nothing")
	}
}

// Any sequence of checks and releases of two keys: a key gets at most its limit, and each key counts for itself.
// bound: 5 (thorough 8) requests, each check or release, over 2 keys; any initial scalar from -2 to 4; all four admission gates
func VH_P20_sequence() {
	opts := [...]vsa.Options{{Stripes: 8}, {Stripes: 8, FastPathGuard: 2}, {Stripes: 8, GroupCount: 2, GroupSlack: 1}}
	init := zzInP20("init", -2, 4)
	s := zzNewP20(init, init, opts[rt.Choose("gate", len(opts))])
	var used [2]int64
	keys := [2]string{"api_key=a", "api_key=b"}
	steps := 5
	if rt.Thorough() {
		steps = 8
	}
	for i := 0; i < steps; i++ {
		k := rt.Choose("key", 2)
		if rt.Choose("op", 2) == 0 {
			w := s.do("/check", keys[k])
			if used[k] < init {
				used[k]++
				rt.Assert(w.code == 200 && w.body == "OK", "a request within the key's limit is admitted")
			} else {
				rt.Assert(w.code == 429, "a request beyond the key's limit is denied")
			}
			rt.Assert(w.h.Get("X-RateLimit-Remaining") == fmt.Sprintf("%d", init-used[k]), "the remaining header counts this key's own use")
		} else {
			w := s.do("/release", keys[k])
			if used[k] > 0 {
				used[k]--
			}
			rt.Assert(w.code == 204, "a release is answered 204")
		}
	}
	for i, q := range [2]string{"a", "b"} {
		_, n := s.store.GetOrCreate(q).State()
		rt.Assert(n == used[i], "what a key has used is what was admitted minus what was released")
	}
}

// The key is the api_key parameter: a missing or empty one is refused without touching any key; distinct ones never mix.
// bound: queries with 0-2 parameters, key values of 1 letter; any initial scalar
func VH_P20_key() {
	init := zzInP20("init", 1, 1<<50)
	s := zzNewP20(init, init, vsa.Options{Stripes: 8})
	path := [...]string{"/check", "/release"}[rt.Choose("path", 2)]
	k := rt.String("k", 1)
	rt.Assume(k[0] >= 'a' && k[0] <= 'z')
	q := [...]string{"", "api_key=", "key=" + k, "API_KEY=" + k, "api_key=" + k, "x=1&api_key=" + k, "api_key=" + k + "&x=1"}[rt.Choose("form", 7)]
	has := len(q) > 8 && q[:8] == "api_key=" || len(q) > 4 && q[:4] == "x=1&"
	w := s.do(path, q)
	if has {
		_, n := s.store.GetOrCreate(k).State()
		rt.Assert(w.code < 400, "a request with a key is served")
		if path == "/check" {
			rt.Assert(n == 1, "the request counts for its key")
		}
		_, m := s.store.GetOrCreate(k + "2").State()
		rt.Assert(m == 0, "another key is untouched")
	} else {
		rt.Assert(w.code == 400, "a request without a key is refused")
		_, n := s.store.GetOrCreate(k).State()
		_, m := s.store.GetOrCreate("").State()
		rt.Assert(n == 0 && m == 0, "a refused request consumes nothing")
	}
}

// Two keys are the same key exactly when they are equal byte for byte.
// bound: two keys of 1-2 bytes, each any unreserved character (letters of both cases, digits, - _ . ~), each used once, with a limit of 1
func VH_P20_separate() {
	s := zzNewP20(1, 1, vsa.Options{Stripes: 8})
	var k [2]string
	for i := range k {
		k[i] = rt.String("k", 1+rt.Choose("n", 2))
		for j := 0; j < len(k[i]); j++ {
			c := k[i][j]
			ok := c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-' || c == '_' || c == '.' || c == '~'
			rt.Assume(ok)
		}
	}
	rt.Assert(s.do("/check", "api_key="+k[0]).code == 200, "the first request of a key is admitted")
	if rt.Choose("op", 2) == 0 {
		rt.Assert((s.do("/check", "api_key="+k[1]).code == 200) == (k[0] != k[1]), "keys share a quota exactly when they are equal")
	} else {
		s.do("/release", "api_key="+k[1])
		rt.Assert((s.do("/check", "api_key="+k[0]).code == 200) == (k[0] == k[1]), "a release returns a unit to its own key only")
	}
}

// Concurrent requests for one key: exactly as many are admitted as units were available.
// verif: preempt=2 ticks=0
// bound: 2 concurrent checks (or a check and a release) of one key with 0-2 units available; exact, grouped and fast-path gates; up to 2 preemptions
func VH_P20_race() {
	opts := [...]vsa.Options{{Stripes: 8}, {Stripes: 8, FastPathGuard: 1}, {Stripes: 8, GroupCount: 2}}
	init := int64(rt.Choose("init", 3))
	s := zzNewP20(init, init, opts[rt.Choose("gate", len(opts))])
	if rt.Choose("ops", 2) == 0 {
		var a, b *zzRespP20
		rt.Par(func() { a = s.do("/check", "api_key=k") }, func() { b = s.do("/check", "api_key=k") })
		got := int64(0)
		for _, w := range [...]*zzRespP20{a, b} {
			if w.code == 200 {
				got++
			}
		}
		rt.Assert(got == init || got == 2 && init > 2, "as many requests are admitted as units were available")
		_, n := s.store.GetOrCreate("k").State()
		rt.Assert(n == got, "each admitted request consumed one unit")
	} else {
		rt.Assume(init > 0)
		var a, b *zzRespP20
		s.do("/check", "api_key=k")
		rt.Par(func() { a = s.do("/check", "api_key=k") }, func() { b = s.do("/release", "api_key=k") })
		_, n := s.store.GetOrCreate("k").State()
		rt.Assert(b.code == 204 && (a.code == 200 || init == 1), "a release never takes from another request")
		want := int64(0)
		if a.code == 200 {
			want = 1
		}
		rt.Assert(n == want, "a release returns exactly one unit")
	}
}
