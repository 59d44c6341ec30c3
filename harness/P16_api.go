//verif:pkg internal/ratelimiter/api
//verif:models prom promhttp

package api

import (
	"net/http"
	"net/url"
	"vsa"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/zzverif/rt"
)

type zzRespP16 struct {
	h    http.Header
	code int
}

func (r *zzRespP16) Header() http.Header         { return r.h }
func (r *zzRespP16) Write(b []byte) (int, error) { return len(b), nil }
func (r *zzRespP16) WriteHeader(c int)           { r.code = c }

// The totals the service reports are those of its requests: every check is an attempt, every 200 an admit, every
// release that returned a unit a refund.
// bound: 4 requests, each a check or release of one of 2 keys or a check without a key, initial scalar -1 to 3
func VH_P16_requests() {
	init := rt.Int64("init")
	rt.Assume(init >= -1 && init <= 3)
	st := core.NewStoreWithOptions(init, vsa.Options{Stripes: 8})
	mux := http.NewServeMux()
	NewServer(st, init).RegisterRoutes(mux)
	a0, b0, c0 := core.ZZTotals()
	var att, adm, ref int64
	keys := [2]string{"a", "b"}
	for i := 0; i < 4; i++ {
		k := keys[rt.Choose("key", 2)]
		op := rt.Choose("op", 3)
		path, q := [3]string{"/check", "/release", "/check"}[op], "api_key="+k
		if op == 2 {
			q = "api_key="
		}
		_, before := st.GetOrCreate(k).State()
		w := &zzRespP16{h: http.Header{}}
		mux.ServeHTTP(w, &http.Request{Method: "GET", Host: "h", RequestURI: path, URL: &url.URL{Path: path, RawQuery: q}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1})
		_, after := st.GetOrCreate(k).State()
		if op == 2 {
			rt.Assert(w.code == 400, "a request without a key is refused")
		} else if path == "/check" {
			att++
			if w.code == 200 {
				adm++
			}
		} else {
			ref += before - after
		}
	}
	a, b, c := core.ZZTotals()
	rt.Assert(a-a0 == att, "every check of a key is counted as an attempt")
	rt.Assert(b-b0 == adm, "every admitted request is counted as an admit")
	rt.Assert(c-c0 == ref, "every returned unit is counted as a refund")
}
