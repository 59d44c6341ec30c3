//verif:pkg internal/ratelimiter/api
//verif:models prom promhttp

package api

import (
	"net/http"
	"net/url"
	"vsa"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/telemetry/churn"
	"vsa/internal/zzverif/rt"

	"github.com/prometheus/client_golang/prometheus"
)

type zzRespP50 struct {
	h    http.Header
	code int
}

func (r *zzRespP50) Header() http.Header { return r.h }
func (r *zzRespP50) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *zzRespP50) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return len(b), nil
}

func zzNaiveP50() (v float64) {
	mfs, err := prometheus.DefaultGatherer.Gather()
	rt.Assert(err == nil, "the metrics can be gathered")
	for _, mf := range mfs {
		if mf.GetName() == "vsa_naive_writes_total" {
			v = mf.Metric[0].Counter.GetValue()
		}
	}
	return
}

// The naive baseline is the number of requests the API admitted.
// verif: preempt=0 ticks=0
// bound: 3 requests (check, release, or check without a key) on 2 keys, 0..2 units each, telemetry on or off, sampling all or nothing
func VH_P50_admits() {
	on := rt.Bool("on")
	churn.Enable(churn.Config{Enabled: on, SampleRate: float64(rt.Choose("rate", 2))})
	init := rt.Int64("init")
	rt.Assume(init >= 0 && init <= 2)
	mux := http.NewServeMux()
	NewServer(core.NewStoreWithOptions(init, vsa.Options{Stripes: 8}), 2).RegisterRoutes(mux)
	want := zzNaiveP50()
	for i := 0; i < 3; i++ {
		path := []string{"/check", "/release"}[rt.Choose("path", 2)]
		q := []string{"api_key=a", "api_key=b", ""}[rt.Choose("key", 3)]
		w := &zzRespP50{h: http.Header{}}
		m := "GET"
		if path == "/release" {
			m = "POST"
		}
		mux.ServeHTTP(w, &http.Request{Method: m, Host: "h", RequestURI: path + "?" + q, URL: &url.URL{Path: path, RawQuery: q}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1})
		if on && path == "/check" && w.code == 200 {
			want++
		}
		rt.Assert(zzNaiveP50() == want, "naive_writes_total counts exactly the admitted requests")
	}
}
