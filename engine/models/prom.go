// Package m_prom stands in for the Prometheus client: metrics are plain numbers, updated atomically.
package m_prom

import (
	"math"
	"sync/atomic"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
)

// num is a float64 with atomic updates; one update is one step.
type num struct{ bits uint64 }

func (n *num) add(f float64) {
	for {
		o := atomic.LoadUint64(&n.bits)
		if atomic.CompareAndSwapUint64(&n.bits, o, math.Float64bits(math.Float64frombits(o)+f)) {
			return
		}
	}
}
func (n *num) set(f float64) { atomic.StoreUint64(&n.bits, math.Float64bits(f)) }
func (n *num) get() *float64 {
	f := math.Float64frombits(atomic.LoadUint64(&n.bits))
	return &f
}

type Counter struct {
	prometheus.Counter
	name string
	n uint64
	v num
}

func (c *Counter) Inc() { atomic.AddUint64(&c.n, 1) }
func (c *Counter) Add(f float64) {
	if f < 0 {
		panic("counter cannot decrease in value")
	}
	if n := uint64(f); float64(n) == f {
		atomic.AddUint64(&c.n, n)
		return
	}
	c.v.add(f)
}
func (c *Counter) Write(m *dto.Metric) error {
	f := *c.v.get() + float64(atomic.LoadUint64(&c.n))
	m.Counter = &dto.Counter{Value: &f}
	return nil
}

type Gauge struct {
	prometheus.Gauge
	name string
	v num
}

func (c *Gauge) Inc()          { c.v.add(1) }
func (c *Gauge) Dec()          { c.v.add(-1) }
func (c *Gauge) Set(f float64) { c.v.set(f) }
func (c *Gauge) Add(f float64) { c.v.add(f) }
func (c *Gauge) Sub(f float64) { c.v.add(-f) }
func (c *Gauge) Write(m *dto.Metric) error {
	m.Gauge = &dto.Gauge{Value: c.v.get()}
	return nil
}

type Histogram struct {
	prometheus.Histogram
	name string
	n uint64
	v num
}

func (c *Histogram) Observe(f float64) { atomic.AddUint64(&c.n, 1); c.v.add(f) }
func (c *Histogram) Write(m *dto.Metric) error {
	n := atomic.LoadUint64(&c.n)
	m.Histogram = &dto.Histogram{SampleCount: &n, SampleSum: c.v.get()}
	return nil
}

//verif:model github.com/prometheus/client_golang/prometheus.NewCounter
func NewCounter(o prometheus.CounterOpts) prometheus.Counter {
	return &Counter{name: prometheus.BuildFQName(o.Namespace, o.Subsystem, o.Name)}
}

//verif:model github.com/prometheus/client_golang/prometheus.NewGauge
func NewGauge(o prometheus.GaugeOpts) prometheus.Gauge {
	return &Gauge{name: prometheus.BuildFQName(o.Namespace, o.Subsystem, o.Name)}
}

//verif:model github.com/prometheus/client_golang/prometheus.NewHistogram
func NewHistogram(o prometheus.HistogramOpts) prometheus.Histogram {
	return &Histogram{name: prometheus.BuildFQName(o.Namespace, o.Subsystem, o.Name)}
}

//verif:model github.com/prometheus/client_golang/prometheus.MustRegister
func MustRegister(cs ...prometheus.Collector) { registered = append(registered, cs...) }

var registered []prometheus.Collector

//verif:model (*github.com/prometheus/client_golang/prometheus.Registry).Gather
func Gather(r *prometheus.Registry) ([]*dto.MetricFamily, error) {
	var out []*dto.MetricFamily
	for _, c := range registered {
		m, name := new(dto.Metric), ""
		switch c := c.(type) {
		case *Counter:
			name = c.name
			c.Write(m)
		case *Gauge:
			name = c.name
			c.Write(m)
		case *Histogram:
			name = c.name
			c.Write(m)
		default:
			continue
		}
		out = append(out, &dto.MetricFamily{Name: &name, Metric: []*dto.Metric{m}})
	}
	return out, nil
}

//verif:model github.com/prometheus/client_golang/prometheus.NewProcessCollector
func NewProcessCollector(prometheus.ProcessCollectorOpts) prometheus.Collector { return nil }

//verif:model github.com/prometheus/client_golang/prometheus.NewGoCollector
func NewGoCollector(...func(any)) prometheus.Collector { return nil }

//verif:model (*github.com/prometheus/client_golang/prometheus.Registry).MustRegister
func RegMustRegister(r *prometheus.Registry, cs ...prometheus.Collector) {
	registered = append(registered, cs...)
}

//verif:model (*github.com/prometheus/client_golang/prometheus.Registry).Register
func RegRegister(r *prometheus.Registry, c prometheus.Collector) error {
	registered = append(registered, c)
	return nil
}
