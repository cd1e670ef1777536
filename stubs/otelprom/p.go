// Package prometheus is a small offline stand-in for the OpenTelemetry Prometheus exporter.
package prometheus

import (
	"context"
	"strings"

	prom "github.com/prometheus/client_golang/prometheus"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/metric"
)

type config struct {
	reg prom.Registerer
	agg metric.AggregationSelector
}
type Option interface{ apply(*config) }
type optFn func(*config)

func (f optFn) apply(c *config)               { f(c) }
func WithRegisterer(r prom.Registerer) Option { return optFn(func(c *config) { c.reg = r }) }
func WithoutUnits() Option                    { return optFn(func(*config) {}) }
func WithoutScopeInfo() Option                { return optFn(func(*config) {}) }
func WithoutTargetInfo() Option               { return optFn(func(*config) {}) }
func WithoutCounterSuffixes() Option          { return optFn(func(*config) {}) }
func WithNamespace(string) Option             { return optFn(func(*config) {}) }
func WithAggregationSelector(a metric.AggregationSelector) Option {
	return optFn(func(c *config) { c.agg = a })
}

type Exporter struct {
	cfg config
	mp  *metric.MeterProvider
}

func New(opts ...Option) (*Exporter, error) {
	c := config{reg: prom.DefaultRegisterer, agg: metric.DefaultAggregationSelector}
	for _, o := range opts {
		o.apply(&c)
	}
	e := &Exporter{cfg: c}
	return e, c.reg.Register(e)
}
func (e *Exporter) Aggregation(k metric.InstrumentKind) metric.Aggregation { return e.cfg.agg(k) }
func (e *Exporter) Bind(m *metric.MeterProvider)                           { e.mp = m }
func (e *Exporter) Shutdown(context.Context) error                         { return nil }
func (e *Exporter) ForceFlush(context.Context) error                       { return nil }
func (e *Exporter) Describe(chan<- *prom.Desc)                             {}
func (e *Exporter) Collect(ch chan<- prom.Metric) {
	ch <- prom.MustNewConstMetric(prom.NewDesc("target_info", "Target metadata", nil, nil), prom.GaugeValue, 1)
	if e.mp == nil {
		return
	}
	for _, s := range e.mp.Collect(context.Background()) {
		for _, p := range s.Points {
			var names, vals []string
			set := p.Attrs
			for _, kv := range set.ToSlice() {
				names = append(names, sanitize(kv.Key))
				vals = append(vals, strings.ToValidUTF8(kv.Value.Emit(), "\uFFFD"))
			}
			switch s.Kind {
			case metric.InstrumentKindHistogram:
				b := map[float64]uint64{}
				for i, bound := range s.Bounds {
					b[bound] = p.Buckets[i]
				}
				m, err := prom.NewConstHistogram(prom.NewDesc(s.Name, s.Description, names, nil), p.Count, p.Sum, b, vals...)
				if err == nil {
					ch <- m
				}
			case metric.InstrumentKindCounter, metric.InstrumentKindObservableCounter:
				m, err := prom.NewConstMetric(prom.NewDesc(s.Name+"_total", s.Description, names, nil), prom.CounterValue, p.Sum, vals...)
				if err == nil {
					ch <- m
				}
			default:
				m, err := prom.NewConstMetric(prom.NewDesc(s.Name, s.Description, names, nil), prom.GaugeValue, p.Sum, vals...)
				if err == nil {
					ch <- m
				}
			}
		}
	}
}
func sanitize(k attribute.Key) string { return strings.ReplaceAll(string(k), ".", "_") }
