// Package metric is a small offline stand-in for the OpenTelemetry metric SDK. It aggregates
// counters, gauges and histograms in memory; readers (the stub Prometheus exporter) and test
// harnesses can take snapshots of it.
package metric

import (
	"context"
	"sort"
	"sync"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindCounter InstrumentKind = iota + 1
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
	InstrumentKindObservableCounter
	InstrumentKindObservableUpDownCounter
	InstrumentKindObservableGauge
	InstrumentKindGauge
)

type Aggregation interface{}
type AggregationDefault struct{}
type AggregationSum struct{}
type AggregationLastValue struct{}
type AggregationDrop struct{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}
type AggregationSelector func(InstrumentKind) Aggregation

func DefaultAggregationSelector(ik InstrumentKind) Aggregation {
	switch ik {
	case InstrumentKindHistogram:
		return AggregationExplicitBucketHistogram{Boundaries: []float64{0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000}}
	case InstrumentKindObservableGauge, InstrumentKindGauge:
		return AggregationLastValue{}
	}
	return AggregationSum{}
}

// Reader is what the stub exporter implements.
type Reader interface {
	Aggregation(InstrumentKind) Aggregation
	Bind(*MeterProvider)
}
type Option interface{ apply(*MeterProvider) }
type optFn func(*MeterProvider)

func (f optFn) apply(m *MeterProvider) { f(m) }
func WithReader(r Reader) Option {
	return optFn(func(m *MeterProvider) { m.reader = r; r.Bind(m) })
}
func WithResource(*resource.Resource) Option { return optFn(func(*MeterProvider) {}) }
func WithView(...any) Option                 { return optFn(func(*MeterProvider) {}) }

type Point struct {
	Attrs   attribute.Set
	Sum     float64
	Count   uint64
	Buckets []uint64 // cumulative per boundary
}
type Instrument struct {
	Name, Description, Unit string
	Kind                    InstrumentKind
	Bounds                  []float64
	mu                      sync.Mutex
	points                  map[attribute.Distinct]*Point
	callbacks               []metric.Int64Callback
}
type MeterProvider struct {
	reader Reader
	mu     sync.Mutex
	instrs []*Instrument
}

func NewMeterProvider(opts ...Option) *MeterProvider {
	m := &MeterProvider{}
	for _, o := range opts {
		o.apply(m)
	}
	return m
}
func (m *MeterProvider) Meter(string, ...metric.MeterOption) metric.Meter { return &meter{m} }
func (m *MeterProvider) Shutdown(context.Context) error                   { return nil }
func (m *MeterProvider) ForceFlush(context.Context) error                 { return nil }

type Snapshot struct {
	Name, Description string
	Kind              InstrumentKind
	Bounds            []float64
	Points            []Point
}

// Collect runs the observable callbacks and returns all the current points.
func (m *MeterProvider) Collect(ctx context.Context) []Snapshot {
	m.mu.Lock()
	instrs := append([]*Instrument(nil), m.instrs...)
	m.mu.Unlock()
	var out []Snapshot
	for _, in := range instrs {
		if len(in.callbacks) > 0 {
			o := &int64obs{points: map[attribute.Distinct]*Point{}}
			for _, cb := range in.callbacks {
				_ = cb(ctx, o)
			}
			in.mu.Lock()
			in.points = o.points
			in.mu.Unlock()
		}
		in.mu.Lock()
		s := Snapshot{Name: in.Name, Description: in.Description, Kind: in.Kind, Bounds: in.Bounds}
		keys := make([]string, 0)
		byKey := map[string]*Point{}
		for _, p := range in.points {
			k := ""
			for _, kv := range p.Attrs.ToSlice() {
				k += string(kv.Key) + "\x00" + kv.Value.Emit() + "\x01"
			}
			keys = append(keys, k)
			byKey[k] = p
		}
		sort.Strings(keys)
		for _, k := range keys {
			p := *byKey[k]
			p.Buckets = append([]uint64(nil), p.Buckets...)
			s.Points = append(s.Points, p)
		}
		in.mu.Unlock()
		out = append(out, s)
	}
	return out
}

type int64obs struct{ points map[attribute.Distinct]*Point }

func (o *int64obs) Observe(v int64, opts ...metric.ObserveOption) {
	a := metric.Attributes(opts)
	o.points[a.Equivalent()] = &Point{Attrs: a, Sum: float64(v), Count: 1}
}

type meter struct{ m *MeterProvider }

func (mt *meter) add(name string, k InstrumentKind, c metric.InstrumentConfig) *Instrument {
	in := &Instrument{Name: name, Description: c.Description, Unit: c.Unit, Kind: k, points: map[attribute.Distinct]*Point{}, callbacks: c.Int64Callbacks}
	if k == InstrumentKindHistogram {
		var agg Aggregation = DefaultAggregationSelector(k)
		if mt.m.reader != nil {
			agg = mt.m.reader.Aggregation(k)
		}
		if h, ok := agg.(AggregationExplicitBucketHistogram); ok {
			in.Bounds = append([]float64(nil), h.Boundaries...)
		}
		if len(c.Buckets) > 0 {
			in.Bounds = c.Buckets
		}
	}
	mt.m.mu.Lock()
	mt.m.instrs = append(mt.m.instrs, in)
	mt.m.mu.Unlock()
	return in
}
func (in *Instrument) point(a attribute.Set) *Point {
	d := a.Equivalent()
	p := in.points[d]
	if p == nil {
		p = &Point{Attrs: a, Buckets: make([]uint64, len(in.Bounds))}
		in.points[d] = p
	}
	return p
}
func (in *Instrument) sum(v float64, a attribute.Set) {
	in.mu.Lock()
	p := in.point(a)
	p.Sum += v
	p.Count++
	in.mu.Unlock()
}
func (in *Instrument) rec(v float64, a attribute.Set) {
	in.mu.Lock()
	p := in.point(a)
	if in.Kind == InstrumentKindGauge {
		p.Sum = v
	} else {
		p.Sum += v
	}
	p.Count++
	for i, b := range in.Bounds {
		if v <= b {
			p.Buckets[i]++
		}
	}
	in.mu.Unlock()
}

type ctr struct{ *Instrument }

func (c ctr) Add(_ context.Context, v int64, o ...metric.AddOption) {
	c.sum(float64(v), metric.Attributes(o))
}

type fctr struct{ *Instrument }

func (c fctr) Add(_ context.Context, v float64, o ...metric.AddOption) {
	c.sum(v, metric.Attributes(o))
}

type rec struct{ *Instrument }

func (c rec) Record(_ context.Context, v int64, o ...metric.RecordOption) {
	c.rec(float64(v), metric.Attributes(o))
}

type frec struct{ *Instrument }

func (c frec) Record(_ context.Context, v float64, o ...metric.RecordOption) {
	c.rec(v, metric.Attributes(o))
}

type obsv struct{ *Instrument }

func (obsv) Observable() {}

type reg struct{}

func (reg) Unregister() error { return nil }

func (mt *meter) Int64Counter(n string, o ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	return ctr{mt.add(n, InstrumentKindCounter, metric.Config(o))}, nil
}
func (mt *meter) Int64UpDownCounter(n string, o ...metric.Int64UpDownCounterOption) (metric.Int64UpDownCounter, error) {
	return ctr{mt.add(n, InstrumentKindUpDownCounter, metric.Config(o))}, nil
}
func (mt *meter) Int64Histogram(n string, o ...metric.Int64HistogramOption) (metric.Int64Histogram, error) {
	return rec{mt.add(n, InstrumentKindHistogram, metric.Config(o))}, nil
}
func (mt *meter) Int64Gauge(n string, o ...metric.Int64GaugeOption) (metric.Int64Gauge, error) {
	return rec{mt.add(n, InstrumentKindGauge, metric.Config(o))}, nil
}
func (mt *meter) Int64ObservableCounter(n string, o ...metric.Int64ObservableCounterOption) (metric.Int64ObservableCounter, error) {
	return obsv{mt.add(n, InstrumentKindObservableCounter, metric.Config(o))}, nil
}
func (mt *meter) Int64ObservableUpDownCounter(n string, o ...metric.Int64ObservableUpDownCounterOption) (metric.Int64ObservableUpDownCounter, error) {
	return obsv{mt.add(n, InstrumentKindObservableUpDownCounter, metric.Config(o))}, nil
}
func (mt *meter) Int64ObservableGauge(n string, o ...metric.Int64ObservableGaugeOption) (metric.Int64ObservableGauge, error) {
	return obsv{mt.add(n, InstrumentKindObservableGauge, metric.Config(o))}, nil
}
func (mt *meter) Float64Counter(n string, o ...metric.Float64CounterOption) (metric.Float64Counter, error) {
	return fctr{mt.add(n, InstrumentKindCounter, metric.Config(o))}, nil
}
func (mt *meter) Float64Histogram(n string, o ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	return frec{mt.add(n, InstrumentKindHistogram, metric.Config(o))}, nil
}
func (mt *meter) Float64Gauge(n string, o ...metric.Float64GaugeOption) (metric.Float64Gauge, error) {
	return frec{mt.add(n, InstrumentKindGauge, metric.Config(o))}, nil
}
func (mt *meter) RegisterCallback(metric.Callback, ...metric.Observable) (metric.Registration, error) {
	return reg{}, nil
}
