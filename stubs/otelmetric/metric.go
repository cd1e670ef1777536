// Package metric is a small offline stand-in for go.opentelemetry.io/otel/metric.
package metric

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
)

type MeterProvider interface {
	Meter(name string, opts ...MeterOption) Meter
}
type MeterOption interface{ meterOption() }
type meterOpt struct{}

func (meterOpt) meterOption()                       {}
func WithInstrumentationVersion(string) MeterOption { return meterOpt{} }
func WithSchemaURL(string) MeterOption              { return meterOpt{} }

type Observable interface{ Observable() }
type Int64Observable interface{ Observable }
type Float64Observable interface{ Observable }

type Observer interface {
	ObserveInt64(obsrv Int64Observable, value int64, opts ...ObserveOption)
	ObserveFloat64(obsrv Float64Observable, value float64, opts ...ObserveOption)
}
type Callback func(context.Context, Observer) error
type Registration interface{ Unregister() error }

type Meter interface {
	Int64Counter(name string, options ...Int64CounterOption) (Int64Counter, error)
	Int64UpDownCounter(name string, options ...Int64UpDownCounterOption) (Int64UpDownCounter, error)
	Int64Histogram(name string, options ...Int64HistogramOption) (Int64Histogram, error)
	Int64Gauge(name string, options ...Int64GaugeOption) (Int64Gauge, error)
	Int64ObservableCounter(name string, options ...Int64ObservableCounterOption) (Int64ObservableCounter, error)
	Int64ObservableUpDownCounter(name string, options ...Int64ObservableUpDownCounterOption) (Int64ObservableUpDownCounter, error)
	Int64ObservableGauge(name string, options ...Int64ObservableGaugeOption) (Int64ObservableGauge, error)
	Float64Counter(name string, options ...Float64CounterOption) (Float64Counter, error)
	Float64Histogram(name string, options ...Float64HistogramOption) (Float64Histogram, error)
	Float64Gauge(name string, options ...Float64GaugeOption) (Float64Gauge, error)
	RegisterCallback(f Callback, instruments ...Observable) (Registration, error)
}

type Int64Counter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Int64UpDownCounter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Float64Counter interface {
	Add(ctx context.Context, incr float64, options ...AddOption)
}
type Int64Histogram interface {
	Record(ctx context.Context, v int64, options ...RecordOption)
}
type Float64Histogram interface {
	Record(ctx context.Context, v float64, options ...RecordOption)
}
type Int64Gauge interface {
	Record(ctx context.Context, v int64, options ...RecordOption)
}
type Float64Gauge interface {
	Record(ctx context.Context, v float64, options ...RecordOption)
}
type Int64ObservableCounter interface{ Int64Observable }
type Int64ObservableUpDownCounter interface{ Int64Observable }
type Int64ObservableGauge interface{ Int64Observable }
type Int64Observer interface {
	Observe(value int64, options ...ObserveOption)
}
type Int64Callback func(context.Context, Int64Observer) error

// InstrumentConfig gathers every option of every instrument kind.
type InstrumentConfig struct {
	Description, Unit string
	Int64Callbacks    []Int64Callback
	Buckets           []float64
}
type anyOpt func(*InstrumentConfig)

func (o anyOpt) apply(c *InstrumentConfig) { o(c) }

type instrOpt interface{ apply(*InstrumentConfig) }
type InstrumentOption interface{ instrOpt }
type Int64CounterOption interface{ instrOpt }
type Int64UpDownCounterOption interface{ instrOpt }
type Int64HistogramOption interface{ instrOpt }
type Int64GaugeOption interface{ instrOpt }
type Int64ObservableCounterOption interface{ instrOpt }
type Int64ObservableUpDownCounterOption interface{ instrOpt }
type Int64ObservableGaugeOption interface{ instrOpt }
type Float64CounterOption interface{ instrOpt }
type Float64HistogramOption interface{ instrOpt }
type Float64GaugeOption interface{ instrOpt }
type Int64ObservableOption interface{ instrOpt }
type HistogramOption interface{ instrOpt }

func WithDescription(s string) InstrumentOption {
	return anyOpt(func(c *InstrumentConfig) { c.Description = s })
}
func WithUnit(s string) InstrumentOption { return anyOpt(func(c *InstrumentConfig) { c.Unit = s }) }
func WithInt64Callback(cb Int64Callback) Int64ObservableOption {
	return anyOpt(func(c *InstrumentConfig) { c.Int64Callbacks = append(c.Int64Callbacks, cb) })
}
func WithExplicitBucketBoundaries(b ...float64) HistogramOption {
	return anyOpt(func(c *InstrumentConfig) { c.Buckets = b })
}

// Config applies instrument options (used by the stub SDK).
func Config[O any](opts []O) InstrumentConfig {
	var c InstrumentConfig
	for _, o := range opts {
		if a, ok := any(o).(instrOpt); ok {
			a.apply(&c)
		}
	}
	return c
}

type measCfg struct{ attrs []attribute.KeyValue }
type AddOption interface{ applyMeas(*measCfg) }
type RecordOption interface{ applyMeas(*measCfg) }
type ObserveOption interface{ applyMeas(*measCfg) }
type MeasurementOption interface{ applyMeas(*measCfg) }
type attrOpt []attribute.KeyValue

func (a attrOpt) applyMeas(c *measCfg)                           { c.attrs = append(c.attrs, a...) }
func WithAttributes(kvs ...attribute.KeyValue) MeasurementOption { return attrOpt(kvs) }
func WithAttributeSet(s attribute.Set) MeasurementOption         { return attrOpt(s.ToSlice()) }

// Attributes collects measurement attributes (used by the stub SDK).
func Attributes[O any](opts []O) attribute.Set {
	var c measCfg
	for _, o := range opts {
		if a, ok := any(o).(MeasurementOption); ok {
			a.applyMeas(&c)
		}
	}
	return attribute.NewSet(c.attrs...)
}
