package noop

import (
	"context"

	"go.opentelemetry.io/otel/metric"
)

type MeterProvider struct{}

func NewMeterProvider() MeterProvider { return MeterProvider{} }
func (MeterProvider) Meter(string, ...metric.MeterOption) metric.Meter {
	return Meter{}
}

type Meter struct{}
type ctr struct{}
type fctr struct{}
type rec struct{}
type frec struct{}
type obs struct{}

func (ctr) Add(context.Context, int64, ...metric.AddOption)          {}
func (fctr) Add(context.Context, float64, ...metric.AddOption)       {}
func (rec) Record(context.Context, int64, ...metric.RecordOption)    {}
func (frec) Record(context.Context, float64, ...metric.RecordOption) {}
func (obs) Observable()                                              {}
func (obs) Unregister() error                                        { return nil }

func (Meter) Int64Counter(string, ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	return ctr{}, nil
}
func (Meter) Int64UpDownCounter(string, ...metric.Int64UpDownCounterOption) (metric.Int64UpDownCounter, error) {
	return ctr{}, nil
}
func (Meter) Int64Histogram(string, ...metric.Int64HistogramOption) (metric.Int64Histogram, error) {
	return rec{}, nil
}
func (Meter) Int64Gauge(string, ...metric.Int64GaugeOption) (metric.Int64Gauge, error) {
	return rec{}, nil
}
func (Meter) Int64ObservableCounter(string, ...metric.Int64ObservableCounterOption) (metric.Int64ObservableCounter, error) {
	return obs{}, nil
}
func (Meter) Int64ObservableUpDownCounter(string, ...metric.Int64ObservableUpDownCounterOption) (metric.Int64ObservableUpDownCounter, error) {
	return obs{}, nil
}
func (Meter) Int64ObservableGauge(string, ...metric.Int64ObservableGaugeOption) (metric.Int64ObservableGauge, error) {
	return obs{}, nil
}
func (Meter) Float64Counter(string, ...metric.Float64CounterOption) (metric.Float64Counter, error) {
	return fctr{}, nil
}
func (Meter) Float64Histogram(string, ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	return frec{}, nil
}
func (Meter) Float64Gauge(string, ...metric.Float64GaugeOption) (metric.Float64Gauge, error) {
	return frec{}, nil
}
func (Meter) RegisterCallback(metric.Callback, ...metric.Observable) (metric.Registration, error) {
	return obs{}, nil
}
