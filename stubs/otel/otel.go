// Package otel is a small offline stand-in for go.opentelemetry.io/otel.
package otel

import (
	"sync"

	"go.opentelemetry.io/otel/metric"
	metricnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
)

var (
	mu sync.Mutex
	mp metric.MeterProvider          = metricnoop.NewMeterProvider()
	tp trace.TracerProvider          = tracenoop.NewTracerProvider()
	pr propagation.TextMapPropagator = propagation.NewCompositeTextMapPropagator()
)

type ErrorHandler interface{ Handle(error) }
type ErrorHandlerFunc func(error)

func (f ErrorHandlerFunc) Handle(err error) { f(err) }

func SetErrorHandler(ErrorHandler)            {}
func Handle(error)                            {}
func SetMeterProvider(p metric.MeterProvider) { mu.Lock(); mp = p; mu.Unlock() }
func GetMeterProvider() metric.MeterProvider  { mu.Lock(); defer mu.Unlock(); return mp }
func Meter(name string, opts ...metric.MeterOption) metric.Meter {
	return GetMeterProvider().Meter(name, opts...)
}
func SetTracerProvider(p trace.TracerProvider) { mu.Lock(); tp = p; mu.Unlock() }
func GetTracerProvider() trace.TracerProvider  { mu.Lock(); defer mu.Unlock(); return tp }
func Tracer(name string, opts ...trace.TracerOption) trace.Tracer {
	return GetTracerProvider().Tracer(name, opts...)
}
func SetTextMapPropagator(p propagation.TextMapPropagator) { mu.Lock(); pr = p; mu.Unlock() }
func GetTextMapPropagator() propagation.TextMapPropagator  { mu.Lock(); defer mu.Unlock(); return pr }
