// Package trace is a small offline stand-in for the OpenTelemetry trace SDK. It counts how many
// providers were created and shut down so that harnesses can tell whether spans were flushed.
package trace

import (
	"context"
	"sync/atomic"

	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

type ReadOnlySpan interface{}
type SpanExporter interface {
	ExportSpans(ctx context.Context, spans []ReadOnlySpan) error
	Shutdown(ctx context.Context) error
}
type TracerProviderOption interface{ tpo() }
type opt struct{}

func (opt) tpo() {}

type BatchSpanProcessorOption func()

func WithBatcher(SpanExporter, ...BatchSpanProcessorOption) TracerProviderOption { return opt{} }
func WithSyncer(SpanExporter) TracerProviderOption                               { return opt{} }
func WithResource(*resource.Resource) TracerProviderOption                       { return opt{} }

var Created, Shutdowns, Flushes atomic.Int64

type TracerProvider struct{ noop.TracerProvider }

var _ trace.TracerProvider = (*TracerProvider)(nil)

func NewTracerProvider(...TracerProviderOption) *TracerProvider {
	Created.Add(1)
	return &TracerProvider{}
}
func (*TracerProvider) Shutdown(context.Context) error   { Shutdowns.Add(1); return nil }
func (*TracerProvider) ForceFlush(context.Context) error { Flushes.Add(1); return nil }
