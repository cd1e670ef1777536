package otlptrace

import (
	"context"

	sdktrace "go.opentelemetry.io/otel/sdk/trace"
)

type Client interface{}
type Exporter struct{}

func New(context.Context, Client) (*Exporter, error)                         { return &Exporter{}, nil }
func (*Exporter) ExportSpans(context.Context, []sdktrace.ReadOnlySpan) error { return nil }
func (*Exporter) Shutdown(context.Context) error                             { return nil }
