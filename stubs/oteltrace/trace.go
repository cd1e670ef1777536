// Package trace is a small offline stand-in for go.opentelemetry.io/otel/trace.
package trace

import (
	"context"
	"encoding/hex"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type TraceID [16]byte
type SpanID [8]byte
type TraceFlags byte

const FlagsSampled = TraceFlags(0x01)

func (t TraceID) IsValid() bool      { return t != TraceID{} }
func (t TraceID) String() string     { return hex.EncodeToString(t[:]) }
func (s SpanID) IsValid() bool       { return s != SpanID{} }
func (s SpanID) String() string      { return hex.EncodeToString(s[:]) }
func (f TraceFlags) String() string  { return hex.EncodeToString([]byte{byte(f)}) }
func (f TraceFlags) IsSampled() bool { return f&FlagsSampled != 0 }

type SpanContextConfig struct {
	TraceID    TraceID
	SpanID     SpanID
	TraceFlags TraceFlags
	Remote     bool
}
type SpanContext struct{ c SpanContextConfig }

func NewSpanContext(c SpanContextConfig) SpanContext { return SpanContext{c} }
func (s SpanContext) HasTraceID() bool               { return s.c.TraceID.IsValid() }
func (s SpanContext) HasSpanID() bool                { return s.c.SpanID.IsValid() }
func (s SpanContext) IsValid() bool                  { return s.HasTraceID() && s.HasSpanID() }
func (s SpanContext) IsRemote() bool                 { return s.c.Remote }
func (s SpanContext) IsSampled() bool                { return s.c.TraceFlags.IsSampled() }
func (s SpanContext) TraceID() TraceID               { return s.c.TraceID }
func (s SpanContext) SpanID() SpanID                 { return s.c.SpanID }
func (s SpanContext) TraceFlags() TraceFlags         { return s.c.TraceFlags }

type EventOption interface{ ev() }
type SpanStartOption interface{ st() }
type SpanEndOption interface{ en() }
type TracerOption interface{ to() }

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SpanContext() SpanContext
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
	TracerProvider() TracerProvider
}
type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}
type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}

type NonRecording struct{ SC SpanContext }

func (NonRecording) End(...SpanEndOption)                {}
func (NonRecording) AddEvent(string, ...EventOption)     {}
func (NonRecording) IsRecording() bool                   { return false }
func (NonRecording) RecordError(error, ...EventOption)   {}
func (n NonRecording) SpanContext() SpanContext          { return n.SC }
func (NonRecording) SetStatus(codes.Code, string)        {}
func (NonRecording) SetName(string)                      {}
func (NonRecording) SetAttributes(...attribute.KeyValue) {}
func (NonRecording) TracerProvider() TracerProvider      { return nil }

type ctxKey struct{}

func ContextWithSpan(parent context.Context, span Span) context.Context {
	return context.WithValue(parent, ctxKey{}, span)
}
func ContextWithSpanContext(parent context.Context, sc SpanContext) context.Context {
	return ContextWithSpan(parent, NonRecording{sc})
}
func ContextWithRemoteSpanContext(parent context.Context, sc SpanContext) context.Context {
	sc.c.Remote = true
	return ContextWithSpanContext(parent, sc)
}
func SpanFromContext(ctx context.Context) Span {
	if ctx == nil {
		return NonRecording{}
	}
	if s, ok := ctx.Value(ctxKey{}).(Span); ok {
		return s
	}
	return NonRecording{}
}
func SpanContextFromContext(ctx context.Context) SpanContext {
	return SpanFromContext(ctx).SpanContext()
}
