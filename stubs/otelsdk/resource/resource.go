package resource

import "go.opentelemetry.io/otel/attribute"

type Resource struct{ Attrs []attribute.KeyValue }

func NewWithAttributes(_ string, kv ...attribute.KeyValue) *Resource { return &Resource{kv} }
func NewSchemaless(kv ...attribute.KeyValue) *Resource               { return &Resource{kv} }
func Environment() *Resource                                         { return &Resource{} }
func Default() *Resource                                             { return &Resource{} }
func Empty() *Resource                                               { return &Resource{} }
func Merge(a, b *Resource) (*Resource, error) {
	return &Resource{append(append([]attribute.KeyValue{}, a.Attrs...), b.Attrs...)}, nil
}
