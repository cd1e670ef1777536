// Package attribute is a small offline stand-in for go.opentelemetry.io/otel/attribute.
package attribute

import (
	"fmt"
	"sort"
	"strings"
)

type Key string
type Type int

const (
	INVALID Type = iota
	BOOL
	INT64
	FLOAT64
	STRING
	BOOLSLICE
	INT64SLICE
	FLOAT64SLICE
	STRINGSLICE
)

type Value struct {
	typ Type
	v   any
}

func (v Value) Type() Type         { return v.typ }
func (v Value) AsInterface() any   { return v.v }
func (v Value) AsString() string   { s, _ := v.v.(string); return s }
func (v Value) AsInt64() int64     { s, _ := v.v.(int64); return s }
func (v Value) AsFloat64() float64 { s, _ := v.v.(float64); return s }
func (v Value) AsBool() bool       { s, _ := v.v.(bool); return s }
func (v Value) AsStringSlice() []string {
	s, _ := v.v.([]string)
	return s
}
func (v Value) Emit() string { return fmt.Sprint(v.v) }

func StringValue(v string) Value          { return Value{STRING, v} }
func Int64Value(v int64) Value            { return Value{INT64, v} }
func IntValue(v int) Value                { return Value{INT64, int64(v)} }
func Float64Value(v float64) Value        { return Value{FLOAT64, v} }
func BoolValue(v bool) Value              { return Value{BOOL, v} }
func StringSliceValue(v []string) Value   { return Value{STRINGSLICE, append([]string(nil), v...)} }
func Int64SliceValue(v []int64) Value     { return Value{INT64SLICE, append([]int64(nil), v...)} }
func Float64SliceValue(v []float64) Value { return Value{FLOAT64SLICE, append([]float64(nil), v...)} }

type KeyValue struct {
	Key   Key
	Value Value
}

func (kv KeyValue) Valid() bool { return kv.Key != "" && kv.Value.typ != INVALID }

func (k Key) String(v string) KeyValue          { return KeyValue{k, StringValue(v)} }
func (k Key) Int(v int) KeyValue                { return KeyValue{k, IntValue(v)} }
func (k Key) Int64(v int64) KeyValue            { return KeyValue{k, Int64Value(v)} }
func (k Key) Float64(v float64) KeyValue        { return KeyValue{k, Float64Value(v)} }
func (k Key) Bool(v bool) KeyValue              { return KeyValue{k, BoolValue(v)} }
func (k Key) StringSlice(v []string) KeyValue   { return KeyValue{k, StringSliceValue(v)} }
func (k Key) Int64Slice(v []int64) KeyValue     { return KeyValue{k, Int64SliceValue(v)} }
func String(k, v string) KeyValue               { return Key(k).String(v) }
func Int(k string, v int) KeyValue              { return Key(k).Int(v) }
func Int64(k string, v int64) KeyValue          { return Key(k).Int64(v) }
func Float64(k string, v float64) KeyValue      { return Key(k).Float64(v) }
func Bool(k string, v bool) KeyValue            { return Key(k).Bool(v) }
func StringSlice(k string, v []string) KeyValue { return Key(k).StringSlice(v) }
func Int64Slice(k string, v []int64) KeyValue   { return Key(k).Int64Slice(v) }
func Float64Slice(k string, v []float64) KeyValue {
	return KeyValue{Key(k), Float64SliceValue(v)}
}
func Stringer(k string, v fmt.Stringer) KeyValue { return Key(k).String(v.String()) }

type Set struct{ kvs []KeyValue }

type Distinct struct{ s string }

func NewSet(kvs ...KeyValue) Set {
	m := map[Key]Value{}
	for _, kv := range kvs {
		m[kv.Key] = kv.Value
	}
	out := make([]KeyValue, 0, len(m))
	for k, v := range m {
		out = append(out, KeyValue{k, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return Set{out}
}
func EmptySet() *Set { return &Set{} }

func (s *Set) ToSlice() []KeyValue { return append([]KeyValue(nil), s.kvs...) }
func (s *Set) Len() int            { return len(s.kvs) }
func (s *Set) Value(k Key) (Value, bool) {
	for _, kv := range s.kvs {
		if kv.Key == k {
			return kv.Value, true
		}
	}
	return Value{}, false
}
func (s *Set) HasValue(k Key) bool  { _, ok := s.Value(k); return ok }
func (s *Set) Equivalent() Distinct { return Distinct{s.canon()} }
func (s *Set) canon() string {
	var b strings.Builder
	for _, kv := range s.kvs {
		fmt.Fprintf(&b, "%q=%d:%q;", kv.Key, kv.Value.typ, fmt.Sprint(kv.Value.v))
	}
	return b.String()
}
