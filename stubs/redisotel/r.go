package redisotel

import "github.com/redis/go-redis/v9"

type TracingOption interface{ o() }
type MetricsOption interface{ m() }

func InstrumentTracing(redis.UniversalClient, ...TracingOption) error { return nil }
func InstrumentMetrics(redis.UniversalClient, ...MetricsOption) error { return nil }
