package main

import (
	"fmt"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"go.opentelemetry.io/otel"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
)

// metricsTracker compares the growth of the metrics with what happened.
type metricsTracker struct {
	prev   map[string]map[string]int64
	seen   map[string]bool // prefixes of which a gauge was computed
	real   time.Time
	gauges map[string]map[string]int64
}

// attribution is the string by which the points are compared: the queue and the label given.
func attribution(queue, extra string) string { return fmt.Sprintf("queue=%q %s", queue, extra) }

var metricExtra = map[string]string{"deckard_ack": "reason", "deckard_nack": "reason", "deckard_message_unlock": "lock_type"}

func collectMetrics() map[string]map[string]int64 {
	p, ok := otel.GetMeterProvider().(*sdkmetric.MeterProvider)
	if !ok {
		Must(fmt.Errorf("no meter provider"))
	}
	out := map[string]map[string]int64{}
	for _, s := range p.Collect(bg) {
		extra := metricExtra[s.Name]
		m := map[string]int64{}
		for _, pt := range s.Points {
			q, x := "", ""
			hasQ := false
			for _, kv := range pt.Attrs.ToSlice() {
				switch string(kv.Key) {
				case "queue":
					q, hasQ = kv.Value.AsString(), true
				case extra:
					x = kv.Value.AsString()
				}
			}
			if hasQ {
				m[attribution(q, x)] += int64(pt.Sum)
			}
		}
		out[s.Name] = m
	}
	return out
}

func newMetricsTracker(in *instance) *metricsTracker {
	m := &metricsTracker{prev: collectMetrics(), seen: map[string]bool{}}
	for _, n := range []string{"deckard_ack", "deckard_nack", "deckard_message_unlock", "deckard_message_timeout", "deckard_messages_empty_queue",
		"deckard_messages_empty_queue_not_found_storage", "deckard_messages_not_found_in_storage", "deckard_exceeding_messages_removed",
		"deckard_exceeding_messages_cache_removed", "deckard_ttl_messages_removed", "deckard_ttl_messages_cache_removed",
		"deckard_oldest_message", "deckard_total_messages"} {
		if _, ok := m.prev[n]; !ok {
			panic(failure{[]string{"C30"}, fmt.Sprintf("the metric %s does not exist", n)})
		}
	}
	return m
}

// check compares the growth of each counter since the last operation with the expected one.
func (m *metricsTracker) check(r *run, op Op) {
	now := collectMetrics()
	delta := func(name, key string) int64 { return now[name][key] - m.prev[name][key] }
	// exact compares all the points of a counter
	exact := func(name string, want map[string]int64) {
		for k := range now[name] {
			if d := delta(name, k); d != want[k] {
				r.h.Fail("C30", "%s{%s} grew by %d instead of %d after %s", name, k, d, want[k], op.K)
			}
		}
		for k, v := range want {
			r.h.Check(delta(name, k) == v, "C30", "%s{%s} grew by %d instead of %d after %s", name, k, delta(name, k), v, op.K)
			if v > 0 {
				r.stat("metric " + name)
			}
		}
	}
	acks, nacks := map[string]int64{}, map[string]int64{}
	if (op.K == "ack" || op.K == "nack") && r.skipped < 0 {
		last := r.done[len(r.done)-1]
		m := acks
		if op.K == "nack" {
			m = nacks
		}
		m[attribution(prefixOf(r.q(last.Q)), last.Reason)] = 1
	}
	exact("deckard_ack", acks)
	exact("deckard_nack", nacks)
	timeouts, unlocks := map[string]int64{}, map[string]int64{}
	for _, e := range r.exp {
		switch e.e.Signal {
		case audit.TIMEOUT:
			timeouts[attribution(prefixOf(e.e.Queue), "")]++
		case audit.UNLOCK:
			unlocks[attribution(prefixOf(e.e.Queue), e.e.Reason)]++
		}
	}
	exact("deckard_message_timeout", timeouts)
	exact("deckard_message_unlock", unlocks)
	missing := map[string]int64{}
	for _, e := range r.aud {
		if e.Signal == audit.MISSING_STORAGE {
			missing[attribution(prefixOf(e.Queue), "")]++
		}
	}
	exact("deckard_messages_not_found_in_storage", missing)
	// pulls which returned nothing
	empty := map[string]int64{}
	if op.K == "pull" && r.lastPulled == 0 {
		empty[attribution(prefixOf(r.q(op.Q)), "")] = 1
	}
	for _, k := range unionKeys(now["deckard_messages_empty_queue"], now["deckard_messages_empty_queue_not_found_storage"], empty) {
		d := delta("deckard_messages_empty_queue", k) + delta("deckard_messages_empty_queue_not_found_storage", k)
		r.h.Check(d == empty[k], "C30", "the empty pull counters {%s} grew by %d instead of %d", k, d, empty[k])
	}
	if len(empty) > 0 && len(missing) == 0 {
		r.h.Check(delta("deckard_messages_empty_queue_not_found_storage", attribution(prefixOf(r.q(op.Q)), "")) == 0, "C30",
			"a pull of an empty queue is counted as a pull of messages missing in the storage")
	}
	// removals
	for _, c := range []struct{ kind, storage, cache string }{
		{"ttl", "deckard_ttl_messages_removed", "deckard_ttl_messages_cache_removed"},
		{"maxel", "deckard_exceeding_messages_removed", "deckard_exceeding_messages_cache_removed"}} {
		st := map[string]int64{}
		rem := r.rem
		if op.K != c.kind {
			rem = nil
		}
		for p, n := range rem {
			st[attribution(p, "")] = n.st
		}
		exact(c.storage, st)
		for _, k := range unionKeys(now[c.cache], st) {
			var lo, hi int64
			for p, n := range rem {
				if attribution(p, "") == k {
					lo, hi = n.ca, n.ca+n.maybe
				}
			}
			d := delta(c.cache, k)
			r.h.Check(d >= lo && d <= hi, "C30", "%s{%s} grew by %d instead of %d", c.cache, k, d, lo)
		}
	}
	if op.K == "metrics" {
		m.checkGauges(r, now)
	} else {
		m.checkStable(r, now)
	}
	m.prev = now
}

func unionKeys(l ...map[string]int64) []string {
	m := map[string]bool{}
	for _, x := range l {
		for k := range x {
			m[k] = true
		}
	}
	return sortedKeys(m)
}

// checkStable: the gauges only change when they are computed.
func (m *metricsTracker) checkStable(r *run, now map[string]map[string]int64) {
	for _, g := range []string{"deckard_total_messages"} {
		for _, k := range unionKeys(now[g], m.prev[g]) {
			r.h.Check(now[g][k] == m.prev[g][k], "C30", "%s{%s} changed from %d to %d without being computed", g, k, m.prev[g][k], now[g][k])
		}
	}
}

func (m *metricsTracker) checkGauges(r *run, now map[string]map[string]int64) {
	total, oldest := map[string]int64{}, map[string]int64{}
	for _, x := range r.m.msgs {
		if !x.stored {
			continue
		}
		k := attribution(prefixOf(x.key.q), "")
		total[k]++
		if v, ok := oldest[k]; !ok || x.lastUsed < v {
			oldest[k] = x.lastUsed
		}
		m.seen[k] = true
	}
	for k := range now["deckard_total_messages"] {
		v := now["deckard_total_messages"][k]
		r.h.Check(v == total[k], "C30", "deckard_total_messages{%s} is %d instead of %d", k, v, total[k])
	}
	for k := range m.seen {
		v, ok := now["deckard_total_messages"][k]
		r.h.Check(ok, "C30", "deckard_total_messages{%s} is not reported", k)
		if total[k] == 0 {
			r.stat("vanished queue")
		}
		_ = v
	}
	end := time.Now().UnixMilli()
	virt := clockMs()
	for _, k := range unionKeys(now["deckard_oldest_message"], oldest) {
		v, ok := now["deckard_oldest_message"][k]
		lu, have := oldest[k]
		if !have {
			r.h.Check(v == 0, "C30", "deckard_oldest_message{%s} is %d, the queue is empty", k, v)
			continue
		}
		real := ok && v >= m.real.UnixMilli()-lu-1 && v <= end-lu+1
		r.h.Check(real || ok && v == virt-lu, "C30", "deckard_oldest_message{%s} is %d (%v), expected %d", k, v, ok, end-lu)
		r.stat("oldest message")
	}
}
