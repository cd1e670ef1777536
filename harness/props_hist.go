package main

import "slices"

func weights(kv ...any) map[string]int {
	m := map[string]int{}
	for k, v := range baseWeights {
		m[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		if n := kv[i+1].(int); n == 0 {
			delete(m, kv[i].(string))
		} else {
			m[kv[i].(string)] = n
		}
	}
	return m
}

func onlyWeights(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

var ttlChoices = []int64{1, 1, 2, 5, 60, 60 * 24, 0, 60 * 24 * 365 * 5, -1, -60, -60 * 24 * 365 * 90, -(1 << 40)}

func init() {
	drain := histOpts{drain: true}
	probed := histOpts{drain: true, probe: true}
	audited := histOpts{drain: true, audit: true}

	oneQueue := base.with(func(p *profile) { p.nq, p.nid = 1, 12; p.w = weights("add", 12, "pull", 10) })
	filtered := base.with(func(p *profile) {
		p.nq, p.nid = 1, 10
		p.w = weights("add", 12, "pull", 10, "filter", 8)
		p.scores = []float64{0, 1, 2, 2, 3, 5, 5.5, 1000, float64(startMs), float64(startMs - 300000), maxScore - 1, maxScore}
	})
	locks := base.with(func(p *profile) {
		p.nq, p.nid = 3, 6
		p.w = weights("ackl", 6, "nackl", 6, "ack", 2, "nack", 2, "unlock", 6, "timeout", 1, "pull", 10)
		p.extreme = true
	})
	timeouts := base.with(func(p *profile) {
		p.w = weights("timeout", 7, "ack", 4, "nack", 3, "pull", 10, "advance", 7, "unlock", 1)
		p.extreme = true
	})
	scores := base.with(func(p *profile) {
		p.w = weights("ack", 8, "nack", 8, "ackl", 3, "nackl", 3, "pull", 12, "unlock", 4)
		p.nid = 5
	})
	removals := base.with(func(p *profile) { p.w = weights("remove", 7, "ackl", 2, "nackl", 2, "pull", 8) })
	contents := base.with(func(p *profile) { p.rich = true; p.names = "tricky"; p.w = weights("get", 8); p.max = 40 })
	isolation := base.with(func(p *profile) {
		p.nq, p.nid, p.names, p.max = 4, 4, "tricky", 70
		p.ttls = ttlChoices
		p.w = weights("ttl", 2, "editq", 3, "maxel", 2, "remove", 3, "ackl", 2, "nackl", 2)
		p.expDue = true
	})
	expiring := base.with(func(p *profile) {
		p.ttls, p.timeless, p.expDue = ttlChoices, true, true
		p.w = weights("ttl", 7, "add", 12, "advance", 8)
	})
	bounded := base.with(func(p *profile) {
		p.nid, p.ttls, p.timeless = 9, []int64{1, 2, 2, 5, 60, 60, 600}, true
		p.w = weights("add", 14, "maxel", 6, "editq", 6, "advance", 2, "count", 3)
		p.maxBatch = 6
	})
	config := base.with(func(p *profile) {
		p.nq, p.names, p.max = 4, "tricky", 40
		p.w = onlyWeights("editq", 8, "getq", 10, "add", 2, "maxel", 1, "advance", 2, "restart", 1, "flush", 1)
		p.limits = []int64{-1, -5, -9223372036854775808, 0, 0, 1, 2, 1000, 9223372036854775807}
	})
	diag := base.with(func(p *profile) {
		p.nq, p.nid = 2, 3
		p.w = weights("ack", 10, "nack", 10, "pull", 14, "get", 3, "add", 5)
		p.max = 80
	})
	counted := base.with(func(p *profile) {
		p.nq, p.names, p.ttls, p.expDue = 3, "tricky", ttlChoices, true
		p.w = weights("count", 8, "remove", 4, "ttl", 2, "maxel", 2, "editq", 2)
	})
	flushes := base.with(func(p *profile) {
		p.w = weights("flush", 3, "editq", 3, "getq", 3, "maxel", 1, "remove", 1, "recovery", 1)
	})
	all := base.with(func(p *profile) {
		p.nq, p.ttls, p.expDue, p.extreme, p.timeless = 3, ttlChoices, true, true, true
		p.w = weights("ttl", 2, "maxel", 2, "editq", 2, "ackl", 3, "nackl", 3, "recovery", 1, "losecache", 1, "filter", 2)
	})
	metered := all.with(func(p *profile) {
		p.names, p.nq = "metric", 4
		p.w = weights("ttl", 3, "maxel", 3, "editq", 3, "ackl", 3, "nackl", 3, "metrics", 5, "remove", 3)
	})

	// the same histories with the other backends
	others := func(p profile, opt histOpts, nontrivial ...string) *Sub {
		return histSub("other backends", 400, 10000, p.with(func(p *profile) { p.backends = []string{"redis", "cluster", "mongo", "full"} }), opt, nontrivial...)
	}
	// and with dozens of messages in a queue
	dozens := func(p profile, opt histOpts, nontrivial ...string) *Sub {
		w := map[string]int{"bulkadd": 10}
		for k, v := range p.w {
			w[k] = v
		}
		return histSub("dozens of messages", 150, 6000, p.with(func(p *profile) {
			p.bulk, p.nid, p.nq, p.min, p.max, p.names, p.w = 61, 61, min(p.nq, 2), 6, 30, "", w
			p.scores = append([]float64{0, 1, 10, 30, 50, 70, 90, 96, 97}, p.scores...)
			p.amounts = []int32{1, 2, 3, 5, 10, 20, 30, 50, 61, 1000, -20}
			p.limits = []int64{-1, 1, 10, 30, 31, 60, 61}
			p.backends = []string{"", "redis", "cluster", "mongo", "full"}
		}), opt, nontrivial...)
	}
	crowd := func(opt histOpts, nontrivial ...string) *Sub {
		p := base.with(func(p *profile) { p.crowd, p.backends = true, []string{"", "", "redis", "cluster"} })
		return histSub("crowds", 600, 20000, p, opt, nontrivial...)
	}
	large := base.with(func(p *profile) {
		p.bulk, p.nid, p.nq, p.min, p.max = 1203, 1203, 1, 6, 16
		p.ttls, p.expDue = []int64{1, 2, 60, 60 * 24 * 365 * 5}, true
		p.w = onlyWeights("bulkadd", 4, "pull", 5, "advance", 3, "ack", 1, "nack", 1, "ackl", 1, "nackl", 1)
		p.amounts = []int32{1000, 1200, 2147483647, 999, 100, 3, 0, -1000}
		p.limits = []int64{-1, 1, 50, 99, 100, 101, 602, 1000, 1202}
	})
	more := func(kv ...any) profile {
		return large.with(func(p *profile) {
			for i := 0; i < len(kv); i += 2 {
				p.w[kv[i].(string)] = kv[i+1].(int)
			}
		})
	}
	register("C01", "a pull delivered messages and left available ones behind",
		histSub("history", 5000, 150000, oneQueue, drain, "left behind"),
		histSub("many operations", 1500, 50000, all, drain, "left behind"),
		histSub("many messages", 40, 1500, more(), drain, "delivered"),
		dozens(all, drain, "left behind"),
		crowd(drain, "left behind"),
		others(all, drain, "left behind"))
	register("C02", "a filtered pull delivered messages and available messages outside of its range existed",
		histSub("history", 6000, 150000, filtered, drain, "filter excluded"),
		dozens(filtered, drain, "filter excluded"),
		others(filtered, drain, "filter excluded"))
	register("C03", "a pull happened while messages of its queue were being processed",
		histSub("history", 5000, 150000, timeouts, drain, "pull with messages in processing"),
		histSub("many operations", 1500, 50000, all, drain, "pull with messages in processing"),
		histSub("many messages", 30, 1500, more("timeout", 2), drain, "delivered"),
		dozens(timeouts, drain, "pull with messages in processing"),
		others(timeouts, drain, "pull with messages in processing"))
	register("C04", "messages were delivered after a timeout and after an unlock, and everything was drained at the end",
		histSub("history", 4000, 120000, base.with(func(p *profile) { p.w = weights("ackl", 3, "nackl", 3) }), drain, "pulled after timeout|pulled after unlock", "created"),
		histSub("many operations", 2500, 80000, all, drain, "pulled after timeout|pulled after unlock"),
		dozens(all, drain, "pulled after timeout|pulled after unlock"),
		crowd(drain, "pulled after timeout|pulled after unlock"),
		others(all, drain, "pulled after timeout|pulled after unlock"))
	register("C05", "a message timed out and was pulled again, and a sweep spared one in processing",
		histSub("history", 6000, 150000, timeouts, drain, "timed out", "sweep before deadline", "pulled after timeout"),
		histSub("many messages", 40, 1500, more("timeout", 4), drain, "timed out"),
		dozens(timeouts, drain, "timed out", "sweep before deadline"),
		crowd(drain, "timed out", "sweep before deadline"),
		others(timeouts, drain, "timed out", "sweep before deadline"))
	register("C06", "a message was unlocked and pulled again, and an unlock sweep met locked messages which were not due",
		histSub("history", 6000, 150000, locks, drain, "unlocked", "sweep while locked", "pulled after unlock"),
		dozens(locks, drain, "unlocked", "sweep while locked"),
		crowd(drain, "unlocked", "sweep while locked"),
		others(locks, drain, "unlocked", "sweep while locked"))
	register("C07", "a message was delivered after an ack, a nack or an unlock",
		histSub("history", 6000, 150000, scores, probed, "pulled after ack/nack|pulled after unlock"),
		dozens(scores, probed, "pulled after ack/nack|pulled after unlock"),
		crowd(probed, "pulled after ack/nack|pulled after unlock"),
		others(scores, probed, "pulled after ack/nack|pulled after unlock"))
	register("C08", "a message was removed while processing or locked",
		histSub("history", 6000, 150000, removals, probed, "removed processing|removed locked(ack)|removed locked(nack)"),
		histSub("many messages", 40, 1500, more("bulkremove", 4), drain, "removed active|removed processing|removed available"),
		dozens(removals, probed, "removed processing|removed locked(ack)|removed locked(nack)"),
		others(removals, probed, "removed processing|removed locked(ack)|removed locked(nack)"))
	register("C09", "a message was added again while it was processing, locked or available",
		histSub("history", 5000, 120000, base.with(func(p *profile) { p.nid = 4; p.w = weights("add", 14, "ackl", 2, "nackl", 2) }), probed,
			"re-added processing|re-added locked(ack)|re-added locked(nack)|re-added available"),
		dozens(base.with(func(p *profile) { p.nid = 4; p.w = weights("add", 14, "ackl", 2, "nackl", 2) }), probed, "re-added processing|re-added locked(ack)|re-added locked(nack)|re-added available"),
		others(base.with(func(p *profile) { p.nid = 4; p.w = weights("add", 14, "ackl", 2, "nackl", 2) }), probed, "re-added processing|re-added locked(ack)|re-added locked(nack)|re-added available"))
	register("C10", "a message with generated content was delivered or found",
		histSub("history", 4000, 100000, contents, drain, "delivered|found by id", "updated"),
		others(contents, drain, "delivered|found by id", "updated"),
		probe("fields which are not set again", keepsOmitted))
	register("C11", "messages of several queues with colliding names were delivered, and a sweep or removal happened",
		histSub("history", 3000, 80000, isolation, probed, "delivered", "removed|timed out|unlocked|evicted"),
		sub("projection", 12000, 400000, genHist(isolation), projection),
		others(isolation, probed, "delivered", "removed|timed out|unlocked|evicted"))
	register("C12", "messages expired in a sweep which spared others",
		histSub("history", 6000, 150000, expiring, probed, "expired", "ttl sweep spared"),
		histSub("many messages", 40, 1500, more("ttl", 4), drain, "expired"),
		dozens(expiring, probed, "expired", "ttl sweep spared"),
		others(expiring, probed, "expired", "ttl sweep spared"),
		probe("late secondary", lateSweep))
	register("C13", "a sweep evicted messages",
		histSub("history", 6000, 150000, bounded, probed, "evicted"),
		histSub("many messages", 60, 1500, more("maxel", 4, "editq", 4, "count", 2), drain, "evicted"),
		dozens(bounded, probed, "evicted"),
		others(bounded, probed, "evicted"),
		probe("late secondary", lateEviction))
	register("C14", "a limit was set and read",
		histSub("history", 5000, 120000, config, histOpts{}, "limit set", "configuration read"),
		others(config, histOpts{}, "limit set", "configuration read"),
		probe("two servers", otherServer))
	register("C17", "diagnostics of acked or nacked messages were returned",
		histSub("history", 5000, 120000, diag, probed, "diagnostics seen"),
		dozens(diag, probed, "diagnostics seen"),
		others(diag, probed, "diagnostics seen"))
	register("C22", "an instance holding messages was flushed and used again",
		histSub("history", 4000, 100000, flushes, probed, "flushed", "created"),
		sub("as new", 12000, 400000, genHist(flushes), flushedAsNew),
		others(flushes, probed, "flushed", "created"))
	register("C24", "at least four kinds of audit entries were produced",
		histSub("history", 5000, 120000, all, audited, "audited ACK", "audited NACK|audited REMOVE", "audited INSERT_CACHE", "audited TIMEOUT|audited UNLOCK"),
		sub("sender", 1200, 40000, genAudit, execAudit),
		sub("idle sender", 1600, 40000, genIdle, execIdle),
		sub("disabled", 400, 8000, genAudit, execAuditOff),
		sub("lag", 8*100, 8*4000, genLag, runLag),
		others(all, audited, "audited ACK", "audited NACK|audited REMOVE", "audited INSERT_CACHE", "audited TIMEOUT|audited UNLOCK"))
	register("C30", "counters grew and gauges were computed",
		histSub("history", 600, 12000, metered, histOpts{metrics: true, drain: true}, "metric deckard_ack|metric deckard_nack", "oldest message"),
		sub("lag", 8*40, 8*2000, genLag, runLag),
		others(metered, histOpts{metrics: true, drain: true}, "metric deckard_ack|metric deckard_nack"),
		probe("empty prefix", emptyPrefix))
	register("C33", "messages were counted after some were removed",
		histSub("history", 6000, 150000, counted, drain, "counted", "removed|evicted|expired"),
		histSub("many messages", 30, 1500, more("count", 4, "bulkremove", 2, "ttl", 1), drain, "counted"),
		dozens(counted, drain, "counted", "removed|evicted|expired"),
		others(counted, drain, "counted", "removed|evicted|expired"))
}

// project keeps the operations of one queue.
func project(hist Hist, done []Op, qi int) (Hist, []int) {
	p := Hist{Backend: hist.Backend, Queues: hist.Queues, IDs: hist.IDs}
	var index []int
	for i, op := range done {
		switch op.K {
		case "add":
			var keep []Item
			for _, it := range op.Items {
				if mod(it.Q, len(hist.Queues)) == qi {
					keep = append(keep, it)
				}
			}
			if len(keep) == 0 {
				continue
			}
			op.Items = keep
		case "pull", "ack", "nack", "remove", "get", "editq", "getq", "count":
			if op.Q < 0 || mod(op.Q, len(hist.Queues)) != qi {
				continue
			}
		}
		p.Ops = append(p.Ops, op)
		index = append(index, i)
	}
	return p, index
}

// projection: each queue behaves as if the other ones did not exist.
func projection(h *H, hist Hist) {
	opt := histOpts{noModel: true}
	// the model only makes the targets of the operations concrete
	conc := Hist{Backend: hist.Backend, Queues: hist.Queues, IDs: hist.IDs, Ops: concrete(h, hist)}
	full := runHist(h, conc, opt)
	others := false
	for qi := range hist.Queues {
		p, index := project(hist, full.done, qi)
		if len(p.Ops) == len(full.done) {
			continue
		}
		alone := runHist(h, p, opt)
		for j, i := range index {
			if full.done[i].K == "add" && len(p.Ops[j].Items) != len(full.done[i].Items) {
				continue
			}
			if alone.res[j] != "" && alone.res[j] != "{}" {
				others = true
			}
			if alone.res[j] != full.res[i] {
				again, full2 := runHist(h, p, opt), runHist(h, conc, opt)
				if again.res[j] != alone.res[j] || full2.res[i] != full.res[i] {
					h.Discard("the responses are not deterministic")
				}
				h.Fail("C11", "operation %d (%s of queue %q) returned %s, and %s when the other queues are not used", i, full.done[i].K, hist.Queues[qi], full.res[i], alone.res[j])
			}
		}
	}
	if others {
		h.Nontrivial()
	}
}

// runQuiet runs a history and returns nil if it diverges from the model.
func runQuiet(h *H, hist Hist, opt histOpts) (r *run) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failure); ok {
				r = nil
				return
			}
			panic(p)
		}
	}()
	return runHist(h, hist, opt)
}

// concrete replaces the targets of the operations which depend on the state of the model. Once the history has diverged from the model, the
// operations are taken as they are.
func concrete(h *H, hist Hist) []Op {
	r := startHist(h, hist, histOpts{})
	step := func(op Op) (ok bool) {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failure); !ok {
					panic(p)
				}
			}
		}()
		r.step(op)
		return true
	}
	diverged := false
	var ops []Op
	for _, op := range r.hist.Ops {
		n := len(r.done)
		if !diverged && step(op) {
			continue
		}
		if !diverged {
			diverged, ops = true, slices.Clone(r.done)
			if len(ops) > n {
				continue
			}
		}
		op.By, op.To, op.Exp, op.Far = 0, 0, op.Exp && op.Bulk > 0, false
		if op.K == "advance" {
			op.D = max(op.D, 0) &^ 1
		}
		ops = append(ops, op)
	}
	if !diverged {
		return r.done
	}
	return ops
}

// flushedAsNew: after a flush an instance answers like a new one.
func flushedAsNew(h *H, hist Hist) {
	ops := concrete(h, hist)
	last := -1
	created := 0
	for i, op := range ops {
		if op.K == "flush" {
			last = i
		}
		if op.K == "add" && last < 0 {
			created += len(op.Items)
		}
	}
	if last < 0 || last == len(ops)-1 {
		return
	}
	var off int64
	for _, op := range ops[:last+1] {
		switch op.K {
		case "advance":
			off += op.D
		case "timeout", "unlock", "ttl", "maxel", "recovery", "metrics":
			off += 2
		}
	}
	full := runHist(h, Hist{Backend: hist.Backend, Queues: hist.Queues, IDs: hist.IDs, Ops: ops}, histOpts{noModel: true})
	suffix := append([]Op{{K: "advance", D: off}}, ops[last+1:]...)
	fresh := runHist(h, Hist{Backend: hist.Backend, Queues: hist.Queues, IDs: hist.IDs, Ops: suffix}, histOpts{noModel: true})
	for i := 1; i < len(suffix); i++ {
		if a, b := full.res[last+i], fresh.res[i]; a != b {
			again := runHist(h, Hist{Backend: hist.Backend, Queues: hist.Queues, IDs: hist.IDs, Ops: ops}, histOpts{noModel: true})
			if again.res[last+i] != a {
				h.Discard("the responses are not deterministic")
			}
			h.Fail("C22", "after the flush, operation %d (%s) returned %s, a new instance returns %s", last+i, suffix[i].K, a, b)
		}
	}
	if created > 0 {
		h.Nontrivial()
	}
}
