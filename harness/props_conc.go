package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"pgregory.net/rapid"
)

// PairCase is a history followed by two concurrent operations.
type PairCase struct {
	Backend string `json:",omitempty"`
	Net     bool   `json:",omitempty"` // B happens before a command on the network, instead of a call
	Queues  []string
	IDs     []string
	Ops     []Op
	A, B    Op
	D       int64 // time between the history and the two
}

// reply is what the client of one operation observes.
type reply struct {
	Err     bool     `json:",omitempty"`
	Success bool     `json:",omitempty"`
	N       []int64  `json:",omitempty"`
	got     []string // delivered messages
}

type pairRun struct {
	h       *H
	c       PairCase
	in      *instance
	ctl     *control
	now     int64
	expired map[string]bool
}

func newPairRun(h *H, c PairCase) *pairRun {
	setClock(startMs)
	p := &pairRun{h: h, c: c, now: startMs, ctl: &control{}, expired: map[string]bool{}}
	passed := c.D
	for _, op := range c.Ops {
		if op.K == "advance" {
			passed += op.D
		}
	}
	for _, op := range append(append([]Op{}, c.Ops...), c.A, c.B) {
		for _, it := range op.Items {
			if it.TTL <= 60 && passed >= it.TTL*60000 {
				p.expired[joined(p.q(it.Q), p.id(it.I))] = true
			}
		}
	}
	if c.Net {
		p.in = newInstance(c.Backend)
		p.ctl.network(h, c.Backend, 2)
	} else {
		p.in = newInstance(c.Backend, p.ctl.layer())
	}
	p.do(Op{K: "recovery"})
	for _, op := range c.Ops {
		p.do(op)
		if op.K == "advance" {
			p.now += op.D &^ 1
			setClock(p.now)
		}
	}
	p.now += c.D &^ 1
	setClock(p.now + 1)
	return p
}

func (p *pairRun) q(i int) string { return p.c.Queues[mod(i, len(p.c.Queues))] }
func (p *pairRun) id(i int) string {
	return p.c.IDs[mod(i, len(p.c.IDs))]
}

func (p *pairRun) do(op Op) (r reply) {
	defer func() {
		b, _ := json.Marshal(op)
		if (op.K == "ack" || op.K == "nack") && p.expired[joined(p.q(op.Q), p.id(op.I))] {
			// whether an expired message can still be acknowledged is not specified
			r.Success = false
		}
		p.h.Logf("  %s -> %+v %v", b, r, r.got)
	}()
	switch op.K {
	case "add":
		req := &deckard.AddRequest{}
		for _, it := range op.Items {
			m := &deckard.AddMessage{Id: p.id(it.I), Queue: p.q(it.Q), Score: float64(it.Score), TtlMinutes: it.TTL, StringPayload: it.C.Str}
			req.Messages = append(req.Messages, m)
		}
		if len(req.Messages) == 0 && !p.in.caps.memory {
			return
		}
		res, err := rpc(p.in.svc.Add, req)
		return reply{Err: err != nil, N: []int64{res.GetCreatedCount(), res.GetUpdatedCount()}}
	case "pull":
		res, err := rpc(p.in.svc.Pull, &deckard.PullRequest{Queue: p.q(op.Q), Amount: op.N, AckDeadlineMs: op.Deadline})
		r.Err = err != nil
		for _, m := range res.GetMessages() {
			r.got = append(r.got, m.Id)
		}
		return
	case "ack", "nack":
		f := p.in.svc.Ack
		if op.K == "nack" {
			f = p.in.svc.Nack
		}
		res, err := rpc(f, &deckard.AckRequest{Queue: p.q(op.Q), Id: p.id(op.I), Score: float64(op.Score), LockMs: op.Lock, RemoveMessage: op.Rm})
		r = reply{Err: err != nil, Success: res.GetSuccess()}
		if res.GetRemovalResponse() != nil {
			r.N = []int64{res.RemovalResponse.StorageRemoved}
		}
		return
	case "remove":
		req := &deckard.RemoveRequest{Queue: p.q(op.Q)}
		for _, i := range op.Ids {
			req.Ids = append(req.Ids, p.id(i))
		}
		res, err := rpc(p.in.svc.Remove, req)
		return reply{Err: err != nil, N: []int64{res.GetStorageRemoved()}}
	case "count":
		_, err := rpc(p.in.svc.Count, &deckard.CountRequest{Queue: p.q(op.Q)})
		return reply{Err: err != nil}
	case "get":
		_, err := rpc(p.in.svc.GetById, &deckard.GetByIdRequest{Queue: p.q(op.Q), Id: p.id(op.I)})
		return reply{Err: err != nil}
	case "editq":
		res, err := rpc(p.in.svc.EditQueue, &deckard.EditQueueRequest{Queue: p.q(op.Q), Configuration: &deckard.QueueConfiguration{MaxElements: op.Limit}})
		return reply{Err: err != nil, Success: res.GetSuccess()}
	case "getq":
		res, err := rpc(p.in.svc.GetQueue, &deckard.GetQueueRequest{Queue: p.q(op.Q)})
		return reply{Err: err != nil, N: []int64{res.GetConfiguration().GetMaxElements()}}
	case "flush":
		res, err := rpc(p.in.svc.Flush, &deckard.FlushRequest{})
		return reply{Err: err != nil, Success: res.GetSuccess()}
	case "timeout":
		_ = queue.ProcessTimeoutMessages(bg, p.in.q)
	case "unlock":
		queue.ProcessLockPool(bg, p.in.q)
	case "ttl":
		t := time.UnixMilli(clockMs())
		_, _ = queue.RemoveTTLMessages(bg, p.in.q, &t)
	case "maxel":
		_, _ = queue.RemoveExceedingMessages(bg, p.in.q)
	case "recovery":
		queue.RecoveryMessagesPool(bg, p.in.q)
	case "metrics":
		queue.ComputeMetrics(bg, p.in.q)
	case "losecache":
		p.in.cache.Flush(bg)
	}
	return
}

// final is what is left once everything is over.
type final struct {
	A, B   reply
	Counts map[string]int64
	Msgs   map[string]string // what can be pulled, with its number of acks and nacks
	Limits map[string]int64
}

func (p *pairRun) finish(a, b reply) final {
	f := final{A: a, B: b, Counts: map[string]int64{}, Msgs: map[string]string{}, Limits: map[string]int64{}}
	p.now += 700000
	setClock(p.now + 1)
	for i := 0; i < 3; i++ {
		queue.RecoveryMessagesPool(bg, p.in.q)
	}
	_ = queue.ProcessTimeoutMessages(bg, p.in.q)
	queue.ProcessLockPool(bg, p.in.q)
	// what the sweeps of the two skipped, because of a recovery, is done by the next ones
	t := time.UnixMilli(clockMs())
	_, _ = queue.RemoveTTLMessages(bg, p.in.q, &t)
	_, _ = queue.RemoveExceedingMessages(bg, p.in.q)
	for _, q := range p.c.Queues {
		for i := 0; i < 4; i++ {
			res, err := rpc(p.in.svc.Pull, &deckard.PullRequest{Queue: q, Amount: 1000, AckDeadlineMs: math.MaxInt64 / 4})
			p.h.Check(err == nil, "C18", "the final pull failed: %v", err)
			for _, m := range res.Messages {
				k := joined(q, m.Id)
				p.h.Check(f.Msgs[k] == "", "C18", "%s is delivered twice at the end", k)
				f.Msgs[k] = fmt.Sprintf("acks=%d nacks=%d", m.Diagnostics.Acks, m.Diagnostics.Nacks)
			}
		}
		n, err := rpc(p.in.svc.Count, &deckard.CountRequest{Queue: q})
		p.h.Check(err == nil, "C18", "the final count failed: %v", err)
		f.Counts[q] = n.Count
		g, err := rpc(p.in.svc.GetQueue, &deckard.GetQueueRequest{Queue: q})
		p.h.Check(err == nil, "C18", "the final get queue failed: %v", err)
		f.Limits[q] = g.Configuration.GetMaxElements()
	}
	return f
}

func (f final) String() string {
	b, err := json.Marshal(f)
	Must(err)
	return string(b)
}

var sweeps = map[string]bool{"timeout": true, "unlock": true, "ttl": true, "maxel": true, "recovery": true, "metrics": true}

var locking = map[string]bool{"editq": true, "getq": true, "flush": true}

// concurrently runs A, and B right before the backend call number at of A.
func (p *pairRun) concurrently(at int) (a, b reply, calls []string, fired bool) {
	done := make(chan reply, 1)
	waiting := false
	// operations on the configuration of queues wait for each other
	wait := 20 * time.Second
	if locking[p.c.A.K] && locking[p.c.B.K] {
		wait = 50 * time.Millisecond
	}
	start := p.ctl.n
	inB := false
	p.ctl.set(func(i int, call string) (before, after error) {
		if inB || waiting {
			return
		}
		i -= start
		calls = append(calls, call)
		if i == at && !fired {
			fired, inB = true, true
			p.h.Logf("  before call %d (%s) of the first:", i, call)
			go func() { done <- p.do(p.c.B) }()
			select {
			case b = <-done:
				inB = false
			case <-time.After(wait):
				waiting = true // until A goes on
			}
		}
		return
	})
	a = p.do(p.c.A)
	if waiting {
		select {
		case b = <-done:
		case <-time.After(20 * time.Second):
			p.h.Fail("C18", "the operations wait for each other")
		}
	}
	p.ctl.set(nil)
	return
}

func runPair(h *H, c PairCase) {
	if len(c.Queues) == 0 || len(c.IDs) == 0 {
		h.Discard("empty")
	}
	if c.A.K == c.B.K && sweeps[c.A.K] {
		h.Discard("a server runs only one of each sweep at a time")
	}
	allowed := map[string]string{}
	seq := func(name string, ops ...func(p *pairRun, a, b *reply)) final {
		h.Logf("%s:", name)
		p := newPairRun(h, c)
		var a, b reply
		for _, op := range ops {
			op(p, &a, &b)
		}
		f := p.finish(a, b)
		h.Logf("  => %v", f)
		allowed[f.String()] = name
		return f
	}
	doA := func(p *pairRun, a, b *reply) { *a = p.do(c.A) }
	doB := func(p *pairRun, a, b *reply) { *b = p.do(c.B) }
	ab := seq("A B", doA, doB)
	ba := seq("B A", doB, doA)
	if (c.A.K == "ack" || c.A.K == "nack") && c.A.Rm {
		// two requests in one
		seq("A1 B A2", func(p *pairRun, a, b *reply) { op := c.A; op.Rm = false; p.do(op) }, doB, func(p *pairRun, a, b *reply) {
			*a = p.do(Op{K: "remove", Q: c.A.Q, Ids: []int{c.A.I}})
			a.Success = !p.expired[joined(p.q(c.A.Q), p.id(c.A.I))]
		})
	}
	reads := map[string]bool{"": true, "count": true, "get": true, "getq": true, "metrics": true}
	touch := func(op Op) (qs []int) {
		if sweeps[op.K] || op.K == "flush" {
			return []int{0, 1}
		}
		for _, it := range op.Items {
			qs = append(qs, it.Q)
		}
		if op.K != "add" {
			qs = append(qs, op.Q)
		}
		return
	}
	meet := false
	for _, x := range touch(c.A) {
		for _, y := range touch(c.B) {
			meet = meet || mod(x, len(c.Queues)) == mod(y, len(c.Queues))
		}
	}
	if ab.String() != ba.String() {
		h.Label("order matters")
	}
	if meet && !reads[c.A.K] && !reads[c.B.K] && len(ab.Msgs)+len(ba.Msgs) > 0 {
		h.Nontrivial()
	}
	for at := 0; at < 60; at++ {
		h.Logf("concurrently:")
		p := newPairRun(h, c)
		a, b, calls, fired := p.concurrently(at)
		if !fired {
			break
		}
		h.Label(calls[len(calls)-1])
		if c.A.K == "pull" && c.B.K == "pull" && p.q(c.A.Q) == p.q(c.B.Q) {
			for _, x := range a.got {
				for _, y := range b.got {
					h.Check(x != y, "C18 C03", "two concurrent pulls returned %q", x)
				}
			}
		}
		f := p.finish(a, b)
		h.Logf("  => %v", f)
		if allowed[f.String()] != "" {
			h.Label("as " + allowed[f.String()])
			continue
		}
		if addedWhileRemoved(p, f, ab, ba) {
			h.Known("add-races-removal", fmt.Sprintf("%s is interrupted by an add of the same message before %s", c.A.K, calls[len(calls)-1]))
			continue
		}
		if evictedTooMuch(p, calls[at], f, ab, ba) {
			h.Known("eviction-races-removal", "a removal between the count and the search of an eviction makes it remove more messages than those exceeding the limit")
			continue
		}
		h.Fail("C18", "%s with %s before its call of %s: the result is not one of any order:\n%v\nA then B: %v\nB then A: %v", c.A.K, c.B.K, calls[at], f, ab, ba)
	}
}

// addedWhileRemoved: the only difference are messages which B added again while A was removing them.
func addedWhileRemoved(p *pairRun, f, ab, ba final) bool {
	a, b := p.c.A, p.c.B
	removing := func(q, id string) bool {
		switch {
		case (a.K == "ack" || a.K == "nack") && a.Rm:
			return p.q(a.Q) == q && p.id(a.I) == id
		case a.K == "remove":
			for _, i := range a.Ids {
				if p.q(a.Q) == q && p.id(i) == id {
					return true
				}
			}
			return false
		case a.K == "pull":
			if p.q(a.Q) != q {
				return false
			}
		case a.K != "ttl" && a.K != "maxel":
			return false
		}
		for _, op := range p.c.Ops {
			for _, it := range op.Items {
				if p.q(it.Q) == q && p.id(it.I) == id {
					return true
				}
			}
		}
		return false
	}
	if b.K != "add" {
		return false
	}
	{
		// never more messages, though maybe others when there is a limit: the victims were chosen before
		for q, n := range f.Counts {
			if n > ab.Counts[q] && n > ba.Counts[q] {
				return false
			}
		}
	}
	without := func(f final) string {
		g := final{A: f.A, B: reply{Err: f.B.Err}, Counts: map[string]int64{}, Msgs: map[string]string{}, Limits: f.Limits}
		g.A.N = nil
		for q, n := range f.Counts {
			g.Counts[q] = n
		}
		for k, v := range f.Msgs {
			g.Msgs[k] = v
		}
		for _, it := range b.Items {
			q, id := p.q(it.Q), p.id(it.I)
			if !removing(q, id) {
				continue
			}
			g.Counts[q] = 0
			delete(g.Msgs, joined(q, id))
			if f.Limits[q] > 0 {
				for _, id := range p.c.IDs {
					delete(g.Msgs, joined(q, id))
				}
			}
		}
		return g.String()
	}
	return without(f) == without(ab) || without(f) == without(ba)
}

// evictedTooMuch: messages were removed between the count of an eviction and its search of the exceeding messages.
func evictedTooMuch(p *pairRun, call string, f, ab, ba final) bool {
	a, b := p.c.A, p.c.B
	if a.K != "maxel" || !strings.EqualFold(call, "storage.find") || !(b.K == "ttl" || b.K == "remove" || (b.K == "ack" || b.K == "nack") && b.Rm) {
		return false
	}
	for q, n := range f.Counts {
		if n > ab.Counts[q] && n > ba.Counts[q] || f.Limits[q] == 0 && n != ab.Counts[q] {
			return false
		}
	}
	for k := range f.Msgs {
		if ab.Msgs[k] == "" && ba.Msgs[k] == "" {
			return false
		}
	}
	return true
}

func genPair(t *rapid.T) PairCase {
	p := faultProfile
	p.nq, p.nid = 2, 2
	p.ttls = []int64{60 * 24 * 365 * 5, 60 * 24 * 365 * 5, 5, 60 * 24 * 365}
	p.limits = []int64{1, 1, 2, -1}
	c := PairCase{}
	c.Queues, c.IDs = genNames(t, p)
	prefix := spread(map[string]int{"add": 10, "pull": 7, "ack": 1, "nack": 1, "ackl": 2, "nackl": 2, "editq": 2, "advance": 1, "losecache": 1, "recovery": 1, "getq": 1, "remove": 1})
	pair := spread(map[string]int{"add": 5, "pull": 5, "ack": 4, "nack": 3, "ackl": 2, "nackl": 2, "remove": 4, "timeout": 3, "unlock": 2, "ttl": 3, "maxel": 3, "recovery": 2, "flush": 2, "editq": 2, "getq": 1, "metrics": 1})
	fix := func(op Op) Op {
		op.By = 0
		for i := range op.Items {
			op.Items[i].C = Content{Str: op.Items[i].C.Str}
			if op.Items[i].Score == 0 {
				op.Items[i].Score = 5
			}
			if op.Items[i].TTL == 0 {
				op.Items[i].TTL = 60
			}
		}
		if op.K == "ack" || op.K == "nack" {
			op.Sub, op.BP, op.Reason = 0, "", ""
			if rapid.IntRange(0, 3).Draw(t, "rm?") == 0 {
				op.Rm = true
			}
		}
		return op
	}
	if rapid.IntRange(0, 4).Draw(t, "start?") > 0 {
		add := Op{K: "add"}
		for q := range c.Queues {
			for i := range c.IDs {
				add.Items = append(add.Items, Item{Q: q, I: i, Score: F64(rapid.IntRange(1, 3).Draw(t, "score")), TTL: rapid.SampledFrom(p.ttls).Draw(t, "ttl")})
			}
		}
		c.Ops = append(c.Ops, add)
		if rapid.Bool().Draw(t, "start pull?") {
			c.Ops = append(c.Ops, Op{K: "pull", N: rapid.SampledFrom(p.amounts).Draw(t, "amount")})
		}
	}
	for _, op := range genFaultOps(t, p, prefix, "ops", 1, 8) {
		c.Ops = append(c.Ops, fix(op))
	}
	c.A = fix(genOp(t, p, pair))
	c.B = fix(genOp(t, p, pair))
	c.D = rapid.SampledFrom([]int64{0, 2, 1000, 300000, 600000}).Draw(t, "d")
	return c
}

func genNetPair(t *rapid.T) PairCase {
	c := genPair(t)
	c.Backend = rapid.SampledFrom([]string{"redis", "mongo", "full"}).Draw(t, "backend")
	c.Net = true
	return c
}

func init() {
	register("C18", "both operations change the same queue and some message is left, or the clients compete for messages",
		sub("two at a time", 8*1500, 8*40000, genPair, runPair),
		sub("two at a time, on the network", 8*60, 8*2000, genNetPair, runPair),
		sub("many at a time", 8*800, 8*40000, genStress, runStress).race(),
		sub("linearizable", 8*3000, 8*120000, genLin, runLin).race(),
		sub("many at a time, other backends", 8*60, 8*3000, genStressShared, runStress).race(),
		sub("linearizable, other backends", 8*200, 8*8000, genLinShared, runLin).race(),
	)
}

// joined is a key for a message: names may contain any separator.
func joined(queue, id string) string { return fmt.Sprintf("%q/%q", queue, id) }
