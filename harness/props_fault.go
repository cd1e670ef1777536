package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/service"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// Fault makes some of the backend calls of a history fail.
type Fault struct {
	At    int    // index of the first failing call
	Len   int    `json:",omitempty"` // number of failing calls (at least one)
	Mode  string // "before": it has no effect; "after": it takes effect; "part": a part of it takes effect; "crash": and the server dies; "lose": and the cache is lost as well
	Which string `json:",omitempty"` // only the calls of this backend: "cache" or "storage"
}

// Mid is a client operation which happens right before a backend call of the recovery.
type Mid struct {
	At int
	Op Op
}

// FaultCase is a history with failures.
type FaultCase struct {
	Backend string `json:",omitempty"`
	Net     bool   `json:",omitempty"` // the commands on the network fail, instead of the calls
	Big     int    `json:",omitempty"` // number of messages stored before the history
	Many    int    `json:",omitempty"` // number of further ids
	Queues  []string
	IDs     []string
	Ops     []Op
	Faults  []Fault `json:",omitempty"` // none: each call of the history is made to fail in each way, one at a time
	Mids    []Mid   `json:",omitempty"`
	Retry   bool    `json:",omitempty"` // failed adds are repeated
}

const (
	no = iota
	yes
	maybe
)

// wMsg is what a client can know of a message when requests fail.
type wMsg struct {
	key            mKey
	present        int
	expMin, expMax int64
	contents       []Content // the possible ones
	until          int64     // nobody else may get it until then
	byLock         bool
	ackMin, ackMax int64
	nakMin, nakMax int64
	order          int
}

type frun struct {
	h      *H
	props  string // the properties which a lost message breaks
	c      FaultCase
	in     *instance
	ctl    *control
	now    int64
	msgs   map[mKey]*wMsg
	limits map[string]map[int64]bool
	maxDue int64
	depth  int

	faults   []Fault
	active   bool // faults are being injected
	crashed  bool
	loseIt   bool
	hit      string // the calls which failed during the current operation
	hitNames []string
	cacheN   int // calls of the cache during the current operation
	pending  any // a failed check of an operation which was run by a server
	inSweep  string
	calls    []string
	lost     bool
	stats    map[string]int
	bySweep  bool
}

func newFrun(h *H, props string, c FaultCase, faults []Fault) *frun {
	setClock(startMs)
	f := &frun{h: h, props: props, c: c, now: startMs, msgs: map[mKey]*wMsg{}, limits: map[string]map[int64]bool{}, maxDue: startMs, faults: faults, stats: map[string]int{}}
	f.ctl = &control{}
	f.ctl.hook = f.hook
	var base wrap
	for i := 0; i < c.Many; i++ {
		f.c.IDs = append(f.c.IDs, fmt.Sprintf("n%d", i))
	}
	if c.Big+c.Many > 0 && (c.Backend == "" || c.Backend == "mongo") {
		base.cache = func(cache.Cache) cache.Cache { return newMapCache() }
	}
	if c.Net {
		f.in = newInstance(c.Backend, base)
		batch := 2
		if c.Big+c.Many > 0 {
			batch = 500
		}
		f.ctl.network(h, c.Backend, batch)
	} else {
		f.in = newInstance(c.Backend, base, f.ctl.layer())
	}
	return f
}

func (f *frun) hook(i int, call string) (before, after error) {
	if f.depth > 0 || !f.active {
		f.ctl.n--
		return nil, nil
	}
	f.calls = append(f.calls, call)
	if f.crashed {
		f.ctl.n--
		f.calls = f.calls[:len(f.calls)-1]
		return errInjected, nil
	}
	cleanup := false
	if strings.HasPrefix(call, "cache") {
		f.cacheN++
		cleanup = f.cacheN > 1
	}
	if f.inSweep == "recovery" && f.pending == nil {
		defer func() {
			if x := recover(); x != nil {
				if !f.c.Net {
					panic(x)
				}
				f.pending = x
			}
		}()
		for _, m := range f.c.Mids {
			if m.At == i {
				f.depth++
				hit, names, n := f.hit, f.hitNames, f.cacheN
				f.h.Logf("  before call %d (%s):", i, call)
				f.step(m.Op)
				f.hit, f.hitNames, f.cacheN = hit, names, n
				f.depth--
				f.stats["operation during recovery"]++
			}
		}
	}
	for _, x := range f.faults {
		n := x.Len
		if n < 1 {
			n = 1
		}
		if i < x.At || i >= x.At+n || (x.Which != "" && !strings.HasPrefix(call, x.Which)) {
			continue
		}
		f.h.Logf("  call %d (%s) fails: %s", i, call, x.Mode)
		f.hit += call + " "
		if cleanup {
			f.hitNames = append(f.hitNames, "cleanup")
		} else {
			f.hitNames = append(f.hitNames, call)
		}
		f.stats["failed "+call]++
		f.stats["mode "+x.Mode]++
		switch x.Mode {
		case "before":
			return errInjected, nil
		case "part":
			return nil, errPart
		case "crash", "lose":
			f.crashed, f.loseIt = true, x.Mode == "lose"
		}
		return nil, errInjected
	}
	return nil, nil
}

func (f *frun) key(q, i int) mKey {
	return mKey{f.c.Queues[mod(q, len(f.c.Queues))], f.c.IDs[mod(i, len(f.c.IDs))]}
}

func (f *frun) sorted() []*wMsg {
	l := make([]*wMsg, len(f.msgs))
	for _, x := range f.msgs {
		l[x.order] = x
	}
	return l
}

func (f *frun) get(k mKey) *wMsg {
	x := f.msgs[k]
	if x == nil {
		x = &wMsg{key: k, order: len(f.msgs)}
		f.msgs[k] = x
	}
	return x
}

// done ends an operation: the server is restarted when it died. It says whether the outcome is known to the client.
func (f *frun) done(op Op, req, res proto.Message, err error) bool {
	if x := f.pending; x != nil && f.depth == 0 {
		f.pending = nil
		panic(x)
	}
	s := ""
	if req != nil {
		s = short(req)
	}
	switch {
	case f.crashed:
		f.h.Logf("t=%d %s %s -> the server dies", f.now-startMs, op.K, s)
		f.crashed = false
		f.restart()
		if f.loseIt {
			f.loseCache()
		}
		return false
	case err != nil:
		f.h.Logf("t=%d %s %s -> ERROR %v", f.now-startMs, op.K, s, err)
	case res != nil:
		f.h.Logf("t=%d %s %s -> %s", f.now-startMs, op.K, s, short(res))
	default:
		f.h.Logf("t=%d %s %s", f.now-startMs, op.K, s)
	}
	if req != nil {
		if len(f.hitNames) > 0 {
			cleanup := op.K == "pull"
			for _, n := range f.hitNames {
				cleanup = cleanup && n == "cleanup"
			}
			f.h.Check(err != nil || cleanup, "C16", "%s succeeded although a backend call failed: %s", op.K, f.hit)
		} else {
			f.h.Check(err == nil, f.props, "%s failed although no backend call failed: %v", op.K, err)
		}
	}
	return err == nil
}

func (f *frun) restart() {
	f.in.cfg = queue.NewQueueConfigurationService(bg, f.in.storage)
	f.in.q = queue.NewQueue(f.in.aud, f.in.storage, f.in.cfg, f.in.cache)
	f.in.svc = service.NewDeckardInstance(f.in.q, f.in.cfg, f.in.caps.memory)
	f.h.Logf("the server is restarted")
}

func (f *frun) loseCache() {
	f.depth++
	switch f.c.Backend {
	case "redis", "full":
		redisServer("redis").Lose()
	case "cluster":
		redisServer("cluster").Lose()
	default:
		f.in.cache.Flush(bg)
	}
	f.depth--
	for _, x := range f.msgs {
		x.until = 0
	}
	f.lost = true
	f.h.Logf("the cache is lost")
}

func (f *frun) step(op Op) {
	f.hit, f.hitNames, f.cacheN = "", nil, 0
	setClock(f.now)
	op = op.expand(Hist{IDs: f.c.IDs})
	switch op.K {
	case "add":
		if !f.add(op) && f.c.Retry {
			f.hit, f.hitNames, f.cacheN = "", nil, 0
			f.h.Logf("retry:")
			f.add(op)
		}
	case "pull":
		f.pull(op)
	case "ack", "nack":
		f.ack(op)
	case "remove":
		f.remove(op)
	case "count":
		req := &deckard.CountRequest{}
		if op.Q >= 0 {
			req.Queue = f.key(op.Q, 0).q
		}
		res, err := rpc(f.in.svc.Count, req)
		if f.done(op, req, res, err) {
			f.checkCount(req.Queue, res.Count)
		}
	case "get":
		f.getById(op)
	case "editq":
		f.editq(op)
	case "getq":
		f.getq(op)
	case "advance":
		f.now += op.D &^ 1
		f.h.Logf("t=%d", f.now-startMs)
	case "losecache":
		f.loseCache()
	case "restart":
		f.restart()
	case "timeout", "unlock", "ttl", "maxel", "recovery":
		f.sweep(op)
	}
}

func (f *frun) add(op Op) bool {
	req := &deckard.AddRequest{}
	type eff struct {
		k   mKey
		exp int64
		c   Content
	}
	var effs []eff
	for _, it := range op.Items {
		k := f.key(it.Q, it.I)
		if f.in.caps.noNulKeys {
			it.C = it.C.withoutNul()
		}
		m := &deckard.AddMessage{Id: k.id, Queue: k.q, Score: float64(it.Score), TtlMinutes: it.TTL, Timeless: it.Timeless,
			Description: it.C.Desc, StringPayload: it.C.Str, Metadata: it.C.Meta, Payload: it.C.anys()}
		if !it.Timeless && it.TTL == 0 {
			m.TtlMinutes = 60
		}
		req.Messages = append(req.Messages, m)
		effs = append(effs, eff{k, expiryOf(f.now, m.TtlMinutes, it.Timeless), it.C})
	}
	if len(effs) == 0 && !f.in.caps.memory {
		return true
	}
	known := map[mKey]int{}
	for _, e := range effs {
		known[e.k] = f.get(e.k).present
	}
	res, err := rpc(f.in.svc.Add, req)
	ok := f.done(op, req, res, err)
	if ok {
		var lo, hi int64
		for _, p := range known {
			if p == no {
				lo++
			}
			if p != yes {
				hi++
			}
		}
		f.h.Check(res.CreatedCount >= lo && res.CreatedCount <= hi, f.props, "created_count %d, between %d and %d messages did not exist", res.CreatedCount, lo, hi)
	}
	for _, e := range effs {
		x := f.get(e.k)
		merged := []Content{e.c}
		if f.in.caps.keepsOmitted && x.present != no {
			for _, old := range x.contents {
				merged = append(merged, e.c.over(old))
			}
			if x.present == yes {
				merged = merged[1:]
			}
			if len(merged) > 300 {
				f.h.Discard("too many possible contents")
			}
		}
		if ok {
			if x.present == no {
				x.ackMin, x.ackMax, x.nakMin, x.nakMax = 0, 0, 0, 0
			} else if x.present == maybe {
				x.ackMin, x.nakMin = 0, 0
			}
			x.present = yes
			// the last one of a batch is stored
			x.expMin, x.expMax, x.contents = e.exp, e.exp, merged
			continue
		}
		if x.present == no {
			x.present, x.expMin, x.expMax, x.contents = maybe, e.exp, e.exp, merged
			x.ackMin, x.ackMax, x.nakMin, x.nakMax = 0, 0, 0, 0
			x.until = 0
		} else {
			if x.present == maybe {
				x.ackMin, x.nakMin = 0, 0
			}
			x.expMin, x.expMax = min(x.expMin, e.exp), max(x.expMax, e.exp)
			x.contents = append(x.contents, merged...)
		}
	}
	if ok {
		f.stats["added"]++
	} else {
		f.stats["add failed"]++
	}
	return ok
}

func (f *frun) due(d int64) int64 {
	t := satAdd(f.now, d)
	if t > f.maxDue {
		f.maxDue = t
	}
	return t
}

func (f *frun) pull(op Op) {
	q := f.key(op.Q, 0).q
	req := &deckard.PullRequest{Queue: q, Amount: op.N, AckDeadlineMs: op.Deadline}
	due := f.due(orDefault(op.Deadline, 300000))
	res, err := rpc(f.in.svc.Pull, req)
	if !f.done(op, req, res, err) {
		f.stats["pull failed"]++
		return
	}
	f.pulled(q, res, due)
}

func (f *frun) pulled(q string, res *deckard.PullResponse, due int64) (got []*wMsg) {
	h := f.h
	seen := map[string]bool{}
	for _, g := range res.Messages {
		k := mKey{g.Queue, g.Id}
		h.Check(g.Queue == q && !seen[g.Id], f.props, "pull of %q returned %v (again?)", q, k)
		seen[g.Id] = true
		x := f.msgs[k]
		h.Check(x != nil && x.present != no, f.props, "pull returned %v, which was removed or never added", k)
		h.Check(x.until <= f.now, words(f.props, "C03"), "pull returned %v, which nobody else may get until t=%d", k, x.until-startMs)
		f.checkContent(x, g, false)
		d := g.Diagnostics
		h.Check(d != nil && d.Acks >= x.ackMin && d.Acks <= x.ackMax && d.Nacks >= x.nakMin && d.Nacks <= x.nakMax, words(f.props, "C17"),
			"diagnostics of %v: %v, expected %d-%d acks and %d-%d nacks", k, d, x.ackMin, x.ackMax, x.nakMin, x.nakMax)
		x.present = yes
		x.ackMin, x.ackMax, x.nakMin, x.nakMax = d.Acks, d.Acks, d.Nacks, d.Nacks
		x.until, x.byLock = due, false
		got = append(got, x)
		f.stats["delivered"]++
	}
	return
}

func (f *frun) checkContent(x *wMsg, g *deckard.Message, desc bool) {
	var d string
	for _, c := range x.contents {
		if d = c.diff(g, desc); d == "" {
			return
		}
	}
	f.h.Fail(words(f.props, "C10"), "%v has %s (of %d possible contents)", x.key, d, len(x.contents))
}

func (f *frun) ack(op Op) {
	k := f.key(op.Q, op.I)
	if op.By > 0 {
		var l []*wMsg
		for _, x := range f.sorted() {
			if x.until > f.now && !x.byLock {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			k = l[mod(op.By-1, len(l))].key
		}
	}
	req := &deckard.AckRequest{Id: k.id, Queue: k.q, Score: float64(op.Score), ScoreSubtract: float64(op.Sub), Breakpoint: op.BP, LockMs: op.Lock, RemoveMessage: op.Rm}
	call := f.in.svc.Ack
	if op.K == "nack" {
		call = f.in.svc.Nack
	}
	x := f.get(k)
	certain := x.present == yes && x.until > f.now && !x.byLock
	res, err := rpc(call, req)
	lockDue := int64(0)
	if op.Lock > 0 {
		lockDue = f.due(op.Lock)
	}
	ok := f.done(op, req, res, err)
	lo := int64(0)
	if ok {
		lo = 1
	}
	if x.present != no {
		if x.present == maybe {
			lo = 0
		}
		if op.K == "ack" {
			x.ackMin, x.ackMax = x.ackMin+lo, x.ackMax+1
		} else {
			x.nakMin, x.nakMax = x.nakMin+lo, x.nakMax+1
		}
	}
	if op.Rm {
		f.h.Check(!ok || res.Success, "C16 C08", "removal by %s was not successful", op.K)
		f.gone(x, ok)
		return
	}
	if ok {
		f.h.Check(!certain || res.Success, f.props, "%s of %v, which is being processed, was not successful", op.K, k)
		if res.Success {
			x.until = 0
			if op.Lock > 0 {
				x.until, x.byLock = lockDue, true
			}
		}
		f.stats["acked"]++
	} else {
		f.stats["ack failed"]++
		// the message may have been made available, or locked
		if x.until > f.now && !x.byLock {
			x.until = 0
		}
	}
}

func (f *frun) gone(x *wMsg, ok bool) {
	x.until = 0
	if ok {
		x.present = no
		f.stats["removed"]++
	} else {
		if x.present == yes {
			x.present = maybe
		}
		f.stats["removal failed"]++
	}
}

func (f *frun) remove(op Op) {
	q := f.key(op.Q, 0).q
	req := &deckard.RemoveRequest{Queue: q}
	for _, i := range op.Ids {
		req.Ids = append(req.Ids, f.key(op.Q, i).id)
	}
	var lo, hi int64
	seen := map[string]bool{}
	for _, id := range req.Ids {
		if x := f.msgs[mKey{q, id}]; x != nil && !seen[id] {
			if x.present == yes {
				lo++
			}
			if x.present != no {
				hi++
			}
		}
		seen[id] = true
	}
	res, err := rpc(f.in.svc.Remove, req)
	ok := f.done(op, req, res, err)
	if ok {
		f.h.Check(res.StorageRemoved >= lo && res.StorageRemoved <= hi, words(f.props, "C08"), "storage_removed %d, expected %d to %d", res.StorageRemoved, lo, hi)
	}
	for _, id := range req.Ids {
		f.gone(f.get(mKey{q, id}), ok)
	}
}

func (f *frun) bounds(q string) (lo, hi int64) {
	for _, x := range f.msgs {
		if q != "" && x.key.q != q {
			continue
		}
		if x.present == yes {
			lo++
		}
		if x.present != no {
			hi++
		}
	}
	return
}

func (f *frun) checkCount(q string, n int64) {
	lo, hi := f.bounds(q)
	f.h.Check(n >= lo && n <= hi, words(f.props, "C33"), "count of %q is %d, expected %d to %d", q, n, lo, hi)
}

func (f *frun) getById(op Op) {
	k := f.key(op.Q, op.I)
	req := &deckard.GetByIdRequest{Id: k.id, Queue: k.q}
	res, err := rpc(f.in.svc.GetById, req)
	if !f.done(op, req, res, err) {
		return
	}
	x := f.get(k)
	f.h.Check(!res.Found || x.present != no, f.props, "get by id found %v, which was removed or never added", k)
	f.h.Check(res.Found || x.present != yes || x.expMin <= f.now, f.props, "get by id did not find %v", k)
	if res.Found {
		f.checkContent(x, res.Message, true)
	}
}

func (f *frun) limit(q string) map[int64]bool {
	if f.limits[q] == nil {
		f.limits[q] = map[int64]bool{0: true}
	}
	return f.limits[q]
}

func (f *frun) editq(op Op) {
	q := f.key(op.Q, 0).q
	req := &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: op.Limit}}
	res, err := rpc(f.in.svc.EditQueue, req)
	ok := f.done(op, req, res, err)
	if op.Limit == 0 {
		return
	}
	l := f.limit(q)
	if ok {
		f.h.Check(res.Success, "C16 C14", "edit queue was not successful")
		clear(l)
	}
	l[max(op.Limit, 0)] = true
}

func (f *frun) getq(op Op) {
	q := f.key(op.Q, 0).q
	req := &deckard.GetQueueRequest{Queue: q}
	res, err := rpc(f.in.svc.GetQueue, req)
	if !f.done(op, req, res, err) {
		return
	}
	n := res.Configuration.GetMaxElements()
	l := f.limit(q)
	f.h.Check(l[n], words(f.props, "C14"), "the limit of %q is %d, expected one of %v", q, n, l)
	clear(l)
	l[n] = true
}

func (f *frun) sweep(op Op) {
	at := f.now + 1
	setClock(at)
	outer := f.inSweep
	f.inSweep = op.K
	switch op.K {
	case "timeout":
		_ = queue.ProcessTimeoutMessages(bg, f.in.q)
	case "unlock":
		queue.ProcessLockPool(bg, f.in.q)
	case "ttl":
		t := time.UnixMilli(at)
		_, _ = queue.RemoveTTLMessages(bg, f.in.q, &t)
		for _, x := range f.msgs {
			if x.present != no && x.expMin <= at {
				x.present, x.until = maybe, 0
			}
		}
	case "maxel":
		_, _ = queue.RemoveExceedingMessages(bg, f.in.q)
		for q, l := range f.limits {
			_, hi := f.bounds(q)
			for n := range l {
				if n > 0 && hi > n {
					for _, x := range f.msgs {
						if x.key.q == q && x.present != no {
							x.present, x.until = maybe, 0
						}
					}
				}
			}
		}
	case "recovery":
		queue.RecoveryMessagesPool(bg, f.in.q)
	}
	f.inSweep = outer
	f.done(op, nil, nil, nil)
	if f.depth == 0 {
		f.now += 2
	}
	setClock(f.now)
}

// settle runs the housekeeping without failures and checks that everything which was accepted can be pulled.
func (f *frun) settle() {
	f.active = false
	f.h.Logf("no more failures")
	f.now = max(f.now, f.maxDue+2)
	f.now &^= 1
	n := 0
	for _, x := range f.msgs {
		if x.present != no {
			n++
		}
	}
	// one run for each batch, and one in which nothing is left
	for i := 0; i < n/4000+3; i++ {
		f.step(Op{K: "recovery"})
	}
	// Redis moves at most 1000 messages of a queue at once
	for i := 0; i < n/1000+1; i++ {
		f.step(Op{K: "timeout"})
		f.step(Op{K: "unlock"})
	}
	for _, x := range f.msgs {
		x.until = 0
	}
	got := map[mKey]bool{}
	seen := map[string]bool{}
	for _, q := range f.c.Queues {
		if seen[q] {
			continue
		}
		seen[q] = true
		for i := 0; ; i++ {
			// expired messages may be skipped by a pull, which may return nothing although there is more
			req := &deckard.PullRequest{Queue: q, Amount: 1000, AckDeadlineMs: math.MaxInt64 / 4}
			res, err := rpc(f.in.svc.Pull, req)
			f.done(Op{K: "pull"}, req, nil, err)
			f.h.Logf("  %d messages", len(res.GetMessages()))
			for _, x := range f.pulled(q, res, math.MaxInt64) {
				got[x.key] = true
			}
			if len(res.Messages) == 0 && i > len(f.msgs)/1000+1 {
				break
			}
		}
	}
	for _, x := range f.sorted() {
		if x.present == yes && x.expMin > f.now && !got[x.key] {
			f.h.Fail(f.props, "%v was accepted, but cannot be pulled anymore", x.key)
		}
	}
	for q := range seen {
		f.step(Op{K: "count", Q: indexStr(f.c.Queues, q)})
	}
	f.step(Op{K: "count", Q: -1})
	// the removal of expired messages works again
	f.step(Op{K: "ttl"})
	for _, x := range f.msgs {
		if x.expMax < f.now {
			x.present = no
		}
	}
	for qi, q := range f.c.Queues {
		if indexStr(f.c.Queues, q) != qi {
			continue
		}
		f.step(Op{K: "count", Q: qi})
		f.step(Op{K: "getq", Q: qi})
	}
	// and so does the one of exceeding messages
	for qi, q := range f.c.Queues {
		if indexStr(f.c.Queues, q) == qi {
			f.step(Op{K: "editq", Q: qi, Limit: 1})
		}
	}
	f.step(Op{K: "maxel"})
	for q := range seen {
		lo, _ := f.bounds(q)
		res, err := rpc(f.in.svc.Count, &deckard.CountRequest{Queue: q})
		f.h.Check(err == nil && (res.Count == 1 || res.Count == 0 && lo == 0), words(f.props, "C13"), "after the eviction, the queue %q with limit 1 has %v messages (%v)", q, res, err)
	}
}

// execute runs the history once with the given failures.
func (f *frun) execute(from int) {
	f.step(Op{K: "recovery"}) // a server starts with it
	f.fill()
	for i, op := range f.c.Ops {
		f.active = i >= from
		f.step(op)
	}
	f.settle()
}

// fill stores the initial messages.
func (f *frun) fill() {
	for i := 0; i < f.c.Big; {
		op := Op{K: "add"}
		for ; i < f.c.Big && len(op.Items) < 1000; i++ {
			id := fmt.Sprintf("m%d", i)
			f.c.IDs = append(f.c.IDs, id)
			it := Item{Q: i * 7 % 3 % len(f.c.Queues), I: len(f.c.IDs) - 1, Score: F64(i % 13), TTL: 60 * 24 * 365 * 5}
			if i%97 == 0 {
				it.TTL = 5
			}
			op.Items = append(op.Items, it)
		}
		f.step(op)
	}
}

var faultModes = []string{"before", "after", "crash", "lose"}
var netModes = append([]string{"part"}, faultModes...)

// runFaults runs the history with each single failure, or with those of the case.
func runFaults(h *H, props string, c FaultCase, modes []string, from int) {
	if len(c.Queues) == 0 || len(c.IDs) == 0 {
		h.Discard("empty")
	}
	run := func(faults []Fault) *frun {
		h.Trace = h.Trace[:0]
		if len(faults) > 0 {
			h.Logf("failures: %+v", faults)
		}
		c := c
		c.IDs = append([]string{}, c.IDs...)
		f := newFrun(h, props, c, faults)
		f.execute(from)
		for k := range f.stats {
			h.Label(k)
		}
		if f.stats["delivered"] > 0 && (f.stats["add failed"]+f.stats["pull failed"]+f.stats["ack failed"]+f.stats["removal failed"] > 0 || f.lost) {
			h.Nontrivial()
		}
		return f
	}
	if len(c.Faults) > 0 {
		run(c.Faults)
		return
	}
	plain := run(nil)
	for i := range plain.calls {
		for _, m := range modes {
			run([]Fault{{At: i, Mode: m}})
		}
	}
}

// onNetwork makes the commands on the network fail.
func onNetwork(g func(t *rapid.T) FaultCase) func(t *rapid.T) FaultCase {
	return func(t *rapid.T) FaultCase {
		c := g(t)
		c.Net = true
		return c
	}
}

var faultProfile = profile{nq: 2, nid: 5, min: 6, max: 16, names: "plain", maxBatch: 4,
	scores: []float64{0, 0, 1, 2, 1000}, ttls: []int64{60 * 24 * 365 * 5, 60 * 24 * 365 * 5, 60 * 24 * 365 * 5, 5},
	amounts: []int32{1, 2, 1000}, limits: []int64{-1, 0, 2, 50, 100},
	w: map[string]int{"add": 9, "pull": 7, "ack": 4, "nack": 2, "ackl": 4, "nackl": 3, "remove": 3, "count": 1, "get": 1,
		"editq": 2, "getq": 2, "advance": 3, "timeout": 3, "unlock": 4, "ttl": 2, "maxel": 1, "recovery": 1}}

func genFaultOps(t *rapid.T, p profile, kinds []string, label string, lo, hi int) (ops []Op) {
	for _, op := range rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		op := genOp(t, p, kinds)
		if op.To > 0 {
			op.To, op.D = 0, 300000+op.D
		}
		return op
	}), lo, hi).Draw(t, label) {
		if op.K != "nop" {
			ops = append(ops, op)
		}
	}
	return
}

func genFaultCase(p profile, outages bool) func(t *rapid.T) FaultCase {
	kinds := spread(p.w)
	return func(t *rapid.T) FaultCase {
		c := FaultCase{Retry: rapid.Bool().Draw(t, "retry")}
		if len(p.backends) > 0 {
			c.Backend = rapid.SampledFrom(p.backends).Draw(t, "backend")
		}
		c.Queues, c.IDs = genNames(t, p)
		c.Ops = genFaultOps(t, p, kinds, "ops", p.min, p.max)
		if rapid.IntRange(0, 2).Draw(t, "held?") > 0 {
			// a message is locked, or not acknowledged, until its time is over
			q := rapid.IntRange(0, 1).Draw(t, "held queue")
			held := []Op{{K: "add", Items: []Item{{Q: q, I: rapid.IntRange(0, 4).Draw(t, "held id"), Score: 1, TTL: 60 * 24 * 365 * 5}}}}
			switch k := rapid.SampledFrom([]string{"ack", "nack", "timeout"}).Draw(t, "held by"); k {
			case "timeout":
				held = append(held, Op{K: "pull", Q: q, N: 1000, Deadline: 1000}, Op{K: "advance", D: 2000}, Op{K: "timeout"})
			default:
				held = append(held, Op{K: "pull", Q: q, N: 1000}, Op{K: k, By: 1, Score: 3, Lock: 1000}, Op{K: "advance", D: 2000}, Op{K: "unlock"})
			}
			i := rapid.IntRange(0, len(c.Ops)).Draw(t, "held at")
			c.Ops = append(append(append([]Op{}, c.Ops[:i]...), held...), c.Ops[i:]...)
		}
		if outages {
			c.Faults = rapid.SliceOfN(genFault(60), 1, 5).Draw(t, "failures")
		}
		return c
	}
}

func genFault(n int) *rapid.Generator[Fault] {
	return rapid.Custom(func(t *rapid.T) Fault {
		f := Fault{At: rapid.IntRange(0, n).Draw(t, "at"), Mode: rapid.SampledFrom(netModes).Draw(t, "mode"),
			Which: rapid.SampledFrom([]string{"", "cache", "storage"}).Draw(t, "which")}
		if f.Mode == "before" || f.Mode == "after" || f.Mode == "part" {
			f.Len = rapid.SampledFrom([]int{1, 1, 2, 4, 10}).Draw(t, "length")
		}
		return f
	})
}

// genRecoveryCase: what happens before the cache is lost, then recovery runs with client operations in between.
func genRecoveryCase(p profile, outages bool) func(t *rapid.T) FaultCase {
	before := spread(p.w)
	after := spread(map[string]int{"recovery": 6, "add": 3, "pull": 3, "ack": 1, "nack": 1, "ackl": 1, "remove": 1, "timeout": 1, "unlock": 1, "ttl": 1, "maxel": 1, "advance": 1, "editq": 1, "restart": 1})
	mids := spread(map[string]int{"add": 4, "pull": 3, "ack": 2, "ackl": 1, "nack": 1, "remove": 2, "timeout": 1, "ttl": 1, "maxel": 1})
	return func(t *rapid.T) FaultCase {
		c := FaultCase{Retry: rapid.Bool().Draw(t, "retry")}
		if len(p.backends) > 0 {
			c.Backend = rapid.SampledFrom(p.backends).Draw(t, "backend")
		}
		c.Queues, c.IDs = genNames(t, p)
		c.Ops = genFaultOps(t, p, before, "before", 2, 10)
		c.Ops = append(c.Ops, Op{K: "losecache"})
		c.Ops = append(c.Ops, genFaultOps(t, p, after, "after", 2, 8)...)
		if rapid.Bool().Draw(t, "mids?") {
			c.Mids = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mid {
				op := genOp(t, p, mids)
				op.To = 0
				return Mid{At: rapid.IntRange(0, 20).Draw(t, "at"), Op: op}
			}), 0, 3).Draw(t, "mids")
		}
		if outages {
			c.Faults = rapid.SliceOfN(genFault(25), 1, 4).Draw(t, "failures")
		}
		return c
	}
}

// genManyCase: requests with more messages than what the backends are sent at once.
func genManyCase(t *rapid.T) FaultCase {
	c := FaultCase{Net: true, Queues: []string{"qa", "qb"}, IDs: []string{"a", "b"}, Retry: rapid.Bool().Draw(t, "retry")}
	c.Backend = rapid.SampledFrom([]string{"redis", "mongo", "full"}).Draw(t, "backend")
	c.Many = rapid.SampledFrom([]int{2500, 4500, 250, 8500}).Draw(t, "ids")
	p := faultProfile
	p.nid = 2
	p.bulk = c.Many
	p.w = map[string]int{"remove": 6, "pull": 2, "add": 2, "ttl": 3, "maxel": 2, "editq": 1, "advance": 2, "ackl": 1, "timeout": 1, "unlock": 1, "recovery": 1}
	c.Ops = append(c.Ops, Op{K: "add", Bulk: c.Many, I: 1, Exp: rapid.Bool().Draw(t, "expiring")})
	c.Ops = append(c.Ops, genFaultOps(t, p, spread(p.w), "ops", 1, 5)...)
	big := rapid.IntRange(1, len(c.Ops)).Draw(t, "bulk at")
	c.Ops = append(c.Ops[:big:big], append([]Op{{K: rapid.SampledFrom([]string{"remove", "add"}).Draw(t, "bulk"), Bulk: c.Many, I: 2}}, c.Ops[big:]...)...)
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Fault {
		return Fault{At: rapid.IntRange(0, 8).Draw(t, "at"), Mode: rapid.SampledFrom(netModes).Draw(t, "mode"), Which: rapid.SampledFrom([]string{"", "cache", "storage"}).Draw(t, "which")}
	}), 1, 2).Draw(t, "failures")
	if rapid.Bool().Draw(t, "late") {
		c.Faults = append(c.Faults, genFault(90).Draw(t, "late failure"))
	}
	return c
}

func genBigCase(t *rapid.T, other bool) FaultCase {
	p := faultProfile
	p.nid = 4
	batch := rapid.IntRange(1, 2).Draw(t, "batches")
	c := FaultCase{Queues: []string{"qa", "qb", "qc"}[:rapid.IntRange(1, 3).Draw(t, "queues")], IDs: []string{"a", "b", "c", "m0", "m1"}}
	if other {
		c.Backend = rapid.SampledFrom([]string{"redis", "mongo", "mongo", "full"}).Draw(t, "backend")
		c.Net = rapid.Bool().Draw(t, "network")
		batch = 1
	}
	c.Big = 4000*batch + rapid.SampledFrom([]int{0, 1, -1, 37, 3000}).Draw(t, "size")
	c.Ops = []Op{{K: "losecache"}, {K: "recovery"}}
	c.Ops = append(c.Ops, genFaultOps(t, p, spread(map[string]int{"recovery": 6, "add": 2, "pull": 2, "remove": 1, "ttl": 1, "advance": 1}), "after", 2, 6)...)
	c.Mids = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mid {
		op := genOp(t, p, spread(map[string]int{"add": 4, "pull": 3, "ack": 1, "remove": 1}))
		op.To = 0
		return Mid{At: rapid.IntRange(0, 40).Draw(t, "at"), Op: op}
	}), 0, 3).Draw(t, "mids")
	// at least one failure, so that the case is run once
	c.Faults = append(rapid.SliceOfN(genFault(40), 0, 3).Draw(t, "failures"), Fault{At: 1 << 30, Mode: "before"})
	return c
}

// lostDuringRun: the cache is lost between the calls of one recovery run, which goes on.
func lostDuringRun(h *H, _ int) {
	lost := map[string]string{}
	for i := 0; i < 12; i++ {
		c := FaultCase{Queues: []string{"qa"}, IDs: []string{"a", "b"}, Mids: []Mid{{At: i, Op: Op{K: "losecache"}}},
			Ops: []Op{{K: "add", Items: []Item{{I: 0, Score: 1, TTL: 60000}, {I: 1, Score: 2, TTL: 60000}}}, {K: "losecache"}, {K: "recovery"}}}
		var f *frun
		func() {
			defer func() {
				if x := recover(); x != nil {
					if e, ok := x.(failure); ok && strings.Contains(e.msg, "cannot be pulled anymore") {
						lost[f.calls[i]] = e.msg
						return
					}
					panic(x)
				}
			}()
			f = newFrun(h, "C15", c, nil)
			f.execute(1)
		}()
		if i >= len(f.calls) {
			break
		}
	}
	h.Logf("messages are lost when the cache is lost before: %v", lost)
	for call, msg := range lost {
		h.Check(call == "cache.Set", "C15", "the cache was lost before %s of a recovery run: %s", call, msg)
	}
	if len(lost) > 0 {
		h.Known("cache-lost-during-run", fmt.Sprintf("the cache is lost during a recovery run which goes on, before its call of %v", sortedKeys(lost)))
	}
	h.Nontrivial()
}

func init() {
	lossless := append([]string{}, faultModes...)
	netProfile := faultProfile.with(func(p *profile) { p.backends = []string{"redis", "mongo", "full"} })
	clusterProfile := faultProfile.with(func(p *profile) { p.backends = []string{"cluster", "full"}; p.max = 30 })
	recProfile := faultProfile
	recProfile.w = map[string]int{"add": 12, "pull": 3, "ack": 2, "ackl": 1, "nackl": 1, "remove": 1, "ttl": 1, "editq": 1}
	register("C16", "messages were delivered although some backend call had failed, the server died or the cache was lost",
		sub("each call fails", 8*250, 8*5000, genFaultCase(faultProfile, false), func(h *H, c FaultCase) { runFaults(h, "C16", c, lossless, 0) }),
		sub("outages", 8*4000, 8*80000, genFaultCase(faultProfile.with(func(p *profile) { p.max = 40 }), true), func(h *H, c FaultCase) { runFaults(h, "C16", c, nil, 0) }),
		sub("each command fails", 8*12, 8*400, onNetwork(genFaultCase(netProfile, false)), func(h *H, c FaultCase) { runFaults(h, "C16", c, netModes, 0) }),
		sub("outages on the network", 8*200, 8*8000, onNetwork(genFaultCase(netProfile.with(func(p *profile) { p.max = 40 }), true)), func(h *H, c FaultCase) { runFaults(h, "C16", c, nil, 0) }),
		sub("many messages", 8*8, 8*300, genManyCase, func(h *H, c FaultCase) { runFaults(h, "C16", c, nil, 0) }),
		sub("outages of the other backends", 8*100, 8*4000, genFaultCase(clusterProfile, true), func(h *H, c FaultCase) { runFaults(h, "C16", c, nil, 0) }),
	)
	// the failures start when the cache is lost
	fromLoss := func(c FaultCase) int {
		for i, op := range c.Ops {
			if op.K == "losecache" {
				return i
			}
		}
		return 0
	}
	netRec := recProfile.with(func(p *profile) { p.backends = netProfile.backends })
	clusterRec := recProfile.with(func(p *profile) { p.backends = clusterProfile.backends })
	register("C15", "messages were delivered after the cache was lost",
		sub("each call of the recovery fails", 8*250, 8*5000, genRecoveryCase(recProfile, false), func(h *H, c FaultCase) { runFaults(h, "C15", c, lossless, fromLoss(c)) }),
		sub("outages", 8*4000, 8*80000, genRecoveryCase(recProfile, true), func(h *H, c FaultCase) { runFaults(h, "C15", c, nil, fromLoss(c)) }),
		sub("each command of the recovery fails", 8*12, 8*400, onNetwork(genRecoveryCase(netRec, false)), func(h *H, c FaultCase) { runFaults(h, "C15", c, netModes, fromLoss(c)) }),
		sub("outages on the network", 8*200, 8*8000, onNetwork(genRecoveryCase(netRec, true)), func(h *H, c FaultCase) { runFaults(h, "C15", c, nil, fromLoss(c)) }),
		sub("outages of the other backends", 8*100, 8*4000, genRecoveryCase(clusterRec, true), func(h *H, c FaultCase) { runFaults(h, "C15", c, nil, fromLoss(c)) }),
		sub("cache lost during a run", 0, 0, func(t *rapid.T) int { return 0 }, lostDuringRun, 0).serial(),
		probe("late secondary", lateRecovery),
		sub("many batches, other backends", 8*4, 8*100, func(t *rapid.T) FaultCase { return genBigCase(t, true) }, func(h *H, c FaultCase) { runFaults(h, "C15", c, nil, fromLoss(c)) }),
		sub("many batches", 8*20, 8*400, func(t *rapid.T) FaultCase { return genBigCase(t, false) }, func(h *H, c FaultCase) { runFaults(h, "C15", c, nil, fromLoss(c)) }),
	)
}
