package main

import (
	"cmp"
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/service"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// Item is one message of an add.
type Item struct {
	Q, I     int
	Score    F64   `json:",omitempty"`
	TTL      int64 `json:",omitempty"`
	Timeless bool  `json:",omitempty"`
	C        Content
}

// Op is one step of a history.
type Op struct {
	K        string
	Q        int    `json:",omitempty"`
	I        int    `json:",omitempty"`
	By       int    `json:",omitempty"` // ack, nack, getbyid: >0: of the By-th message being processed instead of (Q,I)
	Items    []Item `json:",omitempty"`
	Ids      []int  `json:",omitempty"`
	N        int32  `json:",omitempty"`
	Min      F64    `json:",omitempty"`
	Max      F64    `json:",omitempty"`
	Filter   int64  `json:",omitempty"`
	Deadline int64  `json:",omitempty"`
	Score    F64    `json:",omitempty"`
	Sub      F64    `json:",omitempty"`
	Lock     int64  `json:",omitempty"`
	BP       string `json:",omitempty"`
	Reason   string `json:",omitempty"`
	Rm       bool   `json:",omitempty"`
	D        int64  `json:",omitempty"` // advance: milliseconds, made even
	To       int    `json:",omitempty"` // advance: >0: to the To-th coming due time (plus D)
	Limit    int64  `json:",omitempty"`
	NoCfg    bool   `json:",omitempty"`
	Exp      bool   `json:",omitempty"` // advance: the expiries count as due times too
	Far      bool   `json:",omitempty"` // advance: and those of the timeless messages
	Exact    bool   `json:",omitempty"` // sweeps: at the very time of the last operation, not later
	Bulk     int    `json:",omitempty"` // add, remove: that many messages, in an order which depends on I
}

// expand writes a bulk operation in full.
func (op Op) expand(hist Hist) Op {
	if op.Bulk <= 0 {
		return op
	}
	n := min(op.Bulk, len(hist.IDs))
	ttls := []int64{60 * 24 * 365 * 5, 1, 60, 2, 600}
	for j := 0; j < n; j++ {
		i := (j*7919 + op.I) % len(hist.IDs)
		switch op.K {
		case "add":
			it := Item{Q: op.Q, I: i, Score: F64((i*31+op.I)%97 + 1), TTL: ttls[0], C: Content{Str: fmt.Sprint(op.I)}}
			if op.Exp {
				it.TTL = ttls[(i+op.I)%len(ttls)]
			}
			op.Items = append(op.Items, it)
		case "remove":
			op.Ids = append(op.Ids, i)
		}
	}
	op.Bulk, op.I, op.Exp = 0, 0, false
	return op
}

// Hist is a history over a set of queues and ids.
type Hist struct {
	Backend string `json:",omitempty"`
	Queues  []string
	IDs     []string
	Ops     []Op
}

// opts says what the run of a history checks in addition to the responses.
type histOpts struct {
	audit   bool
	metrics bool
	drain   bool
	probe   bool // read everything that is stored after each change
	noModel bool // only run
	after   func(r *run, i int, op Op)
	started func(r *run)
	wraps   []wrap
}

type run struct {
	h          *H
	in         *instance
	m          *model
	now        int64
	hist       Hist
	opt        histOpts
	done       []Op // the executed operations, without the parts that depend on the state
	res        []string
	exp        []expEntry           // expected audit entries of the current operation
	aud        []audit.Entry        // the audit entries of the current operation
	rem        map[string]*remCount // by queue prefix, what the current operation removed
	mx         *metricsTracker
	skipped    int // number of executed operations when an operation was skipped
	lastPulled int
	blame      string // the property of the operation after which everything is read
	// statistics of the history
	stats map[string]int
}

type remCount struct{ st, ca, maybe int64 }

// prefixOf is the part before the first '::'.
func prefixOf(q string) string {
	for i := 0; i+1 < len(q); i++ {
		if q[i] == ':' && q[i+1] == ':' {
			return q[:i]
		}
	}
	return q
}

type expEntry struct {
	e        audit.Entry
	optional bool
}

func (r *run) stat(k string) {
	if r.stats == nil {
		r.stats = map[string]int{}
	}
	r.stats[k]++
}

func (r *run) q(i int) string { return r.hist.Queues[mod(i, len(r.hist.Queues))] }
func (r *run) id(i int) string {
	return r.hist.IDs[mod(i, len(r.hist.IDs))]
}

func mod(i, n int) int {
	if n == 0 {
		return 0
	}
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

func startHist(h *H, hist Hist, opt histOpts) *run {
	setClock(startMs)
	ops := make([]Op, len(hist.Ops))
	for i, op := range hist.Ops {
		ops[i] = op.expand(hist)
	}
	hist.Ops = ops
	r := &run{h: h, m: newModel(), now: startMs, hist: hist, opt: opt}
	r.in = newInstance(hist.Backend, opt.wraps...)
	if opt.metrics {
		r.mx = newMetricsTracker(r.in)
	}
	return r
}

func runHist(h *H, hist Hist, opt histOpts) *run {
	r := startHist(h, hist, opt)
	if opt.started != nil {
		opt.started(r)
	}
	for i, op := range r.hist.Ops {
		r.step(op)
		if opt.after != nil {
			opt.after(r, i, op)
		}
	}
	if opt.drain {
		r.drain()
	}
	for k, n := range r.stats {
		if n > 0 {
			h.Label(k)
		}
	}
	return r
}

func short(m proto.Message) string {
	b, _ := protojson.MarshalOptions{}.Marshal(m)
	s := string(b)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (r *run) out(op Op, req proto.Message, res proto.Message, err error) {
	s := ""
	if err != nil {
		s = "ERROR " + err.Error()
	} else {
		s = canon(res)
	}
	r.res = append(r.res, s)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	r.h.Logf("t=%d %s %s -> %s", r.now-startMs, op.K, short(req), s)
}

// canon is a deterministic form of a response.
func canon(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	Must(err)
	if len(b) > 2000 {
		return fmt.Sprintf("%d bytes %x", len(b), b[:200])
	}
	j, err := protojson.Marshal(m)
	if err != nil {
		return fmt.Sprintf("%x", b)
	}
	var v any
	if json.Unmarshal(j, &v) == nil {
		j, _ = json.Marshal(v)
	}
	return string(j)
}

func (r *run) expect(e audit.Entry) { r.exp = append(r.exp, expEntry{e: e}) }
func (r *run) mayAudit(e audit.Entry) {
	r.exp = append(r.exp, expEntry{e: e, optional: true})
}

// step executes one operation and checks its result.
func (r *run) step(op Op) {
	r.exp, r.rem = nil, map[string]*remCount{}
	r.in.aud.take()
	r.skipped = -1
	if r.mx != nil {
		r.mx.real = time.Now()
	}
	setClock(r.now)
	switch op.K {
	case "add":
		r.add(op)
	case "pull":
		r.pull(op)
	case "ack", "nack":
		r.ack(op)
	case "remove":
		r.remove(op)
	case "count":
		r.count(op)
	case "get":
		r.get(op)
	case "editq":
		r.editq(op)
	case "getq":
		r.getq(op)
	case "flush":
		r.flush(op)
	case "advance":
		r.advance(op)
	case "timeout", "unlock", "ttl", "maxel", "recovery", "metrics":
		r.sweep(op)
	case "restart":
		r.in.cfg = queue.NewQueueConfigurationService(bg, r.in.storage)
		r.in.q = queue.NewQueue(r.in.aud, r.in.storage, r.in.cfg, r.in.cache)
		r.in.svc = service.NewDeckardInstance(r.in.q, r.in.cfg, r.in.caps.memory)
		r.done = append(r.done, op)
		r.res = append(r.res, "")
		r.h.Logf("the server is restarted")
		r.stat("restarted")
	case "losecache":
		r.in.cache.Flush(bg)
		for _, x := range r.m.msgs {
			x.st, x.fuzzy = sGone, false
			if x.stored {
				x.gonevia = "C15"
			}
		}
		r.m.recDone = false
		r.done = append(r.done, op)
		r.res = append(r.res, "")
		r.h.Logf("the cache is lost")
		r.stat("losecache")
	default:
		Must(fmt.Errorf("unknown operation %q", op.K))
	}
	r.aud = r.in.aud.take()
	if r.opt.probe && !r.opt.noModel {
		r.probe(op)
	}
	if r.opt.audit {
		r.checkAudit(op)
	}
	if r.mx != nil {
		r.mx.check(r, op)
	}
}

// ---- client operations

func (r *run) add(op Op) {
	req := &deckard.AddRequest{}
	type eff struct {
		it Item
		sc float64
	}
	var kept []Item
	scores := map[mKey]float64{}
	for _, it := range op.Items {
		if r.in.caps.noNulKeys {
			it.C = it.C.withoutNul()
		}
		k := mKey{r.q(it.Q), r.id(it.I)}
		x := r.m.msgs[k]
		if x != nil && x.fuzzy {
			continue
		}
		sc := addScore(r.now, float64(it.Score))
		if old, dup := scores[k]; dup && old != sc {
			continue // which of both is used is not specified
		}
		scores[k] = sc
		kept = append(kept, it)
		m := &deckard.AddMessage{Id: k.id, Queue: k.q, Score: float64(it.Score), TtlMinutes: it.TTL, Timeless: it.Timeless,
			Description: it.C.Desc, StringPayload: it.C.Str, Metadata: it.C.Meta, Payload: it.C.anys()}
		if !it.Timeless && it.TTL == 0 {
			m.TtlMinutes = 60
		}
		req.Messages = append(req.Messages, m)
	}
	op.Items = kept
	r.done = append(r.done, op)
	if len(kept) == 0 && !r.in.caps.memory {
		r.res = append(r.res, "")
		return
	}
	res, err := rpc(r.in.svc.Add, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "add failed: %v", err)
	var created, updated, batchDup int64
	seen := map[mKey]bool{}
	for i, it := range kept {
		k := mKey{r.q(it.Q), r.id(it.I)}
		x := r.m.msgs[k]
		exp := expiryOf(r.now, req.Messages[i].TtlMinutes, it.Timeless)
		if x == nil || !x.stored {
			if x != nil && x.gonevia != "" {
				r.stat("re-added after removal")
			}
			r.m.seq++
			x = &mMsg{key: k, stored: true, st: sActive, seq: r.m.seq, score: scores[k], stScore: scores[k], settled: true,
				c: it.C, expiry: exp, lastUsed: r.now, via: "C04 C09"}
			r.m.msgs[k] = x
			created++
			r.expect(audit.Entry{ID: k.id, Queue: k.q, Signal: audit.INSERT_CACHE})
		} else {
			updated++
			if seen[k] {
				batchDup++
				r.mayAudit(audit.Entry{ID: k.id, Queue: k.q, Signal: audit.INSERT_CACHE})
			} else {
				r.stat("re-added " + stNames[x.st])
			}
			if r.in.caps.keepsOmitted {
				it.C = it.C.over(x.c)
			}
			if x.expiry <= r.now {
				r.stat("re-added expired")
			}
			x.c, x.expiry, x.readded = it.C, exp, true
			x.tags = words(x.tags, "C09")
			if x.st == sGone {
				// stored but not in the cache: lost cache
				x.st, x.score, x.settled, x.via = sActive, scores[k], false, "C15 C09 C04"
				r.expect(audit.Entry{ID: k.id, Queue: k.q, Signal: audit.INSERT_CACHE})
			}
		}
		seen[k] = true
	}
	r.h.Check(res.CreatedCount == created, "C09 C33", "created_count %d instead of %d", res.CreatedCount, created)
	if r.in.caps.keepsOmitted {
		r.h.Check(res.UpdatedCount <= updated, "C09", "updated_count %d, but only %d messages existed", res.UpdatedCount, updated)
	} else {
		r.h.Check(res.UpdatedCount == updated, "C09", "updated_count %d instead of %d", res.UpdatedCount, updated)
	}
	if created > 0 {
		r.stat("created")
	}
	if updated > 0 {
		r.stat("updated")
	}
}

func inRange(sc float64, min, max *float64) bool {
	return (min == nil || sc >= *min) && (max == nil || sc <= *max)
}

func (r *run) bounds(op Op) (min, max *float64) {
	mx := float64(op.Max)
	if mx == 0 && op.Filter > 0 {
		mx = float64(r.now - op.Filter)
	}
	f := func(v float64) *float64 {
		if v == 0 {
			return nil
		}
		v = capScore(v)
		return &v
	}
	return f(float64(op.Min)), f(mx)
}

func (r *run) pull(op Op) {
	r.done = append(r.done, op)
	q := r.q(op.Q)
	req := &deckard.PullRequest{Queue: q, Amount: op.N, MinScore: float64(op.Min), MaxScore: float64(op.Max), ScoreFilter: op.Filter, AckDeadlineMs: op.Deadline}
	res, err := rpc(r.in.svc.Pull, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	h := r.h
	h.Check(err == nil, "*", "pull failed: %v", err)
	n := int64(op.N)
	if n <= 0 {
		n = 1
	} else if n > 1000 {
		n = 1000
	}
	min, max := r.bounds(op)
	filtered := min != nil || max != nil
	var valid, limbo []*mMsg
	fuzzy := int64(0)
	outside := 0
	for _, x := range r.m.sorted() {
		if x.key.q != q {
			continue
		}
		if x.fuzzy {
			fuzzy++
			continue
		}
		if x.st != sActive {
			continue
		}
		if !inRange(x.score, min, max) {
			outside++
			continue
		}
		if x.expiry <= r.now {
			limbo = append(limbo, x)
		} else {
			valid = append(valid, x)
		}
	}
	r.lastPulled = len(res.Messages)
	got := map[string]bool{}
	var nvalid int64
	due := satAdd(r.now, orDefault(op.Deadline, 300000))
	h.Check(int64(len(res.Messages)) <= n, "C01", "pull of %d returned %d messages", n, len(res.Messages))
	var returned []*mMsg
	for i, g := range res.Messages {
		k := mKey{g.Queue, g.Id}
		if i > 0 {
			before := res.Messages[i-1].Score
			h.Check(before <= g.Score, "C01", "pull returned %v with score %v after a message with score %v", k, g.Score, before)
		}
		h.Check(g.Queue == q, "C11 C01 C31", "pull of %q returned a message of %q", q, g.Queue)
		h.Check(!got[g.Id], "C01 C03 C04", "message %v returned twice by the same pull", k)
		got[g.Id] = true
		x := r.m.msgs[k]
		h.Check(x != nil, "C11 C08 C01 C22", "pull returned %v, which was never added", k)
		if x.fuzzy {
			x.st, x.due = sProc, due
			x.fuzzy = false
			continue
		}
		switch x.st {
		case sGone:
			p := "C08"
			if x.gonevia != "" {
				p = x.gonevia
			}
			h.Fail(words(p, "C01"), "pull returned %v, which was removed (%s)", k, p)
		case sProc:
			h.Fail(words("C03 C05 C18 C01", x.tags), "pull returned %v, which is being processed until t=%d", k, x.due-startMs)
		case sLockAck, sLockNack:
			h.Fail(words("C06 C03 C01", x.tags), "pull returned %v, which is locked until t=%d", k, x.due-startMs)
		}
		h.Check(inRange(x.score, min, max), words("C02", scoreVia(x), x.tags), "pull returned %v with score %v, out of the requested range", k, x.score)
		if d := x.c.diff(g, false); d != "" {
			h.Fail("C10 C09 C11", "pull returned %v with %s", k, d)
		}
		r.checkDiag(x, g.Diagnostics, g.Breakpoint)
		if x.settled {
			h.Check(g.Score == x.stScore, "C07 C09 C29", "pull returned %v with score %v instead of %v", k, g.Score, x.stScore)
		}
		if x.expiry > r.now {
			nvalid++
		}
		returned = append(returned, x)
	}
	slack := int64(len(limbo)) + fuzzy
	need := n
	if t := int64(len(valid)) + slack; t < need {
		need = t
	}
	if r.in.caps.hidesExpired {
		need -= slack
	} else {
		need -= fuzzy
		nvalid = int64(len(returned))
	}
	if nvalid < need {
		p := "C01 C04"
		var miss []string
		for _, x := range append(valid, limbo...) {
			if !got[x.key.id] {
				p = words(p, x.via, x.tags)
				miss = append(miss, fmt.Sprintf("%s score=%v", x.key, x.score))
			}
		}
		if filtered {
			p = words(p, "C02")
		}
		h.Fail(p, "pull of %d returned %d messages, at least %d are available; not returned: %s", n, nvalid, need, strings.Join(miss, ", "))
	}
	for _, x := range returned {
		for _, v := range valid {
			if !got[v.key.id] && v.score < x.score {
				h.Fail(words("C01", scoreVia(x), scoreVia(v), x.tags, v.tags), "pull returned %v with score %v but left %v with score %v", x.key, x.score, v.key, v.score)
			}
		}
	}
	// audit of messages that are not in the storage
	if r.in.caps.hidesExpired {
		for _, x := range limbo {
			if got[x.key.id] {
				continue
			}
			x.fuzzy = true
			r.mayAudit(audit.Entry{ID: x.key.id, Queue: q, Signal: audit.MISSING_STORAGE})
		}
		for _, x := range r.m.msgs {
			if x.fuzzy && x.key.q == q {
				r.mayAudit(audit.Entry{ID: x.key.id, Queue: q, Signal: audit.MISSING_STORAGE})
			}
		}
		if len(limbo) > 0 {
			r.stat("pull met expired messages")
		}
	}
	for _, x := range returned {
		if x.timedOut {
			r.stat("pulled after timeout")
		}
		if x.unlocked {
			r.stat("pulled after unlock")
		}
		if strings.Contains(x.via, "C15") {
			r.stat("pulled after recovery")
		}
		if x.via == "C07" || x.via == "C07 C04" {
			r.stat("pulled after ack/nack")
		}
		if x.acks+x.nacks > 0 {
			r.stat("diagnostics seen")
		}
		if x.readded {
			r.stat("pulled after re-add")
		}
		x.st, x.due, x.timedOut, x.unlocked, x.tags = sProc, due, false, false, ""
	}
	if len(returned) > 0 {
		r.stat("delivered")
		if filtered {
			r.stat("filtered delivery")
			if outside > 0 {
				r.stat("filter excluded")
			}
		}
		if int64(len(valid)) > nvalid {
			r.stat("left behind")
		}
	} else {
		r.stat("empty pull")
	}
	for _, x := range r.m.sorted() {
		if x.key.q == q && x.st == sProc && !got[x.key.id] {
			r.stat("pull with messages in processing")
		}
		if x.key.q == q && x.st >= sLockAck {
			r.stat("pull with locked messages")
		}
	}
}

func orDefault(v, d int64) int64 {
	if v == 0 {
		return d
	}
	return v
}

// scoreVia says which properties specify the current priority of a message.
func scoreVia(x *mMsg) string {
	if strings.Contains(x.via, "C09") {
		return "C09 C29"
	}
	if strings.Contains(x.via, "C05") {
		return "C05"
	}
	return "C07"
}

func (r *run) checkDiag(x *mMsg, d *deckard.MessageDiagnostics, bp string) {
	if d == nil {
		d = &deckard.MessageDiagnostics{}
	}
	r.h.Check(d.Acks == x.acks && d.Nacks == x.nacks && d.ConsecutiveAcks == x.cacks && d.ConsecutiveNacks == x.cnacks, "C17 C09",
		"diagnostics of %v: acks=%d nacks=%d consecutive=%d/%d instead of %d %d %d/%d", x.key,
		d.Acks, d.Nacks, d.ConsecutiveAcks, d.ConsecutiveNacks, x.acks, x.nacks, x.cacks, x.cnacks)
	r.h.Check(bp == x.bp, "C17 C09", "breakpoint of %v: %q instead of %q", x.key, bp, x.bp)
}

func (r *run) target(op *Op) mKey {
	if op.By > 0 {
		l := r.m.inState(sProc)
		if len(l) > 0 {
			x := l[mod(op.By-1, len(l))]
			op.Q, op.I, op.By = indexStr(r.hist.Queues, x.key.q), indexStr(r.hist.IDs, x.key.id), 0
		}
	}
	op.By = 0
	return mKey{r.q(op.Q), r.id(op.I)}
}

func indexStr(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return 0
}

func (r *run) ack(op Op) {
	k := r.target(&op)
	x := r.m.msgs[k]
	if x != nil && x.fuzzy {
		r.skipped = len(r.done)
		return
	}
	r.done = append(r.done, op)
	req := &deckard.AckRequest{Id: k.id, Queue: k.q, Score: float64(op.Score), ScoreSubtract: float64(op.Sub), Breakpoint: op.BP, LockMs: op.Lock, RemoveMessage: op.Rm, Reason: op.Reason}
	f := r.in.svc.Ack
	isAck := op.K == "ack"
	if !isAck {
		f = r.in.svc.Nack
	}
	res, err := rpc(f, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	h := r.h
	h.Check(err == nil, "*", "%s failed: %v", op.K, err)
	newScore, undef := 0.0, false
	switch {
	case op.Score != 0:
		newScore = capScore(float64(op.Score))
	case op.Lock > 0:
		undef = true
	case isAck:
		newScore = capScore(float64(r.now) - float64(op.Sub))
	}
	sig := audit.ACK
	if !isAck {
		sig = audit.NACK
	}
	entry := audit.Entry{ID: k.id, Queue: k.q, LastScoreSubtract: float64(op.Sub), Breakpoint: op.BP, Signal: sig, Reason: op.Reason}
	if op.Lock > 0 {
		entry.LockMs = op.Lock
	}
	processing := x != nil && x.st == sProc
	if processing {
		r.expect(entry)
	} else {
		r.mayAudit(entry)
	}
	if x != nil && x.stored {
		x.stScore = newScore
		if undef {
			x.stScore = -1
		}
		x.settled = processing && !undef
		if isAck {
			x.acks++
			x.cacks++
			x.cnacks = 0
			x.bp = op.BP
			x.lastUsed = r.now
		} else {
			x.nacks++
			x.cnacks++
			x.cacks = 0
		}
		if !processing {
			x.tags = words(x.tags, "C05 C03")
			r.stat("stray ack")
		}
	}
	if processing {
		r.stat(op.K)
		if op.Lock > 0 {
			x.st = sLockAck
			if !isAck {
				x.st = sLockNack
			}
			x.score, x.undef, x.due = newScore, undef, satAdd(r.now, op.Lock)
			x.evTime = r.now
			r.stat("locked")
		} else {
			x.st, x.score, x.via = sActive, newScore, "C07 C04"
		}
	}
	if op.Rm {
		h.Check(res.Success, "C08", "%s with remove_message was not successful", op.K)
		r.removed(k.q, []string{k.id}, res.RemovalResponse, "REQUEST", "C08")
		r.stat("removed by ack")
		return
	}
	p := "C05 C03 C07"
	if x != nil && x.st >= sLockAck && processing {
		p = "C06 C07"
	}
	if !processing {
		p = "C05 C03"
	}
	if x != nil {
		p = words(p, x.tags)
	}
	h.Check(res.Success == processing, p, "%s of %v: success=%v, the message was %s", op.K, k, res.Success, stateOf(x, processing))
	h.Check(res.RemovalResponse == nil, "C08", "%s without remove_message returned a removal response", op.K)
}

func stateOf(x *mMsg, processing bool) string {
	if processing {
		return "being processed"
	}
	if x == nil {
		return "unknown"
	}
	return stNames[x.st]
}

// removed checks the counts of a removal and applies it.
func (r *run) removed(q string, ids []string, res *deckard.RemoveResponse, reason, via string) {
	var st, ca, maybe int64
	seen := map[string]bool{}
	for _, id := range ids {
		e := audit.Entry{ID: id, Queue: q, Signal: audit.REMOVE, Reason: reason}
		x := r.m.msgs[mKey{q, id}]
		if seen[id] {
			r.mayAudit(e)
			continue
		}
		seen[id] = true
		if x == nil || !x.stored {
			r.mayAudit(e)
			continue
		}
		r.expect(e)
		st++
		r.stat("removed " + stNames[x.st])
		if x.fuzzy {
			maybe++
		} else if x.st != sGone {
			ca++
			if (x.st == sLockAck || x.st == sLockNack) && r.in.caps.countsLocks {
				maybe++
			}
		}
		x.stored, x.st, x.fuzzy, x.gonevia = false, sGone, false, via
	}
	r.touch(via, func(x *mMsg) bool { return x.key.q == q })
	if r.rem[prefixOf(q)] == nil {
		r.rem[prefixOf(q)] = &remCount{}
	}
	rc := r.rem[prefixOf(q)]
	rc.st, rc.ca, rc.maybe = rc.st+st, rc.ca+ca, rc.maybe+maybe
	if res != nil || via == "C08" {
		r.h.Check(res != nil, "C08", "no removal response")
		r.h.Check(res.StorageRemoved == st, "C08", "storage_removed %d instead of %d", res.StorageRemoved, st)
		r.h.Check(res.CacheRemoved >= ca && res.CacheRemoved <= ca+maybe, "C08", "cache_removed %d instead of %d", res.CacheRemoved, ca)
	}
	if st > 0 {
		r.stat("removed")
	}
}

func (r *run) remove(op Op) {
	r.done = append(r.done, op)
	q := r.q(op.Q)
	req := &deckard.RemoveRequest{Queue: q}
	for _, i := range op.Ids {
		req.Ids = append(req.Ids, r.id(i))
	}
	res, err := rpc(r.in.svc.Remove, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "remove failed: %v", err)
	r.removed(q, req.Ids, res, "REQUEST", "C08")
}

func (r *run) count(op Op) {
	r.done = append(r.done, op)
	q := ""
	if op.Q >= 0 {
		q = r.q(op.Q)
	}
	req := &deckard.CountRequest{Queue: q}
	res, err := rpc(r.in.svc.Count, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "count failed: %v", err)
	var want int64
	p := "C33"
	for _, x := range r.m.msgs {
		if x.stored && (q == "" || x.key.q == q) {
			want++
		}
		if !x.stored && x.gonevia != "" {
			p = words(p, x.gonevia)
		}
	}
	if res.Count < want {
		p = words("C33 C04", r.removalTags())
	}
	r.h.Check(res.Count == want, p, "count of %q is %d instead of %d", q, res.Count, want)
	r.stat("counted")
}

// removalTags: something which should be stored is missing: whoever removes messages may be responsible.
func (r *run) removalTags() string {
	p := ""
	for _, o := range r.done {
		switch o.K {
		case "remove":
			p = words(p, "C08")
		case "ttl":
			p = words(p, "C12")
		case "maxel":
			p = words(p, "C13")
		}
		if o.Rm {
			p = words(p, "C08")
		}
	}
	return p
}

func (r *run) get(op Op) {
	k := r.target(&op)
	r.done = append(r.done, op)
	req := &deckard.GetByIdRequest{Id: k.id, Queue: k.q}
	res, err := rpc(r.in.svc.GetById, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "get by id failed: %v", err)
	r.stat(r.checkGet(k, res))
}

func (r *run) checkGet(k mKey, res *deckard.GetByIdResponse) string {
	h := r.h
	x := r.m.msgs[k]
	if x == nil || !x.stored {
		p := "C08 C11"
		if x != nil {
			p = x.gonevia
		}
		h.Check(!res.Found, words(p, r.blame), "get by id found %v, which does not exist", k)
		return "get missing"
	}
	if !res.Found && x.expiry <= r.now {
		return "get expired"
	}
	p := r.blame
	if p == "" {
		p = words("C09 C10 C04", r.removalTags())
	}
	h.Check(res.Found && res.Message != nil, words(p, "C10 C04"), "get by id did not find %v", k)
	g := res.Message
	h.Check(g.Id == k.id && g.Queue == k.q, "C11 C10", "get by id of %v returned (%q,%q)", k, g.Queue, g.Id)
	if d := x.c.diff(g, true); d != "" {
		h.Fail(words("C10 C09 C11", r.blame), "get by id returned %v with %s", k, d)
	}
	h.Check(len(res.HumanReadablePayload) == len(x.c.Payload), "C10", "human readable payload has %d entries instead of %d", len(res.HumanReadablePayload), len(x.c.Payload))
	for name, v := range x.c.Payload {
		text, ok := res.HumanReadablePayload[name]
		h.Check(ok, "C10", "human readable payload has no %q", name)
		h.Check(v.readAs(text), words("C10 C09 C11", r.blame), "human readable payload of %q is %q", name, text)
	}
	h.Check(g.Breakpoint == x.bp, words("C17 C09", r.blame), "breakpoint of %v: %q instead of %q", k, g.Breakpoint, x.bp)
	if x.settled {
		h.Check(g.Score == x.stScore, words("C07 C09 C29", r.blame), "get by id returned %v with score %v instead of %v", k, g.Score, x.stScore)
	}
	return "found by id"
}

// blamed says which property an operation which changed something wrongly breaks.
func blamed(op Op) string {
	switch op.K {
	case "add":
		return "C09"
	case "remove":
		return "C08"
	case "ack", "nack":
		if op.Rm {
			return "C08"
		}
		return "C07"
	case "timeout":
		return "C05"
	case "unlock":
		return "C06"
	case "ttl":
		return "C12"
	case "maxel":
		return "C13"
	case "recovery":
		return "C15"
	case "flush":
		return "C22"
	}
	return ""
}

// probe reads all that is stored, right after the operation which may have changed it.
func (r *run) probe(op Op) {
	r.blame = blamed(op)
	if r.blame == "" {
		return
	}
	defer func() { r.blame = "" }()
	counts := map[string]int64{}
	for _, x := range r.m.msgs {
		if x.stored {
			counts[x.key.q]++
		}
	}
	seen := map[string]bool{}
	for _, q := range r.hist.Queues {
		if seen[q] || q == "" {
			continue
		}
		seen[q] = true
		res, err := rpc(r.in.svc.Count, &deckard.CountRequest{Queue: q})
		r.h.Check(err == nil, "*", "count failed: %v", err)
		r.h.Check(res.Count == counts[q], words("C33", r.blame), "after %s, count of %q is %d instead of %d", op.K, q, res.Count, counts[q])
	}
	for _, x := range r.m.sorted() {
		if x.key.id == "" || x.key.q == "" {
			continue
		}
		res, err := rpc(r.in.svc.GetById, &deckard.GetByIdRequest{Id: x.key.id, Queue: x.key.q})
		r.h.Check(err == nil, "*", "get by id failed: %v", err)
		r.checkGet(x.key, res)
	}
}

// touch notes that an operation which must not make a message available, or lose it, may have done so.
func (r *run) touch(tag string, f func(x *mMsg) bool) {
	for _, x := range r.m.msgs {
		if x.stored && f(x) {
			x.tags = words(x.tags, tag)
		}
	}
}

func (r *run) editq(op Op) {
	r.done = append(r.done, op)
	q := r.q(op.Q)
	req := &deckard.EditQueueRequest{Queue: q}
	if !op.NoCfg {
		req.Configuration = &deckard.QueueConfiguration{MaxElements: op.Limit}
	}
	res, err := rpc(r.in.svc.EditQueue, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "edit queue failed: %v", err)
	r.h.Check(res.Success == !op.NoCfg && res.Queue == q, "C14", "edit queue returned %v", res)
	if !op.NoCfg && op.Limit != 0 {
		if op.Limit < 0 {
			r.m.limits[q] = 0
			r.stat("limit removed")
		} else {
			r.m.limits[q] = op.Limit
			r.stat("limit set")
		}
	}
}

func (r *run) getq(op Op) {
	r.done = append(r.done, op)
	q := r.q(op.Q)
	req := &deckard.GetQueueRequest{Queue: q}
	res, err := rpc(r.in.svc.GetQueue, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "get queue failed: %v", err)
	r.h.Check(res.Queue == q, "C14 C11", "get queue of %q returned queue %q", q, res.Queue)
	r.h.Check(res.Configuration != nil && res.Configuration.MaxElements == r.m.limits[q], "C14 C22", "get queue of %q returned %v, the limit is %d", q, res.Configuration, r.m.limits[q])
	r.stat("configuration read")
}

func (r *run) flush(op Op) {
	r.done = append(r.done, op)
	req := &deckard.FlushRequest{}
	res, err := rpc(r.in.svc.Flush, req)
	r.out(op, req, res, err)
	if r.opt.noModel {
		return
	}
	r.h.Check(err == nil, "*", "flush failed: %v", err)
	r.h.Check(res.Success == r.in.caps.memory, "C22", "flush returned success=%v", res.Success)
	if !r.in.caps.memory {
		return
	}
	for _, x := range r.m.msgs {
		x.stored, x.st, x.fuzzy, x.gonevia = false, sGone, false, "C22"
	}
	r.m.limits = map[string]int64{}
	r.m.recDone = false
	r.stat("flushed")
}

func (r *run) advance(op Op) {
	d := op.D
	if op.To > 0 {
		var coming []int64
		for _, t := range r.m.dues(op.Exp, op.Far) {
			if t > r.now {
				coming = append(coming, t)
			}
		}
		if len(coming) > 0 {
			d = coming[mod(op.To-1, len(coming))] - r.now + op.D
		}
		op.To, op.Exp, op.Far = 0, false, false
	}
	if d < 0 {
		d = 0
	}
	if r.now+d > horizon {
		d = horizon - r.now
	}
	d &^= 1
	op.D = d
	r.done = append(r.done, op)
	r.res = append(r.res, "")
	r.now += d
	r.h.Logf("t=%d", r.now-startMs)
}

// ---- housekeeping

// sweeps says how many runs of a task it takes for everything that is due: Redis processes the messages of a queue in batches.
func (r *run) sweeps(st int, at int64) int {
	if r.in.caps.sweepBatch == 0 || r.opt.noModel {
		return 1
	}
	due := map[string]int{}
	most := 0
	for _, x := range r.m.msgs {
		if x.st == st && x.due <= at {
			due[x.key.q]++
			most = max(most, due[x.key.q])
		}
	}
	return 1 + most/r.in.caps.sweepBatch
}

func (r *run) sweep(op Op) {
	r.done = append(r.done, op)
	r.res = append(r.res, "")
	at := r.now + 1
	if op.Exact {
		at = r.now
	}
	setClock(at)
	r.h.Logf("t=%d %s", at-startMs, op.K)
	switch op.K {
	case "timeout":
		for range r.sweeps(sProc, at) {
			_ = queue.ProcessTimeoutMessages(bg, r.in.q)
		}
	case "unlock":
		for range max(r.sweeps(sLockAck, at), r.sweeps(sLockNack, at)) {
			queue.ProcessLockPool(bg, r.in.q)
		}
	case "ttl":
		t := time.UnixMilli(at)
		_, _ = queue.RemoveTTLMessages(bg, r.in.q, &t)
	case "maxel":
		_, _ = queue.RemoveExceedingMessages(bg, r.in.q)
	case "recovery":
		queue.RecoveryMessagesPool(bg, r.in.q)
	case "metrics":
		queue.ComputeMetrics(bg, r.in.q)
	}
	r.now += 2
	setClock(r.now)
	if r.opt.noModel {
		return
	}
	switch op.K {
	case "timeout":
		for _, x := range r.m.sorted() {
			if x.st == sProc && x.due <= at && !x.fuzzy {
				x.st, x.score, x.settled, x.timedOut, x.via = sActive, 0, false, true, "C05 C04"
				r.expect(audit.Entry{ID: x.key.id, Queue: x.key.q, Signal: audit.TIMEOUT})
				r.stat("timed out")
			} else if x.st == sProc {
				r.stat("sweep before deadline")
			}
		}
	case "unlock":
		for _, x := range r.m.sorted() {
			if x.st >= sLockAck && x.due <= at {
				reason := "lock_nack"
				def := 0.0
				if x.st == sLockAck {
					reason, def = "lock_ack", float64(at)
				}
				if x.undef {
					x.score = def
					x.settled = false
				}
				x.st, x.undef, x.unlocked, x.via = sActive, false, true, "C06 C07 C04"
				r.expect(audit.Entry{ID: x.key.id, Queue: x.key.q, Signal: audit.UNLOCK, Reason: reason})
				r.stat("unlocked")
			} else if x.st >= sLockAck {
				r.stat("sweep while locked")
			}
		}
	case "ttl":
		byQ := map[string][]string{}
		for _, x := range r.m.sorted() {
			if x.stored && x.expiry <= at {
				byQ[x.key.q] = append(byQ[x.key.q], x.key.id)
				r.stat("expired " + stNames[x.st])
				r.stat("expired")
			} else if x.stored {
				r.stat("ttl sweep spared")
			}
		}
		for _, q := range sortedKeys(byQ) {
			r.removed(q, byQ[q], nil, "TTL", "C12")
		}
	case "maxel":
		byQ := map[string][]*mMsg{}
		for _, x := range r.m.sorted() {
			if x.stored {
				byQ[x.key.q] = append(byQ[x.key.q], x)
			}
		}
		for _, q := range sortedKeys(byQ) {
			l, lim := byQ[q], r.m.limits[q]
			if lim <= 0 {
				r.stat("no limit")
				continue
			}
			if int64(len(l)) <= lim {
				r.stat("under the limit")
				continue
			}
			sort.SliceStable(l, func(i, j int) bool { return l[i].expiry < l[j].expiry })
			var ids []string
			for _, x := range l[:int64(len(l))-lim] {
				ids = append(ids, x.key.id)
			}
			r.removed(q, ids, nil, "MAX_ELEMENTS", "C13")
			r.stat("evicted")
		}
	case "recovery":
		r.touch("C15", func(x *mMsg) bool { return true })
		if r.m.recDone {
			return
		}
		r.m.recDone = true
		for _, x := range r.m.sorted() {
			if x.stored && x.st == sGone {
				x.st, x.score, x.via = sActive, capScore(x.stScore), "C15 C04"
				x.settled = x.stScore >= 0
				r.expect(audit.Entry{ID: x.key.id, Queue: x.key.q, Signal: audit.INSERT_CACHE, Reason: "recovery"})
				r.stat("recovered")
			} else if x.fuzzy {
				r.mayAudit(audit.Entry{ID: x.key.id, Queue: x.key.q, Signal: audit.INSERT_CACHE, Reason: "recovery"})
			} else if x.st != sGone {
				r.stat("kept by recovery")
			}
		}
	}
}

func sortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	l := make([]K, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	slices.Sort(l)
	return l
}

// drain lets every deadline and lock pass, runs the housekeeping and pulls everything.
func (r *run) drain() {
	r.h.Logf("final drain")
	if !r.m.recDone {
		for _, x := range r.m.msgs {
			if x.stored && x.st == sGone {
				r.step(Op{K: "recovery"})
				break
			}
		}
	}
	last := r.now
	for _, x := range r.m.msgs {
		if x.st >= sProc && x.due <= horizon-10 && x.due > last {
			last = x.due
		}
	}
	r.step(Op{K: "advance", D: last - r.now + 2})
	r.step(Op{K: "timeout"})
	r.step(Op{K: "unlock"})
	for qi, q := range r.hist.Queues {
		if indexStr(r.hist.Queues, q) != qi {
			continue
		}
		for i := 0; ; i++ {
			n := 0
			for _, x := range r.m.msgs {
				if x.key.q == q && x.st == sActive && !x.fuzzy {
					n++
				}
			}
			r.step(Op{K: "pull", Q: qi, N: int32(1 + i%3*400), Deadline: math.MaxInt64 / 4})
			if n == 0 || i > 2000 {
				break
			}
		}
		for _, x := range r.m.msgs {
			if x.key.q == q && x.stored && !x.fuzzy && x.expiry > r.now && x.st != sProc && x.due <= horizon-10 {
				r.h.Fail(words("C04", x.via, x.tags), "%v was not drained", x.key)
			}
		}
		r.step(Op{K: "count", Q: qi})
		for ii, id := range r.hist.IDs {
			if indexStr(r.hist.IDs, id) == ii && ii < 12 {
				r.step(Op{K: "get", Q: qi, I: ii})
			}
		}
	}
	r.step(Op{K: "count", Q: -1})
}

// ---- audit

func auditKey(e audit.Entry) string {
	return fmt.Sprintf("%s queue=%q id=%q reason=%q breakpoint=%q lock_ms=%d score_subtract=%v", e.Signal, e.Queue, e.ID, e.Reason, e.Breakpoint, e.LockMs, e.LastScoreSubtract)
}

func (r *run) checkAudit(op Op) {
	got := map[string]int{}
	for _, e := range r.aud {
		got[auditKey(e)]++
	}
	may := map[string]int{}
	for _, x := range r.exp {
		k := auditKey(x.e)
		if x.optional {
			may[k]++
			continue
		}
		r.h.Check(got[k] > 0, "C24", "no audit entry %s after %s", k, op.K)
		got[k]--
		r.stat("audited " + string(x.e.Signal))
	}
	for k, n := range got {
		r.h.Check(n <= may[k], "C24", "%d unexpected audit entries %s after %s", n, k, op.K)
	}
}
