package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/zzverif/fakeredis"
	"pgregory.net/rapid"
)

// cOp is an operation on one of the caches.
type cOp struct {
	K     string
	C     int    `json:",omitempty"` // which cache
	Q     int    `json:",omitempty"`
	I     int    `json:",omitempty"` // first id
	N     int    `json:",omitempty"` // how many ids, or the amount of a pull
	Step  int    `json:",omitempty"` // between the ids
	Score F64    `json:",omitempty"`
	Inc   F64    `json:",omitempty"` // between the scores
	Min   *F64   `json:",omitempty"`
	Max   *F64   `json:",omitempty"`
	D     int64  `json:",omitempty"`
	Nack  bool   `json:",omitempty"`
	Pool  int    `json:",omitempty"`
	By    int    `json:",omitempty"` // 1: of those in processing, 2: of those locked or in processing
	Key   string `json:",omitempty"`
	Val   string `json:",omitempty"`
}

type cCase struct {
	Kind     string
	Prefixes []string
	Foreign  []string `json:",omitempty"` // keys of other applications
	Queues   []string
	NID      int
	Ops      []cOp
}

type cEntry struct {
	st    int // sActive, sProc, sLockAck, sLockNack
	score float64
	alt   float64 // the score may be this one as well
	due   int64
	lock  float64 // score after the lock
}

func (e *cEntry) lo() float64 { return math.Min(e.score, e.alt) }
func (e *cEntry) hi() float64 { return math.Max(e.score, e.alt) }

type cModel struct {
	queues map[string]map[string]*cEntry
	keys   map[string]string
}

type crun struct {
	h      *H
	c      cCase
	now    int64
	caches []cache.Cache
	models []*cModel
	srv    *fakeredis.Server
	stats  map[string]int
	slots  map[int]string
	bad    string
	prefix []string
}

const sweepLimit = 1000

func (r *crun) id(i int) string { return fmt.Sprintf("m%d", i%max(1, r.c.NID)) }

func (r *crun) ids(op cOp) []string {
	var out []string
	if op.By > 0 {
		_, msgs := r.queue(op.C%len(r.caches), op.Q)
		var l []string
		for _, id := range sortedKeys(msgs) {
			if st := msgs[id].st; st == sProc || op.By == 2 && st > sProc {
				l = append(l, id)
			}
		}
		for i := 0; i < min(op.N, len(l)); i++ {
			out = append(out, l[(op.I+i)%len(l)])
		}
		return out
	}
	for i := 0; i < op.N; i++ {
		out = append(out, r.id(op.I+i*max(1, op.Step)))
	}
	return out
}

func (r *crun) failf(f string, a ...any) { r.h.Failf(f, a...) }

func (r *crun) noErr(op string, err error) {
	if err != nil {
		r.failf("%s failed: %v", op, err)
	}
}

func brief[T any](l []T) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v... (%d)", l[:12], len(l))
	}
	return fmt.Sprint(l)
}

func (r *crun) distinct(op string, ids []string) {
	seen := map[string]bool{}
	for _, id := range ids {
		if seen[id] {
			r.failf("%s returned %q twice", op, id)
		}
		seen[id] = true
	}
}

func (r *crun) queue(ci, q int) (string, map[string]*cEntry) {
	name := r.c.Queues[q%len(r.c.Queues)]
	m := r.models[ci]
	if m.queues[name] == nil {
		m.queues[name] = map[string]*cEntry{}
	}
	return name, m.queues[name]
}

var poolTypes = []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL}

func (r *crun) do(op cOp) {
	ci := op.C % len(r.caches)
	cc, m := r.caches[ci], r.models[ci]
	q, msgs := r.queue(ci, op.Q)
	name := fmt.Sprintf("%s on cache %d, queue %q", op.K, ci, q)
	lt := cache.LOCK_ACK
	lst := sLockAck
	if op.Nack {
		lt, lst = cache.LOCK_NACK, sLockNack
	}
	clear(r.slots)
	oneSlot := true
	switch op.K {
	case "insert":
		ids := r.ids(op)
		var in []*message.Message
		want := map[string]bool{}
		scores := map[string][2]float64{}
		for i, id := range ids {
			sc := float64(op.Score) + float64(i)*float64(op.Inc)
			in = append(in, &message.Message{ID: id, Queue: q, Score: sc})
			if msgs[id] == nil {
				want[id] = true
				if old, dup := scores[id]; dup {
					scores[id] = [2]float64{math.Min(old[0], sc), math.Max(old[1], sc)}
				} else {
					scores[id] = [2]float64{sc, sc}
				}
			}
		}
		got, err := cc.Insert(bg, q, in...)
		r.noErr(name, err)
		r.h.Logf("t=%d %s %s -> %s", r.now-startMs, name, brief(ids), brief(got))
		gotSet := map[string]bool{}
		for _, id := range got {
			if !want[id] {
				r.failf("%s reported %q as new, which is there already", name, id)
			}
			gotSet[id] = true
		}
		if len(gotSet) != len(want) {
			r.failf("%s reported %d of %d new messages", name, len(gotSet), len(want))
		}
		if len(want) > 0 {
			r.stats["insert"]++
		}
		for id := range want {
			msgs[id] = &cEntry{st: sActive, score: scores[id][0], alt: scores[id][1]}
		}
	case "badinsert":
		in := []*message.Message{{ID: r.id(op.I), Queue: q, Score: 1}, {ID: r.id(op.I + 1), Queue: q + "x", Score: 1}}
		if _, err := cc.Insert(bg, q, in...); err == nil {
			r.failf("%s accepted a message of another queue", name)
		}
	case "pull":
		var minS, maxS *float64
		lo, hi := math.Inf(-1), math.Inf(1)
		if op.Min != nil {
			lo = float64(*op.Min)
			minS = &lo
		}
		if op.Max != nil {
			hi = float64(*op.Max)
			maxS = &hi
		}
		n := int64(max(1, op.N))
		got, err := cc.PullMessages(bg, q, n, minS, maxS, op.D)
		r.noErr(name, err)
		r.h.Logf("t=%d %s amount %d in [%v,%v], deadline %d -> %s", r.now-startMs, name, n, lo, hi, op.D, brief(got))
		r.distinct(name, got)
		surely, maybe := 0, 0
		for _, e := range msgs {
			if e.st == sActive && e.hi() >= lo && e.lo() <= hi {
				maybe++
				if e.lo() >= lo && e.hi() <= hi {
					surely++
				}
			}
		}
		if int64(len(got)) > n || int64(len(got)) < min(n, int64(surely)) || len(got) > maybe {
			r.failf("%s returned %d messages, %d to %d are available in the range and %d were asked for", name, len(got), surely, maybe, n)
		}
		last := math.Inf(-1)
		taken := map[string]bool{}
		d := op.D
		if d == 0 {
			d = 300000
		}
		for _, id := range got {
			e := msgs[id]
			if e == nil || e.st != sActive {
				r.failf("%s returned %q, which is not available", name, id)
			}
			if e.hi() < lo || e.lo() > hi {
				r.failf("%s returned %q with score %v, which is not in [%v,%v]", name, id, e.score, lo, hi)
			}
			if e.hi() < last {
				r.failf("%s returned %q with score %v after a message with score %v", name, id, e.score, last)
			}
			last = math.Max(last, e.lo())
			taken[id] = true
		}
		for id, e := range msgs {
			if e.st == sActive && !taken[id] && e.lo() >= lo && e.hi() <= hi && e.hi() < last {
				r.failf("%s left %q with score %v and took one with score %v", name, id, e.score, last)
			}
		}
		for _, id := range got {
			msgs[id].st, msgs[id].due = sProc, satAdd(r.now, d)
		}
		if len(got) > 0 {
			r.stats["pull"]++
			if surely > len(got) {
				r.stats["partial pull"]++
			}
		}
	case "timeout", "unlock":
		r.tick(1)
		st := sProc
		var got []string
		var err error
		if op.K == "timeout" {
			got, err = cc.TimeoutMessages(bg, q)
		} else {
			st = lst
			got, err = cc.UnlockMessages(bg, q, lt)
		}
		r.noErr(name, err)
		r.h.Logf("t=%d %s %s -> %s", r.now-startMs, name, lt, brief(got))
		r.distinct(name, got)
		due, later := 0, 0
		for _, e := range msgs {
			if e.st == st && e.due <= r.now {
				due++
			} else if e.st == st {
				later++
			}
		}
		if len(got) < min(due, sweepLimit) {
			r.failf("%s returned %d of %d due messages", name, len(got), due)
		}
		for _, id := range got {
			e := msgs[id]
			if e == nil || e.st != st {
				r.failf("%s returned %q, which is not in that state", name, id)
			}
			if e.due > r.now {
				r.failf("%s returned %q, which is due at t=%d", name, id, e.due-startMs)
			}
		}
		for _, id := range got {
			e := msgs[id]
			e.st = sActive
			switch {
			case st == sProc:
				e.score = 0
			case e.lock != -1:
				e.score = e.lock
			case op.Nack:
				e.score = 0
			default:
				e.score = float64(r.now)
			}
			e.alt = e.score
		}
		if len(got) > 0 {
			r.stats[op.K]++
			if later > 0 {
				r.stats[op.K+" sparing"]++
			}
			if due > sweepLimit {
				r.stats["more than a sweep"]++
			}
		}
		r.tick(1)
	case "lock", "avail":
		for _, id := range r.ids(op) {
			e := msgs[id]
			var got bool
			var err error
			if op.K == "lock" {
				got, err = cc.LockMessage(bg, &message.Message{ID: id, Queue: q, Score: float64(op.Score), LockMs: op.D}, lt)
				if op.D <= 0 {
					if err == nil {
						r.failf("%s accepted a lock of %d ms", name, op.D)
					}
					continue
				}
			} else {
				got, err = cc.MakeAvailable(bg, &message.Message{ID: id, Queue: q, Score: math.Abs(float64(op.Score))})
			}
			r.noErr(name, err)
			r.h.Logf("t=%d %s %q %s score %v, %d ms -> %v", r.now-startMs, name, id, lt, float64(op.Score), op.D, got)
			if got != (e != nil && e.st == sProc) {
				r.failf("%s %q returned %v", name, id, got)
			}
			if !got {
				continue
			}
			r.stats[op.K]++
			if op.K == "lock" {
				e.st, e.due, e.lock = lst, satAdd(r.now, op.D), float64(op.Score)
			} else {
				e.st, e.score = sActive, math.Abs(float64(op.Score))
				e.alt = e.score
			}
		}
	case "remove":
		ids := r.ids(op)
		got, err := cc.Remove(bg, q, ids...)
		r.noErr(name, err)
		r.h.Logf("t=%d %s %s -> %d", r.now-startMs, name, brief(ids), got)
		var lo, hi int64
		for _, id := range ids {
			if e := msgs[id]; e != nil {
				lo, hi = lo+1, hi+1
				if e.st == sLockAck || e.st == sLockNack {
					hi++
					r.stats["remove locked"]++
				}
				delete(msgs, id)
			}
		}
		if got < lo || got > hi {
			r.failf("%s removed %d messages, %d of them existed", name, got, lo)
		}
		if lo > 0 {
			r.stats["remove"]++
		}
	case "processing":
		id := r.id(op.I)
		got, err := cc.IsProcessing(bg, q, id)
		r.noErr(name, err)
		if e := msgs[id]; got != (e != nil && e.st == sProc) {
			r.failf("%s: IsProcessing(%q)=%v", name, id, got)
		}
	case "list":
		oneSlot = false
		r.list(ci, poolTypes[op.Pool%4])
	case "get":
		got, err := cc.Get(bg, op.Key)
		r.noErr(name, err)
		if got != m.keys[op.Key] {
			r.failf("get %q returned %q instead of %q", op.Key, got, m.keys[op.Key])
		}
	case "set":
		r.noErr(name, cc.Set(bg, op.Key, op.Val))
		m.keys[op.Key] = op.Val
		r.stats["set"]++
	case "flush":
		oneSlot = false
		cc.Flush(bg)
		r.h.Logf("t=%d flush of cache %d", r.now-startMs, ci)
		for _, l := range m.queues {
			if len(l) > 0 {
				r.stats["flush"]++
			}
		}
		*m = cModel{queues: map[string]map[string]*cEntry{}, keys: map[string]string{}}
		if k := r.own(ci); len(k) > 0 {
			r.failf("the flush of the cache with prefix %q left the keys %q", r.c.Prefixes[ci], k)
		}
		r.foreign()
	case "brace":
		for _, n := range []string{"{" + q, q + "}", "{" + q + "}", q + "{}", "a}" + q + "{b"} {
			_, err := cc.Insert(bg, n, &message.Message{ID: "x", Queue: n})
			_, err2 := cc.PullMessages(bg, n, 1, nil, nil, 0)
			_, err3 := cc.Remove(bg, n, "x")
			_, err4 := cc.TimeoutMessages(bg, n)
			_, err5 := cc.MakeAvailable(bg, &message.Message{ID: "x", Queue: n})
			_, err6 := cc.LockMessage(bg, &message.Message{ID: "x", Queue: n, LockMs: 1}, lt)
			_, err7 := cc.UnlockMessages(bg, n, lt)
			_, err8 := cc.IsProcessing(bg, n, "x")
			for i, e := range []error{err, err2, err3, err4, err5, err6, err7, err8} {
				if e == nil {
					r.failf("operation %d accepted the queue name %q", i, n)
				}
			}
		}
		r.stats["brace"]++
		oneSlot = false
	case "scores":
		r.scores(ci, op.Q)
		oneSlot = false
	case "advance":
		r.tick(op.D)
	case "todue":
		r.toDue(op)
	case "moveslot":
		for i, p := range r.prefix {
			r.srv.MoveSlot(fakeredis.Slot(p+":queue:{"+q+"}"), (op.N+i)%r.srv.Nodes())
		}
		r.h.Logf("the slot of %q moves", q)
		r.stats["moved"]++
	case "disconnect":
		r.srv.Disconnect()
		r.h.Logf("connections are closed")
		r.stats["disconnect"]++
	case "noscript":
		r.srv.ForgetScripts()
		r.h.Logf("scripts are forgotten")
	}
	if r.bad != "" {
		r.failf("%s", r.bad)
	}
	if oneSlot && len(r.slots) > 1 {
		r.failf("%s uses the keys %v of %d slots", name, sortedVals(r.slots), len(r.slots))
	}
}

func sortedVals(m map[int]string) (out []string) {
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return
}

func (r *crun) tick(d int64) {
	if d > 0 && r.now+d < horizon {
		r.now += d
		setClock(r.now)
	}
}

// toDue moves to about one of the next times at which something is due.
func (r *crun) toDue(op cOp) {
	var dues []int64
	for _, m := range r.models {
		for _, l := range m.queues {
			for _, e := range l {
				if e.st != sActive && e.due > r.now && e.due < horizon {
					dues = append(dues, e.due)
				}
			}
		}
	}
	if len(dues) == 0 {
		return
	}
	slices.Sort(dues)
	dues = slices.Compact(dues)
	r.tick((dues[min(op.N, len(dues)-1)] + op.D - r.now) &^ 1)
}

func stOf(p pool.PoolType) int {
	switch p {
	case pool.PROCESSING_POOL:
		return sProc
	case pool.LOCK_ACK_POOL:
		return sLockAck
	case pool.LOCK_NACK_POOL:
		return sLockNack
	}
	return sActive
}

func (r *crun) list(ci int, p pool.PoolType) {
	got, err := r.caches[ci].ListQueues(bg, "*", p)
	r.noErr("list", err)
	var want []string
	for q, l := range r.models[ci].queues {
		for _, e := range l {
			if e.st == stOf(p) {
				want = append(want, q)
				break
			}
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		r.failf("the queues listed in the %s pool of cache %d are %q instead of %q", p, ci, got, want)
	}
	if len(want) > 1 {
		r.stats["list"]++
	}
}

// own returns the keys of a cache.
func (r *crun) own(ci int) (out []string) {
	for _, k := range r.srv.Keys() {
		if strings.HasPrefix(k, r.prefix[ci]+":") && !slices.Contains(r.c.Foreign, k) {
			out = append(out, k)
		}
	}
	return
}

func (r *crun) foreign() {
	for i, k := range r.c.Foreign {
		if v, _ := r.srv.GetString(k); v != fmt.Sprint("value ", i) {
			r.failf("the key %q of another application changed to %q", k, v)
		}
	}
}

func (r *crun) allowed(k string) bool {
	for _, p := range r.prefix {
		if strings.HasPrefix(k, p+":") {
			return true
		}
	}
	return false
}

var cachePool = map[string]cache.Cache{}

func cacheOf(kind, prefix string) cache.Cache {
	if kind == "memory" {
		return cache.NewMemoryCache()
	}
	k := kind + "\x00" + prefix
	if cachePool[k] == nil {
		cachePool[k] = connectRedis(kind, prefix)
	}
	return cachePool[k]
}

func runCaches(h *H, c cCase) *crun {
	r := &crun{h: h, c: c, now: startMs, stats: map[string]int{}, slots: map[int]string{}}
	setClock(r.now)
	if c.Kind != "memory" {
		r.srv = redisServer(c.Kind)
		r.srv.Reset()
		for i, k := range c.Foreign {
			r.srv.SetString(k, fmt.Sprint("value ", i))
		}
	}
	for _, p := range c.Prefixes {
		r.caches = append(r.caches, cacheOf(c.Kind, p))
		r.models = append(r.models, &cModel{queues: map[string]map[string]*cEntry{}, keys: map[string]string{}})
		n := strings.Trim(strings.TrimSpace(p), ":")
		if strings.TrimSpace(p) == "" {
			n = "deckard_v1"
		}
		r.prefix = append(r.prefix, n)
	}
	if r.srv != nil {
		r.srv.Watch(func(keys []string) {
			for _, k := range keys {
				if !r.allowed(k) && r.bad == "" {
					r.bad = fmt.Sprintf("the key %q outside of the prefixes %q was used", k, r.prefix)
				}
				r.slots[fakeredis.Slot(k)] = k
			}
		})
		defer r.srv.Watch(nil)
	}
	for _, op := range c.Ops {
		r.do(op)
	}
	// everything comes back, with its score
	for ci := range r.caches {
		for q := range c.Queues {
			for i := 0; i < min(c.NID, 12); i++ {
				r.do(cOp{K: "processing", C: ci, Q: q, I: i})
			}
			r.scores(ci, q)
			r.empty(ci, q)
		}
		for p := range poolTypes {
			r.do(cOp{K: "list", C: ci, Pool: p})
		}
		for k := range r.models[ci].keys {
			r.do(cOp{K: "get", C: ci, Key: k})
		}
	}
	r.tick(horizon - 1000 - r.now)
	for ci := range r.caches {
		for q := range c.Queues {
			for i := 0; ; i++ {
				r.do(cOp{K: "timeout", C: ci, Q: q})
				r.do(cOp{K: "unlock", C: ci, Q: q})
				r.do(cOp{K: "unlock", C: ci, Q: q, Nack: true})
				if r.c.NID < 100 {
					r.scores(ci, q)
				}
				r.empty(ci, q)
				more := false
				_, msgs := r.queue(ci, q)
				for _, e := range msgs {
					more = more || e.due <= r.now
				}
				if !more {
					break
				}
				if i > 100 {
					r.failf("the messages of %q do not come back", c.Queues[q])
				}
			}
		}
	}
	r.foreign()
	return r
}

// scores finds the score of every available message by the pulls which reach it.
func (r *crun) scores(ci, qi int) {
	_, msgs := r.queue(ci, qi)
	byScore := map[float64][]string{}
	for id, e := range msgs {
		if e.st == sActive && e.score == e.alt {
			byScore[e.score] = append(byScore[e.score], id)
		}
	}
	if len(byScore) > 20 {
		return
	}
	for _, sc := range sortedKeys(byScore) {
		if len(byScore[sc]) > 200 {
			continue
		}
		r.do(cOp{K: "pull", C: ci, Q: qi, N: 1000, Min: ptrF(F64(sc)), Max: ptrF(F64(sc))})
		for i := 0; i < r.c.NID; i++ {
			if slices.Contains(byScore[sc], r.id(i)) {
				r.do(cOp{K: "avail", C: ci, Q: qi, I: i, N: 1, Score: F64(sc)})
			}
		}
		r.stats["scores"]++
	}
}

// empty pulls everything which is available.
func (r *crun) empty(ci, q int) {
	for more := true; more; {
		r.do(cOp{K: "pull", C: ci, Q: q, N: 1000, D: 9_000_000_000_000_000})
		more = false
		_, msgs := r.queue(ci, q)
		for _, e := range msgs {
			more = more || e.st == sActive
		}
	}
}

func ptrF(f F64) *F64 { return &f }

var cacheKeys = []string{cache.RECOVERY_RUNNING, cache.RECOVERY_FINISHED, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_BREAKPOINT_KEY, "queue", "queue:a", "a", "a:tmp"}

type cProfile struct {
	kinds    []string
	prefixes [][]string
	foreign  []string
	nid      []int
	nq       int
	bulk     []int
	names    []string
	w        map[string]int
	minOps   int
	maxOps   int
}

func genCacheOp(t *rapid.T, p cProfile, nid int, kinds []string) cOp {
	op := cOp{K: rapid.SampledFrom(kinds).Draw(t, "op")}
	op.C, op.Q = rapid.IntRange(0, 2).Draw(t, "cache"), rapid.IntRange(0, 5).Draw(t, "queue")
	switch op.K {
	case "insert", "remove", "lock", "avail":
		op.I, op.N = rapid.IntRange(0, nid-1).Draw(t, "id"), rapid.SampledFrom([]int{1, 2, 1, min(nid, 20), 3, min(nid, 20)}).Draw(t, "count")
		if len(p.bulk) > 0 && rapid.IntRange(0, 4).Draw(t, "bulk?") > 0 {
			op.N = rapid.SampledFrom(p.bulk).Draw(t, "bulk")
			if op.K == "lock" || op.K == "avail" {
				op.N = min(op.N, 2500)
			}
		}
		if op.K != "insert" && rapid.IntRange(0, 4).Draw(t, "by?") > 0 {
			op.By = 1
			if op.K == "remove" {
				op.By = 2
				if len(p.bulk) > 0 && rapid.IntRange(0, 2).Draw(t, "any?") > 0 {
					op.By = 0
				}
			}
		}
		op.Step = rapid.SampledFrom([]int{1, 1, 1, 2, 7}).Draw(t, "step")
	}
	switch op.K {
	case "insert":
		op.Score, op.Inc = F64(rapid.SampledFrom([]float64{0, 1, 2, 3.5, 1000, maxScore, float64(startMs), 0.1, 1.7e12 + 0.25}).Draw(t, "score")), F64(rapid.SampledFrom([]float64{0, 0, 1, 0.5, 1000}).Draw(t, "increment"))
	case "pull":
		op.N = rapid.SampledFrom([]int{1, 1000, 1, 2, 1000, 3, 999, 5}).Draw(t, "amount")
		op.D = rapid.SampledFrom([]int64{0, 0, 2, 100, 60000, 300000, -2, math.MaxInt64 - 1, 1 << 53}).Draw(t, "deadline")
		sc := rapid.SampledFrom([]F64{0, 1, 2, 3, 3.5, 4, 1000, F64(startMs), F64(maxScore)})
		if rapid.IntRange(0, 3).Draw(t, "min?") == 0 {
			op.Min = ptrF(sc.Draw(t, "min"))
		}
		if rapid.IntRange(0, 3).Draw(t, "max?") == 0 {
			op.Max = ptrF(sc.Draw(t, "max"))
		}
	case "lock":
		op.Nack = rapid.Bool().Draw(t, "nack")
		op.D = rapid.SampledFrom([]int64{2, 2, 100, 5000, 300000, 0, -1, math.MaxInt64 - 1}).Draw(t, "lock")
		op.Score = F64(rapid.SampledFrom([]float64{-1, -1, 0, 1, 2.5, 3, 1000, maxScore}).Draw(t, "score"))
	case "avail":
		op.Score = F64(rapid.SampledFrom([]float64{0, 1, 2, 2.5, 1000, maxScore, float64(startMs)}).Draw(t, "score"))
	case "unlock":
		op.Nack = rapid.Bool().Draw(t, "nack")
	case "processing", "badinsert":
		op.I = rapid.IntRange(0, nid-1).Draw(t, "id")
	case "list":
		op.Pool = rapid.IntRange(0, 3).Draw(t, "pool")
	case "get", "set":
		op.Key, op.Val = rapid.SampledFrom(cacheKeys).Draw(t, "key"), rapid.SampledFrom([]string{"1", "", "0", "true", "x:{y}", "12345678901234567890"}).Draw(t, "value")
	case "advance":
		op.D = rapid.SampledFrom([]int64{2, 100, 5000, 60000, 300000, 600000}).Draw(t, "by")
	case "todue":
		op.N, op.D = rapid.IntRange(0, 2).Draw(t, "which"), rapid.SampledFrom([]int64{0, -2, 0, 2}).Draw(t, "by")
	case "moveslot":
		op.N = rapid.IntRange(0, 2).Draw(t, "node")
	}
	return op
}

func genCaches(p cProfile) func(t *rapid.T) cCase {
	kinds := spread(p.w)
	return func(t *rapid.T) cCase {
		c := cCase{Kind: rapid.SampledFrom(p.kinds).Draw(t, "kind")}
		c.Prefixes = rapid.SampledFrom(p.prefixes).Draw(t, "prefixes")
		if len(p.foreign) > 0 {
			for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(p.foreign), 0, 6, func(s string) string { return s }).Draw(t, "keys of others") {
				own := false
				for _, x := range c.Prefixes {
					x = strings.Trim(strings.TrimSpace(x), ":")
					own = own || strings.HasPrefix(k, x+":") || x == ""
				}
				if !own {
					c.Foreign = append(c.Foreign, k)
				}
			}
		}
		names := p.names
		n := rapid.IntRange(1, p.nq).Draw(t, "queues")
		name := rapid.SampledFrom(names)
		if len(names) > 10 {
			name = rapid.OneOf(rapid.SampledFrom(names), rapid.StringOfN(rapid.SampledFrom([]rune("ab:*?[]\\x")), 1, 6, -1),
				rapid.StringN(1, 8, -1).Filter(func(s string) bool { return !strings.ContainsAny(s, "{}") }))
		}
		c.Queues = rapid.SliceOfNDistinct(name, n, n, func(s string) string { return s }).Draw(t, "names")
		c.NID = rapid.SampledFrom(p.nid).Draw(t, "ids")
		if len(p.bulk) > 0 {
			for range rapid.IntRange(1, 2).Draw(t, "first") {
				c.Ops = append(c.Ops, genCacheOp(t, p, c.NID, []string{"insert"}))
			}
			for i := range c.Ops {
				c.Ops[i].C, c.Ops[i].Q = 0, 0
				c.Ops[i].N = rapid.SampledFrom(p.bulk).Draw(t, "bulk")
			}
			for range rapid.IntRange(1, 5).Draw(t, "pulls") {
				c.Ops = append(c.Ops, cOp{K: "pull", N: 1000, D: 60000})
			}
		}
		for _, op := range rapid.SliceOfN(rapid.Custom(func(t *rapid.T) cOp { return genCacheOp(t, p, c.NID, kinds) }), p.minOps, p.maxOps).Draw(t, "ops") {
			if op.K == "nop" || op.K == "moveslot" && c.Kind != "cluster" || c.Kind == "memory" && slices.Contains([]string{"disconnect", "noscript", "brace"}, op.K) {
				continue
			}
			op.C %= len(c.Prefixes)
			op.Q %= len(c.Queues)
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

func cacheSub(name string, quick, thorough int, p cProfile, nontrivial ...string) *Sub {
	return sub(name, quick*8, thorough*8, genCaches(p), func(h *H, c cCase) {
		r := runCaches(h, c)
		for l, n := range r.stats {
			if n > 0 {
				h.Label(l)
			}
		}
		for _, n := range nontrivial {
			if r.stats[n] == 0 {
				return
			}
		}
		h.Nontrivial()
	})
}

// braceCase is a request with a queue name which Redis Cluster could not keep in one slot.
type braceCase struct {
	Kind  string
	Queue string
	Batch []bool // which of the messages have that name
}

func genBrace(t *rapid.T) braceCase {
	c := braceCase{Kind: rapid.SampledFrom([]string{"redis", "cluster", "full"}).Draw(t, "kind")}
	c.Queue = rapid.StringOfN(rapid.SampledFrom([]rune("a:{}*")), 1, 8, -1).Filter(func(s string) bool { return strings.ContainsAny(s, "{}") }).Draw(t, "queue")
	c.Batch = rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "batch")
	return c
}

func runBrace(h *H, c braceCase) {
	setClock(startMs)
	in := newInstance(c.Kind)
	req := &deckard.AddRequest{}
	any := false
	for i, bad := range c.Batch {
		q := "ok"
		if bad {
			q, any = c.Queue, true
		}
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprint(i), Queue: q, TtlMinutes: 10})
	}
	_, err := rpc(in.svc.Add, req)
	if any != (err != nil) {
		h.Failf("adding messages with the queue name %q gave the error %v", c.Queue, err)
	}
	if any {
		h.Nontrivial()
		if _, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: c.Queue, Amount: 1}); err == nil {
			h.Failf("a pull of %q was accepted", c.Queue)
		}
		res, err := rpc(in.svc.Count, &deckard.CountRequest{Queue: c.Queue})
		if err == nil && res.Count != 0 {
			h.Failf("the rejected add stored %d messages of %q", res.Count, c.Queue)
		}
	}
}

func init() {
	w := onlyWeights("insert", 8, "pull", 9, "timeout", 3, "unlock", 5, "lock", 7, "avail", 4, "remove", 3, "processing", 1, "list", 2,
		"get", 1, "set", 1, "advance", 3, "todue", 5, "badinsert", 1, "moveslot", 2, "disconnect", 1, "noscript", 1, "scores", 4)
	contract := cProfile{kinds: []string{"redis", "cluster", "memory"}, prefixes: [][]string{{"deckard_v1"}}, nid: []int{3, 6, 12}, nq: 2, names: plainQueues, w: w, minOps: 20, maxOps: 60}
	bulk := contract
	bulk.nid, bulk.bulk, bulk.minOps, bulk.maxOps = []int{12000}, []int{1001, 1500, 2500, 4100, 9000, 2001, 3000, 8001}, 8, 16
	bulk.nq = 1
	bulk.kinds = []string{"redis", "cluster"}
	bulk.w = onlyWeights("insert", 6, "pull", 10, "timeout", 3, "unlock", 4, "lock", 4, "avail", 2, "remove", 3, "todue", 6)

	space := cProfile{kinds: []string{"redis", "cluster"}, nid: []int{3, 5}, nq: 4, names: trickyQueues, minOps: 12, maxOps: 40,
		prefixes: [][]string{{"deckard_v1", "deckard_v2"}, {"deckard_v1", "deckard_v"}, {"a*", "ab"}, {"*", "a"}, {"[ab]", "a"}, {"a?", "ab", "a\\"}, {":x:", "y"},
			{" sp ", "s"}, {"a.b", "a-b"}, {"a\\*", "a*"}, {"", "deckard"}, {"queue", "q"}, {"p^$", "p"}, {"ü", "u"},
			{"team:a", "team:b"}, {"t:a:b", "t:b"}},
		foreign: []string{"other", "deckard_v1", "deckard_v11:queue:{a}", "deckard_v1x", "Deckard_v1:queue:{a}", "abc:queue:{a}", "ab:queue:{a}:tmp", "zz:queue:{a}", "a", "queue:{a}", "a:queue:{a}",
			"b:queue:{b}", "xx:y", "x", "y", ":x:queue:{a}", "x_", "a*b:queue:{a}", "sp", " ", "acb:x", "a\\b:queue:{a}", "q:{recovery}", "p^:queue:{a}", "px:1", "team:{recovery}", "t:{recovery}", "t:b:{x}", "team:x"}}
	space.w = onlyWeights("insert", 8, "pull", 7, "timeout", 2, "unlock", 3, "lock", 5, "avail", 1, "remove", 1, "list", 8,
		"get", 2, "set", 3, "advance", 2, "todue", 3, "flush", 2, "brace", 1, "moveslot", 1)

	drain := histOpts{drain: true}
	all := base.with(func(p *profile) {
		p.nq, p.ttls, p.expDue, p.extreme, p.timeless = 3, ttlChoices, true, true, true
		p.w = weights("ttl", 2, "maxel", 2, "editq", 2, "ackl", 3, "nackl", 3, "recovery", 1, "losecache", 1, "filter", 2)
		p.backends = []string{"redis", "cluster"}
	})
	many := all.with(func(p *profile) {
		p.nq, p.nid, p.bulk, p.min, p.max = 2, 2600, 2600, 4, 14
		p.amounts = []int32{1000, 1000, 999, 3}
		p.w = onlyWeights("bulkadd", 4, "bulkremove", 2, "pull", 8, "ackl", 2, "nack", 2, "advance", 5, "timeout", 4, "unlock", 2, "ttl", 2, "maxel", 1, "editq", 1)
	})
	register("C19", "messages were inserted, pulled, and came back by a timeout, an unlock or MakeAvailable; bulk cases: more messages than one batch",
		cacheSub("contract", 600, 10000, contract, "insert", "pull"),
		cacheSub("batches", 12, 200, bulk, "insert", "pull"),
		histSub("history", 200, 8000, all, drain, "created"),
		histSub("many messages", 6, 100, many, drain, "created"))
	register("C20", "queues of caches sharing a server were listed, or one of them flushed",
		cacheSub("namespaces", 500, 10000, space, "insert", "list"),
		sub("braces", 1500, 30000, genBrace, runBrace))
}
