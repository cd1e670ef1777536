package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// profile shapes the generated histories.
type profile struct {
	backends   []string
	nq, nid    int
	min, max   int // number of operations
	w          map[string]int
	names      string // "plain", "tricky"
	scores     []float64
	rich       bool
	ttls       []int64
	timeless   bool
	maxBatch   int
	noDeadline bool
	extreme    bool // extreme deadlines and locks
	limits     []int64
	expDue     bool // advance to expiries too
	amounts    []int32
	bulk       int // up to this many messages by operation
	crowd      bool
}

func (p profile) with(f func(*profile)) profile {
	w := map[string]int{}
	for k, v := range p.w {
		w[k] = v
	}
	p.w = w
	f(&p)
	return p
}

var baseWeights = map[string]int{
	"add": 8, "pull": 8, "ack": 6, "nack": 4, "remove": 2, "count": 1, "get": 2,
	"advance": 5, "timeout": 3, "unlock": 3,
}

var base = profile{nq: 2, nid: 6, min: 20, max: 60, w: baseWeights, names: "plain",
	scores: []float64{0, 0, 1, 2, 2, 3, 5, 5.5, 1000, maxScore}, ttls: []int64{60 * 24 * 365 * 5}, maxBatch: 4,
	amounts: []int32{1, 1, 2, 3, 5, 1000, 0, -1, 1001, math.MinInt32}}

var plainQueues = []string{"qa", "qb", "qc", "qd", "qe", "qf"}
var metricQueues = []string{"a", "a::x", "a::y::z", "b::", "b:c", "c::x", "c"}
var trickyQueues = []string{"a", "a:", "a::", "a::b", "a::b::c", ":a", "::", "::a", "a:tmp", "a:lock_ack", "a:lock_nack", "a:lock_ack:score", "a*", "*", "?", "a?",
	"[ab]", "a\\", "queue:a", "deckard:queue:a", " a ", "ü::ß", "a:b", "b", "A", "null", "a%s", "a\nb", "a\x00b", "日本::語", "a.b", "$a", "recovery"}
var trickyIDs = []string{"1", "a", "b", "a:1", "1:a", "b:a", ":", "::", "a::b", "*", "id with space", "ü", "-1", "0", "true", "1.0", "nan", "a:tmp", "\x00", "{x}", "ID", "id", "b::1", "%d", ""}

var nestedSeps = []string{":", "", "::", "_", "-", "/", "|", ".", "#", ",", " ", "\x00", "@", ";"}

var similarNames = []string{"qa", "QA", "Qa", " qa", "qa ", "qa\n", "qa\x00", "qa\x00b", "qá", "qa\u0301", "qa::", "::qa", "QA::", "qa:", "qa::b", "qa::B",
	strings.Repeat("q", 64), strings.Repeat("q", 65), strings.Repeat("q", 256) + "1", strings.Repeat("q", 256) + "2", strings.Repeat("é", 1100) + "1", strings.Repeat("é", 1100) + "2"}

func genNames(t *rapid.T, p profile) (qs, ids []string) {
	nq, nid := rapid.IntRange(1, p.nq).Draw(t, "queues"), rapid.IntRange(1, p.nid).Draw(t, "ids")
	// names which are the same when the one of the queue and the one of the message are joined
	if n := rapid.IntRange(0, 3).Draw(t, "nested names?"); p.bulk == 0 && p.names != "metric" && (n == 3 || p.names == "tricky" && n == 1) {
		sep := rapid.SampledFrom(nestedSeps).Draw(t, "separator")
		for i := range max(nq, nid) {
			name := "a" + strings.Repeat(sep+"a", i)
			if i < nq {
				qs = append(qs, name)
			}
			if i < nid {
				ids = append(ids, name)
			}
		}
		return
	}
	// names which any kind of normalization makes the same
	if n := rapid.IntRange(0, 4).Draw(t, "similar names?"); p.bulk == 0 && p.names != "metric" && (n == 4 || p.names == "tricky" && n == 1) {
		qs = rapid.Permutation(similarNames).Draw(t, "queue names")[:nq]
		ids = rapid.Permutation(similarNames).Draw(t, "id names")[:min(nid, len(similarNames))]
		return
	}
	if p.names != "tricky" {
		pool := plainQueues
		if p.names == "metric" {
			pool = rapid.Permutation(metricQueues).Draw(t, "queue names")
		}
		if p.bulk > 0 {
			nid = p.nid
			for i := 0; i < nid; i++ {
				ids = append(ids, fmt.Sprint("m", i))
			}
			return append(qs, pool[:nq]...), ids
		}
		for i := 0; i < nid; i++ {
			ids = append(ids, string(rune('a'+i%26))+strings.Repeat("x", i/26))
		}
		return append(qs, pool[:nq]...), ids
	}
	q := rapid.OneOf(rapid.SampledFrom(trickyQueues), rapid.StringOfN(rapid.SampledFrom([]rune("ab:*?[]\\x")), 1, 6, -1),
		rapid.StringN(1, 8, -1).Filter(func(s string) bool { return !strings.ContainsAny(s, "{}") }))
	id := rapid.OneOf(rapid.SampledFrom(trickyIDs[:len(trickyIDs)-1]), rapid.StringOfN(rapid.SampledFrom([]rune("ab:*1{}")), 1, 5, -1), rapid.StringN(1, 6, -1))
	qs = rapid.SliceOfNDistinct(q, nq, nq, func(s string) string { return s }).Draw(t, "queue names")
	ids = rapid.SliceOfNDistinct(id, nid, nid, func(s string) string { return s }).Draw(t, "id names")
	return
}

func genScore(t *rapid.T, p profile, label string) F64 {
	if rapid.IntRange(0, 9).Draw(t, label+"?") == 0 {
		return F64(rapid.OneOf(rapid.Float64Range(-10, 100), rapid.Float64Range(0, 2*maxScore),
			rapid.SampledFrom([]float64{-1, -5, 0.5, maxScore - 1, maxScore + 2, math.Inf(1), math.Inf(-1), -1e300, 5e-324, float64(startMs)})).Draw(t, label))
	}
	return F64(rapid.SampledFrom(p.scores).Draw(t, label))
}

func genContent(t *rapid.T, p profile) Content {
	if !p.rich {
		v := rapid.IntRange(0, 5).Draw(t, "version")
		s := string(rune('0' + v))
		return Content{Desc: "d" + s, Str: "s" + s, Meta: map[string]string{"m": s}, Payload: map[string]AnyVal{"p": {Url: "t/" + s, Val: []byte{byte(v)}}}}
	}
	str := rapid.OneOf(rapid.Just(""), rapid.StringN(0, 12, -1), rapid.SampledFrom([]string{"\x00", "{}", "ü😀", strings.Repeat("x", 3000), "null", " "}), rapid.Custom(func(t *rapid.T) string { return longString(t, "long") }))
	key := rapid.OneOf(rapid.StringN(0, 8, -1), rapid.SampledFrom([]string{"a", "a.b", "$set", "_id", "id", "queue", "", "score", "\x00k", "ü", "typeurl", "value"}))
	c := Content{Desc: str.Draw(t, "description"), Str: str.Draw(t, "string payload")}
	if rapid.Bool().Draw(t, "has metadata") {
		c.Meta = rapid.MapOfN(key, str, 0, 6).Draw(t, "metadata")
	}
	if rapid.Bool().Draw(t, "has payload") {
		c.Payload = map[string]AnyVal{}
		for _, k := range rapid.SliceOfN(key, 0, 5).Draw(t, "payload keys") {
			url := rapid.OneOf(str, rapid.SampledFrom([]string{"type.googleapis.com/google.protobuf.StringValue", "type.googleapis.com/unknown.Type", "noslash"})).Draw(t, "type url")
			c.Payload[k] = AnyVal{Url: url, Val: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "value")}
		}
	}
	return c
}

func genItem(t *rapid.T, p profile) Item {
	it := Item{Q: rapid.IntRange(0, p.nq-1).Draw(t, "queue"), I: rapid.IntRange(0, p.nid-1).Draw(t, "id"), Score: genScore(t, p, "score"), C: genContent(t, p)}
	it.TTL = rapid.SampledFrom(p.ttls).Draw(t, "ttl")
	if p.timeless {
		it.Timeless = rapid.IntRange(0, 4).Draw(t, "timeless") == 0
	}
	return it
}

var deadlines = []int64{0, 0, 2, 10, 100, 1000, 5000, 60000, 300000, 600000}
var extremes = []int64{-2, -1000, -3_000_000_000_000, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, 1 << 53, 9_000_000_000_000, 86400000 * 365}
var lockTimes = []int64{2, 10, 100, 1000, 5000, 60000, 300000}

func genOp(t *rapid.T, p profile, kinds []string) Op {
	op := Op{K: rapid.SampledFrom(kinds).Draw(t, "op")}
	if op.K == "ackl" || op.K == "nackl" {
		op.K = op.K[:len(op.K)-1]
		op.Lock = rapid.SampledFrom(lockTimes).Draw(t, "lock")
	}
	if op.K == "bulkadd" || op.K == "bulkremove" {
		op.K = op.K[4:]
		op.Q, op.I = rapid.IntRange(0, p.nq-1).Draw(t, "queue"), rapid.IntRange(0, 1000).Draw(t, "order")
		op.Bulk = rapid.SampledFrom([]int{p.bulk, p.bulk / 2, p.bulk - 1, 60, 101, p.bulk / 10}).Draw(t, "bulk")
		op.Exp = p.expDue
		return op
	}
	switch op.K {
	case "add":
		n := 1
		if rapid.IntRange(0, 2).Draw(t, "batch?") == 0 {
			n = rapid.IntRange(0, p.maxBatch).Draw(t, "batch")
		}
		for i := 0; i < n; i++ {
			op.Items = append(op.Items, genItem(t, p))
		}
	case "pull":
		op.Q = rapid.IntRange(0, p.nq-1).Draw(t, "queue")
		op.N = rapid.SampledFrom(p.amounts).Draw(t, "amount")
		if rapid.IntRange(0, 3).Draw(t, "deadline?") > 0 {
			op.Deadline = rapid.SampledFrom(deadlines).Draw(t, "deadline")
		} else if p.extreme && rapid.IntRange(0, 3).Draw(t, "extreme?") == 0 {
			op.Deadline = rapid.SampledFrom(extremes).Draw(t, "deadline")
		}
		op.Deadline &^= 1
		f := rapid.IntRange(0, 9).Draw(t, "filter?")
		if w := p.w["filter"]; f < w {
			if rapid.Bool().Draw(t, "min?") {
				op.Min = genScore(t, p, "min")
			}
			if rapid.Bool().Draw(t, "max?") {
				op.Max = genScore(t, p, "max")
			}
			if rapid.IntRange(0, 3).Draw(t, "score_filter?") == 0 {
				op.Filter = rapid.SampledFrom([]int64{2, 100, 5000, 300000, startMs - 2, startMs, startMs + 2, -5, 2 * startMs}).Draw(t, "score filter")
			}
		}
	case "ack", "nack":
		op.Q, op.I = rapid.IntRange(0, p.nq-1).Draw(t, "queue"), rapid.IntRange(0, p.nid-1).Draw(t, "id")
		if rapid.IntRange(0, 5).Draw(t, "stray?") > 0 {
			op.By = rapid.IntRange(1, 6).Draw(t, "by")
		}
		if rapid.IntRange(0, 2).Draw(t, "score?") == 0 {
			op.Score = genScore(t, p, "score")
		}
		if rapid.IntRange(0, 3).Draw(t, "sub?") == 0 {
			op.Sub = F64(rapid.SampledFrom([]float64{1, 1000, -1000, 0.5, 1e13, -1e17, 300000}).Draw(t, "sub"))
		}
		if op.Lock == 0 && rapid.IntRange(0, 3).Draw(t, "lock?") == 0 {
			op.Lock = rapid.SampledFrom(lockTimes).Draw(t, "lock")
			if p.extreme && rapid.IntRange(0, 3).Draw(t, "extreme?") == 0 {
				op.Lock = rapid.SampledFrom(extremes).Draw(t, "lock") &^ 1
			}
		}
		if rapid.Bool().Draw(t, "bp?") {
			if op.BP = rapid.SampledFrom([]string{"1", "2", "x:y", "ü", "long"}).Draw(t, "bp"); op.BP == "long" {
				op.BP = longString(t, "bp")
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "reason?") == 0 {
			op.Reason = rapid.SampledFrom([]string{"r", "REQUEST", ""}).Draw(t, "reason")
		}
		op.Rm = rapid.IntRange(0, 11).Draw(t, "rm") == 0
	case "remove":
		op.Q = rapid.IntRange(0, p.nq-1).Draw(t, "queue")
		op.Ids = rapid.SliceOfN(rapid.IntRange(0, p.nid-1), 0, 4).Draw(t, "ids")
	case "count":
		op.Q = rapid.IntRange(-1, p.nq-1).Draw(t, "queue")
	case "get":
		op.Q, op.I = rapid.IntRange(0, p.nq-1).Draw(t, "queue"), rapid.IntRange(0, p.nid-1).Draw(t, "id")
	case "editq":
		op.Q = rapid.IntRange(0, p.nq-1).Draw(t, "queue")
		op.Limit = rapid.SampledFrom(p.limits).Draw(t, "limit")
		op.NoCfg = rapid.IntRange(0, 19).Draw(t, "nocfg") == 0
	case "getq":
		op.Q = rapid.IntRange(0, p.nq-1).Draw(t, "queue")
	case "timeout", "unlock", "ttl":
		op.Exact = rapid.IntRange(0, 2).Draw(t, "exact?") == 2
	case "advance":
		if rapid.IntRange(0, 2).Draw(t, "to due?") > 0 {
			op.To, op.Exp = rapid.IntRange(1, 4).Draw(t, "to"), p.expDue
			op.Far = p.expDue && p.timeless && rapid.IntRange(0, 3).Draw(t, "far?") == 3
			op.D = rapid.SampledFrom([]int64{-2, -2, 0, 0, 2, 4}).Draw(t, "by")
		} else {
			op.D = rapid.SampledFrom([]int64{2, 100, 2000, 60000, 300000, 600000, 3600000}).Draw(t, "by")
		}
	}
	return op
}

// spread orders the kinds so that every prefix has about the wanted proportions (rapid prefers the first elements).
// The first one is "nop", to which the operations of a failing history are shrunk.
func spread(w map[string]int) []string {
	type pos struct {
		k string
		p float64
	}
	var l []pos
	for _, k := range sortedKeys(w) {
		if k == "filter" {
			continue
		}
		for i := 0; i < w[k]; i++ {
			l = append(l, pos{k, (float64(i) + 0.5) / float64(w[k])})
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].p < l[j].p })
	kinds := []string{"nop"}
	for _, x := range l {
		kinds = append(kinds, x.k)
	}
	return kinds
}

func genHist(p profile) func(t *rapid.T) Hist {
	kinds := spread(p.w)
	if len(p.limits) == 0 {
		p.limits = []int64{-1, 0, 1, 2, 3, 5}
	}
	return func(t *rapid.T) Hist {
		h := Hist{}
		if len(p.backends) > 0 {
			h.Backend = rapid.SampledFrom(p.backends).Draw(t, "backend")
		}
		h.Queues, h.IDs = genNames(t, p)
		if p.bulk > 0 {
			for _, k := range []string{"bulkadd", "editq", "maxel"} {
				if rapid.IntRange(0, 4).Draw(t, "first "+k+"?") > 0 && p.w[k] > 0 {
					h.Ops = append(h.Ops, genOp(t, p, []string{k}))
				}
			}
		}
		for _, op := range rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, p, kinds) }), p.min, p.max).Draw(t, "ops") {
			if op.K != "nop" {
				h.Ops = append(h.Ops, op)
			}
		}
		return h
	}
}

var crowdScores = []float64{0, 1, 2, 3, 5, 50, 97, float64(startMs) - 1000, float64(startMs), float64(startMs) + 1000, float64(startMs) + 1e6, 2 * float64(startMs), maxScore, 0.5, -3}

// genCrowd has histories in which many messages of a queue are processed or locked at once, each until a time of its
// own and with a score of its own, and come back a few at a time.
func genCrowd(p profile) func(t *rapid.T) Hist {
	return func(t *rapid.T) Hist {
		h := Hist{Queues: plainQueues[:1], Backend: rapid.SampledFrom(p.backends).Draw(t, "backend")}
		n := rapid.IntRange(0, 28).Draw(t, "messages")*7%29 + 4
		some := func() float64 { return rapid.SampledFrom(crowdScores).Draw(t, "score") }
		add := Op{K: "add"}
		for i := range n {
			h.IDs = append(h.IDs, fmt.Sprint("m", i))
			add.Items = append(add.Items, Item{I: i, Score: F64(some()), TTL: 60 * 24 * 365 * 5})
		}
		h.Ops = append(h.Ops, add)
		until := rapid.OneOf(rapid.SampledFrom(lockTimes), rapid.Int64Range(1, 40), rapid.Int64Range(1, 40))
		for range rapid.IntRange(2, 8).Draw(t, "rounds") {
			for range rapid.IntRange(1, 3).Draw(t, "pulls") {
				h.Ops = append(h.Ops, Op{K: "pull", N: int32(rapid.IntRange(1, n).Draw(t, "amount")), Deadline: until.Draw(t, "deadline") * 2})
			}
			for range rapid.IntRange(0, n).Draw(t, "done") {
				op := Op{K: rapid.SampledFrom([]string{"ack", "nack"}).Draw(t, "op"), By: rapid.IntRange(1, n).Draw(t, "by")}
				if rapid.IntRange(0, 3).Draw(t, "lock?") > 0 {
					op.Lock = until.Draw(t, "lock") * 2
				}
				if rapid.Bool().Draw(t, "score?") {
					op.Score = F64(some())
				}
				h.Ops = append(h.Ops, op)
			}
			for range rapid.IntRange(1, 4).Draw(t, "steps") {
				if rapid.IntRange(0, 3).Draw(t, "far?") > 0 {
					h.Ops = append(h.Ops, Op{K: "advance", To: rapid.IntRange(1, n).Draw(t, "to"), D: rapid.SampledFrom([]int64{-2, 0, 2}).Draw(t, "by")})
				}
				h.Ops = append(h.Ops, Op{K: rapid.SampledFrom([]string{"unlock", "timeout"}).Draw(t, "sweep"), Exact: rapid.Bool().Draw(t, "exact")})
				if rapid.Bool().Draw(t, "pull?") {
					h.Ops = append(h.Ops, Op{K: "pull", N: int32(rapid.IntRange(1, n).Draw(t, "amount")), Deadline: until.Draw(t, "deadline") * 2})
				}
			}
		}
		return h
	}
}

// histSub is a check which runs histories against the model.
func histSub(name string, quick, thorough int, p profile, opt histOpts, nontrivial ...string) *Sub {
	n := 6
	if p.bulk > 0 {
		n = 8
	}
	gen := genHist(p)
	if p.crowd {
		gen = genCrowd(p)
	}
	return sub(name, quick*n, thorough*8, gen, func(h *H, c Hist) {
		r := runAttributed(h, c, opt)
		ok := true
		for _, n := range nontrivial {
			any := false
			for _, alt := range strings.Split(n, "|") {
				any = any || r.stats[alt] > 0
			}
			ok = ok && any
		}
		if ok {
			h.Nontrivial()
		}
	})
}
