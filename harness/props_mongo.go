package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/zzverif/fakemongo"
	"pgregory.net/rapid"
)

// sItem is one message given to the storage.
type sItem struct {
	Q, I  int
	Score F64   `json:",omitempty"`
	Exp   int64 `json:",omitempty"` // milliseconds after the start
	C     Content
	Bad   int `json:",omitempty"` // 1: without a queue, 2: without an id
}

// sFind is a query of the storage.
type sFind struct {
	Q, P   int    `json:",omitempty"` // >0: filter by the queue, by the prefix of the queue
	Ids    []int  `json:",omitempty"`
	Gt, Le int    `json:",omitempty"` // >0: breakpoint: the id of that document, in order
	BadBP  string `json:",omitempty"`
	Exp    *int64 `json:",omitempty"`
	Sort   []sKey `json:",omitempty"`
	Limit  int64  `json:",omitempty"`
	Proj   int    `json:",omitempty"`
	Retry  bool   `json:",omitempty"`
}

type sKey struct {
	F   string
	Dir int
}

// sOp is an operation on a storage.
type sOp struct {
	K     string
	Items []sItem `json:",omitempty"`
	Q     int     `json:",omitempty"`
	I     int     `json:",omitempty"`
	Ids   []int   `json:",omitempty"`
	From  int     `json:",omitempty"` // bulk: N ids from there
	N     int     `json:",omitempty"`
	Score F64     `json:",omitempty"`
	Sub   F64     `json:",omitempty"`
	Lock  int64   `json:",omitempty"`
	BP    string  `json:",omitempty"`
	D     int64   `json:",omitempty"`
	F     *sFind  `json:",omitempty"`
}

type sCase struct {
	Queues []string
	NID    int
	Batch  int `json:",omitempty"` // of the cursors of the server
	Ops    []sOp
}

type sDoc struct {
	q, id                     string
	score, sub, total         float64
	exp, used                 int64
	c                         Content
	lock                      int64
	bp                        string
	usage                     int64
	diag                      bool
	acks, nacks, cacks, cnack int64
	internal                  string
}

type sModel struct {
	docs map[mKey]sDoc
	cfg  map[string]int64
}

func (m *sModel) clone() *sModel {
	c := &sModel{docs: map[mKey]sDoc{}, cfg: map[string]int64{}}
	for k, d := range m.docs {
		c.docs[k] = d
	}
	for k, v := range m.cfg {
		c.cfg[k] = v
	}
	return c
}

type srun struct {
	h      *H
	c      sCase
	s      storage.Storage
	now    int64
	m      *sModel
	frozen *sModel // what the secondaries see
	stats  map[string]int
}

func (r *srun) q(i int) string  { return r.c.Queues[mod(i, len(r.c.Queues))] }
func (r *srun) id(i int) string { return fmt.Sprintf("m%05d", mod(i, r.c.NID)) }

func (r *srun) ids(op sOp) (out []string) {
	for _, i := range op.Ids {
		out = append(out, r.id(i))
	}
	for i := 0; i < op.N; i++ {
		out = append(out, r.id(op.From+i))
	}
	return
}

func (r *srun) fail(f string, a ...any) { r.h.Failf(f, a...) }
func (r *srun) noErr(op string, err error) {
	if err != nil {
		r.fail("%s failed: %v", op, err)
	}
}

// read checks a read, which may see what the secondaries see.
func (r *srun) read(primary bool, check func(m *sModel) string) {
	e := check(r.m)
	if e != "" && r.frozen != nil && !primary && check(r.frozen) == "" {
		r.stats["stale read"]++
		return
	}
	if e != "" {
		r.fail("%s", e)
	}
}

func atMs(ms int64) time.Time { return time.UnixMilli(startMs + ms) }

// sorted gives the documents in the order of their internal ids.
func (r *srun) sorted(m *sModel) []sDoc {
	var l []sDoc
	for _, d := range m.docs {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].internal < l[j].internal })
	return l
}

func (r *srun) filter(f *sFind) *storage.InternalFilter {
	out := &storage.InternalFilter{}
	if f.Q > 0 {
		out.Queue = r.q(f.Q)
	}
	if f.P > 0 {
		out.QueuePrefix = prefixOf(r.q(f.P))
	}
	if f.Ids != nil {
		var l []string
		for _, i := range f.Ids {
			l = append(l, r.id(i))
		}
		out.Ids = &l
	}
	docs := r.sorted(r.m)
	if f.Gt > 0 && len(docs) > 0 {
		out.InternalIdBreakpointGt = docs[mod(f.Gt-1, len(docs))].internal
	}
	if f.Le > 0 && len(docs) > 0 {
		out.InternalIdBreakpointLte = docs[mod(f.Le-1, len(docs))].internal
	}
	if f.BadBP != "" {
		if f.Gt%2 == 0 {
			out.InternalIdBreakpointGt = f.BadBP
		} else {
			out.InternalIdBreakpointLte = f.BadBP
		}
	}
	if f.Exp != nil {
		t := atMs(*f.Exp)
		out.ExpiryDate = &t
	}
	return out
}

func match(d sDoc, f *storage.InternalFilter) bool {
	return (f.Queue == "" || d.q == f.Queue) &&
		(f.QueuePrefix == "" || prefixOf(d.q) == f.QueuePrefix) &&
		(f.Ids == nil || len(*f.Ids) == 0 || slices.Contains(*f.Ids, d.id)) &&
		(f.InternalIdBreakpointGt == "" || d.internal > f.InternalIdBreakpointGt) &&
		(f.InternalIdBreakpointLte == "" || d.internal <= f.InternalIdBreakpointLte) &&
		(f.ExpiryDate == nil || d.exp <= f.ExpiryDate.UnixMilli()-startMs)
}

var projections = []map[string]int{
	nil,
	{"id": 1, "score": 1, "queue": 1, "last_score": 1, "last_usage": 1, "lock_ms": 1},
	{"_id": 1},
	{"id": 1, "queue": 1, "_id": 0},
	{"id": 1, "_id": 0},
	{"last_usage": 1, "_id": 0},
}

func cmpDocs(a, b sDoc, keys []sKey) int {
	for _, k := range keys {
		c := 0
		switch k.F {
		case "score":
			c = cmpF(a.score, b.score)
		case "expiry_date":
			c = cmpF(float64(a.exp), float64(b.exp))
		case "last_usage":
			c = cmpF(float64(a.used), float64(b.used))
		case "_id":
			c = strings.Compare(a.internal, b.internal)
		}
		if c != 0 {
			return c * k.Dir
		}
	}
	return 0
}

func cmpF(a, b float64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func i64(p *int64) int64 {
	if p == nil {
		return 0
	}
	return *p
}

// diffDoc compares a document with what the storage returned of it.
func diffDoc(d sDoc, g *message.Message, internal string, p map[string]int) string {
	has := func(f string) bool { return p == nil || p[f] == 1 }
	var l []string
	c := func(f string, want, got any) {
		if has(f) && want != got {
			l = append(l, fmt.Sprintf("%s is %v instead of %v", f, got, want))
		}
	}
	c("id", d.id, g.ID)
	c("queue", d.q, g.Queue)
	c("score", d.score, g.Score)
	c("lock_ms", d.lock, g.LockMs)
	if has("last_usage") {
		if g.LastUsage == nil {
			l = append(l, "there is no last_usage")
		} else {
			c("last_usage", d.used, g.LastUsage.UnixMilli()-startMs)
		}
	}
	if has("_id") || p["_id"] != 0 {
		c("_id", d.internal, internal)
	}
	if p == nil {
		c("expiry_date", d.exp, g.ExpiryDate.UnixMilli()-startMs)
		c("breakpoint", d.bp, g.Breakpoint)
		c("last_score_subtract", d.sub, g.LastScoreSubtract)
		c("total_score_subtract", d.total, g.TotalScoreSubtract)
		c("usage_count", d.usage, g.UsageCount)
		pre, suf := message.GetQueueParts(d.q)
		c("queue_prefix", pre, g.QueuePrefix)
		c("queue_suffix", suf, g.QueueSuffix)
		if g.Diagnostics == nil {
			g.Diagnostics = &message.MessageDiagnostics{}
		}
		c("acks", d.acks, i64(g.Diagnostics.Acks))
		c("nacks", d.nacks, i64(g.Diagnostics.Nacks))
		c("consecutive_acks", d.cacks, i64(g.Diagnostics.ConsecutiveAcks))
		c("consecutive_nacks", d.cnack, i64(g.Diagnostics.ConsecutiveNacks))
		if s := d.c.diff(&deckard.Message{Description: g.Description, StringPayload: g.StringPayload, Metadata: g.Metadata, Payload: g.Payload}, true); s != "" {
			l = append(l, s)
		}
	}
	return strings.Join(l, "; ")
}

func (r *srun) find(f *sFind) {
	opt := &storage.FindOptions{InternalFilter: r.filter(f), Limit: f.Limit, Retry: f.Retry}
	p := projections[mod(f.Proj, len(projections))]
	if p != nil {
		opt.Projection = &p
	}
	if len(f.Sort) > 0 {
		opt.Sort = orderedmap.NewOrderedMap[string, int]()
		for _, k := range f.Sort {
			opt.Sort.Set(k.F, k.Dir)
		}
	}
	got, err := r.s.Find(bg, opt)
	if f.BadBP != "" {
		if err == nil {
			r.fail("a query with the breakpoint %q was accepted", f.BadBP)
		}
		return
	}
	r.noErr("find", err)
	r.h.Logf("find %s -> %d documents", js(f), len(got))
	r.read(f.Retry, func(m *sModel) string {
		var want []sDoc
		for _, d := range r.sorted(m) {
			if match(d, opt.InternalFilter) {
				want = append(want, d)
			}
		}
		n := len(want)
		if f.Limit > 0 {
			n = min(n, int(f.Limit))
		}
		if len(got) != n {
			return fmt.Sprintf("find %s returned %d documents instead of %d", js(f), len(got), n)
		}
		sort.SliceStable(want, func(i, j int) bool { return cmpDocs(want[i], want[j], f.Sort) < 0 })
		byInternal, byKey := map[string]sDoc{}, map[mKey]sDoc{}
		for _, d := range want {
			byInternal[d.internal], byKey[mKey{d.q, d.id}] = d, d
		}
		seen := map[string]bool{}
		for i := range got {
			g := got[i]
			var d sDoc
			var ok bool
			internal := r.s.GetStringInternalId(bg, &g)
			switch {
			case internal != "":
				d, ok = byInternal[internal]
			case p["queue"] == 1:
				d, ok = byKey[mKey{g.Queue, g.ID}]
			default: // not enough to tell
				continue
			}
			if !ok {
				return fmt.Sprintf("find %s returned %q of %q (%s), which does not match", js(f), g.ID, g.Queue, internal)
			}
			if seen[d.internal] {
				return fmt.Sprintf("find %s returned (%q,%q) twice", js(f), d.q, d.id)
			}
			seen[d.internal] = true
			if e := diffDoc(d, &g, internal, p); e != "" {
				return fmt.Sprintf("find %s: (%q,%q): %s", js(f), d.q, d.id, e)
			}
			if len(f.Sort) > 0 && cmpDocs(d, want[i], f.Sort) != 0 {
				return fmt.Sprintf("find %s returned (%q,%q) in position %d, where (%q,%q) belongs", js(f), d.q, d.id, i, want[i].q, want[i].id)
			}
		}
		return ""
	})
	if len(got) > 0 {
		r.stats["found"]++
		if f.Gt > 0 || f.Le > 0 {
			r.stats["found by breakpoint"]++
		}
		if len(got) > 1000 {
			r.stats["found more than a batch"]++
		}
	}
}

func (r *srun) msg(it sItem) *message.Message {
	q := r.q(it.Q)
	p, s := message.GetQueueParts(q)
	g := &message.Message{ID: r.id(it.I), Queue: q, QueuePrefix: p, QueueSuffix: s, Score: float64(it.Score), ExpiryDate: atMs(it.Exp),
		Description: it.C.Desc, StringPayload: it.C.Str, Metadata: it.C.Meta, Payload: it.C.anys()}
	switch it.Bad {
	case 1:
		g.Queue = ""
	case 2:
		g.ID = ""
	}
	return g
}

// learn asks for the internal ids of new documents.
func (r *srun) learn(keys []mKey) {
	byQ := map[string][]string{}
	for _, k := range keys {
		byQ[k.q] = append(byQ[k.q], k.id)
	}
	used := map[string]bool{}
	for _, d := range r.m.docs {
		used[d.internal] = true
	}
	for _, q := range sortedKeys(byQ) {
		ids := byQ[q]
		got, err := r.s.Find(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: q, Ids: &ids}, Retry: true})
		r.noErr("find", err)
		if len(got) != len(ids) {
			r.fail("%d documents were inserted and %d of them are found", len(ids), len(got))
		}
		for i := range got {
			in := r.s.GetStringInternalId(bg, &got[i])
			if in == "" || used[in] {
				r.fail("the internal id of (%q,%q) is %q", q, got[i].ID, in)
			}
			used[in] = true
			d := r.m.docs[mKey{q, got[i].ID}]
			d.internal = in
			r.m.docs[mKey{q, got[i].ID}] = d
		}
	}
}

func (r *srun) do(op sOp) {
	setClock(r.now)
	switch op.K {
	case "insert":
		items := op.Items
		for i := 0; i < op.N; i++ {
			items = append(items, sItem{Q: op.Q, I: op.From + i, Score: F64((i*31+op.From)%97 + 1), Exp: int64(i%13) * 60000, C: Content{Str: fmt.Sprint(op.From)}})
		}
		var in []*message.Message
		var keys []mKey
		bad := false
		seen := map[mKey]bool{}
		var kept []sItem
		for _, it := range items {
			k := mKey{r.q(it.Q), r.id(it.I)}
			if it.Bad == 0 && seen[k] {
				continue
			}
			seen[k] = it.Bad == 0
			kept = append(kept, it)
			in = append(in, r.msg(it))
			bad = bad || it.Bad > 0
		}
		if len(in) == 0 {
			return
		}
		ins, upd, err := r.s.Insert(bg, in...)
		r.h.Logf("insert %d messages -> %d, %d, %v", len(in), ins, upd, err)
		if bad {
			if err == nil || ins != 0 || upd != 0 {
				r.fail("the insertion of a batch with an invalid message returned %d, %d and the error %v", ins, upd, err)
			}
			r.stats["bad batch"]++
			r.find(&sFind{Retry: true})
			return
		}
		r.noErr("insert", err)
		var there, changed int64
		for _, it := range kept {
			k := mKey{r.q(it.Q), r.id(it.I)}
			d, ok := r.m.docs[k]
			if !ok {
				r.m.docs[k] = sDoc{q: k.q, id: k.id, score: float64(it.Score), exp: it.Exp, used: r.now - startMs, c: it.C}
				keys = append(keys, k)
				continue
			}
			there++
			old := d
			d.exp = it.Exp
			if it.C.Desc != "" {
				d.c.Desc = it.C.Desc
			}
			if it.C.Str != "" {
				d.c.Str = it.C.Str
			}
			if len(it.C.Meta) > 0 {
				d.c.Meta = it.C.Meta
			}
			if len(it.C.Payload) > 0 {
				d.c.Payload = it.C.Payload
			}
			if js(old.c) != js(d.c) || old.exp != d.exp {
				changed++
			}
			r.m.docs[k] = d
		}
		if ins != int64(len(keys)) {
			r.fail("the insertion of %d new messages returned %d", len(keys), ins)
		}
		if upd < changed || upd > there {
			r.fail("the insertion returned %d changed messages, %d of %d changed", upd, changed, there)
		}
		r.learn(keys)
		if len(keys) > 0 {
			r.stats["inserted"]++
		}
		if there > 0 {
			r.stats["inserted again"]++
		}
		if len(kept) > 1000 {
			r.stats["large insertion"]++
		}
	case "remove":
		q, ids := r.q(op.Q), r.ids(op)
		n, err := r.s.Remove(bg, q, ids...)
		r.noErr("remove", err)
		r.h.Logf("remove of %q: %s -> %d", q, brief(ids), n)
		var want int64
		for _, id := range ids {
			if _, ok := r.m.docs[mKey{q, id}]; ok {
				delete(r.m.docs, mKey{q, id})
				want++
			}
		}
		if n != want {
			r.fail("the removal of %d documents returned %d", want, n)
		}
		if n > 0 {
			r.stats["removed"]++
			if n > 100 {
				r.stats["large removal"]++
			}
		}
	case "ack", "nack":
		q, id := r.q(op.Q), r.id(op.I)
		if docs := r.sorted(r.m); op.N > 0 && len(docs) > 0 {
			x := docs[op.I%len(docs)]
			q, id = x.q, x.id
		}
		d, ok := r.m.docs[mKey{q, id}]
		t := time.UnixMilli(r.now)
		g := &message.Message{ID: id, Queue: q, LastUsage: &t, Breakpoint: op.BP, Score: float64(op.Score), LastScoreSubtract: float64(op.Sub), LockMs: op.Lock}
		var n int64
		var err error
		if op.K == "ack" {
			n, err = r.s.Ack(bg, g)
		} else {
			n, err = r.s.Nack(bg, g)
		}
		r.noErr(op.K, err)
		r.h.Logf("%s (%q,%q) -> %d", op.K, q, id, n)
		if n != b2i(ok) {
			r.fail("%s of (%q,%q) changed %d documents", op.K, q, id, n)
		}
		if !ok {
			return
		}
		r.stats[op.K]++
		d.score, d.lock = float64(op.Score), op.Lock
		if op.K == "ack" {
			d.used, d.bp, d.sub = r.now-startMs, op.BP, float64(op.Sub)
			d.total += d.sub
			d.usage++
			d.acks++
			d.cacks++
			d.cnack = 0
		} else {
			d.nacks++
			d.cnack++
			d.cacks = 0
		}
		r.m.docs[mKey{q, id}] = d
	case "find":
		r.find(op.F)
	case "count":
		f := r.filter(op.F)
		n, err := r.s.Count(bg, &storage.FindOptions{InternalFilter: f}, &storage.CountOptions{})
		if op.F.BadBP != "" {
			if err == nil {
				r.fail("a count with the breakpoint %q was accepted", op.F.BadBP)
			}
			return
		}
		r.noErr("count", err)
		r.read(false, func(m *sModel) string {
			var want int64
			for _, d := range m.docs {
				want += b2i(match(d, f))
			}
			if n != want {
				return fmt.Sprintf("count %s returned %d instead of %d", js(op.F), n, want)
			}
			return ""
		})
	case "names":
		names, err := r.s.ListQueueNames(bg)
		r.noErr("list of names", err)
		pres, err := r.s.ListQueuePrefixes(bg)
		r.noErr("list of prefixes", err)
		r.read(false, func(m *sModel) string {
			qs, ps := map[string]bool{}, map[string]bool{}
			for _, d := range m.docs {
				qs[d.q], ps[prefixOf(d.q)] = true, true
			}
			sort.Strings(names)
			if w := sortedKeys(qs); !slices.Equal(names, w) {
				return fmt.Sprintf("the queues are %q instead of %q", names, w)
			}
			return ""
		})
		r.read(false, func(m *sModel) string {
			ps := map[string]bool{}
			for _, d := range m.docs {
				ps[prefixOf(d.q)] = true
			}
			sort.Strings(pres)
			if w := sortedKeys(ps); !slices.Equal(pres, w) {
				return fmt.Sprintf("the prefixes are %q instead of %q", pres, w)
			}
			return ""
		})
		r.stats["names"]++
	case "editcfg":
		q := r.q(op.Q)
		r.noErr("edit", r.s.EditQueueConfiguration(bg, &configuration.QueueConfiguration{Queue: q, MaxElements: op.D}))
		if op.D != 0 {
			r.m.cfg[q] = max(0, op.D)
			r.stats["configured"]++
		}
	case "getcfg":
		q := r.q(op.Q)
		c, err := r.s.GetQueueConfiguration(bg, q)
		r.noErr("get", err)
		l, err := r.s.ListQueueConfigurations(bg)
		r.noErr("list", err)
		r.read(false, func(m *sModel) string {
			if v, ok := m.cfg[q]; ok != (c != nil) || ok && (c.Queue != q || c.MaxElements != v) {
				return fmt.Sprintf("the configuration of %q is %+v instead of %d (%v)", q, c, v, ok)
			}
			return ""
		})
		r.read(false, func(m *sModel) string {
			got := map[string]int64{}
			for _, c := range l {
				got[c.Queue] = c.MaxElements
			}
			if len(l) != len(m.cfg) || js(got) != js(m.cfg) {
				return fmt.Sprintf("the configurations are %s (%d) instead of %s", js(got), len(l), js(m.cfg))
			}
			return ""
		})
	case "flush":
		n, err := r.s.Flush(bg)
		r.noErr("flush", err)
		if n != int64(len(r.m.docs)+len(r.m.cfg)) {
			r.fail("the flush of %d documents and %d configurations returned %d", len(r.m.docs), len(r.m.cfg), n)
		}
		if n > 0 {
			r.stats["flushed"]++
		}
		r.m = &sModel{docs: map[mKey]sDoc{}, cfg: map[string]int64{}}
	case "advance":
		r.now += op.D
	case "lag":
		mongoServer.Lag(true)
		r.frozen = r.m.clone()
		r.stats["lag"]++
	case "catchup":
		mongoServer.Lag(false)
		r.frozen = nil
	}
}

func js(v any) string {
	b, err := json.Marshal(v)
	Must(err)
	return string(b)
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func runStorage(h *H, c sCase) *srun {
	r := &srun{h: h, c: c, s: mongoStorageFor(), now: startMs, m: &sModel{docs: map[mKey]sDoc{}, cfg: map[string]int64{}}, stats: map[string]int{}}
	mongoServer.MaxBatch = c.Batch
	for _, op := range c.Ops {
		r.do(op)
	}
	r.do(sOp{K: "catchup"})
	for q := 0; q < len(c.Queues); q++ {
		r.do(sOp{K: "find", F: &sFind{Q: q + 1, Sort: []sKey{{"score", 1}}}})
		r.do(sOp{K: "getcfg", Q: q})
	}
	r.do(sOp{K: "find", F: &sFind{}})
	r.do(sOp{K: "names"})
	return r
}

func genContentSmall(t *rapid.T) Content {
	p := base
	p.rich = rapid.IntRange(0, 2).Draw(t, "rich?") == 0
	return genContent(t, p).withoutNul()
}

func genStorageFind(t *rapid.T, nid int) *sFind {
	f := &sFind{}
	set := func(l string) bool { return rapid.IntRange(0, 2).Draw(t, l+"?") == 0 }
	if rapid.IntRange(0, 3).Draw(t, "queue?") > 0 {
		f.Q = rapid.IntRange(1, 6).Draw(t, "queue")
	}
	if f.Q == 0 && set("prefix") {
		f.P = rapid.IntRange(1, 6).Draw(t, "prefix")
	}
	if set("ids") {
		f.Ids = rapid.SliceOfN(rapid.IntRange(0, nid), 0, 6).Draw(t, "ids")
	}
	if set("gt") {
		f.Gt = rapid.IntRange(1, 12).Draw(t, "gt")
	}
	if set("le") {
		f.Le = rapid.IntRange(1, 12).Draw(t, "le")
	}
	if set("expiry") {
		x := rapid.Int64Range(0, 12).Draw(t, "expiry") * 60000
		f.Exp = &x
	}
	if rapid.IntRange(0, 20).Draw(t, "bad?") == 0 {
		f.BadBP = rapid.SampledFrom([]string{"x", "12", "zzzzzzzzzzzzzzzzzzzzzzzz", "0", "{\"$gt\":1}"}).Draw(t, "bad")
	}
	f.Sort = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) sKey {
		return sKey{rapid.SampledFrom([]string{"score", "expiry_date", "last_usage", "_id"}).Draw(t, "field"), rapid.SampledFrom([]int{1, -1}).Draw(t, "direction")}
	}), 0, 3, func(k sKey) string { return k.F }).Draw(t, "sort")
	f.Limit = rapid.SampledFrom([]int64{0, 1, 2, 0, 5, 1000, 3}).Draw(t, "limit")
	f.Proj = rapid.IntRange(0, len(projections)-1).Draw(t, "projection")
	f.Retry = rapid.Bool().Draw(t, "retry")
	return f
}

func genStorageOp(t *rapid.T, nid int, bulk []int, kinds []string) sOp {
	op := sOp{K: rapid.SampledFrom(kinds).Draw(t, "op"), Q: rapid.IntRange(0, 5).Draw(t, "queue")}
	switch op.K {
	case "insert":
		if len(bulk) > 0 {
			op.From, op.N = rapid.IntRange(0, nid-1).Draw(t, "from"), rapid.SampledFrom(bulk).Draw(t, "count")
			break
		}
		op.Items = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sItem {
			it := sItem{Q: rapid.IntRange(0, 5).Draw(t, "queue"), I: rapid.IntRange(0, nid-1).Draw(t, "id"),
				Score: F64(rapid.SampledFrom([]float64{0, 1, 2, 3.5, maxScore, 1.7e12 + 0.25, 0.1}).Draw(t, "score")),
				Exp:   rapid.Int64Range(0, 12).Draw(t, "expiry") * 60000, C: genContentSmall(t)}
			if rapid.IntRange(0, 40).Draw(t, "far?") == 31 {
				it.Exp = rapid.SampledFrom([]int64{-startMs, -startMs - 1000, 1e13, 60000 + 1, 2e14}).Draw(t, "far")
			}
			if rapid.IntRange(0, 60).Draw(t, "bad?") == 47 {
				it.Bad = rapid.IntRange(1, 2).Draw(t, "bad")
			}
			return it
		}), 1, 6).Draw(t, "items")
	case "remove":
		if len(bulk) > 0 {
			op.From, op.N = rapid.IntRange(0, nid-1).Draw(t, "from"), rapid.SampledFrom([]int{1, 99, 100, 101, 199, 200, 201, 350, 1000}).Draw(t, "count")
			if rapid.Bool().Draw(t, "repeated") {
				op.Ids = []int{op.From, op.From + 1, op.From + op.N - 1}
			}
			break
		}
		op.Ids = rapid.SliceOfN(rapid.IntRange(0, nid), 0, 5).Draw(t, "ids")
	case "ack", "nack":
		op.I = rapid.IntRange(0, nid-1).Draw(t, "id")
		op.N = rapid.IntRange(0, 3).Draw(t, "of the stored")
		op.Score = F64(rapid.SampledFrom([]float64{0, 1, 2, 3.5, maxScore, -1, 1.7e12}).Draw(t, "score"))
		op.Sub = F64(rapid.SampledFrom([]float64{0, 0, 1, 2.5, -3, 1e6}).Draw(t, "subtract"))
		op.Lock = rapid.SampledFrom([]int64{0, 0, 1, 5000, 1 << 60}).Draw(t, "lock")
		op.BP = rapid.SampledFrom([]string{"", "bp", "é", "$x"}).Draw(t, "breakpoint")
	case "find", "count":
		op.F = genStorageFind(t, nid)
		if len(bulk) > 0 {
			op.F.Limit = rapid.SampledFrom([]int64{0, 1, 999, 1000, 1001, 2000, 9999, 10001}).Draw(t, "limit")
			if rapid.Bool().Draw(t, "no ids") {
				op.F.Ids = nil
			}
		}
	case "editcfg":
		op.D = rapid.SampledFrom([]int64{1, 5, 0, -1, 1 << 40, 100}).Draw(t, "elements")
	case "advance":
		op.D = rapid.SampledFrom([]int64{1, 2, 1000, 3600000}).Draw(t, "by")
	}
	return op
}

var storageQueues = []string{"a", "b", "a::x", "a::y", "aa", "a::", "a:b", "a::x::y", "$a", "a.b", "*", "é", "0", "a{b}", "A"}

func genStorage(bulk []int, batches []int, minOps, maxOps int, w map[string]int) func(t *rapid.T) sCase {
	kinds := spread(w)
	return func(t *rapid.T) sCase {
		c := sCase{NID: rapid.SampledFrom([]int{3, 6, 12}).Draw(t, "ids"), Batch: rapid.SampledFrom(batches).Draw(t, "batch")}
		n := rapid.IntRange(1, 4).Draw(t, "queues")
		if len(bulk) > 0 {
			c.NID, n = 13000, 1
		}
		c.Queues = rapid.SliceOfNDistinct(rapid.SampledFrom(storageQueues), n, n, func(s string) string { return s }).Draw(t, "names")
		if len(bulk) > 0 {
			op := genStorageOp(t, c.NID, bulk, []string{"insert"})
			op.Q, op.From = 0, 0
			c.Ops = append(c.Ops, op)
		}
		for _, op := range rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sOp { return genStorageOp(t, c.NID, bulk, kinds) }), minOps, maxOps).Draw(t, "ops") {
			if op.K != "nop" {
				c.Ops = append(c.Ops, op)
			}
		}
		return c
	}
}

func storageSub(name string, quick, thorough int, gen func(t *rapid.T) sCase, nontrivial ...string) *Sub {
	return sub(name, quick*8, thorough*8, gen, func(h *H, c sCase) {
		r := runStorage(h, c)
		for l, n := range r.stats {
			if n > 0 {
				h.Label(l)
			}
		}
		for _, n := range nontrivial {
			if r.stats[n] == 0 {
				return
			}
		}
		h.Nontrivial()
	})
}

// lagOp is an operation of a client of a replica set whose secondaries may be late.
type lagOp struct {
	K   string
	Q   int   `json:",omitempty"`
	Ids []int `json:",omitempty"`
	N   int32 `json:",omitempty"`
	By  int   `json:",omitempty"`
	D   int64 `json:",omitempty"`
}

type lagCase struct {
	Backend string
	NQ, NID int
	Ops     []lagOp
}

func genLag(t *rapid.T) lagCase {
	c := lagCase{Backend: rapid.SampledFrom([]string{"mongo", "full"}).Draw(t, "backend"), NQ: rapid.IntRange(1, 2).Draw(t, "queues"), NID: rapid.IntRange(2, 8).Draw(t, "ids")}
	kinds := spread(onlyWeights("add", 8, "pull", 9, "ack", 4, "nack", 3, "remove", 2, "ghost", 2, "sweep", 3, "lag", 5, "catchup", 2, "advance", 1))
	for _, op := range rapid.SliceOfN(rapid.Custom(func(t *rapid.T) lagOp {
		op := lagOp{K: rapid.SampledFrom(kinds).Draw(t, "op"), Q: rapid.IntRange(0, 1).Draw(t, "queue")}
		switch op.K {
		case "add", "remove", "ghost":
			op.Ids = rapid.SliceOfNDistinct(rapid.IntRange(0, c.NID-1), 1, min(4, c.NID), rapid.ID[int]).Draw(t, "ids")
			op.By = rapid.IntRange(0, 4).Draw(t, "score")
		case "pull":
			op.N = rapid.SampledFrom([]int32{1, 2, 3, 1000}).Draw(t, "amount")
		case "ack", "nack":
			op.By, op.D = rapid.IntRange(0, 4).Draw(t, "which"), rapid.SampledFrom([]int64{0, 0, 1000}).Draw(t, "lock")
		case "advance":
			op.D = rapid.SampledFrom([]int64{2, 1000, 300000}).Draw(t, "by")
		}
		return op
	}), 12, 40).Draw(t, "ops") {
		if op.K != "nop" {
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}

func runLag(h *H, c lagCase) {
	setClock(startMs)
	now := startMs
	in := newInstance(c.Backend)
	mongoServer.Lag(false)
	defer mongoServer.Lag(false)
	type st struct {
		st    int
		due   int64
		ghost bool // it is not in the storage anymore, but it is in the cache
	}
	msgs := map[mKey]*st{}
	seen := map[mKey]bool{} // by the secondaries
	lagging := false
	name := func(q, i int) mKey { return mKey{plainQueues[q%c.NQ], fmt.Sprintf("m%d", i)} }
	var before map[string]map[string]int64
	pull := func(q string, n int32) []string {
		avail, late := 0, 0
		in.aud.take()
		if h.Prop == "C30" {
			before = collectMetrics()
		}
		for k, x := range msgs {
			if k.q == q && x.st == sActive {
				avail++
				if lagging && !seen[k] {
					late++
				}
			}
		}
		res, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: q, Amount: n})
		if err != nil {
			h.Failf("a pull of %q failed: %v", q, err)
		}
		var ids []string
		for i, m := range res.Messages {
			k := mKey{q, m.Id}
			x := msgs[k]
			if i > 0 && res.Messages[i-1].Score > m.Score {
				h.Fail("C01 C21", "the pull of %q returned %q with the score %v after a message with the score %v", q, m.Id, m.Score, res.Messages[i-1].Score)
			}
			if x == nil || x.st != sActive {
				h.Failf("the pull of %q returned %q, which is not available", q, m.Id)
			}
			if m.Queue != q || m.StringPayload != q+m.Id {
				h.Failf("the pull of %q returned %q with the queue %q and the payload %q", q, m.Id, m.Queue, m.StringPayload)
			}
			if x.ghost && !(lagging && seen[k]) {
				h.Failf("the pull of %q returned %q, which is not in the storage", q, m.Id)
			}
			x.st, x.due = sProc, now+300000
			ids = append(ids, m.Id)
			if lagging && !seen[k] {
				h.Label("pulled before it was replicated")
				h.Nontrivial()
			}
		}
		h.Logf("t=%d pull %q %d -> %q", now-startMs, q, n, ids)
		missing := 0
		for _, e := range in.aud.take() {
			if e.Signal != audit.MISSING_STORAGE {
				continue
			}
			x := msgs[mKey{e.Queue, e.ID}]
			h.Check(e.Queue == q && x != nil && x.st == sActive && x.ghost, h.Prop+" C24", "the pull of %q found %q missing in the storage, which it is not", q, e.ID)
			delete(msgs, mKey{e.Queue, e.ID})
			missing++
		}
		if missing > 0 {
			h.Label("missing in the storage")
		}
		if missing > 0 && len(ids) > 0 && lagging {
			h.Label("some missing while the secondary is late")
			h.Nontrivial()
		}
		if len(ids)+missing != min(int(n), avail) {
			h.Failf("the pull of %d messages of %q returned %d, %d are missing in the storage, %d are available, %d of them not replicated yet", n, q, len(ids), missing, avail, late)
		}
		if h.Prop == "C30" {
			after := collectMetrics()
			grown := func(name string) int64 {
				k := attribution(prefixOf(q), "")
				return after[name][k] - before[name][k]
			}
			h.Check(grown("deckard_messages_not_found_in_storage") == int64(missing), "C30", "%d messages were missing, the counter grew by %d", missing, grown("deckard_messages_not_found_in_storage"))
			h.Check(grown("deckard_messages_empty_queue")+grown("deckard_messages_empty_queue_not_found_storage") == b2i(len(ids) == 0), "C30", "%d messages were returned, the counters of empty pulls grew by %d and %d", len(ids),
				grown("deckard_messages_empty_queue"), grown("deckard_messages_empty_queue_not_found_storage"))
		}
		return ids
	}
	sweep := func() {
		setClock(now + 1)
		_ = queue.ProcessTimeoutMessages(bg, in.q)
		queue.ProcessLockPool(bg, in.q)
		for _, x := range msgs {
			if x.st > sActive && x.due <= now+1 {
				x.st = sActive
			}
		}
		now += 2
		setClock(now)
	}
	for _, op := range c.Ops {
		switch op.K {
		case "add":
			req := &deckard.AddRequest{}
			for _, i := range op.Ids {
				k := name(op.Q, i)
				req.Messages = append(req.Messages, &deckard.AddMessage{Id: k.id, Queue: k.q, Timeless: true, StringPayload: k.q + k.id, Score: float64((op.By + 3*i) % 5)})
				if msgs[k] == nil {
					msgs[k] = &st{st: sActive}
				}
				msgs[k].ghost = false
			}
			if _, err := rpc(in.svc.Add, req); err != nil {
				h.Failf("an add failed: %v", err)
			}
			h.Logf("t=%d add %v to queue %d", now-startMs, op.Ids, op.Q)
		case "pull":
			pull(plainQueues[op.Q%c.NQ], op.N)
		case "ack", "nack":
			var l []mKey
			for k, x := range msgs {
				if x.st == sProc {
					l = append(l, k)
				}
			}
			if len(l) == 0 {
				continue
			}
			sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
			k := l[op.By%len(l)]
			req := &deckard.AckRequest{Id: k.id, Queue: k.q, LockMs: op.D}
			f := in.svc.Ack
			if op.K == "nack" {
				f = in.svc.Nack
			}
			res, err := rpc(f, req)
			if err != nil || !res.Success {
				h.Failf("%s of %s returned %v, %v", op.K, k, res, err)
			}
			x := msgs[k]
			x.st = sActive
			if op.D > 0 {
				x.st, x.due = sLockAck, now+op.D
			}
			h.Logf("t=%d %s %s, lock %d", now-startMs, op.K, k, op.D)
		case "remove":
			var ids []string
			q := ""
			var want int64
			for _, i := range op.Ids {
				k := name(op.Q, i)
				q, ids = k.q, append(ids, k.id)
				want += b2i(msgs[k] != nil && !msgs[k].ghost)
				delete(msgs, k)
			}
			res, err := rpc(in.svc.Remove, &deckard.RemoveRequest{Queue: q, Ids: ids})
			if err != nil || res.StorageRemoved != want {
				h.Failf("the removal of %q from %q returned %v, %v instead of %d", ids, q, res, err, want)
			}
			h.Logf("t=%d remove %q from %q", now-startMs, ids, q)
		case "ghost":
			for _, i := range op.Ids {
				k := name(op.Q, i)
				if msgs[k] != nil {
					_, err := in.storage.Remove(bg, k.q, k.id)
					Must(err)
					msgs[k].ghost = true
				}
			}
			h.Logf("t=%d %v of queue %d disappear from the storage", now-startMs, op.Ids, op.Q)
		case "sweep":
			now += 300000
			sweep()
			h.Logf("t=%d sweeps", now-startMs)
		case "advance":
			now += op.D
			setClock(now)
		case "lag", "catchup":
			lagging = op.K == "lag"
			mongoServer.Lag(lagging)
			clear(seen)
			for k := range msgs {
				seen[k] = true
			}
			h.Logf("t=%d %s", now-startMs, op.K)
		}
	}
	// whatever the secondaries see, everything is delivered
	now += 400000
	sweep()
	for q := 0; q < c.NQ; q++ {
		pull(plainQueues[q], 1000)
	}
}

// electionCase is a time without primary.
type electionCase struct {
	Backend string
	What    []int // of each message: 0: on the secondary, 1: not there yet, 2: not stored anymore, but still on the secondary, 3: nowhere
	Pulls   []int32
}

func genElection(t *rapid.T) electionCase {
	return electionCase{Backend: rapid.SampledFrom([]string{"mongo", "full"}).Draw(t, "backend"),
		What:  rapid.SliceOfN(rapid.SampledFrom([]int{1, 0, 1, 3, 2}), 1, 8).Draw(t, "messages"),
		Pulls: rapid.SliceOfN(rapid.SampledFrom([]int32{1000, 1, 2, 3}), 1, 4).Draw(t, "pulls")}
}

func runElection(h *H, c electionCase) {
	setClock(startMs)
	now := startMs
	// clients would remember the failure, so that there is a server of its own
	server, err := fakemongo.Start("127.0.0.1:0", "127.0.0.1:0")
	Must(err)
	defer server.Close()
	connect := func() (*storage.MongoStorage, error) {
		config.StorageUri.Set(mongoURI(server, 2) + "&serverSelectionTimeoutMS=200")
		defer config.Configure(true)
		return storage.NewMongoStorage(bg)
	}
	var msgs cache.Cache
	if c.Backend == "full" {
		msgs = redisCacheFor("redis")
	} else {
		msgs = cache.NewMemoryCache()
	}
	before, err := connect()
	Must(err)
	defer before.Close(bg)
	awaitPrimary(server, before)
	first := queue.NewQueueConfigurationService(bg, before)
	in := service.NewDeckardInstance(queue.NewQueue(&recAuditor{}, before, first, msgs), first, false)
	q := "qa"
	id := func(i int) string { return fmt.Sprintf("m%d", i) }
	var seen, others deckard.AddRequest
	var gone []string
	stored := map[string]bool{}
	for i, w := range c.What {
		m := &deckard.AddMessage{Id: id(i), Queue: q, Timeless: true, Score: float64(i * 5 % 3), StringPayload: id(i)}
		if w == 0 || w == 2 {
			seen.Messages = append(seen.Messages, m)
		} else {
			others.Messages = append(others.Messages, m)
		}
		if w >= 2 {
			gone = append(gone, id(i))
		} else {
			stored[id(i)] = true
		}
	}
	if len(seen.Messages) > 0 {
		_, err = rpc(in.Add, &seen)
		Must(err)
	}
	server.Lag(true)
	if len(others.Messages) > 0 {
		_, err = rpc(in.Add, &others)
		Must(err)
	}
	if len(gone) > 0 {
		_, err = before.Remove(bg, q, gone...)
		Must(err)
	}
	server.Down(0, true)
	st, err := connect()
	if err != nil {
		h.Discard("without a primary there is no connection")
	}
	defer st.Close(bg)
	aud := &recAuditor{}
	cfg := queue.NewQueueConfigurationService(bg, st)
	svc := service.NewDeckardInstance(queue.NewQueue(aud, st, cfg, msgs), cfg, false)
	due := map[string]int64{}
	pull := func(n int32, primary bool) error {
		res, err := rpc(svc.Pull, &deckard.PullRequest{Queue: q, Amount: n})
		var ids []string
		for _, m := range res.GetMessages() {
			ids = append(ids, m.Id)
			h.Check(m.Queue == q && m.StringPayload == m.Id, "C21", "the pull returned %v", m)
			h.Check(due[m.Id] <= now, "C21 C03", "the pull returned %q, which is being processed", m.Id)
			due[m.Id] = now + 300000
		}
		h.Logf("t=%d pull %d -> %q, %v", now-startMs, n, ids, err)
		for _, e := range aud.take() {
			if e.Signal == audit.MISSING_STORAGE {
				h.Check(!stored[e.ID], "C21 C04 C24", "the pull discarded %q as missing in the storage, which has it", e.ID)
			}
		}
		if primary {
			for _, id := range ids {
				delete(stored, id)
			}
		}
		return err
	}
	for _, n := range c.Pulls {
		if err := pull(n, false); err != nil {
			h.Label("failed pull")
		}
		h.Nontrivial()
		now += 2
		setClock(now)
	}
	server.Down(0, false)
	awaitPrimary(server, st)
	server.Lag(false)
	now += 400000
	setClock(now)
	_ = queue.ProcessTimeoutMessages(bg, queue.NewQueue(aud, st, cfg, msgs))
	now += 2
	setClock(now)
	aud.take()
	clear(due)
	for range 3 {
		if err := pull(1000, true); err != nil {
			h.Failf("a pull failed after the election: %v", err)
		}
	}
	for i := range c.What {
		h.Check(!stored[id(i)], "C21 C04", "%q is stored, but was not delivered anymore after the time without primary", id(i))
	}
	if len(c.What) > 0 {
		h.Label("delivered after an election")
	}
}

func init() {
	w := onlyWeights("insert", 9, "remove", 3, "ack", 4, "nack", 4, "find", 12, "count", 4, "names", 2, "editcfg", 2, "getcfg", 2,
		"flush", 1, "advance", 4, "lag", 1, "catchup", 1)
	large := onlyWeights("insert", 4, "remove", 5, "ack", 1, "find", 6, "count", 2, "names", 1)
	all := base.with(func(p *profile) {
		p.nq, p.ttls, p.expDue, p.extreme, p.timeless = 3, ttlChoices, true, true, true
		p.w = weights("ttl", 2, "maxel", 2, "editq", 2, "ackl", 3, "nackl", 3, "recovery", 1, "losecache", 1, "filter", 2)
		p.backends = []string{"mongo", "full"}
	})
	many := all.with(func(p *profile) {
		p.nq, p.nid, p.bulk, p.min, p.max = 2, 2600, 2600, 4, 14
		p.amounts = []int32{1000, 1000, 999, 3}
		p.w = onlyWeights("bulkadd", 4, "bulkremove", 2, "pull", 8, "ackl", 2, "nack", 2, "advance", 5, "timeout", 4, "unlock", 2, "ttl", 2, "maxel", 1, "editq", 1)
	})
	register("C21", "documents were inserted and found; lag: a message was pulled which the secondaries did not have",
		storageSub("contract", 400, 8000, genStorage(nil, []int{0, 1, 3}, 20, 50, w), "inserted", "found"),
		storageSub("batches", 3, 60, genStorage([]int{1, 999, 1000, 1001, 2500, 4100, 10500, 12000}, []int{0, 0, 400}, 3, 8, large), "inserted"),
		histSub("history", 150, 6000, all, histOpts{drain: true}, "created"),
		histSub("many messages", 3, 60, many, histOpts{drain: true}, "created"),
		sub("lag", 2000, 40000, genLag, runLag),
		sub("election", 96, 1600, genElection, runElection))
}
