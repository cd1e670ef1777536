package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

const maxScore = float64(9007199254740992)

// F64 is a float64 which survives JSON with any value.
type F64 float64

func (f F64) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) || (v == 0 && math.Signbit(v)) {
		return json.Marshal(strconv.FormatFloat(v, 'g', -1, 64))
	}
	return json.Marshal(v)
}

func (f *F64) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		v, err := strconv.ParseFloat(s, 64)
		*f = F64(v)
		return err
	}
	return json.Unmarshal(b, (*float64)(f))
}

// Content is what a client stores in a message.
type Content struct {
	Desc    string            `json:",omitempty"`
	Str     string            `json:",omitempty"`
	Meta    map[string]string `json:",omitempty"`
	Payload map[string]AnyVal `json:",omitempty"`
}

// over is the content of a message which is added again with c, when the fields which are not set keep the old content.
func (c Content) over(old Content) Content {
	if c.Desc == "" {
		c.Desc = old.Desc
	}
	if c.Str == "" {
		c.Str = old.Str
	}
	if c.Meta == nil {
		c.Meta = old.Meta
	}
	if c.Payload == nil {
		c.Payload = old.Payload
	}
	return c
}

// AnyVal is a google.protobuf.Any.
type AnyVal struct {
	Url string `json:",omitempty"`
	Val []byte `json:",omitempty"`
}

// readAs tells if text, in the text or the JSON format of protobuf, is the same value.
func (v AnyVal) readAs(text string) bool {
	want := &anypb.Any{TypeUrl: v.Url, Value: v.Val}
	for _, parse := range []func(string, proto.Message) error{
		func(s string, m proto.Message) error {
			return prototext.UnmarshalOptions{AllowPartial: true}.Unmarshal([]byte(s), m)
		},
		func(s string, m proto.Message) error { return protojson.Unmarshal([]byte(s), m) },
	} {
		got := &anypb.Any{}
		if parse(text, got) != nil {
			continue
		}
		if proto.Equal(got, want) {
			return true
		}
		a, err1 := got.UnmarshalNew()
		b, err2 := want.UnmarshalNew()
		if err1 == nil && err2 == nil && proto.Equal(a, b) {
			return true
		}
	}
	// fields which the type does not have are written with their number, and such a text cannot be read back
	known, err := want.UnmarshalNew()
	return err == nil && len(known.ProtoReflect().GetUnknown()) > 0 && strings.Contains(text, string(known.ProtoReflect().Descriptor().FullName()))
}

func (c *Content) anys() map[string]*anypb.Any {
	if len(c.Payload) == 0 {
		return nil
	}
	m := map[string]*anypb.Any{}
	for k, v := range c.Payload {
		m[k] = &anypb.Any{TypeUrl: v.Url, Value: v.Val}
	}
	return m
}

// withoutNul drops the entries whose name holds a NUL: BSON has no such names, and the storage rejects them.
func (c Content) withoutNul() Content {
	out := c
	for k := range c.Meta {
		if strings.Contains(k, "\x00") {
			out.Meta = map[string]string{}
			for k, v := range c.Meta {
				if !strings.Contains(k, "\x00") {
					out.Meta[k] = v
				}
			}
			break
		}
	}
	for k := range c.Payload {
		if strings.Contains(k, "\x00") {
			out.Payload = map[string]AnyVal{}
			for k, v := range c.Payload {
				if !strings.Contains(k, "\x00") {
					out.Payload[k] = v
				}
			}
			break
		}
	}
	if len(out.Meta) == 0 {
		out.Meta = nil
	}
	if len(out.Payload) == 0 {
		out.Payload = nil
	}
	return out
}

func (c *Content) diff(o *deckard.Message, desc bool) string {
	if desc && c.Desc != o.Description {
		return fmt.Sprintf("description %q instead of %q", o.Description, c.Desc)
	}
	if c.Str != o.StringPayload {
		return fmt.Sprintf("string payload %.80q instead of %.80q", o.StringPayload, c.Str)
	}
	if len(c.Meta) != len(o.Metadata) {
		return fmt.Sprintf("metadata %.200v instead of %.200v", o.Metadata, c.Meta)
	}
	for k, v := range c.Meta {
		if w, ok := o.Metadata[k]; !ok || w != v {
			return fmt.Sprintf("metadata[%q] %q instead of %q", k, w, v)
		}
	}
	if len(c.Payload) != len(o.Payload) {
		return fmt.Sprintf("payload %.200v instead of %.200v", o.Payload, c.Payload)
	}
	for k, v := range c.Payload {
		w := o.Payload[k]
		if w == nil || w.TypeUrl != v.Url || string(w.Value) != string(v.Val) {
			return fmt.Sprintf("payload[%q] %.200v instead of %.200v", k, w, v)
		}
	}
	return ""
}

const (
	sGone = iota
	sActive
	sProc
	sLockAck
	sLockNack
)

var stNames = []string{"gone", "available", "processing", "locked(ack)", "locked(nack)"}

type mKey struct{ q, id string }

func (k mKey) String() string { return fmt.Sprintf("(%q,%q)", k.q, k.id) }

type mMsg struct {
	key      mKey
	stored   bool
	st       int
	score    float64 // priority, when available, or the one for the unlock
	undef    bool    // locked without a score
	due      int64
	c        Content
	expiry   int64
	seq      int64
	stScore  float64
	settled  bool // the stored score is the priority
	acks     int64
	nacks    int64
	cacks    int64
	cnacks   int64
	bp       string
	lastUsed int64
	fuzzy    bool   // expired and maybe dropped from the cache
	via      string // the properties which made it available
	tags     string // the properties of the operations since then which may have changed its state
	gonevia  string // the properties which removed it
	timedOut bool
	unlocked bool
	readded  bool
	evTime   int64
}

type model struct {
	msgs    map[mKey]*mMsg
	limits  map[string]int64
	seq     int64
	recDone bool
}

func newModel() *model {
	return &model{msgs: map[mKey]*mMsg{}, limits: map[string]int64{}}
}

// sorted returns the messages in a fixed order.
func (m *model) sorted() []*mMsg {
	l := make([]*mMsg, 0, len(m.msgs))
	for _, x := range m.msgs {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	return l
}

func (m *model) inState(st int) []*mMsg {
	var l []*mMsg
	for _, x := range m.sorted() {
		if x.st == st && !x.fuzzy {
			l = append(l, x)
		}
	}
	return l
}

func (m *model) dues(expiries, far bool) []int64 {
	var l []int64
	for _, x := range m.msgs {
		if x.st >= sProc && x.due < horizon-10 {
			l = append(l, x.due)
		}
	}
	for _, x := range m.msgs {
		if expiries && x.stored && x.expiry < horizon-10 && (far || x.expiry < startMs+40*365*86400*1000) {
			l = append(l, x.expiry)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func satAdd(a, b int64) int64 {
	s := a + b
	if b > 0 && s < a {
		return math.MaxInt64
	}
	if b < 0 && s > a {
		return math.MinInt64
	}
	return s
}

func capScore(f float64) float64 {
	if !(f > 0) {
		return 0
	}
	if f > maxScore {
		return maxScore
	}
	return f
}

func addScore(now int64, f float64) float64 {
	if f == 0 {
		return float64(now)
	}
	return capScore(f)
}

func expiryOf(now, ttl int64, timeless bool) int64 {
	const lim = math.MaxInt64 / int64(time.Minute)
	if ttl > lim {
		ttl = lim
	}
	if ttl < -lim {
		ttl = -lim
	}
	t := time.UnixMilli(now)
	if timeless {
		t = t.AddDate(100, 0, 0)
	} else {
		t = t.Add(time.Duration(ttl) * time.Minute)
	}
	return t.UnixMilli()
}

func words(l ...string) string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		for _, w := range strings.Fields(s) {
			if !seen[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
