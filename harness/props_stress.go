package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/metrics"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/service"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"
)

// StressCase are scripts which clients run at the same time, with the housekeeping tasks.
type StressCase struct {
	Backend string `json:",omitempty"`
	Servers int    `json:",omitempty"` // which share the backends; the first one runs the tasks
	Keep    int    // messages which are never removed
	Drop    int    // messages which clients remove
	Old     int    // messages which expire
	Limit   int64  // limit of the limited queue
	Recover bool   // starts with the messages only in the storage
	Rounds  []StressRound
	Tasks   []string // housekeeping tasks, each in a loop of its own
	Jitter  int      // how much each client waits between its calls
}

type StressRound struct {
	D       int64 // time since the round before
	Scripts [][]SOp
}

// SOp is an operation of a client. N selects the target.
type SOp struct {
	K    string
	N    int
	Amt  int32 `json:",omitempty"`
	Lock int64 `json:",omitempty"`
}

// stress is the accounting of one execution. Only the mutex of the client is used while running, so that the clients
// do not synchronise each other.
type stress struct {
	c      StressCase
	in     *instance
	svcs   []*service.Deckard // of the clients, in turn
	logs   []*stressLog
	failed sync.Once
	msg    string
	added  [8]atomic.Int64 // messages which the clients added to the limited queue
}

type stressLog struct {
	held                        []held
	delivered, returned, locked map[string]int64
	acks, nacks                 map[string]int64 // calls of ack and of nack
	created, removed            map[string]int64
	limits                      []int64 // edits, in order
	values                      int64
	errs                        []string
}

type held struct{ q, id string }

const (
	queueKeep, queueDrop, queueOld, queueLimit, queueConf = "keep", "drop::x", "old", "limited", "conf"
	longTTL                                               = int64(60 * 24 * 365 * 5)
)

func stressAdd(q, id string, v int64, ttl int64) *deckard.AddMessage {
	val, err := anypb.New(&deckard.AckRequest{Id: fmt.Sprint(v)})
	Must(err)
	s := fmt.Sprint(v)
	return &deckard.AddMessage{Id: id, Queue: q, Score: 1 + float64(v%97), TtlMinutes: ttl, StringPayload: s, Description: s,
		Metadata: map[string]string{"v": s, "w": s}, Payload: map[string]*anypb.Any{"v": val, "w": val}}
}

// torn returns the version of a delivered message, or an error if its fields are not of one version.
func torn(m *deckard.Message) string {
	s := m.StringPayload
	if m.Description != "" && m.Description != s || m.Metadata["v"] != s || m.Metadata["w"] != s || len(m.Metadata) != 2 || len(m.Payload) != 2 {
		return fmt.Sprintf("the fields of %q are of different versions: %v", m.Id, m)
	}
	for _, k := range []string{"v", "w"} {
		r := &deckard.AckRequest{}
		if err := m.Payload[k].UnmarshalTo(r); err != nil || r.Id != s {
			return fmt.Sprintf("the payload of %q is of another version than %s: %v %v", m.Id, s, r, err)
		}
	}
	return ""
}

func (s *stress) fail(f string, a ...any) {
	s.failed.Do(func() { s.msg = fmt.Sprintf(f, a...) })
}

func (s *stress) client(n, round int, script []SOp) {
	l := s.logs[n]
	svc := s.svcs[n%len(s.svcs)]
	pulled := func(q string, amount int32) {
		res, err := rpc(svc.Pull, &deckard.PullRequest{Queue: q, Amount: amount, AckDeadlineMs: 60000})
		if err != nil {
			s.fail("a pull failed: %v", err)
			return
		}
		seen := map[string]bool{}
		for _, m := range res.GetMessages() {
			k := q + "/" + m.Id
			if seen[k] {
				s.fail("one pull returned %q twice", m.Id)
			}
			seen[k] = true
			if m.Queue != q {
				s.fail("a pull of %q returned a message of %q", q, m.Queue)
			}
			if e := torn(m); e != "" {
				s.fail("%s", e)
			}
			l.delivered[k]++
			l.held = append(l.held, held{q, m.Id})
		}
	}
	for _, op := range script {
		switch rand.IntN(4) * s.c.Jitter {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(rand.IntN(30)) * time.Microsecond)
		}
		switch op.K {
		case "pull":
			pulled([]string{queueKeep, queueKeep, queueDrop, queueOld}[mod(op.N, 4)], op.Amt)
		case "ack", "nack":
			if len(l.held) == 0 {
				continue
			}
			i := mod(op.N, len(l.held))
			h := l.held[i]
			l.held = append(l.held[:i:i], l.held[i+1:]...)
			f, total := svc.Ack, l.acks
			if op.K == "nack" {
				f, total = svc.Nack, l.nacks
			}
			res, err := rpc(f, &deckard.AckRequest{Queue: h.q, Id: h.id, LockMs: op.Lock, Reason: "r"})
			if err != nil {
				s.fail("%s failed: %v", op.K, err)
				continue
			}
			k := h.q + "/" + h.id
			total[k]++
			if res.Success && op.Lock > 0 {
				l.locked[k]++
			} else if res.Success {
				l.returned[k]++
			}
		case "done": // ack with removal
			for i, h := range l.held {
				if h.q != queueDrop {
					continue
				}
				l.held = append(l.held[:i:i], l.held[i+1:]...)
				res, err := rpc(svc.Ack, &deckard.AckRequest{Queue: h.q, Id: h.id, RemoveMessage: true})
				if err != nil {
					s.fail("an ack with removal failed: %v", err)
					break
				}
				l.removed[h.q+"/"+h.id] += res.GetRemovalResponse().GetStorageRemoved()
				break
			}
		case "remove":
			id := fmt.Sprintf("d%d", mod(op.N, s.c.Drop+1))
			res, err := rpc(svc.Remove, &deckard.RemoveRequest{Queue: queueDrop, Ids: []string{id, id}})
			if err != nil {
				s.fail("a removal failed: %v", err)
				continue
			}
			l.removed[queueDrop+"/"+id] += res.StorageRemoved
		case "readd": // a message which exists, and one of which only this client knows the name
			l.values++
			v := int64(n+1)<<32 + l.values
			own := fmt.Sprintf("c%d-%d", n, mod(op.N, 5))
			msgs := []*deckard.AddMessage{stressAdd(queueKeep, own, v, longTTL)}
			kept := s.c.Keep > 0 && op.Amt%2 == 0
			if kept {
				msgs = append(msgs, stressAdd(queueKeep, fmt.Sprintf("k%d", mod(op.N, s.c.Keep)), v, longTTL))
			}
			res, err := rpc(svc.Add, &deckard.AddRequest{Messages: msgs})
			if err != nil {
				s.fail("an add failed: %v", err)
				continue
			}
			k := queueKeep + "/" + own
			want := [2]int64{1, 0}
			if l.created[k] > 0 {
				want = [2]int64{0, 1}
			}
			if kept {
				want[1]++
			}
			if got := [2]int64{res.CreatedCount, res.UpdatedCount}; got != want {
				s.fail("the add of %s (which only one client adds) and of a stored message answered %v created and updated instead of %v", k, got, want)
			}
			l.created[k]++
		case "limit":
			l.values++
			id := fmt.Sprintf("l%d-%d", n, l.values)
			res, err := rpc(svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{stressAdd(queueLimit, id, l.values, longTTL+l.values)}})
			if err != nil || res.CreatedCount != 1 {
				s.fail("an add of a new message answered %v %v", res, err)
				continue
			}
			l.created[queueLimit+"/"+id]++
		case "same": // several clients add the same new message
			id := fmt.Sprintf("s%d-%d", round, mod(op.N, 3))
			l.values++
			res, err := rpc(svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{stressAdd(queueKeep, id, int64(n+1)<<32+l.values, longTTL)}})
			if err != nil || res.CreatedCount+res.UpdatedCount != 1 {
				s.fail("an add of a message answered %v %v", res, err)
				continue
			}
			l.created[queueKeep+"/"+id] += res.CreatedCount << 20
			l.created[queueKeep+"/"+id]++
			if op.Lock == 0 {
				pulled(queueKeep, op.Amt)
			}
		case "count":
			res, err := rpc(svc.Count, &deckard.CountRequest{Queue: queueKeep})
			if err != nil || res.Count < int64(s.c.Keep) {
				s.fail("counted %v %v with %d messages which are never removed", res, err, s.c.Keep)
			}
		case "get":
			if s.c.Keep == 0 {
				continue
			}
			res, err := rpc(svc.GetById, &deckard.GetByIdRequest{Queue: queueKeep, Id: fmt.Sprintf("k%d", mod(op.N, s.c.Keep))})
			if err != nil || !res.GetFound() {
				s.fail("a message which is never removed was not found: %v %v", res, err)
				continue
			}
			if e := torn(res.Message); e != "" {
				s.fail("%s", e)
			}
		case "metrics":
			collectMetrics()
		}
	}
}

func (s *stress) task(name string) {
	in := s.in
	switch name {
	case "timeout":
		_ = queue.ProcessTimeoutMessages(bg, in.q)
	case "unlock":
		queue.ProcessLockPool(bg, in.q)
	case "ttl":
		t := time.UnixMilli(clockMs())
		_, _ = queue.RemoveTTLMessages(bg, in.q, &t)
	case "maxel":
		_, _ = queue.RemoveExceedingMessages(bg, in.q)
	case "recovery":
		queue.RecoveryMessagesPool(bg, in.q)
	case "metrics":
		queue.ComputeMetrics(bg, in.q)
	}
}

var stressTasks = []string{"timeout", "unlock", "ttl", "maxel", "recovery", "metrics"}

func runStress(h *H, c StressCase) {
	clients := 0
	for _, r := range c.Rounds {
		clients = max(clients, len(r.Scripts))
	}
	if clients < 2 {
		h.Discard("no concurrency")
	}
	setClock(startMs)
	now := startMs
	s := &stress{c: c, in: newInstance(c.Backend)}
	s.in.aud.entries = nil
	s.svcs = append(s.svcs, s.in.svc)
	for len(s.svcs) < c.Servers {
		cfg := queue.NewQueueConfigurationService(bg, s.in.storage)
		s.svcs = append(s.svcs, service.NewDeckardInstance(queue.NewQueue(s.in.aud, s.in.storage, cfg, s.in.cache), cfg, s.in.caps.memory))
	}
	rpcAdd := func(msgs ...*deckard.AddMessage) {
		if len(msgs) == 0 {
			return
		}
		res, err := rpc(s.in.svc.Add, &deckard.AddRequest{Messages: msgs})
		h.Check(err == nil && res.CreatedCount == int64(len(msgs)), "C18", "the first add failed: %v %v", res, err)
	}
	var keep, drop, old []*deckard.AddMessage
	for i := 0; i < c.Keep; i++ {
		keep = append(keep, stressAdd(queueKeep, fmt.Sprintf("k%d", i), int64(i), longTTL))
	}
	for i := 0; i < c.Drop; i++ {
		drop = append(drop, stressAdd(queueDrop, fmt.Sprintf("d%d", i), int64(i), longTTL))
	}
	for i := 0; i < c.Old; i++ {
		old = append(old, stressAdd(queueOld, fmt.Sprintf("o%d", i), int64(i), int64(1+i%3)))
	}
	rpcAdd(keep...)
	rpcAdd(drop...)
	rpcAdd(old...)
	if c.Limit > 0 {
		_, err := rpc(s.in.svc.EditQueue, &deckard.EditQueueRequest{Queue: queueLimit, Configuration: &deckard.QueueConfiguration{MaxElements: c.Limit}})
		h.Check(err == nil, "C18", "the edit of a queue failed: %v", err)
	}
	if c.Recover {
		s.in.cache.Flush(bg)
	} else {
		queue.RecoveryMessagesPool(bg, s.in.q)
		queue.RecoveryMessagesPool(bg, s.in.q)
	}
	for i := 0; i < clients; i++ {
		s.logs = append(s.logs, &stressLog{delivered: map[string]int64{}, returned: map[string]int64{}, locked: map[string]int64{}, acks: map[string]int64{},
			nacks: map[string]int64{}, created: map[string]int64{}, removed: map[string]int64{}})
	}
	for round, r := range c.Rounds {
		now += r.D &^ 1
		setClock(now + 1)
		var tasks, done sync.WaitGroup
		stop := make(chan struct{})
		for _, t := range c.Tasks {
			tasks.Add(1)
			go func() {
				defer tasks.Done()
				for {
					s.task(t)
					select {
					case <-stop:
						s.task(t)
						return
					default:
						time.Sleep(time.Duration(rand.IntN(50)) * time.Microsecond)
					}
				}
			}()
		}
		for i, sc := range r.Scripts {
			done.Add(1)
			go func() {
				defer done.Done()
				s.client(i, round, sc)
			}()
		}
		end := make(chan struct{})
		go func() { done.Wait(); close(stop); tasks.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(60 * time.Second):
			h.Fail("C18", "the clients and the tasks wait for each other:\n%s", stacks())
		}
		h.Check(s.msg == "", "C18", "%s", s.msg)
	}
	// the end: everything is made available again
	overlap := 0
	sum := func(f func(l *stressLog) map[string]int64) map[string]int64 {
		m := map[string]int64{}
		for _, l := range s.logs {
			for k, v := range f(l) {
				m[k] += v
				if v > 0 && m[k] > v {
					overlap++
				}
			}
		}
		return m
	}
	delivered := sum(func(l *stressLog) map[string]int64 { return l.delivered })
	returned := sum(func(l *stressLog) map[string]int64 { return l.returned })
	locked := sum(func(l *stressLog) map[string]int64 { return l.locked })
	acks := sum(func(l *stressLog) map[string]int64 { return l.acks })
	nacks := sum(func(l *stressLog) map[string]int64 { return l.nacks })
	created := sum(func(l *stressLog) map[string]int64 { return l.created })
	removed := sum(func(l *stressLog) map[string]int64 { return l.removed })
	if overlap > 0 {
		h.Nontrivial()
	}
	timeouts, unlocks := map[string]int64{}, map[string]int64{}
	for _, e := range s.in.aud.take() {
		switch e.Signal {
		case audit.TIMEOUT:
			timeouts[e.Queue+"/"+e.ID]++
		case audit.UNLOCK:
			unlocks[e.Queue+"/"+e.ID]++
		}
	}
	exclusive := func(k string) {
		d := delivered[k] - returned[k] - locked[k] - timeouts[k]
		h.Check(d == 0 || d == 1, "C18 C03", "%s was delivered %d times, given back %d times, locked %d times and timed out %d times", k, delivered[k], returned[k], locked[k], timeouts[k])
		u := locked[k] - unlocks[k]
		h.Check(u == 0 || u == 1, "C18", "%s was locked %d times and unlocked %d times", k, locked[k], unlocks[k])
	}
	now += 600000
	setClock(now + 1)
	for i := 0; i < 3; i++ {
		for _, t := range stressTasks {
			s.task(t)
		}
	}
	final := func(q string) map[string]*deckard.Message {
		m := map[string]*deckard.Message{}
		for i := 0; i < 4; i++ {
			res, err := rpc(s.in.svc.Pull, &deckard.PullRequest{Queue: q, Amount: 1000})
			h.Check(err == nil, "C18", "the last pull failed: %v", err)
			for _, x := range res.GetMessages() {
				h.Check(m[x.Id] == nil, "C18", "%s is delivered twice at the end", x.Id)
				h.Check(torn(x) == "", "C18", "%s", torn(x))
				m[x.Id] = x
			}
		}
		n, err := rpc(s.in.svc.Count, &deckard.CountRequest{Queue: q})
		h.Check(err == nil && n.Count == int64(len(m)), "C18", "%s has %v %v messages and %d can be pulled", q, n, err, len(m))
		return m
	}
	got := final(queueKeep)
	want := map[string]bool{}
	for i := 0; i < c.Keep; i++ {
		want[fmt.Sprintf("k%d", i)] = true
	}
	for k, n := range created {
		if strings.HasPrefix(k, queueKeep+"/") {
			id := k[len(queueKeep)+1:]
			want[id] = true
			if id[0] == 's' {
				h.Check(n>>20 == 1, "C18", "%d adds of the new message %s answered that they created it", n>>20, id)
			}
		}
	}
	for id := range want {
		k := queueKeep + "/" + id
		m := got[id]
		h.Check(m != nil, "C18", "%s was never removed and cannot be pulled at the end", id)
		h.Check(m.Diagnostics.GetAcks() == acks[k] && m.Diagnostics.GetNacks() == nacks[k], "C18 C10",
			"%s was acked %d times and nacked %d times, and has %d and %d", id, acks[k], nacks[k], m.Diagnostics.GetAcks(), m.Diagnostics.GetNacks())
		exclusive(k)
	}
	for id := range got {
		h.Check(want[id], "C18", "%q was delivered and never added", id)
	}
	got = final(queueDrop)
	for i := 0; i < c.Drop; i++ {
		id := fmt.Sprintf("d%d", i)
		k := queueDrop + "/" + id
		n := removed[k]
		left := int64(0)
		if got[id] != nil {
			left = 1
			exclusive(k)
		}
		h.Check(n+left == 1, "C18", "%s: the removals answered %d removed messages and it is delivered %d times at the end", id, n, left)
	}
	got = final(queueOld)
	h.Check(len(got) == 0, "C18 C12", "%d messages are delivered long after they expired", len(got))
	got = final(queueLimit)
	adds := int64(0)
	for k := range created {
		if strings.HasPrefix(k, queueLimit+"/") {
			adds++
		}
	}
	if c.Limit > 0 {
		h.Check(int64(len(got)) == min(adds, c.Limit), "C18 C13", "%d messages were added to a queue limited to %d, and %d are left", adds, c.Limit, len(got))
	} else {
		h.Check(int64(len(got)) == adds, "C18", "%d messages were added, and %d are left", adds, len(got))
	}
	metrics.MetricsMap.UpdateOldestElementMap(map[string]int64{})
	metrics.MetricsMap.UpdateTotalElementsMap(map[string]int64{})
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

func genStress(t *rapid.T) StressCase {
	c := StressCase{
		Keep:    rapid.IntRange(1, 6).Draw(t, "keep"),
		Drop:    rapid.IntRange(0, 12).Draw(t, "drop"),
		Old:     rapid.IntRange(0, 6).Draw(t, "old"),
		Limit:   rapid.Int64Range(0, 5).Draw(t, "limit"),
		Recover: rapid.IntRange(0, 3).Draw(t, "recover") == 0,
		Jitter:  rapid.IntRange(0, 1).Draw(t, "jitter"),
		Servers: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "servers"),
	}
	for _, x := range stressTasks {
		if rapid.IntRange(0, 3).Draw(t, x) > 0 || c.Recover && x == "recovery" {
			c.Tasks = append(c.Tasks, x)
		}
	}
	kinds := spread(map[string]int{"pull": 10, "ack": 6, "nack": 5, "done": 3, "remove": 3, "readd": 4, "limit": 2, "same": 6, "count": 1, "get": 1, "metrics": 1})
	sop := rapid.Custom(func(t *rapid.T) SOp {
		op := SOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), N: rapid.IntRange(0, 12).Draw(t, "n"), Amt: int32(rapid.IntRange(1, 4).Draw(t, "amt"))}
		if (op.K == "ack" || op.K == "nack") && rapid.IntRange(0, 2).Draw(t, "lock?") == 0 {
			op.Lock = rapid.SampledFrom([]int64{2, 1000, 100000}).Draw(t, "lock")
		}
		return op
	})
	clients := rapid.IntRange(2, 6).Draw(t, "clients")
	for i := rapid.IntRange(1, 4).Draw(t, "rounds"); i > 0; i-- {
		r := StressRound{D: rapid.SampledFrom([]int64{2, 1000, 60000, 61000, 180000}).Draw(t, "d")}
		for j := 0; j < clients; j++ {
			r.Scripts = append(r.Scripts, rapid.SliceOfN(sop, 3, 25).Draw(t, "script"))
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

// ---- linearizability

// LinCase are scripts on the configuration of one queue and on one message.
type LinCase struct {
	Backend string `json:",omitempty"`
	Scripts [][]SOp
	Jitter  int
}

type linIn struct {
	K    string
	V    int64
	Lock bool
}

type linOut struct {
	V  int64
	OK bool
}

// the state of the message: 0 available, 1 processing, 2 locked
type linState struct {
	msg, acks, nacks int64
	conf             int64
}

var linModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		var a, b []porcupine.Operation
		for _, o := range h {
			if k := o.Input.(linIn).K; k == "edit" || k == "conf" {
				a = append(a, o)
			} else {
				b = append(b, o)
			}
		}
		return [][]porcupine.Operation{a, b}
	},
	Init: func() any { return linState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.(linState), in.(linIn), out.(linOut)
		switch i.K {
		case "edit":
			s.conf = i.V
			return o.OK, s
		case "conf":
			return o.V == s.conf, s
		case "pull":
			if s.msg == 0 {
				s.msg = 1
				return o.OK, s
			}
			return !o.OK, s
		case "ack", "nack":
			if s.msg != 1 {
				return !o.OK, s
			}
			s.msg = 0
			if i.Lock {
				s.msg = 2
			}
			return o.OK, s
		case "count":
			return o.V == 1, s
		}
		return true, s
	},
	Equal: func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string {
		return fmt.Sprintf("%+v -> %+v", in, out)
	},
}

func runLin(h *H, c LinCase) {
	if len(c.Scripts) < 2 {
		h.Discard("no concurrency")
	}
	setClock(startMs + 1)
	in := newInstance(c.Backend)
	_, err := rpc(in.svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{stressAdd("q", "m", 1, longTTL)}})
	h.Check(err == nil, "C18", "the add failed: %v", err)
	queue.RecoveryMessagesPool(bg, in.q)
	var tick, edits atomic.Int64
	var mu sync.Mutex
	var all []porcupine.Operation
	var wg sync.WaitGroup
	failure := ""
	for n, script := range c.Scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []porcupine.Operation
			bad := ""
			for _, op := range script {
				if c.Jitter > 0 && rand.IntN(3) == 0 {
					time.Sleep(time.Duration(rand.IntN(20)) * time.Microsecond)
				}
				i, o := linIn{K: op.K, Lock: op.Lock > 0}, linOut{}
				var err error
				if op.K == "edit" {
					i.V = edits.Add(1)
				}
				at := tick.Add(1)
				switch op.K {
				case "edit":
					var r *deckard.EditQueueResponse
					r, err = rpc(in.svc.EditQueue, &deckard.EditQueueRequest{Queue: queueConf, Configuration: &deckard.QueueConfiguration{MaxElements: i.V}})
					o.OK = r.GetSuccess()
				case "conf":
					var r *deckard.GetQueueResponse
					r, err = rpc(in.svc.GetQueue, &deckard.GetQueueRequest{Queue: queueConf})
					o.V = r.GetConfiguration().GetMaxElements()
				case "pull":
					var r *deckard.PullResponse
					r, err = rpc(in.svc.Pull, &deckard.PullRequest{Queue: "q", Amount: op.Amt})
					o.OK = len(r.GetMessages()) > 0
				case "ack":
					var r *deckard.AckResponse
					r, err = rpc(in.svc.Ack, &deckard.AckRequest{Queue: "q", Id: "m", LockMs: op.Lock})
					o.OK = r.GetSuccess()
				case "nack":
					var r *deckard.AckResponse
					r, err = rpc(in.svc.Nack, &deckard.AckRequest{Queue: "q", Id: "m", LockMs: op.Lock})
					o.OK = r.GetSuccess()
				case "readd":
					_, err = rpc(in.svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{stressAdd("q", "m", int64(n)<<32+int64(len(mine)), longTTL)}})
				case "count":
					var r *deckard.CountResponse
					r, err = rpc(in.svc.Count, &deckard.CountRequest{Queue: "q"})
					o.V = r.GetCount()
				}
				end := tick.Add(1)
				if err != nil {
					bad = fmt.Sprintf("%s failed: %v", op.K, err)
				}
				mine = append(mine, porcupine.Operation{ClientId: n, Input: i, Call: at, Output: o, Return: end})
			}
			mu.Lock()
			all = append(all, mine...)
			if bad != "" {
				failure = bad
			}
			mu.Unlock()
		}()
	}
	end := make(chan struct{})
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(60 * time.Second):
		h.Fail("C18", "the clients wait for each other:\n%s", stacks())
	}
	h.Check(failure == "", "C18", "%s", failure)
	sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	overlap := false
	for i := 1; i < len(all); i++ {
		overlap = overlap || all[i].Call < all[i-1].Return
	}
	if overlap {
		h.Nontrivial()
	}
	for _, o := range all {
		b, _ := json.Marshal(o)
		h.Logf("%s", b)
	}
	switch porcupine.CheckOperationsTimeout(linModel, all, 20*time.Second) {
	case porcupine.Illegal:
		h.Fail("C18", "no order of the %d concurrent operations explains their answers", len(all))
	case porcupine.Unknown:
		h.Label("not decided in time")
	}
}

func genLin(t *rapid.T) LinCase {
	kinds := spread(map[string]int{"edit": 4, "conf": 6, "pull": 8, "ack": 5, "nack": 4, "readd": 2, "count": 1})
	sop := rapid.Custom(func(t *rapid.T) SOp {
		op := SOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), Amt: int32(rapid.IntRange(1, 2).Draw(t, "amt"))}
		if (op.K == "ack" || op.K == "nack") && rapid.IntRange(0, 11).Draw(t, "lock?") == 0 {
			op.Lock = 1000
		}
		return op
	})
	c := LinCase{Jitter: rapid.IntRange(0, 1).Draw(t, "jitter")}
	for i := rapid.IntRange(2, 5).Draw(t, "clients"); i > 0; i-- {
		c.Scripts = append(c.Scripts, rapid.SliceOfN(sop, 3, 12).Draw(t, "script"))
	}
	return c
}

var sharedBackends = []string{"redis", "cluster", "mongo", "full", "full"}

func genStressShared(t *rapid.T) StressCase {
	c := genStress(t)
	c.Backend = rapid.SampledFrom(sharedBackends).Draw(t, "backend")
	return c
}

func genLinShared(t *rapid.T) LinCase {
	c := genLin(t)
	c.Backend = rapid.SampledFrom(sharedBackends).Draw(t, "backend")
	return c
}
