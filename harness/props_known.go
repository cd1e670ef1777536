package main

import (
	"fmt"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/metrics"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/service"
	"pgregory.net/rapid"
)

// Fixed histories of the known findings which the generators avoid. A history which does what the property says is quiet,
// one which does what the finding says is reported as known, and anything else is a violation.

func probe(name string, f func(h *H)) *Sub {
	return sub(name, 0, 0, func(t *rapid.T) int { return 0 }, func(h *H, _ int) {
		h.Nontrivial()
		setClock(startMs)
		f(h)
	}, 0).serial()
}

func mustAdd(h *H, in *instance, msgs ...*deckard.AddMessage) {
	res, err := rpc(in.svc.Add, &deckard.AddRequest{Messages: msgs})
	h.Logf("add %v -> %v %v", msgs, res, err)
	h.Check(err == nil, "C16", "the add failed: %v", err)
}

func ids(h *H, in *instance, q string) (l []string) {
	res, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: q, Amount: 1000})
	h.Logf("pull %q -> %v %v", q, res, err)
	h.Check(err == nil, "C16", "the pull failed: %v", err)
	for _, m := range res.Messages {
		l = append(l, m.Id)
	}
	return
}

func at(min int64) { setClock(startMs + min*60000) }

// lateSweep: the sweep of expired messages reads from a secondary which does not know yet that a message was added again.
func lateSweep(h *H) {
	in := newInstance("mongo")
	s := mongoServerFor()
	queue.RecoveryMessagesPool(bg, in.q)
	mustAdd(h, in, &deckard.AddMessage{Id: "a", Queue: "q", TtlMinutes: 5}, &deckard.AddMessage{Id: "b", Queue: "q", TtlMinutes: 5}, &deckard.AddMessage{Id: "c", Queue: "q", TtlMinutes: 60})
	s.Lag(true)
	h.Cleanup(func() { s.Lag(false) })
	at(4)
	mustAdd(h, in, &deckard.AddMessage{Id: "a", Queue: "q", TtlMinutes: 60})
	at(6)
	t := time.UnixMilli(clockMs())
	_, err := queue.RemoveTTLMessages(bg, in.q, &t)
	s.Lag(false)
	got := fmt.Sprint(ids(h, in, "q"))
	h.Logf("left: %s %v", got, err)
	h.Check(got == "[c]" || got == "[a c]" || got == "[c a]", "C12", "after the sweep %s are left of a (added again), b (expired) and c", got)
	if got == "[c]" {
		h.Known("sweep-reads-late-secondary", "a message which was added again with a later expiry is removed by a sweep that reads a secondary")
	}
}

// lateEviction: the eviction reads the count and the victims from a secondary on which messages still exist.
func lateEviction(h *H) {
	in := newInstance("mongo")
	s := mongoServerFor()
	queue.RecoveryMessagesPool(bg, in.q)
	for i, id := range []string{"a", "b", "c", "d"} {
		mustAdd(h, in, &deckard.AddMessage{Id: id, Queue: "q", TtlMinutes: int64(60 + i)})
	}
	_, err := rpc(in.svc.EditQueue, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 2}})
	h.Check(err == nil, "C14", "the edit failed: %v", err)
	s.Lag(true)
	h.Cleanup(func() { s.Lag(false) })
	_, err = rpc(in.svc.Remove, &deckard.RemoveRequest{Queue: "q", Ids: []string{"c", "d"}})
	h.Check(err == nil, "C08", "the removal failed: %v", err)
	_, err = queue.RemoveExceedingMessages(bg, in.q)
	s.Lag(false)
	got := ids(h, in, "q")
	h.Logf("left: %v %v", got, err)
	h.Check(len(got) == 2 || len(got) == 0, "C13", "%v are left of a and b, with a limit of 2", got)
	if len(got) == 0 {
		h.Known("eviction-reads-late-secondary", "messages within the limit are evicted by a sweep that reads a secondary on which removed messages still exist")
	}
}

// lateRecovery: the recovery reads from a secondary which has not all messages yet.
func lateRecovery(h *H) {
	in := newInstance("mongo")
	s := mongoServerFor()
	queue.RecoveryMessagesPool(bg, in.q)
	mustAdd(h, in, &deckard.AddMessage{Id: "a", Queue: "q", TtlMinutes: 60})
	s.Lag(true)
	h.Cleanup(func() { s.Lag(false) })
	mustAdd(h, in, &deckard.AddMessage{Id: "b", Queue: "q", TtlMinutes: 60})
	in.cache.Flush(bg)
	for i := 0; i < 3; i++ {
		queue.RecoveryMessagesPool(bg, in.q)
	}
	s.Lag(false)
	for i := 0; i < 3; i++ {
		queue.RecoveryMessagesPool(bg, in.q)
	}
	got := fmt.Sprint(ids(h, in, "q"))
	h.Logf("recovered: %s", got)
	h.Check(got == "[a]" || got == "[a b]" || got == "[b a]", "C15", "%s can be pulled of a and b", got)
	if got == "[a]" {
		h.Known("recovery-reads-late-secondary", "a message which was not on the secondary when the recovery read it is not recovered")
	}
}

// otherServer: an edit is compared with a configuration which another server has changed meanwhile.
func otherServer(h *H) {
	in := newInstance("")
	cfg := queue.NewQueueConfigurationService(bg, in.storage)
	other := service.NewDeckardInstance(queue.NewQueue(in.aud, in.storage, cfg, in.cache), cfg, true)
	edit := func(svc *service.Deckard, n int64) {
		res, err := rpc(svc.EditQueue, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: n}})
		h.Logf("edit %d -> %v %v", n, res, err)
		h.Check(err == nil && res.Success, "C14", "the edit failed: %v", err)
	}
	edit(in.svc, 5)
	_, err := rpc(in.svc.GetQueue, &deckard.GetQueueRequest{Queue: "q"})
	h.Check(err == nil, "C14", "the read failed: %v", err)
	edit(other, 7)
	edit(in.svc, 5)
	c, err := in.storage.GetQueueConfiguration(bg, "q")
	h.Check(err == nil && c != nil && (c.MaxElements == 5 || c.MaxElements == 7), "C14", "the configuration is %v %v", c, err)
	if c.MaxElements == 7 {
		h.Known("edit-dropped-by-stale-configuration", "an edit to 5 is dropped by a server which has 5 in memory, although another server has set 7 meanwhile")
	}
}

// emptyPrefix: the gauge of the queues of which the name starts with the separator.
func emptyPrefix(h *H) {
	h.Cleanup(func() {
		metrics.MetricsMap.UpdateOldestElementMap(map[string]int64{})
		metrics.MetricsMap.UpdateTotalElementsMap(map[string]int64{})
	})
	in := newInstance("")
	mustAdd(h, in, &deckard.AddMessage{Id: "a", Queue: "::z", TtlMinutes: 60}, &deckard.AddMessage{Id: "b", Queue: "p::z", TtlMinutes: 60}, &deckard.AddMessage{Id: "c", Queue: "p", TtlMinutes: 60})
	queue.RecoveryMessagesPool(bg, in.q)
	queue.ComputeMetrics(bg, in.q)
	g := collectMetrics()["deckard_total_messages"]
	p, empty := g[attribution("p", "")], g[attribution("", "")]
	h.Logf("totals: %v", g)
	h.Check(p == 2 && (empty == 1 || empty == 3), "C30", "the totals of the prefixes are %d and %d, expected 2 of p and 1 of the empty one", p, empty)
	if empty == 3 {
		h.Known("empty-prefix-counts-all", "the total of the prefix of queue \"::z\" is the number of all messages")
	}
}

// keepsOmitted: fields which are not set when a message is added again.
func keepsOmitted(h *H) {
	in := newInstance("mongo")
	mustAdd(h, in, &deckard.AddMessage{Id: "a", Queue: "q", TtlMinutes: 60, StringPayload: "s", Description: "d", Metadata: map[string]string{"k": "v"}})
	mustAdd(h, in, &deckard.AddMessage{Id: "a", Queue: "q", TtlMinutes: 60, Description: "new"})
	res, err := rpc(in.svc.GetById, &deckard.GetByIdRequest{Queue: "q", Id: "a"})
	h.Check(err == nil && res.Found, "C10", "the message was not found: %v", err)
	m := res.Message
	h.Logf("found: %v", m)
	empty := m.StringPayload == "" && len(m.Metadata) == 0
	kept := m.StringPayload == "s" && len(m.Metadata) == 1 && m.Metadata["k"] == "v"
	h.Check(m.Description == "new" && (empty || kept), "C10", "the message added again with only a description is %v", m)
	if kept {
		h.Known("mongo-readd-keeps-omitted", "a message added again without a payload still has the one of the first add")
	}
}
