package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/trace"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------------------------
// a stand-in for the audit index

type fakeIndex struct {
	srv  *httptest.Server
	mu   sync.Mutex
	docs []map[string]any
	bad  string
	auth string
	reqs int
	slow time.Duration
}

func newFakeIndex() *fakeIndex {
	x := &fakeIndex{}
	x.srv = httptest.NewServer(x)
	return x
}

func (x *fakeIndex) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	{
		w.Header().Set("X-Elastic-Product", "Elasticsearch")
		w.Header().Set("Content-Type", "application/json")
		body, _ := io.ReadAll(r.Body)
		x.mu.Lock()
		defer x.mu.Unlock()
		x.reqs++
		if u, p, ok := r.BasicAuth(); ok {
			x.auth = u + ":" + p
		}
		switch {
		case strings.HasSuffix(r.URL.Path, "/_bulk"):
			if x.slow > 0 {
				time.Sleep(x.slow)
			}
			x.bulk(r.URL.Path, string(body))
			fmt.Fprint(w, `{"took":1,"errors":false,"items":[]}`)
		case r.Method == "HEAD":
		default:
			fmt.Fprint(w, `{"name":"n","cluster_name":"c","version":{"number":"7.17.0","build_flavor":"default"},"tagline":"You Know, for Search"}`)
		}
	}
}

// RoundTrip answers without a network.
func (x *fakeIndex) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Body == nil {
		r.Body = http.NoBody
	}
	w := httptest.NewRecorder()
	x.ServeHTTP(w, r)
	return w.Result(), nil
}

// bulk reads a request as the bulk API does.
func (x *fakeIndex) bulk(path, body string) {
	if path != "/deckard/_bulk" && path != "/_bulk" {
		x.bad = "bulk request to " + path
		return
	}
	if !strings.HasSuffix(body, "\n") {
		x.bad = "the bulk request must be terminated by a newline"
		return
	}
	lines := strings.Split(strings.TrimSuffix(body, "\n"), "\n")
	if len(lines)%2 != 0 {
		x.bad = fmt.Sprintf("bulk request with %d lines", len(lines))
		return
	}
	for i := 0; i < len(lines); i += 2 {
		var action map[string]map[string]any
		var doc map[string]any
		if err := json.Unmarshal([]byte(lines[i]), &action); err != nil || action["index"] == nil {
			x.bad = "bad action: " + lines[i]
			return
		}
		if idx := action["index"]["_index"]; idx != nil && idx != "deckard" {
			x.bad = fmt.Sprint("index ", idx)
			return
		}
		if err := json.Unmarshal([]byte(lines[i+1]), &doc); err != nil {
			x.bad = "bad document: " + lines[i+1]
			return
		}
		x.docs = append(x.docs, doc)
	}
}

func (x *fakeIndex) state() (docs []map[string]any, bad string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]map[string]any{}, x.docs...), x.bad
}

// ---------------------------------------------------------------------------------------------------------------
// C24: from the entries stored to the index

type auditCase struct {
	Entries [][]audEntry // by producer
	Early   bool         // the sender is started after the first entries
	Slow    int
	User    string
}

type audEntry struct {
	Queue, Reason, Breakpoint string
	Signal                    string
	Lock                      int64
	Subtract                  F64
	N                         int // repeated so many times
}

func genAudit(t *rapid.T) auditCase {
	c := auditCase{Early: rapid.Bool().Draw(t, "early"), Slow: rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "slow")}
	if rapid.Bool().Draw(t, "auth") {
		c.User = "u"
	}
	for p := rapid.IntRange(1, 3).Draw(t, "producers"); p > 0; p-- {
		var l []audEntry
		for n := rapid.IntRange(0, 12).Draw(t, "entries"); n > 0; n-- {
			e := audEntry{Queue: rapid.SampledFrom([]string{"q", "a::b", "::", "a::", "ü::\n", "\"", "a:b::c::d", "", "<>&"}).Draw(t, "queue"),
				Reason: wildString(t, "reason"), Breakpoint: wildString(t, "breakpoint"), Lock: wildInt(t, "lock"),
				Signal:   string(rapid.SampledFrom([]audit.Signal{audit.ACK, audit.NACK, audit.REMOVE, audit.TIMEOUT, audit.UNLOCK, audit.INSERT_CACHE, audit.MISSING_STORAGE}).Draw(t, "signal")),
				Subtract: F64(rapid.SampledFrom([]float64{0, 1, -5.5, 1e300}).Draw(t, "subtract")), N: 1}
			switch rapid.IntRange(0, 9).Draw(t, "many") {
			case 0:
				e.N = rapid.IntRange(1, 450).Draw(t, "n")
			case 1:
				e.N = rapid.SampledFrom([]int{199, 200, 201, 400}).Draw(t, "edge")
			}
			l = append(l, e)
		}
		c.Entries = append(c.Entries, l)
	}
	return c
}

func execAudit(h *H, c auditCase) {
	x := newFakeIndex()
	defer x.srv.Close()
	x.slow = time.Duration(c.Slow) * time.Millisecond
	config.Configure(true)
	h.Cleanup(func() { config.Configure(true) })
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set(x.srv.URL)
	if c.User != "" {
		config.ElasticUser.Set(c.User)
		config.ElasticPassword.Set("p:w")
	}
	wg := &sync.WaitGroup{}
	a, err := audit.NewAuditor(wg)
	h.Check(err == nil, "C24", "the auditor cannot be created: %v", err)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ended := make(chan bool)
	planned := 0
	for _, l := range c.Entries {
		for _, e := range l {
			planned += e.N
		}
	}
	if planned > 9000 {
		c.Early = false // nothing would take the entries from the channel
	}
	start := func() { go func() { a.StartSender(ctx); close(ended) }() }
	if !c.Early {
		start()
	}
	setClock(startMs)
	h.Cleanup(func() { setClock(0) })
	total := 0
	var want [][]map[string]any
	var producers sync.WaitGroup
	for p, l := range c.Entries {
		var w []map[string]any
		var entries []audit.Entry
		for _, e := range l {
			for i := 0; i < e.N; i++ {
				id := fmt.Sprintf("%d-%d", p, len(entries))
				ent := audit.Entry{ID: id, Queue: e.Queue, Reason: e.Reason, Breakpoint: e.Breakpoint, Signal: audit.Signal(e.Signal), LockMs: e.Lock, LastScoreSubtract: float64(e.Subtract)}
				entries = append(entries, ent)
				prefix, suffix := splitName(e.Queue)
				ent.QueuePrefix, ent.QueueSuffix = prefix, suffix
				ent.Timestamp = time.Unix(0, clockNs.Load())
				b, err := json.Marshal(ent)
				Must(err)
				var m map[string]any
				Must(json.Unmarshal(b, &m))
				w = append(w, m)
			}
		}
		total += len(entries)
		want = append(want, w)
		producers.Add(1)
		go func() {
			defer producers.Done()
			for _, e := range entries {
				a.Store(bg, e)
			}
		}()
	}
	stored := make(chan bool)
	go func() { producers.Wait(); close(stored) }()
	select {
	case <-stored:
	case <-time.After(30 * time.Second):
		h.Fail("C24", "storing %d entries blocks", total)
	}
	if c.Early {
		start()
		// the sender registers itself for the shutdown when it runs
		time.Sleep(2 * time.Millisecond)
	}
	cancel()
	select {
	case <-ended:
	case <-time.After(30 * time.Second):
		h.Fail("C24", "the sender does not end")
	}
	wg.Wait()
	docs, bad := x.state()
	h.Check(bad == "", "C24", "the index rejects the entries: %s", bad)
	h.Check(len(docs) == total, "C24", "%d of %d entries stored before the shutdown reached the index", len(docs), total)
	if c.User != "" && total > 0 {
		h.Check(x.auth == "u:p:w", "C24", "the index was given the credentials %q", x.auth)
	}
	next := make([]int, len(want))
	for _, d := range docs {
		var p, i int
		_, err := fmt.Sscanf(fmt.Sprint(d["id"]), "%d-%d", &p, &i)
		h.Check(err == nil && p < len(want) && i == next[p], "C24", "entry %v is out of order: expected number %v of its producer", d["id"], next)
		next[p]++
		h.Check(fmt.Sprint(d) == fmt.Sprint(want[p][i]), "C24", "entry %v was stored as %v", want[p][i], d)
	}
	if total > 1 {
		h.Nontrivial()
	}
	if total >= 200 {
		h.Label("more than one request")
	}
	// what is stored after the end does not block
	late := make(chan bool)
	go func() {
		for i := 0; i < 20; i++ {
			a.Store(bg, audit.Entry{ID: "late", Queue: "q"})
		}
		close(late)
	}()
	select {
	case <-late:
	case <-time.After(30 * time.Second):
		h.Fail("C24 C25", "an entry stored after the shutdown blocks")
	}
}

// idleCase lets the auditor wait between the entries, in virtual time.
type idleCase struct {
	Steps []idleStep
}

type idleStep struct {
	N     int
	Sleep int64 // seconds
}

func genIdle(t *rapid.T) idleCase {
	return idleCase{Steps: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) idleStep {
		n := rapid.OneOf(rapid.IntRange(0, 3), rapid.SampledFrom([]int{1, 5, 199, 200, 201, 330})).Draw(t, "entries")
		return idleStep{n, rapid.SampledFrom([]int64{0, 1, 299, 301, 601, 86400}).Draw(t, "sleep")}
	}), 1, 8).Draw(t, "steps")}
}

// bubble calls f with a test, which synctest needs, and returns what went wrong.
func bubble(f func(*testing.T)) (problem string) {
	bubbleOnce.Do(func() {
		// the package testing runs nothing before it has been through Run
		out, err := os.Stdout, os.Stderr
		defer func() { os.Stdout, os.Stderr = out, err }()
		if null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil {
			os.Stdout, os.Stderr = null, null
			defer null.Close()
		}
		testing.MainStart(testDeps{}, nil, nil, nil, nil).Run()
	})
	ran := false
	ok := testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
		ran = true
		defer func() {
			if r := recover(); r != nil {
				problem = fmt.Sprint(r)
			}
		}()
		f(t)
	}}})
	if !ran {
		panic("the package testing did not run the bubble")
	}
	if !ok && problem == "" {
		problem = "failed"
	}
	return problem
}

var bubbleOnce sync.Once

type testDeps struct{}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

func (testDeps) ImportPath() string                          { return "" }
func (testDeps) ModulePath() string                          { return "" }
func (testDeps) MatchString(string, string) (bool, error)    { return true, nil }
func (testDeps) SetPanicOnExit0(bool)                        {}
func (testDeps) StartCPUProfile(io.Writer) error             { return nil }
func (testDeps) StopCPUProfile()                             {}
func (testDeps) StartTestLog(io.Writer)                      {}
func (testDeps) StopTestLog() error                          { return nil }
func (testDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (testDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (testDeps) RunFuzzWorker(func(corpusEntry) error) error              { return nil }
func (testDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (testDeps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (testDeps) ResetCoverage()                                           {}
func (testDeps) SnapshotCoverage()                                        {}
func (testDeps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}

// execIdle checks that what the auditor sends by itself when it is idle is the same that it would send otherwise.
func execIdle(h *H, c idleCase) {
	x := &fakeIndex{}
	config.Configure(true)
	h.Cleanup(func() { config.Configure(true) })
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set("http://127.0.0.1:1")
	old := http.DefaultTransport
	http.DefaultTransport = x
	h.Cleanup(func() { http.DefaultTransport = old })
	setClock(startMs)
	h.Cleanup(func() { setClock(0) })
	early, total := 0, 0
	created := true
	ok := bubble(func(t *testing.T) {
		synctest.Test(t, func(*testing.T) {
			wg := &sync.WaitGroup{}
			a, err := audit.NewAuditor(wg)
			if err != nil {
				created = false // it does not use the default transport: sub "sender" decides
				return
			}
			ctx, cancel := context.WithCancel(bg)
			go a.StartSender(ctx)
			for _, s := range c.Steps {
				for range s.N {
					a.Store(bg, audit.Entry{ID: fmt.Sprint(total), Queue: "q", Signal: audit.ACK})
					total++
				}
				synctest.Wait()
				time.Sleep(time.Duration(s.Sleep) * time.Second)
				synctest.Wait()
				if l, _ := x.state(); s.Sleep > 300 && len(l) == total && total%200 != 0 {
					early++
				}
			}
			cancel()
			wg.Wait()
			synctest.Wait()
		})
	})
	if !created {
		return
	}
	h.Check(ok == "", "C24", "the auditor does not end: %s", ok)
	docs, bad := x.state()
	h.Check(bad == "", "C24", "the index rejects the entries: %s", bad)
	for i, d := range docs {
		h.Check(d["id"] == fmt.Sprint(i), "C24", "entry number %d in the index is %v", i, d["id"])
	}
	h.Check(len(docs) == total, "C24", "%d of %d entries stored before the shutdown reached the index", len(docs), total)
	if early > 0 {
		h.Label("sent while idle")
		h.Nontrivial()
	}
}

// execAuditOff: nothing is sent when it is disabled.
func execAuditOff(h *H, c auditCase) {
	x := newFakeIndex()
	defer x.srv.Close()
	config.Configure(true)
	h.Cleanup(func() { config.Configure(true) })
	config.ElasticAddress.Set(x.srv.URL)
	wg := &sync.WaitGroup{}
	a, err := audit.NewAuditor(wg)
	h.Check(err == nil, "C24", "the auditor cannot be created: %v", err)
	ctx, cancel := context.WithCancel(bg)
	done := make(chan bool)
	go func() {
		a.StartSender(ctx)
		for _, l := range c.Entries {
			for _, e := range l {
				a.Store(bg, audit.Entry{ID: "x", Queue: e.Queue})
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		h.Fail("C24", "a disabled audit blocks")
	}
	cancel()
	wg.Wait()
	h.Check(x.reqs == 0, "C24", "%d requests were sent with the audit disabled", x.reqs)
	h.Nontrivial()
}

// ---------------------------------------------------------------------------------------------------------------
// C25: shutdown

// gateCache makes the pulls of the queues "slow<n>" wait.
type gateCache struct {
	cache.Cache
	gates   []chan bool
	entered atomic.Int32
}

func (g *gateCache) PullMessages(ctx context.Context, q string, n int64, min, max *float64, dl int64) ([]string, error) {
	var i int
	if _, err := fmt.Sscanf(q, "slow%d", &i); err == nil {
		g.entered.Add(1)
		<-g.gates[i]
	}
	return g.Cache.PullMessages(ctx, q, n, min, max, dl)
}

type shutdownCase struct {
	RPCs, Critical, Background int
	Order                      []int // the order in which they end
	NoServer                   bool
	Spans                      bool
	Yields                     bool // the background tasks end by themselves when the context is cancelled
}

func genShutdown(t *rapid.T) shutdownCase {
	c := shutdownCase{RPCs: rapid.IntRange(0, 3).Draw(t, "rpcs"), Critical: rapid.IntRange(0, 3).Draw(t, "critical"), Background: rapid.IntRange(0, 3).Draw(t, "background"),
		NoServer: rapid.IntRange(0, 5).Draw(t, "no server") == 0, Spans: rapid.Bool().Draw(t, "spans"), Yields: rapid.Bool().Draw(t, "yields")}
	if c.NoServer {
		c.RPCs = 0
	}
	l := []int{}
	for i := 0; i < c.RPCs+c.Critical+c.Background; i++ {
		l = append(l, i)
	}
	if len(l) > 0 {
		c.Order = rapid.Permutation(l).Draw(t, "order")
	}
	return c
}

func eventually(cond func() bool) bool {
	for i := 0; i < 3000; i++ {
		if cond() {
			return true
		}
		if i < 1000 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return false
}

func execShutdown(h *H, c shutdownCase) {
	shutdown.Reset()
	h.Cleanup(shutdown.Reset)
	setClock(0)
	config.Configure(true)
	g := &gateCache{}
	in := newInstance("memory", wrap{cache: func(x cache.Cache) cache.Cache { g.Cache = x; return g }})
	var srv *grpc.Server
	var client deckard.DeckardClient
	var addr string
	if !c.NoServer {
		var err error
		addr, err = serve(h, in)
		h.Check(err == nil, "C25", "the server does not start: %v", err)
		client = deckard.NewDeckardClient(dial(h, addr, nil))
		srv = lastServer
	}
	shutdowns := sdktrace.Shutdowns.Load()
	if c.Spans {
		os.Setenv("OTEL_EXPORTER_OTLP_ENDPOINT", "http://127.0.0.1:1")
		h.Cleanup(func() { os.Unsetenv("OTEL_EXPORTER_OTLP_ENDPOINT") })
		h.Check(trace.Init() == nil, "C25", "tracing does not start")
	}
	type result struct {
		i   int
		err error
		n   int
	}
	results := make(chan result, c.RPCs)
	for i := 0; i < c.RPCs; i++ {
		g.gates = append(g.gates, make(chan bool))
	}
	for i := 0; i < c.RPCs; i++ {
		q := fmt.Sprintf("slow%d", i)
		_, err := rpc(in.svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "m", Queue: q, Timeless: true}}})
		Must(err)
		go func() {
			ctx, cancel := callCtx()
			defer cancel()
			res, err := client.Pull(ctx, &deckard.PullRequest{Queue: q})
			results <- result{i, err, len(res.GetMessages())}
		}()
	}
	if !eventually(func() bool { return int(g.entered.Load()) == c.RPCs }) {
		h.Fail("C25", "the requests do not reach the cache")
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ends := []chan bool{}
	for i := 0; i < c.Critical; i++ {
		ch := make(chan bool)
		ends = append(ends, ch)
		shutdown.CriticalWaitGroup.Add(1)
		go func() { <-ch; shutdown.CriticalWaitGroup.Done() }()
	}
	for i := 0; i < c.Background; i++ {
		ch := make(chan bool)
		ends = append(ends, ch)
		shutdown.WaitGroup.Add(1)
		go func() {
			<-ch
			if c.Yields {
				<-ctx.Done()
			}
			shutdown.WaitGroup.Done()
		}()
	}
	h.Check(!shutdown.Ongoing() && !shutdown.HasFinished(), "C25", "a shutdown is ongoing before the signal")
	ended := make(chan bool)
	go func() { shutdown.PerformShutdown(ctx, cancel, srv); close(ended) }()
	if !eventually(shutdown.Ongoing) {
		h.Fail("C25", "the shutdown does not start")
	}
	if !c.NoServer {
		// new requests are refused: the listener closes
		refused := eventually(func() bool {
			cc, cl := context.WithTimeout(bg, 2*time.Second)
			defer cl()
			conn := dial(h, addr, nil)
			defer conn.Close()
			_, err := deckard.NewDeckardClient(conn).Count(cc, &deckard.CountRequest{}, failFast)
			return status.Code(err) == codes.Unavailable
		})
		h.Check(refused, "C25", "requests are accepted after the shutdown started")
	}
	left := map[string]int{"rpc": c.RPCs, "critical": c.Critical, "background": c.Background}
	finished := func() bool {
		select {
		case <-ended:
			return true
		default:
			return false
		}
	}
	check := func(after string) {
		cancelled := left["rpc"] == 0 && left["critical"] == 0
		if cancelled {
			if !eventually(func() bool { return ctx.Err() != nil }) {
				h.Fail("C25", "the context is not cancelled although all the requests and critical tasks ended (after %s)", after)
			}
		} else {
			time.Sleep(500 * time.Microsecond)
			if left["rpc"] > 0 {
				h.Check(sdktrace.Shutdowns.Load() == shutdowns, "C25", "the spans were flushed before the requests in progress ended")
			}
			h.Check(ctx.Err() == nil, "C25", "the context is cancelled with %d requests and %d critical tasks running (after %s)", left["rpc"], left["critical"], after)
		}
		if cancelled && left["background"] == 0 {
			if !eventually(func() bool { return finished() && shutdown.HasFinished() }) {
				h.Fail("C25", "the shutdown does not finish (after %s)", after)
			}
		} else {
			time.Sleep(500 * time.Microsecond)
			h.Check(!finished() && !shutdown.HasFinished(), "C25", "the shutdown finished with %v running (after %s)", left, after)
		}
	}
	check("the start")
	for _, i := range c.Order {
		kind := ""
		switch {
		case i < c.RPCs:
			kind = "rpc"
			close(g.gates[i])
			select {
			case r := <-results:
				h.Check(r.i == i && r.err == nil && r.n == 1, "C25", "a request in progress when the shutdown started ended with %v and %d messages", r.err, r.n)
			case <-time.After(30 * time.Second):
				h.Fail("C25", "a request in progress when the shutdown started does not end")
			}
		case i < c.RPCs+c.Critical:
			kind = "critical"
			close(ends[i-c.RPCs])
		default:
			kind = "background"
			close(ends[i-c.RPCs])
		}
		left[kind]--
		h.Logf("%s ends", kind)
		check("the end of a " + kind)
	}
	if len(c.Order) > 1 {
		h.Nontrivial()
	}
	h.Label(fmt.Sprintf("tasks=%d", len(c.Order)))
	if c.Spans {
		h.Check(sdktrace.Shutdowns.Load() == shutdowns+1, "C25", "the spans were not flushed")
		h.Label("spans")
	} else {
		h.Check(sdktrace.Shutdowns.Load() == shutdowns, "C25", "unexpected flush of spans")
	}
}

func init() {
	register("C25", "at least two requests or tasks in progress at the shutdown",
		sub("order", 1600, 40000, genShutdown, execShutdown))
}
