package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zzverif/fakeredis"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// The checks of C34 run the server itself, built from /repo with a clock that only moves when it is told to. Its housekeeping tasks
// run all the time, as they do in production, at intervals of milliseconds.

const (
	taskTimeout = iota
	taskUnlock
	taskRecovery
	taskTTL
	taskMax
	taskMetrics
	nTasks
)

var taskNames = [nTasks]string{"TIMEOUT", "UNLOCK", "UPDATE", "TTL", "MAX_ELEMENTS", "METRICS"}

// serverSpec is the configuration of a server.
type serverSpec struct {
	Grpc, Housekeeper bool
	Tasks             [nTasks]bool // those with a short delay, the others wait for an hour
	Metrics           bool
}

type server struct {
	spec      serverSpec
	cmd       *exec.Cmd
	grpcPort  int
	metrPort  int
	out       tailBuffer
	exited    chan struct{}
	err       error
	started   time.Time
	commands  *os.File
	answers   *os.File
	conn      *grpc.ClientConn
	client    deckard.DeckardClient
	unreserve []func()
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) > 4000 {
		return string(t.b[len(t.b)-4000:])
	}
	return string(t.b)
}

var nextPort = 20000 + os.Getpid()*97%11000

// reservePort finds a port below those given to clients. No other process of the checks takes it until it is released.
func reservePort() (int, func()) {
	for range 5000 {
		nextPort++
		if nextPort >= 32000 {
			nextPort = 20000
		}
		lock, err := net.ListenUnix("unix", &net.UnixAddr{Name: fmt.Sprintf("@deckard-verif-%d", nextPort), Net: "unix"})
		if err != nil {
			continue
		}
		if ln, err := net.Listen("tcp", fmt.Sprintf(":%d", nextPort)); err == nil {
			ln.Close()
			return nextPort, func() { lock.Close() }
		}
		lock.Close()
	}
	Must(fmt.Errorf("no free port"))
	return 0, nil
}

// serverLimit is how long the servers may take for anything.
var serverLimit = 40 * time.Second

func serverBinary() string {
	exe, err := os.Executable()
	Must(err)
	return filepath.Join(filepath.Dir(exe), "deckard")
}

// spawn starts a server, which has to answer.
func spawn(h *H, spec serverSpec, now time.Time, env map[string]string) *server {
	for try := 0; ; try++ {
		s := &server{spec: spec, exited: make(chan struct{}), started: time.Now()}
		for _, p := range []*int{&s.grpcPort, &s.metrPort} {
			port, f := reservePort()
			*p = port
			s.unreserve = append(s.unreserve, f)
		}
		cr, cw, err := os.Pipe()
		Must(err)
		ar, aw, err := os.Pipe()
		Must(err)
		s.commands, s.answers = cw, ar
		s.cmd = exec.Command(serverBinary())
		s.cmd.ExtraFiles = []*os.File{cr, aw}
		s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
		s.cmd.Dir = h.Dir
		s.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + h.Dir, "GOMAXPROCS=2", fmt.Sprintf("VERIF_CLOCK=%d", now.UnixNano())}
		set := func(k string, v any) { s.cmd.Env = append(s.cmd.Env, fmt.Sprintf("DECKARD_%s=%v", k, v)) }
		set("GRPC_ENABLED", spec.Grpc)
		set("GRPC_PORT", s.grpcPort)
		set("METRICS_ENABLED", spec.Metrics)
		set("METRICS_PORT", s.metrPort)
		set("HOUSEKEEPER_ENABLED", spec.Housekeeper)
		for i, n := range taskNames {
			d := "1h"
			if spec.Tasks[i] {
				d = fmt.Sprintf("%dms", 5+2*i)
			}
			set("HOUSEKEEPER_TASK_"+n+"_DELAY", d)
		}
		for k, v := range env {
			if strings.HasPrefix(k, "OTEL_") {
				s.cmd.Env = append(s.cmd.Env, k+"="+v)
				continue
			}
			set(k, v)
		}
		Must(s.cmd.Start())
		cr.Close()
		aw.Close()
		go func() {
			s.err = s.cmd.Wait()
			close(s.exited)
		}()
		h.Cleanup(s.release)
		if !spec.Grpc {
			return s
		}
		s.conn, err = grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", s.grpcPort), grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30)))
		Must(err)
		s.client = deckard.NewDeckardClient(s.conn)
		for {
			ctx, cancel := context.WithTimeout(bg, time.Second)
			_, err := s.client.Count(ctx, &deckard.CountRequest{})
			cancel()
			if err == nil {
				return s
			}
			select {
			case <-s.exited:
				if strings.Contains(s.out.String(), "address already in use") && try < 5 {
					break
				}
				h.Failf("the server ended (%v) instead of serving on the configured port: %s", s.err, s.out.String())
			case <-time.After(5 * time.Millisecond):
				if time.Since(s.started) > serverLimit {
					h.Failf("the server does not serve on the configured port after %v: %v\n%s", serverLimit, err, s.out.String())
				}
				continue
			}
			break
		}
		s.release()
	}
}

func (s *server) running() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

func (s *server) release() {
	_ = s.cmd.Process.Kill()
	<-s.exited
	if s.conn != nil {
		s.conn.Close()
	}
	s.commands.Close()
	s.answers.Close()
	for _, f := range s.unreserve {
		f()
	}
	s.unreserve = nil
}

// setClock moves the clock of the server.
func (s *server) setClock(now time.Time) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(now.UnixNano()))
	if _, err := s.commands.Write(b[:]); err == nil {
		_, _ = io.ReadFull(s.answers, b[:1])
	}
}

// stop ends the server with a signal. Only one which ran for a while can be expected to have installed its handler.
func (s *server) stop(h *H, sig syscall.Signal) {
	if sig == syscall.SIGKILL {
		s.release()
		return
	}
	up := time.Since(s.started)
	if !s.running() {
		h.Failf("the server ended on its own: %v\n%s", s.err, s.out.String())
	}
	_ = s.cmd.Process.Signal(sig)
	select {
	case <-s.exited:
	case <-time.After(serverLimit):
		_ = s.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		h.Failf("the server has not ended %v after %v\n%s", serverLimit, sig, s.out.String())
	}
	if s.err != nil {
		if ws, ok := s.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && up < 2500*time.Millisecond {
			h.Discard("the server was not ready for signals yet")
		}
		h.Failf("the server ended with %v after %v\n%s", s.err, sig, s.out.String())
	}
	s.release()
}

func (s *server) metrics() (string, error) {
	c := http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	r, err := c.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", s.metrPort))
	if err != nil {
		return "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if r.StatusCode != 200 {
		err = fmt.Errorf("status %d", r.StatusCode)
	}
	return string(b), err
}

// backendEnv prepares the backends and returns the settings that select them.
func backendEnv(kind string) map[string]string {
	env := map[string]string{"CACHE_TYPE": "MEMORY", "STORAGE_TYPE": "MEMORY"}
	useRedis := func(k string) {
		s := redisServer(k)
		s.Reset()
		s.ScanPage = 10
		env["CACHE_TYPE"], env["CACHE_URI"] = "REDIS", redisURI(s)
		env["REDIS_CLUSTER_MODE"] = fmt.Sprint(k == "cluster")
	}
	useMongo := func() {
		s := mongoServerFor()
		s.Reset()
		env["STORAGE_TYPE"], env["STORAGE_URI"] = "MONGODB", mongoURI(s, 2)
	}
	switch kind {
	case "storage":
		useMongo()
	case "both":
		useRedis("redis")
		useMongo()
	case "cluster":
		useRedis("cluster")
		useMongo()
	}
	return env
}

// ---------------------------------------------------------------------------------------------------------------
// histories of client operations while the housekeeping runs on its own

type serverStep struct {
	Op     string
	Server int
	Queue  int   `json:",omitempty"`
	N      int   `json:",omitempty"`
	Min    int64 `json:",omitempty"` // minutes
	Spec   *serverSpec
}

type serverCase struct {
	Kind    string
	Servers []serverSpec
	Steps   []serverStep
}

var serverQueues = []string{"q", "a:b", "p::q"}

func genTasks(t *rapid.T, name string) (r [nTasks]bool) {
	// all of them, none of them, or any of them
	mode := rapid.IntRange(0, 3).Draw(t, name)
	for i := range r {
		switch mode {
		case 0:
			r[i] = true
		case 1:
			r[i] = rapid.IntRange(0, 3).Draw(t, "task?") > 0
		default:
			r[i] = rapid.Bool().Draw(t, "task?")
		}
	}
	return
}

func genSpec(t *rapid.T, first bool) serverSpec {
	return serverSpec{Grpc: first || rapid.Bool().Draw(t, "grpc"), Housekeeper: rapid.IntRange(0, 3).Draw(t, "housekeeper") > 0,
		Tasks: genTasks(t, "tasks"), Metrics: rapid.IntRange(0, 2).Draw(t, "metrics") == 0}
}

func genServers(t *rapid.T) serverCase {
	c := serverCase{Kind: rapid.SampledFrom([]string{"both", "memory", "cluster", "storage", "both"}).Draw(t, "kind")}
	n := 1
	if c.Kind == "both" || c.Kind == "cluster" {
		n = rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(t, "servers")
	}
	for i := range n {
		c.Servers = append(c.Servers, genSpec(t, i == 0))
	}
	ops := []string{"use", "advance", "add", "pull", "use", "advance", "ack", "nack", "remove", "advance", "setmax", "lose", "restart", "flush"}
	step := rapid.Custom(func(t *rapid.T) serverStep {
		s := serverStep{Op: rapid.SampledFrom(ops).Draw(t, "op"), Server: rapid.IntRange(0, 2).Draw(t, "server"), Queue: rapid.SampledFrom([]int{0, 0, 1, 2, 0}).Draw(t, "queue")}
		switch s.Op {
		case "use":
			s.N = rapid.IntRange(1, 8).Draw(t, "n")
			s.Min = rapid.SampledFrom([]int64{2, 4, 10, 1, 30}).Draw(t, "lock")
		case "add":
			s.N = rapid.IntRange(1, 6).Draw(t, "n")
			s.Min = rapid.SampledFrom([]int64{0, 2, 10, 30, 100}).Draw(t, "ttl")
		case "pull":
			s.N = rapid.IntRange(1, 6).Draw(t, "n")
			s.Min = rapid.SampledFrom([]int64{0, 0, 1, 3, 20}).Draw(t, "deadline")
		case "ack", "nack":
			s.N = rapid.IntRange(1, 4).Draw(t, "n")
			s.Min = rapid.SampledFrom([]int64{1, 4, 15, 0}).Draw(t, "lock")
		case "remove":
			s.N = rapid.IntRange(0, 20).Draw(t, "which")
		case "advance":
			s.Min = rapid.SampledFrom([]int64{1, 3, 6, 12, 40}).Draw(t, "minutes")
		case "setmax":
			s.N = rapid.IntRange(1, 8).Draw(t, "max")
		case "restart":
			s.N = rapid.IntRange(0, 1).Draw(t, "kill")
			if rapid.Bool().Draw(t, "other configuration") {
				sp := genSpec(t, false)
				s.Spec = &sp
			}
		}
		return s
	})
	c.Steps = append([]serverStep{{Op: "add", N: rapid.IntRange(2, 6).Draw(t, "first")}}, rapid.SliceOfN(step, 3, 14).Draw(t, "steps")...)
	c.Steps = append(c.Steps, serverStep{Op: "advance", Min: 13})
	return c
}

const (
	stAvailable = iota
	stProcessing
	stLocked
	stMissing // in the storage, but not in the cache
)

type serverMsg struct {
	id, queue string
	state     int
	until     int64 // minutes: end of the deadline or the lock
	expires   int64 // minutes, 0: never
}

type serverWorld struct {
	h       *H
	c       serverCase
	env     map[string]string
	servers []*server
	minute  int64 // whole minutes since the start
	odd     int64 // seconds added, so that nothing ends exactly now
	msgs    map[string]*serverMsg
	max     map[string]int64
	next    int
	rot     int
}

func (w *serverWorld) now() time.Time {
	return time.UnixMilli(startMs).Add(time.Duration(w.minute)*time.Minute + time.Duration(w.odd)*time.Second)
}

// on says whether some server runs the task.
func (w *serverWorld) on(task int) bool {
	for _, s := range w.servers {
		if s.spec.Housekeeper && s.spec.Tasks[task] {
			return true
		}
	}
	return false
}

func (w *serverWorld) clients() (l []*server) {
	for _, s := range w.servers {
		if s.spec.Grpc {
			l = append(l, s)
		}
	}
	return
}

func (w *serverWorld) client(i int) deckard.DeckardClient {
	l := w.clients()
	return l[i%len(l)].client
}

func (w *serverWorld) inQueue(q string, states ...int) (l []*serverMsg) {
	for _, m := range w.msgs {
		if m.queue == q && (len(states) == 0 || slices.Contains(states, m.state)) {
			l = append(l, m)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return
}

// stale says whether a message expired and was not removed. Whether it is delivered until then is up to the storage.
func (w *serverWorld) stale(m *serverMsg) bool { return m.expires > 0 && m.expires <= w.minute }

// housekeep applies what the tasks do at this time.
func (w *serverWorld) housekeep() {
	for k, m := range w.msgs {
		switch {
		case m.expires > 0 && m.expires <= w.minute && w.on(taskTTL):
			delete(w.msgs, k)
			w.h.Label("expired")
		case m.state == stProcessing && m.until <= w.minute && w.on(taskTimeout):
			m.state = stAvailable
			w.h.Label("timed out")
		case m.state == stLocked && m.until <= w.minute && w.on(taskUnlock):
			m.state = stAvailable
			w.h.Label("unlocked")
		case m.state == stMissing && w.on(taskRecovery):
			m.state = stAvailable
			w.h.Label("recovered")
		case m.expires > 0 && m.expires <= w.minute:
			w.h.Label("not expired: disabled")
		case m.state == stProcessing && m.until <= w.minute:
			w.h.Label("not timed out: disabled")
		case m.state == stLocked && m.until <= w.minute:
			w.h.Label("not unlocked: disabled")
		case m.state == stMissing:
			w.h.Label("not recovered: disabled")
		}
	}
}

func (w *serverWorld) call() (context.Context, func()) {
	return context.WithTimeout(bg, serverLimit)
}

func (w *serverWorld) must(err error, what string) {
	if err != nil {
		w.h.Failf("%s failed: %v%s", what, err, w.logs())
	}
}

func (w *serverWorld) logs() string {
	var b bytes.Buffer
	for i, s := range w.servers {
		if !s.running() {
			fmt.Fprintf(&b, "\nserver %d ended with %v", i, s.err)
		}
		fmt.Fprintf(&b, "\nserver %d (%+v): %s", i, s.spec, s.out.String())
	}
	return b.String()
}

func (w *serverWorld) count(q string) int64 {
	ctx, cancel := w.call()
	defer cancel()
	w.rot++
	r, err := w.client(w.rot).Count(ctx, &deckard.CountRequest{Queue: q})
	w.must(err, "count")
	return r.Count
}

// drain takes all the available messages of a queue, with several clients at once, and returns them to the queue.
func (w *serverWorld) drain(q string) []string {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var ids []string
	errs := make(chan error, 100)
	for _, s := range w.clients() {
		for range 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					ctx, cancel := w.call()
					r, err := s.client.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: 7})
					cancel()
					if err != nil {
						errs <- err
						return
					}
					if len(r.Messages) == 0 {
						return
					}
					mu.Lock()
					for _, m := range r.Messages {
						if m.Queue != q {
							ids = append(ids, m.Queue+"/"+m.Id)
						} else {
							ids = append(ids, m.Id)
						}
					}
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	select {
	case err := <-errs:
		w.must(err, "pull")
	default:
	}
	for i, id := range ids {
		if slices.Contains(ids[:i], id) {
			w.h.Failf("%s of queue %s was delivered twice at the same time: %v", id, q, ids)
		}
		if m := w.msgs[q+"/"+id]; m == nil {
			w.h.Failf("%s of queue %s was delivered, although it does not exist anymore", id, q)
		} else if m.state != stAvailable {
			w.h.Failf("%s of queue %s was delivered at minute %d, although it is %s%s", id, q, w.minute, w.describe(m), w.logs())
		}
		ctx, cancel := w.call()
		r, err := w.client(i).Nack(ctx, &deckard.AckRequest{Queue: q, Id: id})
		cancel()
		w.must(err, "nack")
		if !r.Success && !w.stale(w.msgs[q+"/"+id]) {
			w.h.Failf("%s of queue %s, which was just delivered, was not returned by nack", id, q)
		}
	}
	sort.Strings(ids)
	return slices.DeleteFunc(ids, func(id string) bool { return w.stale(w.msgs[q+"/"+id]) })
}

func (w *serverWorld) describe(m *serverMsg) string {
	return fmt.Sprintf("%s until minute %d (expires at %d)", []string{"available", "being processed", "locked", "not in the cache"}[m.state], m.until, m.expires)
}

// settle waits until the housekeeping did what it has to do.
func (w *serverWorld) settle(patient bool) {
	w.housekeep()
	for _, q := range serverQueues {
		w.settleQueue(q)
	}
	if patient {
		// nothing else may happen
		time.Sleep(40 * time.Millisecond)
		for _, q := range serverQueues {
			w.settleQueue(q)
		}
	}
	for i, s := range w.servers {
		if !s.running() {
			w.h.Failf("server %d ended on its own: %v\n%s", i, s.err, s.out.String())
		}
	}
}

func (w *serverWorld) settleQueue(q string) {
	all := w.inQueue(q)
	want := int64(len(all))
	evict := w.max[q] > 0 && want > w.max[q] && w.on(taskMax)
	if evict {
		want = w.max[q]
	}
	start := time.Now()
	for n := w.count(q); n != want; n = w.count(q) {
		if n < want || time.Since(start) > serverLimit {
			w.h.Failf("queue %s has %d messages instead of %d at minute %d (of %d, limit %d)%s", q, n, want, w.minute, len(all), w.max[q], w.logs())
		}
		time.Sleep(2 * time.Millisecond)
	}
	if evict {
		w.h.Label("evicted")
		last, first := int64(0), int64(1<<62)
		sort.SliceStable(all, func(i, j int) bool { return w.stale(all[i]) && (!w.stale(all[j]) || all[i].expires < all[j].expires) })
		for excess := len(all) - int(want); excess > 0 && w.stale(all[0]); excess-- {
			delete(w.msgs, q+"/"+all[0].id)
			all = all[1:]
		}
		for _, m := range all {
			if w.stale(m) {
				first = 0
				continue
			}
			ctx, cancel := w.call()
			r, err := w.client(0).GetById(ctx, &deckard.GetByIdRequest{Queue: q, Id: m.id})
			cancel()
			w.must(err, "get")
			e := m.expires
			if e == 0 {
				e = 1 << 40
			}
			if r.Found {
				first = min(first, e)
			} else {
				last = max(last, e)
				delete(w.msgs, q+"/"+m.id)
			}
		}
		if last > first {
			w.h.Failf("queue %s was reduced to %d messages by removing one that expires at minute %d instead of one at %d", q, want, last, first)
		}
	} else if w.max[q] > 0 && want > w.max[q] {
		w.h.Label("not evicted: disabled")
	}
	var ids []string
	for _, m := range w.inQueue(q, stAvailable) {
		if !w.stale(m) {
			ids = append(ids, m.id)
		}
	}
	for start := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		got := w.drain(q)
		if slices.Equal(got, ids) {
			return
		}
		if time.Since(start) > serverLimit {
			w.h.Failf("the available messages of queue %s are %v instead of %v after %v%s", q, got, ids, serverLimit, w.logs())
		}
	}
}

func (w *serverWorld) start(i int, spec serverSpec) {
	// removals by several servers at once are another matter (C18)
	for j, o := range w.servers {
		if j != i && o.spec.Housekeeper {
			if o.spec.Tasks[taskMax] {
				spec.Tasks[taskTTL], spec.Tasks[taskMax] = false, false
			} else if o.spec.Tasks[taskTTL] {
				spec.Tasks[taskMax] = false
			}
		}
	}
	s := spawn(w.h, spec, w.now(), w.env)
	if i < len(w.servers) {
		w.servers[i] = s
	} else {
		w.servers = append(w.servers, s)
	}
}

func (w *serverWorld) ports() {
	for i, s := range w.servers {
		if !s.spec.Grpc {
			if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.grpcPort), time.Second); err == nil {
				c.Close()
				w.h.Failf("server %d serves gRPC although it is disabled", i)
			}
		}
		if !s.spec.Metrics {
			if _, err := s.metrics(); err == nil {
				w.h.Failf("server %d serves metrics although they are disabled", i)
			}
			continue
		}
		want := map[string]int{}
		for _, m := range w.msgs {
			want[splitPrefix(m.queue)]++
		}
		for start := time.Now(); ; time.Sleep(5 * time.Millisecond) {
			text, err := s.metrics()
			got := map[string]int{}
			for _, m := range gaugeLine.FindAllStringSubmatch(text, -1) {
				q, n := "", 0
				if l := queueLabel.FindStringSubmatch(m[1]); l != nil {
					q = l[1]
				}
				fmt.Sscan(m[2], &n)
				if n > 0 {
					got[q] = n
				}
			}
			wrong := ""
			switch {
			case err != nil:
				wrong = err.Error()
			case s.spec.Housekeeper && s.spec.Tasks[taskMetrics] && fmt.Sprint(got) != fmt.Sprint(want):
				wrong = fmt.Sprintf("the number of messages is reported as %v instead of %v", got, want)
			case !(s.spec.Housekeeper && s.spec.Tasks[taskMetrics]) && len(got) > 0:
				w.h.Failf("server %d reports %v although it does not compute metrics", i, got)
			}
			if wrong == "" {
				w.h.Label("metrics")
				break
			}
			if time.Since(start) > serverLimit {
				w.h.Failf("metrics of server %d: %s", i, wrong)
			}
		}
	}
}

func splitPrefix(q string) string { p, _ := splitName(q); return p }

var (
	gaugeLine  = regexp.MustCompile(`(?m)^deckard_total_messages\{(.*)\} (\S+)`)
	queueLabel = regexp.MustCompile(`\bqueue="([^"]*)"`)
)

func runServers(h *H, c serverCase) {
	w := &serverWorld{h: h, c: c, env: backendEnv(c.Kind), msgs: map[string]*serverMsg{}, max: map[string]int64{}}
	if c.Kind == "both" || c.Kind == "cluster" {
		s := w.redis()
		h.Cleanup(func() { s.ScanPage = 2 })
	}
	for i, s := range c.Servers {
		w.start(i, s)
	}
	h.Label(c.Kind)
	h.Label(fmt.Sprint(len(c.Servers), " servers"))
	w.settle(true)
	for _, s := range c.Steps {
		w.step(s)
	}
	w.ports()
	stopped := 0
	for i, s := range w.servers {
		if s.spec.Grpc && time.Since(s.started) > 2500*time.Millisecond || i == 0 && len(c.Steps)%3 == 0 {
			time.Sleep(time.Until(s.started.Add(2600 * time.Millisecond)))
			s.stop(h, syscall.SIGTERM)
			stopped++
		}
	}
	if stopped > 0 {
		h.Label("stopped")
	}
}

func (w *serverWorld) step(s serverStep) {
	h, q := w.h, serverQueues[s.Queue]
	patient := false
	ctx, cancel := w.call()
	defer cancel()
	client := w.client(s.Server)
	switch s.Op {
	case "add":
		req := &deckard.AddRequest{}
		for range s.N {
			w.next++
			m := &serverMsg{id: fmt.Sprintf("%03d", w.next), queue: q}
			a := &deckard.AddMessage{Id: m.id, Queue: q}
			if s.Min == 0 {
				a.Timeless = true
			} else {
				a.TtlMinutes = s.Min
				m.expires = w.minute + s.Min
			}
			req.Messages = append(req.Messages, a)
			w.msgs[q+"/"+m.id] = m
		}
		_, err := client.Add(ctx, req)
		w.must(err, "add")
	case "pull":
		d := s.Min
		if d == 0 {
			d = 5
		}
		r, err := client.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: int32(s.N), AckDeadlineMs: s.Min * 60_000})
		w.must(err, "pull")
		for _, x := range r.Messages {
			m := w.msgs[q+"/"+x.Id]
			if m == nil || m.state != stAvailable {
				h.Failf("%s of queue %s was delivered, although it is not available", x.Id, q)
			}
			m.state, m.until = stProcessing, w.minute+d
		}
	case "use":
		// some messages are added, delivered, and each is treated differently
		w.step(serverStep{Op: "add", Server: s.Server, Queue: s.Queue, N: s.N})
		w.step(serverStep{Op: "pull", Server: s.Server, Queue: s.Queue, N: s.N, Min: s.Min})
		for i, op := range []string{"nack", "ack", "nack"} {
			if s.N > i {
				w.step(serverStep{Op: op, Server: s.Server + i, Queue: s.Queue, N: 1, Min: []int64{s.Min, s.Min + 1, 0}[i]})
			}
		}
		return
	case "ack", "nack":
		l := slices.DeleteFunc(w.inQueue(q, stProcessing), w.stale)
		if len(l) == 0 {
			return
		}
		for _, m := range l[:min(len(l), s.N)] {
			req := &deckard.AckRequest{Queue: q, Id: m.id, LockMs: s.Min * 60_000}
			f := client.Ack
			if s.Op == "nack" {
				f = client.Nack
			} else if s.Min == 0 {
				req.RemoveMessage = true
			}
			r, err := f(ctx, req)
			w.must(err, s.Op)
			if !r.Success {
				h.Failf("%s of %s, which is %s, was not successful", s.Op, m.id, w.describe(m))
			}
			switch {
			case req.RemoveMessage:
				delete(w.msgs, q+"/"+m.id)
			case s.Min == 0:
				m.state = stAvailable
			default:
				m.state, m.until = stLocked, w.minute+s.Min
			}
		}
	case "remove":
		l := w.inQueue(q)
		if len(l) == 0 {
			return
		}
		m := l[s.N%len(l)]
		r, err := client.Remove(ctx, &deckard.RemoveRequest{Queue: q, Ids: []string{m.id}})
		w.must(err, "remove")
		if r.StorageRemoved != 1 {
			h.Failf("%s of queue %s was not removed: %v", m.id, q, r)
		}
		delete(w.msgs, q+"/"+m.id)
	case "advance":
		w.minute += s.Min
		w.odd += 3 // less than a minute in all
		for _, s := range w.servers {
			s.setClock(w.now())
		}
		h.Nontrivial()
		patient = true
	case "setmax":
		// a server may not know the limits set by another one, which are cached for minutes
		r, err := w.client(0).EditQueue(ctx, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: int64(s.N)}})
		w.must(err, "edit")
		if !r.Success {
			h.Failf("the limit of queue %s was not set", q)
		}
		w.max[q] = int64(s.N)
		patient = true
	case "lose":
		if w.c.Kind != "both" && w.c.Kind != "cluster" || !w.quietRecovery() {
			return
		}
		w.redis().Lose()
		for _, m := range w.msgs {
			m.state = stMissing
		}
		h.Label("lost cache")
		patient = true
	case "flush":
		if s.Queue != 0 {
			return // too often it would leave nothing
		}
		r, err := client.Flush(ctx, &deckard.FlushRequest{})
		w.must(err, "flush")
		if r.Success != (w.c.Kind == "memory") {
			h.Failf("the flush of %s was answered with %v", w.c.Kind, r)
		}
		if r.Success {
			w.msgs, w.max = map[string]*serverMsg{}, map[string]int64{}
			h.Label("flushed")
		} else {
			h.Label("not flushed")
		}
		patient = true
	case "restart":
		i := s.Server % len(w.servers)
		old := w.servers[i]
		spec := old.spec
		if s.Spec != nil {
			spec = *s.Spec
			if i == 0 {
				spec.Grpc = true
			}
		}
		sig := syscall.SIGTERM
		if s.N == 1 {
			sig = syscall.SIGKILL
			// a recovery may have been interrupted: it is left as running until it is continued
			spec.Tasks[taskRecovery], spec.Housekeeper = old.spec.Tasks[taskRecovery], old.spec.Housekeeper
		} else if !old.spec.Grpc {
			sig = syscall.SIGKILL // when it handles signals is not known
			spec = old.spec
		} else {
			if s.Queue == 0 {
				time.Sleep(time.Until(old.started.Add(2600 * time.Millisecond)))
			}
		}
		old.stop(h, sig)
		switch w.c.Kind {
		case "memory":
			w.msgs, w.max = map[string]*serverMsg{}, map[string]int64{}
		case "storage":
			for _, m := range w.msgs {
				m.state = stMissing
			}
		}
		w.start(i, spec)
		h.Label("restarted")
		patient = true
	}
	h.Logf("minute %d: %s", w.minute, js(s))
	w.settle(patient)
}

// quietRecovery waits until no recovery is running: losing the cache during one is another matter (C15).
func (w *serverWorld) quietRecovery() bool {
	if !w.on(taskRecovery) {
		return true
	}
	var mu sync.Mutex
	last := time.Now()
	w.redis().SetHook(func(_ int, a []string) fakeredis.Action {
		if strings.EqualFold(a[0], "set") {
			mu.Lock()
			last = time.Now()
			mu.Unlock()
		}
		return fakeredis.Action{}
	})
	defer w.redis().SetHook(nil)
	for start := time.Now(); time.Since(start) < serverLimit; time.Sleep(5 * time.Millisecond) {
		mu.Lock()
		quiet := time.Since(last) > 150*time.Millisecond
		mu.Unlock()
		if quiet {
			return true
		}
	}
	return false
}

func (w *serverWorld) redis() *fakeredis.Server {
	return redisServer(map[string]string{"both": "redis", "cluster": "cluster"}[w.c.Kind])
}

// ---------------------------------------------------------------------------------------------------------------
// the end of a server in the middle of the requests of several clients

type stopCase struct {
	Kind    string
	Servers int
	Clients int
	Adds    int // messages per add
	After   int // requests which are answered before the signal
	Delay   int // microseconds after that
	Signal  string
	Late    bool // the server runs for some time before
	Tasks   [nTasks]bool
	Audit   bool
}

func genStop(t *rapid.T) stopCase {
	c := stopCase{Kind: rapid.SampledFrom([]string{"both", "cluster", "both", "memory", "storage"}).Draw(t, "kind"),
		Clients: rapid.IntRange(1, 8).Draw(t, "clients"), Adds: rapid.SampledFrom([]int{1, 3, 20}).Draw(t, "adds"),
		After: rapid.IntRange(0, 400).Draw(t, "after"), Delay: rapid.SampledFrom([]int{0, 100, 1000, 5000}).Draw(t, "delay"),
		Signal: rapid.SampledFrom([]string{"TERM", "TERM", "KILL", "INT", "QUIT"}).Draw(t, "signal"),
		Late:   rapid.IntRange(0, 3).Draw(t, "late") == 0, Tasks: genTasks(t, "tasks"), Audit: rapid.IntRange(0, 2).Draw(t, "audit") > 0, Servers: 1}
	c.Tasks[taskMax] = false
	if c.Kind == "both" || c.Kind == "cluster" {
		c.Servers = rapid.IntRange(1, 2).Draw(t, "servers")
	}
	return c
}

// fate is what a client knows about a message.
type fate struct{ added, removing, removed bool }

func runStop(h *H, c stopCase) {
	env := backendEnv(c.Kind)
	var index *fakeIndex
	if c.Audit {
		index = newFakeIndex()
		defer index.srv.Close()
		env["AUDIT_ENABLED"], env["ELASTIC_ADDRESS"] = "true", index.srv.URL
	}
	now := time.UnixMilli(startMs)
	spec := serverSpec{Grpc: true, Housekeeper: true, Tasks: c.Tasks}
	var servers []*server
	for range c.Servers {
		servers = append(servers, spawn(h, spec, now, env))
	}
	if c.Late {
		time.Sleep(time.Until(servers[0].started.Add(2600 * time.Millisecond)))
	}
	var mu sync.Mutex
	answered := 0
	fates := map[string]*fate{}
	acks := map[string]int{} // of each signal and message
	stop := make(chan struct{})
	trigger := make(chan struct{})
	var once sync.Once
	var problem string
	var wg sync.WaitGroup
	ok := func(err error, what string) bool {
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			if code := status.Code(err); code != codes.Unavailable && code != codes.Canceled && c.Signal != "KILL" && problem == "" && c.Servers == 1 {
				problem = fmt.Sprintf("%s failed with %v while the server was stopped", what, err)
			}
			return false
		}
		answered++
		if answered > c.After {
			once.Do(func() { close(trigger) })
		}
		return true
	}
	for k := range c.Clients {
		srv := servers[k%len(servers)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(bg, 2*serverLimit)
			defer cancel()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				q := serverQueues[(n+k)%len(serverQueues)]
				req := &deckard.AddRequest{}
				mu.Lock()
				for j := range c.Adds {
					id := fmt.Sprintf("%d-%d-%d", k, n, j)
					req.Messages = append(req.Messages, &deckard.AddMessage{Id: id, Queue: q, Timeless: true})
					fates[q+"/"+id] = &fate{}
				}
				mu.Unlock()
				_, err := srv.client.Add(ctx, req)
				if !ok(err, "add") {
					return
				}
				mu.Lock()
				for _, m := range req.Messages {
					fates[q+"/"+m.Id].added = true
				}
				mu.Unlock()
				r, err := srv.client.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: int32(1 + n%4)})
				if !ok(err, "pull") {
					return
				}
				for i, m := range r.Messages {
					req := &deckard.AckRequest{Queue: q, Id: m.Id}
					key := q + "/" + m.Id
					var err error
					switch (n + i) % 5 {
					case 0, 1:
						req.RemoveMessage = true
						mu.Lock()
						if f := fates[key]; f != nil {
							f.removing = true
						}
						mu.Unlock()
						_, err = srv.client.Ack(ctx, req)
					case 2:
						_, err = srv.client.Nack(ctx, req)
					case 3:
						req.LockMs = 60_000
						_, err = srv.client.Nack(ctx, req)
					default:
						continue // lost by the client
					}
					if !ok(err, "ack") {
						return
					}
					mu.Lock()
					if f := fates[key]; req.RemoveMessage && f != nil {
						f.removed = true
					}
					signal := "NACK "
					if req.RemoveMessage {
						signal = "ACK "
					}
					acks[signal+key]++
					mu.Unlock()
				}
			}
		}()
	}
	select {
	case <-trigger:
	case <-time.After(serverLimit):
		h.Failf("the server answered only %d requests within %v\n%s", answered, serverLimit, servers[0].out.String())
	}
	time.Sleep(time.Duration(c.Delay) * time.Microsecond)
	sig := map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "QUIT": syscall.SIGQUIT, "KILL": syscall.SIGKILL}[c.Signal]
	if sig == syscall.SIGKILL {
		servers[0].release()
	} else {
		servers[0].stop(h, sig)
	}
	// the others go on without it
	for _, s := range servers[1:] {
		ctx, cancel := context.WithTimeout(bg, serverLimit)
		_, err := s.client.Count(ctx, &deckard.CountRequest{})
		cancel()
		if err != nil {
			h.Failf("the other server does not answer: %v\n%s", err, s.out.String())
		}
	}
	close(stop)
	wg.Wait()
	h.Label(c.Kind + " " + c.Signal)
	if problem != "" {
		h.Failf("%s\n%s", problem, servers[0].out.String())
	}
	for _, s := range servers[1:] {
		if sig == syscall.SIGKILL {
			s.release()
		} else {
			s.stop(h, sig)
		}
	}
	h.Nontrivial()
	if index != nil && sig != syscall.SIGKILL {
		docs, bad := index.state()
		if bad != "" {
			h.Failf("%s", bad)
		}
		got := map[string]int{}
		for _, d := range docs {
			got[fmt.Sprint(d["signal"], " ", d["queue"], "/", d["id"])]++
		}
		for k, f := range fates {
			if f.added && got["INSERT_CACHE "+k] < 1 {
				h.Failf("the addition of %s, which was confirmed, is not among the %d audit entries", k, len(docs))
			}
			if f.removed && got["REMOVE "+k] < 1 {
				h.Failf("the removal of %s, which was confirmed, is not among the %d audit entries", k, len(docs))
			}
		}
		for k, n := range acks {
			if strings.HasPrefix(k, "NACK") && got[k] < n {
				h.Failf("%d of the %d audit entries %q are missing", n-got[k], n, k)
			}
		}
		h.Label("audited")
	}
	if c.Kind == "memory" {
		return
	}
	// what is left is delivered by the next server
	spec.Tasks = [nTasks]bool{true, true, true, true, true, true}
	delete(env, "AUDIT_ENABLED")
	w := &serverWorld{h: h, env: env, msgs: map[string]*serverMsg{}}
	w.servers = []*server{spawn(h, spec, now.Add(10*time.Minute), env)}
	want, maybe := 0, map[string]bool{}
	for k, f := range fates {
		switch {
		case f.removed:
		case f.added && !f.removing:
			want++
		default:
			maybe[k] = true
		}
	}
	found := map[string]bool{}
	client := w.servers[0].client
	for start := time.Now(); ; time.Sleep(3 * time.Millisecond) {
		for _, q := range serverQueues {
			for {
				ctx, cancel := w.call()
				r, err := client.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: 1000})
				cancel()
				w.must(err, "pull")
				if len(r.Messages) == 0 {
					break
				}
				for _, m := range r.Messages {
					k := q + "/" + m.Id
					f := fates[k]
					switch {
					case f == nil:
						h.Failf("%s was delivered, but never added", k)
					case f.removed:
						h.Failf("%s was delivered after its removal was confirmed", k)
					case found[k]:
						h.Failf("%s was delivered twice at once", k)
					}
					found[k] = true
				}
			}
		}
		missing := []string{}
		for k, f := range fates {
			if f.added && !f.removing && !found[k] {
				missing = append(missing, k)
			}
		}
		if len(missing) == 0 {
			break
		}
		if time.Since(start) > serverLimit {
			sort.Strings(missing)
			h.Failf("%d of %d messages were not delivered after the server was stopped and started again: %.20v%s", len(missing), want, missing, w.logs())
		}
	}
}

func init() {
	register("C34", "time passed, and a task which is enabled or disabled had something to do; or a server ended while it had requests",
		sub("servers", 300, 6000, genServers, runServers),
		sub("stop", 200, 4000, genStop, runStop))
}
