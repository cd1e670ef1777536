package main

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/fakemongo"
	"github.com/takenet/deckard/internal/zzverif/fakeredis"
	"go.mongodb.org/mongo-driver/v2/bson"
	"pgregory.net/rapid"
)

// connectCase is a start of the server whose backend answers some of the first attempts with failures.
type connectCase struct {
	Kind     string // redis, cluster, mongo
	Fails    []int  // for each attempt: 0: it is answered, 1: with an error, 2: the connection is closed
	Attempts int
	Retry    bool
	Delay    int // milliseconds
	Cancel   int // >0: when this attempt arrives, the start is cancelled (1: and the delay is an hour). -1: before the start
}

var startMongo = sync.OnceValue(func() *fakemongo.Server {
	s, err := fakemongo.Start("127.0.0.1:0")
	Must(err)
	return s
})

// backend is a client of a backend, made by deckard.
type backend struct {
	c cache.Cache
	s storage.Storage
}

func (b backend) close() {
	if b.c != nil {
		_ = b.c.Close(bg)
	}
	if b.s != nil {
		_ = b.s.Close(bg)
	}
}

// works says whether the connection can be used.
func (b backend) works() string {
	if b.c != nil {
		if _, err := b.c.Insert(bg, "q", &message.Message{ID: "a", Queue: "q"}); err != nil {
			return fmt.Sprint("the cache cannot be used: ", err)
		}
		if ids, err := b.c.PullMessages(bg, "q", 10, nil, nil, 0); err != nil || len(ids) != 1 {
			return fmt.Sprintf("the cache returned %v, %v", ids, err)
		}
		return ""
	}
	if _, _, err := b.s.Insert(bg, &message.Message{ID: "a", Queue: "q"}); err != nil {
		return fmt.Sprint("the storage cannot be used: ", err)
	}
	if n, err := b.s.Count(bg, &storage.FindOptions{}, &storage.CountOptions{}); err != nil || n != 1 {
		return fmt.Sprintf("the storage returned %d, %v", n, err)
	}
	return ""
}

// configureBackend sets everything a connection depends on.
func configureBackend(kind, uri string, retry bool, attempts int, delay time.Duration) {
	if kind == "mongo" {
		config.StorageUri.Set(uri)
		config.StorageConnectionRetryEnabled.Set(retry)
		config.StorageConnectionRetryAttempts.Set(attempts)
		config.StorageConnectionRetryDelay.Set(delay.String())
		return
	}
	config.CacheUri.Set(uri)
	config.RedisClusterMode.Set(kind == "cluster")
	config.CacheConnectionRetryEnabled.Set(retry)
	config.CacheConnectionRetryAttempts.Set(attempts)
	config.CacheConnectionRetryDelay.Set(delay.String())
}

// connect is what the main function of the server does.
func connectBackend(ctx context.Context, kind string) (b backend, err error) {
	if kind == "mongo" {
		s, err := storage.CreateStorage(ctx, storage.MONGODB)
		if err == nil && s == nil {
			return b, fmt.Errorf("neither a storage nor an error")
		}
		if err != nil {
			s = nil
		}
		return backend{s: s}, err
	}
	c, err := cache.CreateCache(ctx, cache.REDIS)
	if err == nil && c == nil {
		return b, fmt.Errorf("neither a cache nor an error")
	}
	if err != nil {
		c = nil
	}
	return backend{c: c}, err
}

const connectLimit = 45 * time.Second

// within runs a connection which has to end.
func within(h *H, ctx context.Context, kind string) (b backend, err error, took time.Duration) {
	type res struct {
		b   backend
		err error
	}
	done := make(chan res, 1)
	start := time.Now()
	crash := make(chan any, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				crash <- r
			}
		}()
		b, err := connectBackend(ctx, kind)
		done <- res{b, err}
	}()
	select {
	case r := <-crash:
		h.Failf("the connection to %s panicked: %v", kind, r)
		panic("unreachable")
	case r := <-done:
		h.Cleanup(r.b.close)
		return r.b, r.err, time.Since(start)
	case <-time.After(connectLimit):
		h.Failf("the connection to %s neither succeeded nor failed within %v", kind, connectLimit)
		panic("unreachable")
	}
}

func genConnect(t *rapid.T) connectCase {
	c := connectCase{Kind: rapid.SampledFrom([]string{"redis", "cluster", "mongo"}).Draw(t, "kind")}
	c.Retry = rapid.IntRange(0, 4).Draw(t, "retry") > 0
	c.Attempts = rapid.SampledFrom([]int{1, 2, 3, 5, 0, -1, 8}).Draw(t, "attempts")
	kinds := []int{1, 1, 1, 1, 0}
	if c.Kind == "redis" {
		kinds = []int{1, 2, 1, 2, 0}
	}
	c.Fails = rapid.SliceOfN(rapid.SampledFrom(kinds), 0, 12).Draw(t, "failures")
	c.Delay = rapid.SampledFrom([]int{1, 5, 20, 0}).Draw(t, "delay")
	if rapid.IntRange(0, 3).Draw(t, "cancelled?") == 0 {
		c.Cancel = rapid.SampledFrom([]int{1, 2, 3, -1}).Draw(t, "cancelled at")
	}
	return c
}

// expectConnect says how the connections of deckard to a backend end: how many attempts arrive, and whether it is connected.
func (c connectCase) expect() (attempts int, ok bool) {
	clients, limit := 1, c.Attempts
	if c.Kind == "mongo" {
		clients, limit = 2, max(1, limit)
	}
	if limit < 1 {
		return 0, false
	}
	if !c.Retry {
		limit = 1
	}
	for range clients {
		ok = false
		for i := 0; i < limit && !ok; i++ {
			ok = attempts >= len(c.Fails) || c.Fails[attempts] == 0
			attempts++
		}
		if !ok {
			return
		}
	}
	return
}

func runConnect(h *H, c connectCase) {
	clockNs.Store(0)
	defer setClock(startMs)
	defer config.Configure(true)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	if c.Cancel == -1 {
		cancel()
	}
	var mu sync.Mutex
	pings := 0
	next := func() int {
		mu.Lock()
		defer mu.Unlock()
		pings++
		if pings == c.Cancel {
			cancel()
		}
		if pings > len(c.Fails) {
			return 0
		}
		return c.Fails[pings-1]
	}
	delay := time.Duration(c.Delay) * time.Millisecond
	if c.Cancel == 1 || c.Cancel == -1 {
		delay = time.Hour
	}
	uri := ""
	if c.Kind == "mongo" {
		s := startMongo()
		s.Reset()
		defer s.SetHook(nil)
		s.SetHook(func(_ int, cmd string, _ bson.D) fakemongo.Action {
			if cmd == "ping" && next() > 0 {
				return fakemongo.Action{Err: "not now", Code: 8000}
			}
			return fakemongo.Action{}
		})
		uri = "mongodb://" + s.Addr(0)
	} else {
		s := redisServer(c.Kind)
		s.Reset()
		defer s.SetHook(nil)
		s.SetHook(func(_ int, a []string) fakeredis.Action {
			if strings.EqualFold(a[0], "ping") {
				switch next() {
				case 1:
					return fakeredis.Action{Err: "ERR not now"}
				case 2:
					return fakeredis.Action{Drop: "before"}
				}
			}
			return fakeredis.Action{}
		})
		uri = redisURI(s)
		if c.Kind == "redis" {
			uri += "?max_retries=-1" // the client does not try again on its own
		}
	}
	configureBackend(c.Kind, uri, c.Retry, c.Attempts, delay)
	b, err, took := within(h, ctx, c.Kind)
	mu.Lock()
	n := pings
	mu.Unlock()
	h.Logf("connected %v after %d attempts and %v: %v", err == nil, n, took, err)
	wantN, wantOK := c.expect()
	if c.Cancel == -1 || c.Cancel > 0 && n >= c.Cancel {
		if c.Cancel > 0 && (c.Cancel > len(c.Fails) || c.Fails[c.Cancel-1] == 0) {
			h.Discard("cancelled while it was answered")
		}
		if err == nil {
			h.Failf("the connection to %s succeeded although it was cancelled at attempt %d", c.Kind, c.Cancel)
		}
		if n > max(c.Cancel, 0)+1 {
			h.Failf("%d attempts were made, although it was cancelled at attempt %d", n, c.Cancel)
		}
		h.Label("cancelled")
		h.Nontrivial()
		return
	}
	if (err == nil) != wantOK || n != wantN {
		h.Failf("with %d attempts (retries %v) and the failures %v, the connection to %s ended with %v after %d attempts instead of %v after %d", c.Attempts, c.Retry, c.Fails, c.Kind, err, n, wantOK, wantN)
	}
	clients := 1
	if c.Kind == "mongo" {
		clients = 2
	}
	if least := time.Duration(n-clients) * delay; c.Cancel == 0 && took < least {
		h.Failf("%d attempts were made within %v, although the delay between them is %v", n, took, delay)
	}
	if wantOK {
		if e := b.works(); e != "" {
			h.Failf("%s", e)
		}
	}
	if wantN > 1 && c.Kind != "mongo" || wantN > 2 {
		h.Nontrivial()
		h.Label("retried")
		if !wantOK {
			h.Label("given up")
		}
	}
	if !c.Retry && !wantOK {
		h.Label("not retried")
		h.Nontrivial()
	}
}

// lateCase is a backend which cannot be reached at first.
type lateCase struct {
	Kind   string
	After  int // milliseconds until it can be reached, <0: never
	Cancel int // milliseconds until the start is cancelled
}

func genLate(t *rapid.T) lateCase {
	c := lateCase{Kind: rapid.SampledFrom([]string{"redis", "cluster", "mongo"}).Draw(t, "kind"), After: rapid.IntRange(0, 300).Draw(t, "after")}
	if rapid.IntRange(0, 2).Draw(t, "never?") == 0 {
		c.After = -1
		if rapid.Bool().Draw(t, "cancelled?") {
			c.Cancel = rapid.IntRange(1, 200).Draw(t, "cancelled after")
		}
	}
	return c
}

// freeAddr returns an address at which nothing listens, and reserves it with a socket that is not listening.
func freeAddr() string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	defer ln.Close()
	return ln.Addr().String()
}

func runLate(h *H, c lateCase) {
	clockNs.Store(0)
	defer setClock(startMs)
	defer config.Configure(true)
	addr := freeAddr()
	var others []string
	if c.Kind == "cluster" {
		others = []string{"127.0.0.1:0"}
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	uri := "redis://" + addr + "?max_retries=-1"
	if c.Kind == "mongo" {
		uri = "mongodb://" + addr + "/?serverSelectionTimeoutMS=700"
	}
	attempts := 3
	switch {
	case c.After >= 0:
		attempts = 200
	case c.Cancel > 0:
		attempts = 1 << 30
	}
	stop := make(chan func(), 1)
	if c.After >= 0 {
		go func() {
			time.Sleep(time.Duration(c.After) * time.Millisecond)
			if c.Kind == "mongo" {
				if s, err := fakemongo.Start(addr); err == nil {
					stop <- s.Close
					return
				}
			} else if s, err := fakeredis.Start(append([]string{addr}, others...)...); err == nil {
				stop <- s.Close
				return
			}
			stop <- nil // somebody else has the address
		}()
	}
	if c.Cancel > 0 {
		time.AfterFunc(time.Duration(c.Cancel)*time.Millisecond, cancel)
	}
	configureBackend(c.Kind, uri, true, attempts, 20*time.Millisecond)
	b, err, took := within(h, ctx, c.Kind)
	h.Logf("%v after %v", err, took)
	switch {
	case c.After < 0 && err == nil:
		h.Failf("the connection to %s succeeded, although nothing listens", c.Kind)
	case c.After >= 0:
		f := <-stop
		if f == nil {
			h.Discard("the address was taken")
		}
		h.Cleanup(f)
		if err != nil {
			h.Failf("the connection to %s, which could be reached after %d ms, failed after %v: %v", c.Kind, c.After, took, err)
		}
		if e := b.works(); e != "" {
			h.Failf("%s", e)
		}
	}
	h.Nontrivial()
}

// delayCase is a backend which fails some attempts, with a delay which is long enough to be measured.
type delayCase struct {
	Kind   string
	Fails  int
	Millis int
}

func genDelay(t *rapid.T) delayCase {
	return delayCase{rapid.SampledFrom([]string{"redis", "cluster", "mongo"}).Draw(t, "kind"), rapid.IntRange(2, 3).Draw(t, "failures"), rapid.IntRange(2500, 3000).Draw(t, "delay")}
}

// runDelay checks that each attempt comes one delay after the one before it, neither earlier nor (much) later.
func runDelay(h *H, c delayCase) {
	clockNs.Store(0)
	defer setClock(startMs)
	defer config.Configure(true)
	var mu sync.Mutex
	var times []time.Time
	fails := func() bool {
		mu.Lock()
		defer mu.Unlock()
		times = append(times, time.Now())
		return len(times) <= c.Fails
	}
	uri := ""
	if c.Kind == "mongo" {
		s := startMongo()
		s.Reset()
		defer s.SetHook(nil)
		s.SetHook(func(_ int, cmd string, _ bson.D) fakemongo.Action {
			if cmd == "ping" && fails() {
				return fakemongo.Action{Err: "not now", Code: 8000}
			}
			return fakemongo.Action{}
		})
		uri = "mongodb://" + s.Addr(0)
	} else {
		s := redisServer(c.Kind)
		s.Reset()
		defer s.SetHook(nil)
		s.SetHook(func(_ int, a []string) fakeredis.Action {
			if strings.EqualFold(a[0], "ping") && fails() {
				return fakeredis.Action{Err: "ERR not now"}
			}
			return fakeredis.Action{}
		})
		uri = redisURI(s)
	}
	delay := time.Duration(c.Millis) * time.Millisecond
	configureBackend(c.Kind, uri, true, c.Fails+1, delay)
	_, err, _ := within(h, bg, c.Kind)
	h.Check(err == nil, "C32", "the connection failed: %v", err)
	mu.Lock()
	defer mu.Unlock()
	for i := 1; i <= c.Fails && i < len(times); i++ {
		if d := times[i].Sub(times[i-1]); d < delay-5*time.Millisecond || d > delay+2*time.Second {
			h.Failf("attempt %d to connect to %s was made %v after the one before, the delay is %v", i+1, c.Kind, d, delay)
		}
	}
	h.Nontrivial()
}

// uriCase is a configuration with which nothing can be connected.
type uriCase struct {
	Kind string
	URI  string
	Type string `json:",omitempty"`
}

func genURI(t *rapid.T) uriCase {
	c := uriCase{Kind: rapid.SampledFrom([]string{"redis", "cluster", "mongo"}).Draw(t, "kind")}
	c.URI = rapid.OneOf(rapid.SampledFrom([]string{"", "localhost", "://", "http://127.0.0.1:1", "127.0.0.1:1", " ", "redis//x", "mongo://127.0.0.1:1", "\x7f", "%zz"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("abc:/@%?= ")), 0, 10, -1)).Draw(t, "uri")
	if rapid.IntRange(0, 4).Draw(t, "type?") == 0 {
		c.Type = rapid.SampledFrom([]string{"", "redis", "MONGO", "mongodb", "REDIS ", "memory", "POSTGRES"}).Draw(t, "type")
	}
	return c
}

func runURI(h *H, c uriCase) {
	defer config.Configure(true)
	attempts, delay := 1<<30, time.Hour
	if c.Kind == "mongo" && c.URI != "" {
		attempts, delay = 3, time.Millisecond // the driver rejects it at each attempt
	}
	configureBackend(c.Kind, c.URI, true, attempts, delay)
	h.Nontrivial()
	if c.Type != "" {
		if x, err := cache.CreateCache(bg, cache.Type(c.Type)); err == nil {
			h.Failf("a cache of the type %q was created: %T", c.Type, x)
		}
		if x, err := storage.CreateStorage(bg, storage.Type(c.Type)); err == nil {
			h.Failf("a storage of the type %q was created: %T", c.Type, x)
		}
		return
	}
	b, err, took := within(h, bg, c.Kind)
	if err == nil {
		h.Failf("the URI %q was accepted for %s: %v", c.URI, c.Kind, b)
	}
	if took > 30*time.Second {
		h.Failf("the URI %q of %s was rejected after %v", c.URI, c.Kind, took)
	}
}

func init() {
	register("C32", "an attempt failed and there was, or must not be, another one",
		sub("attempts", 3000, 40000, genConnect, runConnect),
		sub("delay", 16, 200, genDelay, runDelay),
		sub("late", 64, 1600, genLate, runLate),
		sub("configuration", 3000, 40000, genURI, runURI))
}
