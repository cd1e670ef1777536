package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"go.uber.org/zap"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

var bg = context.Background()

// startMs is even, like all the times at which client operations happen. Housekeeping runs at odd times, so that a
// deadline is never equal to the time of a sweep: what happens at the very millisecond is not specified.
const startMs = int64(1_700_000_000_000)

// horizon ends the histories before the nanoseconds of the clock do not fit in 64 bits anymore (year 2262).
const horizon = startMs + 230*365*86400*1000

// clockNs is the virtual time of the process, in nanoseconds. 0: use the real time.
var clockNs atomic.Int64

func clockMs() int64 { return clockNs.Load() / 1e6 }

func setClock(ms int64) { clockNs.Store(ms * 1e6) }

func installClock() {
	dtime.SetNowProvider(func() time.Time {
		if n := clockNs.Load(); n != 0 {
			return time.Unix(0, n)
		}
		return time.Now()
	})
}

func setupProcess(dir string) {
	for _, e := range os.Environ() {
		if len(e) > 8 && e[:8] == "DECKARD_" {
			for i := range e {
				if e[i] == '=' {
					os.Unsetenv(e[:i])
					break
				}
			}
		}
	}
	zap.ReplaceGlobals(zap.NewNop())
	config.Configure(true)
	installClock()
}

// recAuditor records the entries it is given.
type recAuditor struct {
	mu      sync.Mutex
	entries []audit.Entry
}

func (a *recAuditor) Store(_ context.Context, e audit.Entry) {
	a.mu.Lock()
	a.entries = append(a.entries, e)
	a.mu.Unlock()
}

func (a *recAuditor) take() []audit.Entry {
	a.mu.Lock()
	defer a.mu.Unlock()
	e := a.entries
	a.entries = nil
	return e
}

// caps describes what is known to differ between the backends without violating a property.
type caps struct {
	hidesExpired bool // a pull does not return expired messages which were not swept yet
	keepsOmitted bool // re-adding a message without a field keeps the old value
	noBraces     bool // queue names with braces are rejected
	memory       bool
	countsLocks  bool // the removal of a locked message from the cache may count twice, as the tests of the repository say
	sweepBatch   int  // messages of a queue which a sweep processes
	noNulKeys    bool // names of fields cannot contain NUL
}

// instance is a deckard service with its parts.
type instance struct {
	svc     *service.Deckard
	q       *queue.Queue
	cfg     *queue.DefaultQueueConfigurationService
	cache   cache.Cache
	storage storage.Storage
	aud     *recAuditor
	caps    caps
}

// wrap lets a check put its own layer between deckard and the backends.
type wrap struct {
	cache   func(cache.Cache) cache.Cache
	storage func(storage.Storage) storage.Storage
}

func newInstance(backend string, wraps ...wrap) *instance {
	in := &instance{aud: &recAuditor{}}
	switch backend {
	case "", "memory":
		in.cache = cache.NewMemoryCache()
		in.storage = storage.NewMemoryStorage(bg)
		in.caps = caps{hidesExpired: true, memory: true}
	case "redis", "cluster":
		in.cache = redisCacheFor(backend)
		in.storage = storage.NewMemoryStorage(bg)
		in.caps = caps{hidesExpired: true, noBraces: true, countsLocks: true, sweepBatch: 1000}
	case "mongo":
		in.cache = cache.NewMemoryCache()
		in.storage = mongoStorageFor()
		in.caps = caps{keepsOmitted: true, noNulKeys: true}
	case "full":
		in.cache = redisCacheFor("redis")
		in.storage = mongoStorageFor()
		in.caps = caps{keepsOmitted: true, noBraces: true, countsLocks: true, sweepBatch: 1000, noNulKeys: true}
	default:
		Must(fmt.Errorf("unknown backend %q", backend))
	}
	for _, w := range wraps {
		if w.cache != nil {
			in.cache = w.cache(in.cache)
		}
		if w.storage != nil {
			in.storage = w.storage(in.storage)
		}
	}
	in.cfg = queue.NewQueueConfigurationService(bg, in.storage)
	in.q = queue.NewQueue(in.aud, in.storage, in.cfg, in.cache)
	in.svc = service.NewDeckardInstance(in.q, in.cfg, in.caps.memory)
	return in
}

// wire sends a message through its encoding, so that nothing is shared between the caller and deckard, as with gRPC.
func wire[T proto.Message](m T) T {
	b, err := proto.Marshal(m)
	Must(err)
	out := m.ProtoReflect().New().Interface().(T)
	Must(proto.Unmarshal(b, out))
	return out
}

func rpc[Req, Res proto.Message](f func(context.Context, Req) (Res, error), req Req) (Res, error) {
	res, err := f(bg, wire(req))
	if err != nil {
		return res, err
	}
	b, err := proto.Marshal(res)
	if err != nil { // what a client of the gRPC server would get instead of the response
		return res, status.Errorf(codes.Internal, "the response cannot be encoded: %v", err)
	}
	out := res.ProtoReflect().New().Interface().(Res)
	Must(proto.Unmarshal(b, out))
	return out, nil
}
