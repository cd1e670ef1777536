package main

import (
	"context"
	"errors"
	"strings"
	"sync"

	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/fakemongo"
	"github.com/takenet/deckard/internal/zzverif/fakeredis"
	"go.mongodb.org/mongo-driver/v2/bson"
)

var errInjected = errors.New("injected failure")
var errPart = errors.New("injected failure in the middle") // of a write of MongoDB which consists of several

// control decides what happens at each call of a backend: an error before it takes effect, or after it.
type control struct {
	mu   sync.Mutex
	n    int
	hook func(i int, call string) (before, after error)
}

func (c *control) at(call string) (error, error) {
	c.mu.Lock()
	i := c.n
	c.n++
	hook := c.hook
	c.mu.Unlock()
	if hook == nil {
		return nil, nil
	}
	return hook(i, call)
}

// set changes what happens at the calls.
func (c *control) set(hook func(i int, call string) (before, after error)) {
	c.mu.Lock()
	c.hook = hook
	c.mu.Unlock()
}

// network puts the control between the clients of deckard and the servers of its backends: each of their commands is a call.
// The commands with which clients connect are no calls.
func (c *control) network(h *H, backend string, batch int) {
	if backend == "redis" || backend == "full" {
		s := redisServer("redis")
		s.SetHook(func(_ int, args []string) (act fakeredis.Action) {
			name := strings.ToLower(args[0])
			switch name {
			case "hello", "auth", "client", "select", "ping", "cluster", "command", "script", "readonly", "quit", "multi", "exec":
				return
			}
			before, after := c.at("cache." + name)
			if before != nil {
				act.Err = "ERR " + before.Error()
			}
			if after != nil {
				act.After = "ERR " + after.Error()
			}
			return
		})
		h.Cleanup(func() { s.SetHook(nil) })
	}
	if backend == "mongo" || backend == "full" {
		s := mongoServerFor()
		s.MaxBatch = batch // so that most results need further commands, which may fail as well
		s.SetHook(func(_ int, cmd string, _ bson.D) (act fakemongo.Action) {
			switch cmd {
			case "endSessions", "killCursors", "ping", "createIndexes", "listCollections", "listIndexes", "saslStart", "saslContinue":
				return
			}
			before, after := c.at("storage." + cmd)
			act.Code = 8000
			if before != nil {
				act.Err = before.Error()
			}
			if after != nil {
				act.After, act.Part = after.Error(), after == errPart
			}
			return
		})
		h.Cleanup(func() { s.SetHook(nil) })
	}
}

// layer puts the control between deckard and its backends.
func (c *control) layer() wrap {
	return wrap{
		cache:   func(x cache.Cache) cache.Cache { return &ctlCache{x, c} },
		storage: func(x storage.Storage) storage.Storage { return &ctlStorage{x, c} },
	}
}

type ctlCache struct {
	cache.Cache
	c *control
}

// around runs a call of a backend under the control.
func around[T any](c *control, call string, f func() (T, error)) (T, error) {
	var zero T
	before, after := c.at(call)
	if before != nil {
		return zero, before
	}
	v, err := f()
	if after != nil {
		return zero, after
	}
	return v, err
}

func (x *ctlCache) ValidateQueueName(q string) error {
	if v, ok := x.Cache.(interface{ ValidateQueueName(string) error }); ok {
		return v.ValidateQueueName(q)
	}
	return nil
}
func (x *ctlCache) MakeAvailable(ctx context.Context, m *message.Message) (bool, error) {
	return around(x.c, "cache.MakeAvailable", func() (bool, error) { return x.Cache.MakeAvailable(ctx, m) })
}
func (x *ctlCache) IsProcessing(ctx context.Context, q, id string) (bool, error) {
	return around(x.c, "cache.IsProcessing", func() (bool, error) { return x.Cache.IsProcessing(ctx, q, id) })
}
func (x *ctlCache) PullMessages(ctx context.Context, q string, n int64, min, max *float64, deadline int64) ([]string, error) {
	return around(x.c, "cache.PullMessages", func() ([]string, error) { return x.Cache.PullMessages(ctx, q, n, min, max, deadline) })
}
func (x *ctlCache) TimeoutMessages(ctx context.Context, q string) ([]string, error) {
	return around(x.c, "cache.TimeoutMessages", func() ([]string, error) { return x.Cache.TimeoutMessages(ctx, q) })
}
func (x *ctlCache) LockMessage(ctx context.Context, m *message.Message, t cache.LockType) (bool, error) {
	return around(x.c, "cache.LockMessage", func() (bool, error) { return x.Cache.LockMessage(ctx, m, t) })
}
func (x *ctlCache) UnlockMessages(ctx context.Context, q string, t cache.LockType) ([]string, error) {
	return around(x.c, "cache.UnlockMessages", func() ([]string, error) { return x.Cache.UnlockMessages(ctx, q, t) })
}
func (x *ctlCache) ListQueues(ctx context.Context, p string, t pool.PoolType) ([]string, error) {
	return around(x.c, "cache.ListQueues", func() ([]string, error) { return x.Cache.ListQueues(ctx, p, t) })
}
func (x *ctlCache) Insert(ctx context.Context, q string, m ...*message.Message) ([]string, error) {
	return around(x.c, "cache.Insert", func() ([]string, error) { return x.Cache.Insert(ctx, q, m...) })
}
func (x *ctlCache) Remove(ctx context.Context, q string, ids ...string) (int64, error) {
	return around(x.c, "cache.Remove", func() (int64, error) { return x.Cache.Remove(ctx, q, ids...) })
}
func (x *ctlCache) Get(ctx context.Context, k string) (string, error) {
	return around(x.c, "cache.Get", func() (string, error) { return x.Cache.Get(ctx, k) })
}
func (x *ctlCache) Set(ctx context.Context, k, v string) error {
	_, err := around(x.c, "cache.Set", func() (bool, error) { return true, x.Cache.Set(ctx, k, v) })
	return err
}

type ctlStorage struct {
	storage.Storage
	c *control
}

func (x *ctlStorage) Insert(ctx context.Context, m ...*message.Message) (int64, int64, error) {
	var a, b int64
	_, err := around(x.c, "storage.Insert", func() (bool, error) {
		var err error
		a, b, err = x.Storage.Insert(ctx, m...)
		return true, err
	})
	if err != nil {
		return 0, 0, err
	}
	return a, b, nil
}
func (x *ctlStorage) Find(ctx context.Context, o *storage.FindOptions) ([]message.Message, error) {
	return around(x.c, "storage.Find", func() ([]message.Message, error) { return x.Storage.Find(ctx, o) })
}
func (x *ctlStorage) Remove(ctx context.Context, q string, ids ...string) (int64, error) {
	return around(x.c, "storage.Remove", func() (int64, error) { return x.Storage.Remove(ctx, q, ids...) })
}
func (x *ctlStorage) Ack(ctx context.Context, m *message.Message) (int64, error) {
	return around(x.c, "storage.Ack", func() (int64, error) { return x.Storage.Ack(ctx, m) })
}
func (x *ctlStorage) Nack(ctx context.Context, m *message.Message) (int64, error) {
	return around(x.c, "storage.Nack", func() (int64, error) { return x.Storage.Nack(ctx, m) })
}
func (x *ctlStorage) ListQueueNames(ctx context.Context) ([]string, error) {
	return around(x.c, "storage.ListQueueNames", func() ([]string, error) { return x.Storage.ListQueueNames(ctx) })
}
func (x *ctlStorage) ListQueuePrefixes(ctx context.Context) ([]string, error) {
	return around(x.c, "storage.ListQueuePrefixes", func() ([]string, error) { return x.Storage.ListQueuePrefixes(ctx) })
}
func (x *ctlStorage) Count(ctx context.Context, f *storage.FindOptions, o *storage.CountOptions) (int64, error) {
	return around(x.c, "storage.Count", func() (int64, error) { return x.Storage.Count(ctx, f, o) })
}
func (x *ctlStorage) EditQueueConfiguration(ctx context.Context, c *configuration.QueueConfiguration) error {
	_, err := around(x.c, "storage.EditQueueConfiguration", func() (bool, error) { return true, x.Storage.EditQueueConfiguration(ctx, c) })
	return err
}
func (x *ctlStorage) GetQueueConfiguration(ctx context.Context, q string) (*configuration.QueueConfiguration, error) {
	return around(x.c, "storage.GetQueueConfiguration", func() (*configuration.QueueConfiguration, error) { return x.Storage.GetQueueConfiguration(ctx, q) })
}
func (x *ctlStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
	return around(x.c, "storage.ListQueueConfigurations", func() ([]*configuration.QueueConfiguration, error) { return x.Storage.ListQueueConfigurations(ctx) })
}
func (x *ctlStorage) Flush(ctx context.Context) (int64, error) {
	return around(x.c, "storage.Flush", func() (int64, error) { return x.Storage.Flush(ctx) })
}
