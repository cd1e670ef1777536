package main

import (
	"context"
	"math"
	"sort"
	"sync"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/utils"
)

type mapEntry struct {
	pool  pool.PoolType
	score float64
	until int64
	seq   int64
}

// mapCache is an independent implementation of the cache, fast with many messages.
type mapCache struct {
	mu   sync.Mutex
	q    map[string]map[string]*mapEntry
	keys map[string]string
	seq  int64
}

func newMapCache() *mapCache {
	return &mapCache{q: map[string]map[string]*mapEntry{}, keys: map[string]string{}}
}

func (c *mapCache) Flush(context.Context) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.q, c.keys = map[string]map[string]*mapEntry{}, map[string]string{}
}

func (c *mapCache) Close(context.Context) error { return nil }

func (c *mapCache) Get(_ context.Context, k string) (string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.keys[k], nil
}

func (c *mapCache) Set(_ context.Context, k, v string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.keys[k] = v
	return nil
}

func until(d int64) int64 {
	n := dtime.NowMs()
	if d > 0 && n+d < n {
		return math.MaxInt64
	}
	return max(n+d, 0)
}

func (c *mapCache) put(e *mapEntry, p pool.PoolType, score float64, until int64) {
	c.seq++
	e.pool, e.score, e.until, e.seq = p, score, until, c.seq
}

func (c *mapCache) Insert(_ context.Context, q string, l ...*message.Message) ([]string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.q[q] == nil {
		c.q[q] = map[string]*mapEntry{}
	}
	ids := []string{}
	for _, m := range l {
		if c.q[q][m.ID] == nil {
			e := &mapEntry{}
			c.q[q][m.ID] = e
			c.put(e, pool.PRIMARY_POOL, m.Score, 0)
			ids = append(ids, m.ID)
		}
	}
	return ids, nil
}

func (c *mapCache) Remove(_ context.Context, q string, ids ...string) (n int64, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, id := range ids {
		if c.q[q][id] != nil {
			delete(c.q[q], id)
			n++
		}
	}
	return n, nil
}

func (c *mapCache) MakeAvailable(_ context.Context, m *message.Message) (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e := c.q[m.Queue][m.ID]
	if e == nil || e.pool != pool.PROCESSING_POOL {
		return false, nil
	}
	c.put(e, pool.PRIMARY_POOL, m.Score, 0)
	return true, nil
}

func (c *mapCache) IsProcessing(_ context.Context, q, id string) (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e := c.q[q][id]
	return e != nil && e.pool == pool.PROCESSING_POOL, nil
}

func (c *mapCache) PullMessages(_ context.Context, q string, n int64, min, max *float64, deadline int64) ([]string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if deadline == 0 {
		deadline = 300000
	}
	var ids []string
	for id, e := range c.q[q] {
		if e.pool == pool.PRIMARY_POOL && inRange(e.score, min, max) {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool {
		a, b := c.q[q][ids[i]], c.q[q][ids[j]]
		return a.score < b.score || a.score == b.score && a.seq < b.seq
	})
	if int64(len(ids)) > n {
		ids = ids[:n]
	}
	for _, id := range ids {
		c.put(c.q[q][id], pool.PROCESSING_POOL, 0, until(deadline))
	}
	return ids, nil
}

func (c *mapCache) release(q string, p pool.PoolType, f func(e *mapEntry)) ([]string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	ids := []string{}
	now := dtime.NowMs()
	for id, e := range c.q[q] {
		if e.pool == p && e.until <= now {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		f(c.q[q][id])
	}
	return ids, nil
}

func (c *mapCache) TimeoutMessages(_ context.Context, q string) ([]string, error) {
	return c.release(q, pool.PROCESSING_POOL, func(e *mapEntry) { c.put(e, pool.PRIMARY_POOL, 0, 0) })
}

func lockPool(t cache.LockType) pool.PoolType {
	if t == cache.LOCK_ACK {
		return pool.LOCK_ACK_POOL
	}
	return pool.LOCK_NACK_POOL
}

func (c *mapCache) LockMessage(_ context.Context, m *message.Message, t cache.LockType) (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e := c.q[m.Queue][m.ID]
	if e == nil || e.pool != pool.PROCESSING_POOL {
		return false, nil
	}
	c.put(e, lockPool(t), m.Score, until(m.LockMs))
	return true, nil
}

func (c *mapCache) UnlockMessages(_ context.Context, q string, t cache.LockType) ([]string, error) {
	return c.release(q, lockPool(t), func(e *mapEntry) {
		s := e.score
		if s < 0 {
			s = 0
			if t == cache.LOCK_ACK {
				s = float64(dtime.NowMs())
			}
		}
		c.put(e, pool.PRIMARY_POOL, s, 0)
	})
}

func (c *mapCache) ListQueues(_ context.Context, pattern string, p pool.PoolType) ([]string, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	qs := []string{}
	for q, l := range c.q {
		for _, e := range l {
			if e.pool == p && utils.MatchGlob(q, pattern) {
				qs = append(qs, q)
				break
			}
		}
	}
	sort.Strings(qs)
	return qs, nil
}
