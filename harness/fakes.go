package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/fakemongo"
	"github.com/takenet/deckard/internal/zzverif/fakeredis"
	"go.mongodb.org/mongo-driver/v2/bson"
)

// The fakes of Redis and MongoDB run in the process of the harness. There is one client per process, as connecting is slow.
// Each world starts with empty servers.

var (
	redisServers = map[string]*fakeredis.Server{}
	redisCaches  = map[string]*cache.RedisCache{}
	mongoServer  *fakemongo.Server
	mongoClient  *storage.MongoStorage
)

func redisURI(s *fakeredis.Server) string {
	uri := "redis://" + s.Addr(0)
	for i := 1; i < s.Nodes(); i++ {
		sep := "&"
		if i == 1 {
			sep = "?"
		}
		uri += sep + "addr=" + s.Addr(i)
	}
	return uri
}

func redisServer(kind string) *fakeredis.Server {
	if s := redisServers[kind]; s != nil {
		return s
	}
	addrs := []string{"127.0.0.1:0"}
	if kind == "cluster" {
		addrs = append(addrs, "127.0.0.1:0", "127.0.0.1:0")
	}
	s, err := fakeredis.Start(addrs...)
	Must(err)
	// several pages per listing, and keys which are listed twice, as happens with Redis
	s.ScanPage = 2
	s.ScanRepeats = true
	redisServers[kind] = s
	return s
}

// connectRedis makes a new client of a server.
func connectRedis(kind, prefix string) *cache.RedisCache {
	s := redisServer(kind)
	config.CacheUri.Set(redisURI(s))
	config.RedisClusterMode.Set(kind == "cluster")
	if prefix != "" {
		config.CachePrefix.Set(prefix)
	}
	defer config.Configure(true)
	c, err := cache.NewRedisCache(bg)
	Must(err)
	return c
}

func redisCacheFor(kind string) cache.Cache {
	redisServer(kind).Reset()
	if c := redisCaches[kind]; c != nil {
		return c
	}
	redisCaches[kind] = connectRedis(kind, "")
	return redisCaches[kind]
}

func mongoServerFor() *fakemongo.Server {
	if mongoServer == nil {
		s, err := fakemongo.Start("127.0.0.1:0", "127.0.0.1:0")
		Must(err)
		mongoServer = s
	}
	return mongoServer
}

func mongoURI(s *fakemongo.Server, nodes int) string {
	uri := "mongodb://" + s.Addr(0)
	for i := 1; i < nodes; i++ {
		uri += "," + s.Addr(i)
	}
	if nodes > 1 {
		uri += "/?replicaSet=rs0"
	}
	return uri
}

func mongoStorageFor() storage.Storage {
	s := mongoServerFor()
	s.Reset()
	if mongoClient == nil {
		config.StorageUri.Set(mongoURI(s, 2))
		defer config.Configure(true)
		c, err := storage.NewMongoStorage(bg)
		Must(err)
		mongoClient = c
		awaitPrimary(s, c)
	}
	return mongoClient
}

func runChild(name string, args []string) { Must(fmt.Errorf("unknown child %q", name)) }

// awaitPrimary waits until the client which is to read from the primary has found it.
func awaitPrimary(s *fakemongo.Server, c storage.Storage) {
	var primary atomic.Bool
	s.SetHook(func(node int, cmd string, _ bson.D) fakemongo.Action {
		if node == 0 && cmd == "find" {
			primary.Store(true)
		}
		return fakemongo.Action{}
	})
	defer s.SetHook(nil)
	for i := 0; i < 1000 && !primary.Load(); i++ {
		time.Sleep(time.Duration(i) * time.Millisecond / 50)
		_, _ = c.Find(bg, &storage.FindOptions{Retry: true, Limit: 1, InternalFilter: &storage.InternalFilter{Queue: "none"}})
	}
}
