// Package fakemongo is a stand-in for MongoDB: a standalone server, or a replica set with a secondary which can lag.
package fakemongo

import (
	"bufio"
	"bytes"
	"cmp"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"
)

const (
	maxDocument = 16 * 1024 * 1024
	maxBatch    = 100000
	maxMessage  = 48000000
)

// Action is what happens to a command.
type Action struct {
	Drop  string // "before" or "after" it is executed: the connection is closed instead of an answer
	Err   string // answer with this error instead of executing the command
	After string // answer with this error after executing the command
	Part  bool   // After: only a part of the writes of the command is executed
	Code  int32
	Delay time.Duration
}

type document struct {
	d   bson.D
	seq int64
}

type collection struct {
	docs []*document
	byID map[string][]*document // by the field "id"
	ids  map[string]*document   // by the field "_id"
	seq  int64
}

type state map[string]*collection

func (s state) get(ns string) *collection {
	c := s[ns]
	if c == nil {
		c = &collection{byID: map[string][]*document{}, ids: map[string]*document{}}
		s[ns] = c
	}
	return c
}

func (s state) clone() state {
	out := state{}
	for ns, c := range s {
		n := out.get(ns)
		n.seq = c.seq
		for _, d := range c.docs {
			n.insert(&document{d.d, d.seq})
		}
	}
	return out
}

func idKey(v any) string {
	b, err := bson.Marshal(bson.D{{Key: "v", Value: v}})
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

func (c *collection) insert(d *document) {
	c.docs = append(c.docs, d)
	if id, ok := field(d.d, "id"); ok {
		if s, ok := id.(string); ok {
			c.byID[s] = append(c.byID[s], d)
		}
	}
	id, _ := field(d.d, "_id")
	c.ids[idKey(id)] = d
}

func (c *collection) removeAll(gone map[*document]bool) {
	if len(gone) == 0 {
		return
	}
	keep := c.docs[:0:0]
	for _, d := range c.docs {
		if !gone[d] {
			keep = append(keep, d)
			continue
		}
		if id, ok := field(d.d, "id"); ok {
			if s, ok := id.(string); ok {
				l := c.byID[s][:0:0]
				for _, x := range c.byID[s] {
					if x != d {
						l = append(l, x)
					}
				}
				if len(l) == 0 {
					delete(c.byID, s)
				} else {
					c.byID[s] = l
				}
			}
		}
		id, _ := field(d.d, "_id")
		delete(c.ids, idKey(id))
	}
	c.docs = keep
}

// candidates are the documents which can match a filter, in their natural order.
func (c *collection) candidates(filter bson.D) []*document {
	if v, ok := field(filter, "id"); ok {
		if s, ok := v.(string); ok {
			return c.byID[s]
		}
		if ops, ok := isOperators(v); ok && len(ops) == 1 && ops[0].Key == "$in" {
			if list, ok := ops[0].Value.(bson.A); ok {
				var out []*document
				seen := map[string]bool{}
				for _, x := range list {
					s, ok := x.(string)
					if !ok {
						return c.docs
					}
					if !seen[s] {
						seen[s] = true
						out = append(out, c.byID[s]...)
					}
				}
				sort.Slice(out, func(i, j int) bool { return out[i].seq < out[j].seq })
				return out
			}
		}
	}
	return c.docs
}

// folding marks a filter with a collation which ignores the case of letters.
const folding = "$$folding"

// collated is the filter of a command (or of a part of one) with its collation.
func collated(filter, command bson.D) bson.D {
	c := doc(command, "collation")
	if str(c, "locale") == "simple" {
		return filter
	}
	if n, ok := field(c, "strength"); ok && toFloat(n) < 3 {
		return append(slices.Clone(filter), bson.E{Key: folding, Value: true})
	}
	return filter
}

func folded(v any) any {
	switch x := v.(type) {
	case string:
		return strings.ToLower(x)
	case bson.D:
		out := bson.D{}
		for _, e := range x {
			out = append(out, bson.E{Key: e.Key, Value: folded(e.Value)})
		}
		return out
	case bson.A:
		out := bson.A{}
		for _, e := range x {
			out = append(out, folded(e))
		}
		return out
	}
	return v
}

func (c *collection) find(filter bson.D, limit int) []*document {
	var out []*document
	docs, look := c.candidates(filter), func(d bson.D) bson.D { return d }
	if _, ok := field(filter, folding); ok {
		docs, look = c.docs, func(d bson.D) bson.D { return folded(d).(bson.D) }
		filter = folded(filter[:len(filter)-1]).(bson.D)
	}
	for _, d := range docs {
		if matches(look(d.d), filter) {
			out = append(out, d)
			if limit > 0 && len(out) == limit {
				break
			}
		}
	}
	return out
}

type cursor struct {
	ns   string
	docs []bson.D
}

type node struct {
	ln    net.Listener
	addr  string
	conns map[net.Conn]bool
}

// Server is a standalone server (one address) or a replica set whose first node is the primary.
type Server struct {
	mu      sync.Mutex
	nodes   []*node
	data    state
	frozen  state // what secondaries see, nil: the same as the primary
	cursors map[int64]*cursor
	nextCur int64
	counter uint32
	retried map[string]bson.D
	closed  bool
	down    map[int]bool
	// Hook is called before each command except those of the monitoring, with the lock held
	Hook func(node int, cmd string, body bson.D) Action
	// MaxFirstBatch makes the batches of cursors smaller
	MaxBatch int
	part     bool // the current command fails in the middle
	Commands int64
	OnNode   []int64 // reads by node
	Unknown  []string
}

func Start(addrs ...string) (*Server, error) {
	s := &Server{data: state{}, cursors: map[int64]*cursor{}, retried: map[string]bson.D{}, OnNode: make([]int64, len(addrs))}
	for i, a := range addrs {
		network := "tcp"
		if strings.HasPrefix(a, "/") {
			network = "unix"
		}
		ln, err := net.Listen(network, a)
		if err != nil {
			s.Close()
			return nil, err
		}
		s.nodes = append(s.nodes, &node{ln: ln, addr: ln.Addr().String(), conns: map[net.Conn]bool{}})
		go s.serve(i, ln)
	}
	return s, nil
}

func (s *Server) Addr(i int) string { return s.nodes[i].addr }

// Reset removes all data and faults.
func (s *Server) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.data, s.frozen, s.cursors, s.retried = state{}, nil, map[int64]*cursor{}, map[string]bson.D{}
	s.Hook = nil
	s.MaxBatch = 0
	s.down = nil
}

func (s *Server) SetHook(h func(node int, cmd string, body bson.D) Action) {
	s.mu.Lock()
	s.Hook = h
	s.mu.Unlock()
}

// Lag makes secondaries see the current data until it is called with false.
func (s *Server) Lag(on bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.frozen = nil
	if on {
		s.frozen = s.data.clone()
	}
}

// Down makes a node drop all its connections, until it is called with false.
func (s *Server) Down(i int, on bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.down == nil {
		s.down = map[int]bool{}
	}
	s.down[i] = on
	if on {
		for c := range s.nodes[i].conns {
			c.Close()
		}
	}
}

// Documents returns the documents of a collection ("db.collection") of the primary.
func (s *Server) Documents(ns string) []bson.D {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []bson.D
	for _, d := range s.data.get(ns).docs {
		out = append(out, d.d)
	}
	return out
}

// Namespaces lists the collections with documents.
func (s *Server) Namespaces() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for ns, c := range s.data {
		if len(c.docs) > 0 {
			out = append(out, ns)
		}
	}
	sort.Strings(out)
	return out
}

// Disconnect closes all connections.
func (s *Server) Disconnect() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, n := range s.nodes {
		for c := range n.conns {
			c.Close()
		}
	}
}

func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	for _, n := range s.nodes {
		n.ln.Close()
		for c := range n.conns {
			c.Close()
		}
	}
	s.mu.Unlock()
}

func (s *Server) serve(i int, ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			c.Close()
			return
		}
		s.nodes[i].conns[c] = true
		s.mu.Unlock()
		go func() {
			s.handle(i, c)
			c.Close()
			s.mu.Lock()
			delete(s.nodes[i].conns, c)
			s.mu.Unlock()
		}()
	}
}

const (
	opReply = 1
	opQuery = 2004
	opMsg   = 2013
)

func cstring(b []byte) (string, []byte, bool) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return "", nil, false
	}
	return string(b[:i]), b[i+1:], true
}

func (s *Server) handle(i int, conn net.Conn) {
	r := bufio.NewReader(conn)
	reqID := uint32(1)
	for {
		head := make([]byte, 16)
		if _, err := io.ReadFull(r, head); err != nil {
			return
		}
		n := binary.LittleEndian.Uint32(head)
		if n < 16 || n > maxMessage {
			return
		}
		msg := make([]byte, n-16)
		if _, err := io.ReadFull(r, msg); err != nil {
			return
		}
		id, op := binary.LittleEndian.Uint32(head[4:]), binary.LittleEndian.Uint32(head[12:])
		var body bson.D
		noReply := false
		switch op {
		case opQuery:
			if len(msg) < 4 {
				return
			}
			_, rest, ok := cstring(msg[4:])
			if !ok || len(rest) < 8 || bson.Unmarshal(rest[8:], &body) != nil {
				return
			}
			body = append(body, bson.E{Key: "$db", Value: "admin"})
		case opMsg:
			if len(msg) < 5 {
				return
			}
			flags := binary.LittleEndian.Uint32(msg)
			noReply = flags&2 != 0
			rest := msg[4:]
			if flags&1 != 0 {
				rest = rest[:len(rest)-4]
			}
			var seqs bson.D
			for len(rest) > 0 {
				kind := rest[0]
				rest = rest[1:]
				if len(rest) < 4 {
					return
				}
				l := binary.LittleEndian.Uint32(rest)
				if int(l) > len(rest) {
					return
				}
				part := rest[:l]
				rest = rest[l:]
				if kind == 0 {
					if bson.Unmarshal(part, &body) != nil {
						return
					}
					continue
				}
				name, docs, ok := cstring(part[4:])
				if !ok {
					return
				}
				list := bson.A{}
				for len(docs) >= 4 {
					dl := binary.LittleEndian.Uint32(docs)
					if int(dl) > len(docs) {
						return
					}
					var d bson.D
					if bson.Unmarshal(docs[:dl], &d) != nil {
						return
					}
					list = append(list, d)
					docs = docs[dl:]
				}
				seqs = append(seqs, bson.E{Key: name, Value: list})
			}
			body = append(body, seqs...)
		default:
			return
		}
		res, drop := s.request(i, body)
		if drop {
			return
		}
		if noReply {
			continue
		}
		out, err := bson.Marshal(res)
		if err != nil {
			return
		}
		var buf []byte
		reqID++
		if op == opQuery {
			buf = make([]byte, 36, 36+len(out))
			binary.LittleEndian.PutUint32(buf[12:], opReply)
			binary.LittleEndian.PutUint32(buf[32:], 1)
		} else {
			buf = make([]byte, 21, 21+len(out))
			binary.LittleEndian.PutUint32(buf[12:], opMsg)
		}
		buf = append(buf, out...)
		binary.LittleEndian.PutUint32(buf, uint32(len(buf)))
		binary.LittleEndian.PutUint32(buf[4:], reqID)
		binary.LittleEndian.PutUint32(buf[8:], id)
		if _, err := conn.Write(buf); err != nil {
			return
		}
	}
}

func failure(code int32, name, msg string) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: msg}, {Key: "code", Value: code}, {Key: "codeName", Value: name}}
}

func (s *Server) hello(i int) bson.D {
	d := bson.D{{Key: "helloOk", Value: true}, {Key: "ismaster", Value: i == 0}, {Key: "isWritablePrimary", Value: i == 0},
		{Key: "maxBsonObjectSize", Value: int32(maxDocument)}, {Key: "maxMessageSizeBytes", Value: int32(maxMessage)},
		{Key: "maxWriteBatchSize", Value: int32(maxBatch)}, {Key: "localTime", Value: bson.NewDateTimeFromTime(time.Now())},
		{Key: "logicalSessionTimeoutMinutes", Value: int32(30)}, {Key: "connectionId", Value: int32(1)},
		{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(25)}, {Key: "readOnly", Value: false}}
	if len(s.nodes) > 1 {
		hosts := bson.A{}
		for _, n := range s.nodes {
			hosts = append(hosts, n.addr)
		}
		d = append(d, bson.D{{Key: "setName", Value: "rs0"}, {Key: "setVersion", Value: int32(1)}, {Key: "secondary", Value: i != 0},
			{Key: "hosts", Value: hosts}, {Key: "primary", Value: s.nodes[0].addr}, {Key: "me", Value: s.nodes[i].addr},
			{Key: "lastWrite", Value: bson.D{{Key: "lastWriteDate", Value: bson.NewDateTimeFromTime(time.Now())}}}}...)
	}
	return append(d, bson.E{Key: "ok", Value: 1.0})
}

func (s *Server) request(i int, body bson.D) (res bson.D, drop bool) {
	if len(body) == 0 {
		return failure(59, "CommandNotFound", "no command"), false
	}
	name := body[0].Key
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed || s.down[i] {
		return nil, true
	}
	switch strings.ToLower(name) {
	case "hello", "ismaster":
		return s.hello(i), false
	}
	s.Commands++
	var act Action
	if hook := s.Hook; hook != nil {
		s.mu.Unlock()
		act = hook(i, name, body)
		s.mu.Lock()
	}
	if act.Delay > 0 {
		s.mu.Unlock()
		time.Sleep(act.Delay)
		s.mu.Lock()
	}
	if act.Drop == "before" {
		return nil, true
	}
	if act.Err != "" {
		return failure(act.Code, "Injected", act.Err), false
	}
	key := ""
	if txn, ok := field(body, "txnNumber"); ok {
		lsid, _ := field(body, "lsid")
		key = idKey(lsid) + idKey(txn)
		if old, ok := s.retried[key]; ok {
			return old, act.Drop == "after"
		}
	}
	s.part = act.After != "" && act.Part
	res = s.run(i, name, body)
	if s.part && (name == "update" || name == "delete") {
		s.part, act.After = false, ""
	}
	if key != "" {
		s.retried[key] = res
	}
	if act.After != "" {
		res = failure(act.Code, "Injected", act.After)
	}
	return res, act.Drop == "after"
}

func str(d bson.D, key string) string {
	v, _ := field(d, key)
	x, _ := v.(string)
	return x
}

func doc(d bson.D, key string) bson.D {
	v, _ := field(d, key)
	x, _ := v.(bson.D)
	return x
}

func num(d bson.D, key string) int64 {
	v, _ := field(d, key)
	return int64(toFloat(v))
}

func list(d bson.D, key string) bson.A {
	v, _ := field(d, key)
	x, _ := v.(bson.A)
	return x
}

func (s *Server) newID() bson.ObjectID {
	s.counter++
	var id bson.ObjectID
	binary.BigEndian.PutUint32(id[:], uint32(time.Now().Unix()))
	copy(id[4:9], "fakem")
	id[9], id[10], id[11] = byte(s.counter>>16), byte(s.counter>>8), byte(s.counter)
	return id
}

func (s *Server) run(i int, name string, body bson.D) (res bson.D) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(badRequest)
			if !ok {
				panic(r)
			}
			res = failure(b.code, b.name, b.msg)
		}
	}()
	ok := bson.E{Key: "ok", Value: 1.0}
	coll, _ := body[0].Value.(string)
	ns := str(body, "$db") + "." + coll
	view := s.data
	if i > 0 && s.frozen != nil {
		view = s.frozen
	}
	switch name {
	case "ping", "endSessions", "killSessions", "createIndexes", "saslStart", "refreshSessions", "create":
		return bson.D{ok}
	case "buildInfo", "buildinfo":
		return bson.D{{Key: "version", Value: "8.0.0"}, {Key: "versionArray", Value: bson.A{int32(8), int32(0), int32(0), int32(0)}}, ok}
	case "killCursors":
		for _, c := range list(body, "cursors") {
			delete(s.cursors, c.(int64))
		}
		return bson.D{{Key: "cursorsKilled", Value: list(body, "cursors")}, ok}
	case "insert", "update", "delete", "findAndModify", "drop", "dropDatabase":
		if i > 0 {
			return failure(10107, "NotWritablePrimary", "not primary")
		}
	case "find", "count", "distinct", "aggregate":
		s.OnNode[i]++
	}
	switch name {
	case "insert":
		return append(s.insert(ns, body), ok)
	case "update":
		return append(s.update(ns, body), ok)
	case "delete":
		return append(s.delete(ns, body), ok)
	case "drop":
		delete(s.data, ns)
		return bson.D{ok}
	case "dropDatabase":
		for k := range s.data {
			if strings.HasPrefix(k, str(body, "$db")+".") {
				delete(s.data, k)
			}
		}
		return bson.D{ok}
	case "find":
		docs := s.query(view.get(ns), collated(doc(body, "filter"), body), doc(body, "sort"), num(body, "skip"), num(body, "limit"))
		out := make([]bson.D, len(docs))
		for j, d := range docs {
			out[j] = project(d, doc(body, "projection"))
		}
		size, has := field(body, "batchSize")
		first := 101
		if has {
			first = int(toFloat(size))
		}
		single, _ := field(body, "singleBatch")
		if b, _ := single.(bool); b {
			first = len(out)
		}
		return bson.D{{Key: "cursor", Value: s.batch(ns, out, first, "firstBatch", single == true, has && first == 0)}, ok}
	case "getMore":
		id, _ := body[0].Value.(int64)
		c := s.cursors[id]
		if c == nil {
			return failure(43, "CursorNotFound", "cursor id not found")
		}
		delete(s.cursors, id)
		n := int(num(body, "batchSize"))
		if n <= 0 {
			n = len(c.docs)
		}
		return bson.D{{Key: "cursor", Value: s.batch(c.ns, c.docs, n, "nextBatch", false, false)}, ok}
	case "count":
		n := len(s.query(view.get(ns), collated(doc(body, "query"), body), nil, num(body, "skip"), num(body, "limit")))
		return bson.D{{Key: "n", Value: int32(n)}, ok}
	case "distinct":
		var vals bson.A
		seen := map[string]bool{}
		for _, d := range s.query(view.get(ns), collated(doc(body, "query"), body), nil, 0, 0) {
			v, has := lookup(d, str(body, "key"))
			if !has {
				continue
			}
			if k := idKey(v); !seen[k] {
				seen[k] = true
				vals = append(vals, v)
			}
		}
		if vals == nil {
			vals = bson.A{}
		}
		sort.SliceStable(vals, func(a, b int) bool { return compare(vals[a], vals[b]) < 0 })
		return bson.D{{Key: "values", Value: vals}, ok}
	case "aggregate":
		out := s.aggregate(view.get(ns), list(body, "pipeline"), body)
		return bson.D{{Key: "cursor", Value: s.batch(ns, out, max(len(out), 1), "firstBatch", true, false)}, ok}
	}
	s.Unknown = append(s.Unknown, name)
	return failure(59, "CommandNotFound", "no such command: '"+name+"'")
}

func (s *Server) batch(ns string, docs []bson.D, n int, key string, single, zero bool) bson.D {
	if s.MaxBatch > 0 && n > s.MaxBatch && !single {
		n = s.MaxBatch
	}
	if n > len(docs) {
		n = len(docs)
	}
	size := 0
	for j := 0; j < n; j++ {
		if b, err := bson.Marshal(docs[j]); err == nil {
			size += len(b)
		}
		if size > maxDocument && j > 0 {
			n = j
			break
		}
	}
	arr := bson.A{}
	for _, d := range docs[:n] {
		arr = append(arr, d)
	}
	id := int64(0)
	if n < len(docs) || zero {
		s.nextCur++
		id = s.nextCur
		s.cursors[id] = &cursor{ns, docs[n:]}
	}
	return bson.D{{Key: key, Value: arr}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}
}

func (s *Server) query(c *collection, filter, order bson.D, skip, limit int64) []bson.D {
	found := c.find(filter, 0)
	if len(order) == 0 {
		found = scrambled(found)
	}
	var out []bson.D
	for _, d := range found {
		out = append(out, d.d)
	}
	if len(order) > 0 {
		sort.SliceStable(out, func(a, b int) bool {
			for _, e := range order {
				va, _ := lookup(out[a], e.Key)
				vb, _ := lookup(out[b], e.Key)
				if r := compare(va, vb); r != 0 {
					return (r < 0) == (toFloat(e.Value) >= 0)
				}
			}
			return false
		})
	}
	if skip > 0 {
		out = out[min(int(skip), len(out)):]
	}
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 && int(limit) < len(out) {
		out = out[:limit]
	}
	return out
}

// scrambled are documents in an order of their own: a server promises none to a query which does not sort.
func scrambled(docs []*document) []*document {
	docs = slices.Clone(docs)
	key := func(d *document) uint64 {
		x := uint64(d.seq) * 0x9e3779b97f4a7c15
		x ^= x >> 32
		return x * 0xd6e8feb86659fd93
	}
	slices.SortFunc(docs, func(a, b *document) int { return cmp.Compare(key(a), key(b)) })
	return docs
}

func (s *Server) aggregate(c *collection, pipeline bson.A, body bson.D) []bson.D {
	docs := s.query(c, nil, nil, 0, 0)
	for k, st := range pipeline {
		stage := st.(bson.D)[0]
		switch stage.Key {
		case "$match":
			if k == 0 {
				docs = s.query(c, collated(stage.Value.(bson.D), body), nil, 0, 0)
				continue
			}
			var keep []bson.D
			for _, d := range docs {
				if matches(d, stage.Value.(bson.D)) {
					keep = append(keep, d)
				}
			}
			docs = keep
		case "$sort":
			order := stage.Value.(bson.D)
			sort.SliceStable(docs, func(a, b int) bool {
				for _, e := range order {
					va, _ := lookup(docs[a], e.Key)
					vb, _ := lookup(docs[b], e.Key)
					if r := compare(va, vb); r != 0 {
						return (r < 0) == (toFloat(e.Value) >= 0)
					}
				}
				return false
			})
		case "$skip":
			docs = docs[min(int(toFloat(stage.Value)), len(docs)):]
		case "$limit":
			docs = docs[:min(int(toFloat(stage.Value)), len(docs))]
		case "$project":
			out := make([]bson.D, len(docs))
			for i, d := range docs {
				out[i] = project(d, stage.Value.(bson.D))
			}
			docs = out
		case "$count":
			if len(docs) > 0 {
				docs = []bson.D{{{Key: stage.Value.(string), Value: int32(len(docs))}}}
			}
		case "$group":
			docs = group(docs, stage.Value.(bson.D))
		default:
			fail(40324, "Location40324", "Unrecognized pipeline stage name: '"+stage.Key+"'")
		}
	}
	return docs
}

func expression(d bson.D, v any) any {
	if p, ok := v.(string); ok && strings.HasPrefix(p, "$") {
		x, _ := lookup(d, p[1:])
		return x
	}
	return v
}

func group(docs []bson.D, spec bson.D) []bson.D {
	var keys []string
	groups := map[string]bson.D{}
	for _, d := range docs {
		idExpr, _ := field(spec, "_id")
		id := expression(d, idExpr)
		k := idKey(id)
		g, ok := groups[k]
		if !ok {
			g = bson.D{{Key: "_id", Value: id}}
			keys = append(keys, k)
		}
		for _, e := range spec {
			if e.Key == "_id" {
				continue
			}
			op := e.Value.(bson.D)[0]
			v := expression(d, op.Value)
			old, had := field(g, e.Key)
			switch op.Key {
			case "$sum":
				if typeOrder(v) != 2 {
					v = int32(0)
				}
				if had {
					v = add(old, v)
				}
			case "$min":
				if had && compare(old, v) <= 0 {
					v = old
				}
			case "$max":
				if had && compare(old, v) >= 0 {
					v = old
				}
			case "$first":
				if had {
					v = old
				}
			case "$last":
			default:
				fail(15952, "Location15952", "unknown group operator '"+op.Key+"'")
			}
			g = setPath(g, e.Key, v)
		}
		groups[k] = g
	}
	var out []bson.D
	for _, k := range keys {
		out = append(out, groups[k])
	}
	return out
}

func checkSize(d bson.D) {
	b, err := bson.Marshal(d)
	if err != nil {
		fail(2, "BadValue", err.Error())
	}
	if len(b) > maxDocument {
		fail(10334, "BSONObjectTooLarge", "object to insert too large")
	}
}

type writeErrors struct {
	list bson.A
}

// try runs one of the writes of a command.
func (w *writeErrors) try(i int, f func()) (failed bool) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(badRequest)
			if !ok {
				panic(r)
			}
			w.list = append(w.list, bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: b.code}, {Key: "errmsg", Value: b.msg}})
			failed = true
		}
	}()
	f()
	return false
}

func ordered(body bson.D) bool {
	v, ok := field(body, "ordered")
	b, isB := v.(bool)
	return !ok || !isB || b
}

func (c *collection) add(d bson.D) {
	checkSize(d)
	id, _ := field(d, "_id")
	if c.ids[idKey(id)] != nil {
		fail(11000, "DuplicateKey", "E11000 duplicate key error")
	}
	c.seq++
	c.insert(&document{d, c.seq})
}

func (s *Server) insert(ns string, body bson.D) bson.D {
	c := s.data.get(ns)
	w := &writeErrors{}
	n := 0
	for j, x := range list(body, "documents") {
		d := x.(bson.D)
		if w.try(j, func() {
			if _, ok := field(d, "_id"); !ok {
				d = append(bson.D{{Key: "_id", Value: s.newID()}}, d...)
			}
			c.add(d)
			n++
		}) && ordered(body) {
			break
		}
	}
	return w.reply(bson.D{{Key: "n", Value: int32(n)}})
}

func (w *writeErrors) reply(d bson.D) bson.D {
	if len(w.list) > 0 {
		d = append(d, bson.E{Key: "writeErrors", Value: w.list})
	}
	return d
}

func (s *Server) update(ns string, body bson.D) bson.D {
	c := s.data.get(ns)
	w := &writeErrors{}
	n, modified := 0, 0
	upserted := bson.A{}
	for j, x := range list(body, "updates") {
		u := x.(bson.D)
		if w.try(j, func() {
			if s.part && j%2 == 0 {
				fail(8000, "Injected", "this write failed")
			}
			filter := doc(u, "q")
			up, _ := field(u, "u")
			multi, _ := field(u, "multi")
			ups, _ := field(u, "upsert")
			limit := 1
			if multi == true {
				limit = 0
			}
			found := c.find(collated(filter, u), limit)
			for _, d := range found {
				after := update(d.d, up, false)
				checkSize(after)
				n++
				if compare(d.d, after) != 0 || !sameTypes(d.d, after) {
					modified++
					oldID, _ := field(d.d, "id")
					newID, _ := field(after, "id")
					d.d = after
					if compare(oldID, newID) != 0 {
						c.reindex()
					}
				}
			}
			if len(found) == 0 && ups == true {
				d := bson.D{}
				for _, e := range filter {
					if strings.HasPrefix(e.Key, "$") {
						continue
					}
					if ops, ok := isOperators(e.Value); ok {
						if v, has := field(ops, "$eq"); has {
							d = setPath(d, e.Key, v)
						}
						continue
					}
					d = setPath(d, e.Key, e.Value)
				}
				d = update(d, up, true)
				if _, ok := field(d, "_id"); !ok {
					d = append(bson.D{{Key: "_id", Value: s.newID()}}, d...)
				}
				c.add(d)
				n++
				id, _ := field(d, "_id")
				upserted = append(upserted, bson.D{{Key: "index", Value: int32(j)}, {Key: "_id", Value: id}})
			}
		}) && ordered(body) {
			break
		}
	}
	res := bson.D{{Key: "n", Value: int32(n)}, {Key: "nModified", Value: int32(modified)}}
	if len(upserted) > 0 {
		res = append(res, bson.E{Key: "upserted", Value: upserted})
	}
	return w.reply(res)
}

func sameTypes(a, b bson.D) bool {
	x, err1 := bson.Marshal(a)
	y, err2 := bson.Marshal(b)
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

func (c *collection) reindex() {
	docs := c.docs
	c.docs, c.byID, c.ids = nil, map[string][]*document{}, map[string]*document{}
	for _, d := range docs {
		c.insert(d)
	}
}

func (s *Server) delete(ns string, body bson.D) bson.D {
	c := s.data.get(ns)
	w := &writeErrors{}
	n := 0
	for j, x := range list(body, "deletes") {
		d := x.(bson.D)
		if w.try(j, func() {
			gone := map[*document]bool{}
			for k, f := range c.find(collated(doc(d, "q"), d), int(num(d, "limit"))) {
				if !s.part || k%2 == 1 {
					gone[f] = true
				}
			}
			c.removeAll(gone)
			n += len(gone)
			if s.part {
				fail(8000, "Injected", "this deletion was interrupted")
			}
		}) && ordered(body) {
			break
		}
	}
	return w.reply(bson.D{{Key: "n", Value: int32(n)}})
}
