package fakeredis

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Replies: nil, int64, float64 (a double), string (a bulk string), status, errReply, []any.
type (
	status   string
	errReply string
)

const wrongType = errReply("WRONGTYPE Operation against a key holding the wrong kind of value")

type member struct {
	score float64
	name  string
}

func (a member) less(b member) bool {
	return a.score < b.score || a.score == b.score && a.name < b.name
}

type zset struct {
	scores map[string]float64
	sorted []member
}

func (z *zset) pos(m member) int {
	return sort.Search(len(z.sorted), func(i int) bool { return !z.sorted[i].less(m) })
}

func (z *zset) remove(name string) bool {
	s, ok := z.scores[name]
	if !ok {
		return false
	}
	delete(z.scores, name)
	i := z.pos(member{s, name})
	z.sorted = append(z.sorted[:i], z.sorted[i+1:]...)
	return true
}

func (z *zset) put(name string, score float64) {
	z.remove(name)
	z.scores[name] = score
	m := member{score, name}
	i := z.pos(m)
	z.sorted = append(z.sorted, member{})
	copy(z.sorted[i+1:], z.sorted[i:])
	z.sorted[i] = m
}

type entry struct {
	str      string
	z        *zset
	hash     map[string]string
	set      map[string]bool
	expireAt int64 // ms, 0: never
	version  int64
}

func (e *entry) kind() string {
	switch {
	case e.z != nil:
		return "zset"
	case e.hash != nil:
		return "hash"
	case e.set != nil:
		return "set"
	}
	return "string"
}

type database map[string]*entry

// ctx is where a command runs.
type cctx struct {
	srv    *Server
	node   int
	db     int
	script bool
	write  bool
}

func (c *cctx) data() database {
	d := c.srv.dbs[c.db]
	if d == nil {
		d = database{}
		c.srv.dbs[c.db] = d
	}
	return d
}

func (c *cctx) get(k string) *entry {
	d := c.data()
	e := d[k]
	if e != nil && e.expireAt != 0 && e.expireAt <= time.Now().UnixMilli() {
		delete(d, k)
		return nil
	}
	return e
}

func (c *cctx) touch(k string) {
	c.srv.version++
	if e := c.data()[k]; e != nil {
		e.version = c.srv.version
	}
}

func (c *cctx) zset(k string, create bool) *zset {
	e := c.get(k)
	if e == nil {
		if !create {
			return nil
		}
		e = &entry{z: &zset{scores: map[string]float64{}}}
		c.data()[k] = e
	}
	if e.z == nil {
		panic(wrongType)
	}
	return e.z
}

func (c *cctx) dropIfEmpty(k string) {
	e := c.data()[k]
	if e != nil && (e.z != nil && len(e.z.scores) == 0 || e.hash != nil && len(e.hash) == 0 || e.set != nil && len(e.set) == 0) {
		delete(c.data(), k)
	}
}

func parseScore(s string) float64 {
	switch strings.ToLower(s) {
	case "inf", "+inf", "infinity", "+infinity":
		return math.Inf(1)
	case "-inf", "-infinity":
		return math.Inf(-1)
	}
	n, err := strconv.ParseFloat(s, 64)
	if err != nil || n != n || strings.Contains(s, "_") {
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange && !strings.Contains(s, "_") {
			return n
		}
		panic(errReply("ERR value is not a valid float"))
	}
	return n
}

func parseInt(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || s[0] == '+' {
		panic(errReply("ERR value is not an integer or out of range"))
	}
	return n
}

// fmtDouble is how Redis writes a score.
func fmtDouble(n float64) string {
	switch {
	case math.IsInf(n, 1):
		return "inf"
	case math.IsInf(n, -1):
		return "-inf"
	case n == math.Trunc(n) && math.Abs(n) < 1e17:
		return strconv.FormatFloat(n, 'f', -1, 64)
	}
	return strconv.FormatFloat(n, 'g', -1, 64)
}

type bound struct {
	v  float64
	ex bool
}

func parseBound(s string) bound {
	b := bound{}
	if strings.HasPrefix(s, "(") {
		b.ex = true
		s = s[1:]
	}
	defer func() {
		if recover() != nil {
			panic(errReply("ERR min or max is not a float"))
		}
	}()
	b.v = parseScore(s)
	return b
}

func inRange(s float64, lo, hi bound) bool {
	return (s > lo.v || !lo.ex && s == lo.v) && (s < hi.v || !hi.ex && s == hi.v)
}

func (z *zset) byScore(lo, hi bound, rev bool, off, count int64) []member {
	var out []member
	if z == nil || count == 0 {
		return nil
	}
	n := len(z.sorted)
	i := sort.Search(n, func(i int) bool { return z.sorted[i].score > lo.v || !lo.ex && z.sorted[i].score == lo.v })
	j := sort.Search(n, func(i int) bool { return z.sorted[i].score > hi.v || hi.ex && z.sorted[i].score == hi.v })
	if i >= j {
		return nil
	}
	sel := z.sorted[i:j]
	for k := range sel {
		m := sel[k]
		if rev {
			m = sel[len(sel)-1-k]
		}
		if off > 0 {
			off--
			continue
		}
		if off < 0 {
			return nil
		}
		out = append(out, m)
		if count > 0 {
			if count--; count == 0 {
				break
			}
		}
	}
	return out
}

func (z *zset) byRank(start, stop int64, rev bool) []member {
	if z == nil {
		return nil
	}
	n := int64(len(z.sorted))
	if start < 0 {
		start = max(0, n+start)
	}
	if stop < 0 {
		stop = n + stop
	}
	if stop >= n {
		stop = n - 1
	}
	var out []member
	for i := start; i <= stop; i++ {
		if rev {
			out = append(out, z.sorted[n-1-i])
		} else {
			out = append(out, z.sorted[i])
		}
	}
	return out
}

func members(ms []member, withScores bool) []any {
	out := []any{}
	for _, m := range ms {
		out = append(out, m.name)
		if withScores {
			out = append(out, fmtDouble(m.score))
		}
	}
	return out
}

// globMatch is Redis' stringmatchlen.
func globMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if globMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			s = s[1:]
		case '[':
			if s == "" {
				return false
			}
			p = p[1:]
			not := p != "" && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if p == "" {
					break
				}
				if p[0] == '\\' && len(p) >= 2 {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if match == not {
				return false
			}
			s = s[1:]
			if p == "" {
				return s == ""
			}
		default:
			if p[0] == '\\' && len(p) >= 2 {
				p = p[1:]
			}
			if s == "" || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
		if s == "" {
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			break
		}
	}
	return p == "" && s == ""
}

type command struct {
	min   int // number of arguments with the name, negative: at least
	keys  func(a []string) []string
	write bool
	run   func(c *cctx, a []string) any
}

func firstKey(a []string) []string { return a[1:2] }
func allKeys(a []string) []string  { return a[1:] }
func noKeys(a []string) []string   { return nil }
func evalKeys(a []string) []string {
	n, err := strconv.Atoi(a[2])
	if err != nil || n < 0 || n > len(a)-3 {
		return nil
	}
	return a[3 : 3+n]
}

var commands map[string]command

func init() {
	commands = map[string]command{
		"PING": {-1, noKeys, false, func(c *cctx, a []string) any {
			if len(a) > 1 {
				return a[1]
			}
			return status("PONG")
		}},
		"ECHO": {2, noKeys, false, func(c *cctx, a []string) any { return a[1] }},
		"TIME": {1, noKeys, false, func(c *cctx, a []string) any {
			t := time.Now()
			return []any{strconv.FormatInt(t.Unix(), 10), strconv.Itoa(t.Nanosecond() / 1000)}
		}},
		"GET": {2, firstKey, false, func(c *cctx, a []string) any {
			e := c.get(a[1])
			if e == nil {
				return nil
			}
			if e.kind() != "string" {
				return wrongType
			}
			return e.str
		}},
		"SET": {-3, firstKey, true, func(c *cctx, a []string) any {
			nx, xx, get, keep := false, false, false, false
			exp := int64(0)
			for i := 3; i < len(a); i++ {
				switch o := strings.ToUpper(a[i]); o {
				case "NX":
					nx = true
				case "XX":
					xx = true
				case "GET":
					get = true
				case "KEEPTTL":
					keep = true
				case "EX", "PX", "EXAT", "PXAT":
					i++
					if i >= len(a) {
						return errReply("ERR syntax error")
					}
					n := parseInt(a[i])
					if n <= 0 {
						return errReply("ERR invalid expire time in 'set' command")
					}
					if o[0] == 'E' {
						n *= 1000
					}
					if len(o) == 2 {
						n += time.Now().UnixMilli()
					}
					exp = n
				default:
					return errReply("ERR syntax error")
				}
			}
			old := c.get(a[1])
			var prev any
			if get && old != nil {
				if old.kind() != "string" {
					return wrongType
				}
				prev = old.str
			}
			if nx && old != nil || xx && old == nil {
				return prev
			}
			e := &entry{str: a[2], expireAt: exp}
			if keep && old != nil {
				e.expireAt = old.expireAt
			}
			c.data()[a[1]] = e
			if get {
				return prev
			}
			return status("OK")
		}},
		"SETNX": {3, firstKey, true, func(c *cctx, a []string) any {
			if c.get(a[1]) != nil {
				return int64(0)
			}
			c.data()[a[1]] = &entry{str: a[2]}
			return int64(1)
		}},
		"SETEX": {4, firstKey, true, func(c *cctx, a []string) any {
			c.data()[a[1]] = &entry{str: a[3], expireAt: time.Now().UnixMilli() + 1000*parseInt(a[2])}
			return status("OK")
		}},
		"MGET": {-2, allKeys, false, func(c *cctx, a []string) any {
			out := []any{}
			for _, k := range a[1:] {
				if e := c.get(k); e != nil && e.kind() == "string" {
					out = append(out, e.str)
				} else {
					out = append(out, nil)
				}
			}
			return out
		}},
		"INCR":   {2, firstKey, true, func(c *cctx, a []string) any { return incr(c, a[1], 1) }},
		"DECR":   {2, firstKey, true, func(c *cctx, a []string) any { return incr(c, a[1], -1) }},
		"INCRBY": {3, firstKey, true, func(c *cctx, a []string) any { return incr(c, a[1], parseInt(a[2])) }},
		"DEL":    {-2, allKeys, true, del},
		"UNLINK": {-2, allKeys, true, del},
		"EXISTS": {-2, allKeys, false, func(c *cctx, a []string) any {
			n := int64(0)
			for _, k := range a[1:] {
				if c.get(k) != nil {
					n++
				}
			}
			return n
		}},
		"TYPE": {2, firstKey, false, func(c *cctx, a []string) any {
			if e := c.get(a[1]); e != nil {
				return status(e.kind())
			}
			return status("none")
		}},
		"EXPIRE": {-3, firstKey, true, func(c *cctx, a []string) any { return expire(c, a[1], parseInt(a[2])*1000) }},
		"PEXPIRE": {-3, firstKey, true, func(c *cctx, a []string) any {
			return expire(c, a[1], parseInt(a[2]))
		}},
		"PERSIST": {2, firstKey, true, func(c *cctx, a []string) any {
			if e := c.get(a[1]); e != nil && e.expireAt != 0 {
				e.expireAt = 0
				return int64(1)
			}
			return int64(0)
		}},
		"TTL":  {2, firstKey, false, func(c *cctx, a []string) any { return ttl(c, a[1], 1000) }},
		"PTTL": {2, firstKey, false, func(c *cctx, a []string) any { return ttl(c, a[1], 1) }},
		"KEYS": {2, noKeys, false, func(c *cctx, a []string) any {
			out := []any{}
			for _, k := range c.ownKeys() {
				if globMatch(a[1], k) {
					out = append(out, k)
				}
			}
			return out
		}},
		"SCAN":   {-2, noKeys, false, scan},
		"DBSIZE": {1, noKeys, false, func(c *cctx, a []string) any { return int64(len(c.ownKeys())) }},
		"FLUSHDB": {-1, noKeys, true, func(c *cctx, a []string) any {
			for _, k := range c.ownKeys() {
				delete(c.data(), k)
			}
			return status("OK")
		}},
		"FLUSHALL": {-1, noKeys, true, func(c *cctx, a []string) any {
			if len(c.srv.nodes) > 1 {
				for _, k := range c.ownKeys() {
					delete(c.data(), k)
				}
			} else {
				c.srv.dbs = map[int]database{}
			}
			return status("OK")
		}},
		"ZADD": {-4, firstKey, true, zadd},
		"ZINCRBY": {4, firstKey, true, func(c *cctx, a []string) any {
			return zadd(c, []string{"ZADD", a[1], "INCR", a[2], a[3]})
		}},
		"ZREM": {-3, firstKey, true, func(c *cctx, a []string) any {
			z := c.zset(a[1], false)
			n := int64(0)
			if z != nil {
				for _, m := range a[2:] {
					if z.remove(m) {
						n++
					}
				}
				c.dropIfEmpty(a[1])
			}
			return n
		}},
		"ZSCORE": {3, firstKey, false, func(c *cctx, a []string) any {
			if z := c.zset(a[1], false); z != nil {
				if s, ok := z.scores[a[2]]; ok {
					return s
				}
			}
			return nil
		}},
		"ZMSCORE": {-3, firstKey, false, func(c *cctx, a []string) any {
			z := c.zset(a[1], false)
			out := []any{}
			for _, m := range a[2:] {
				var v any
				if z != nil {
					if s, ok := z.scores[m]; ok {
						v = s
					}
				}
				out = append(out, v)
			}
			return out
		}},
		"ZCARD": {2, firstKey, false, func(c *cctx, a []string) any {
			if z := c.zset(a[1], false); z != nil {
				return int64(len(z.sorted))
			}
			return int64(0)
		}},
		"ZCOUNT": {4, firstKey, false, func(c *cctx, a []string) any {
			return int64(len(c.zset(a[1], false).byScore(parseBound(a[2]), parseBound(a[3]), false, 0, -1)))
		}},
		"ZRANK":    {3, firstKey, false, func(c *cctx, a []string) any { return rank(c, a, false) }},
		"ZREVRANK": {3, firstKey, false, func(c *cctx, a []string) any { return rank(c, a, true) }},
		"ZRANGE":   {-4, firstKey, false, zrange},
		"ZREVRANGE": {-4, firstKey, false, func(c *cctx, a []string) any {
			return zrange(c, append(append([]string{}, a...), "REV"))
		}},
		"ZRANGEBYSCORE": {-4, firstKey, false, func(c *cctx, a []string) any {
			return zrange(c, append(append([]string{}, a...), "BYSCORE"))
		}},
		"ZREVRANGEBYSCORE": {-4, firstKey, false, func(c *cctx, a []string) any {
			return zrange(c, append(append([]string{}, a...), "BYSCORE", "REV"))
		}},
		"ZREMRANGEBYSCORE": {4, firstKey, true, func(c *cctx, a []string) any {
			z := c.zset(a[1], false)
			ms := z.byScore(parseBound(a[2]), parseBound(a[3]), false, 0, -1)
			return c.removeAll(a[1], ms)
		}},
		"ZREMRANGEBYRANK": {4, firstKey, true, func(c *cctx, a []string) any {
			return c.removeAll(a[1], c.zset(a[1], false).byRank(parseInt(a[2]), parseInt(a[3]), false))
		}},
		"ZPOPMIN": {-2, firstKey, true, func(c *cctx, a []string) any { return zpop(c, a, false) }},
		"ZPOPMAX": {-2, firstKey, true, func(c *cctx, a []string) any { return zpop(c, a, true) }},
		"HSET": {-4, firstKey, true, func(c *cctx, a []string) any {
			e := c.get(a[1])
			if e == nil {
				e = &entry{hash: map[string]string{}}
				c.data()[a[1]] = e
			}
			if e.hash == nil {
				return wrongType
			}
			if len(a)%2 != 0 {
				return errReply("ERR wrong number of arguments for 'hset' command")
			}
			n := int64(0)
			for i := 2; i < len(a); i += 2 {
				if _, ok := e.hash[a[i]]; !ok {
					n++
				}
				e.hash[a[i]] = a[i+1]
			}
			return n
		}},
		"HGET": {3, firstKey, false, func(c *cctx, a []string) any {
			if e := c.get(a[1]); e != nil {
				if e.hash == nil {
					return wrongType
				}
				if v, ok := e.hash[a[2]]; ok {
					return v
				}
			}
			return nil
		}},
		"HDEL": {-3, firstKey, true, func(c *cctx, a []string) any {
			n := int64(0)
			if e := c.get(a[1]); e != nil {
				if e.hash == nil {
					return wrongType
				}
				for _, f := range a[2:] {
					if _, ok := e.hash[f]; ok {
						n++
						delete(e.hash, f)
					}
				}
				c.dropIfEmpty(a[1])
			}
			return n
		}},
		"SADD": {-3, firstKey, true, func(c *cctx, a []string) any {
			e := c.get(a[1])
			if e == nil {
				e = &entry{set: map[string]bool{}}
				c.data()[a[1]] = e
			}
			if e.set == nil {
				return wrongType
			}
			n := int64(0)
			for _, m := range a[2:] {
				if !e.set[m] {
					n++
					e.set[m] = true
				}
			}
			return n
		}},
		"SREM": {-3, firstKey, true, func(c *cctx, a []string) any {
			n := int64(0)
			if e := c.get(a[1]); e != nil {
				if e.set == nil {
					return wrongType
				}
				for _, m := range a[2:] {
					if e.set[m] {
						n++
						delete(e.set, m)
					}
				}
				c.dropIfEmpty(a[1])
			}
			return n
		}},
		"SISMEMBER": {3, firstKey, false, func(c *cctx, a []string) any {
			if e := c.get(a[1]); e != nil {
				if e.set == nil {
					return wrongType
				}
				if e.set[a[2]] {
					return int64(1)
				}
			}
			return int64(0)
		}},
		"SMEMBERS": {2, firstKey, false, func(c *cctx, a []string) any {
			out := []any{}
			if e := c.get(a[1]); e != nil {
				if e.set == nil {
					return wrongType
				}
				for m := range e.set {
					out = append(out, m)
				}
			}
			return out
		}},
	}
	commands["EVAL"] = command{-3, evalKeys, true, func(c *cctx, a []string) any { return eval(c, a[1], "", a) }}
	commands["EVAL_RO"] = commands["EVAL"]
	commands["EVALSHA"] = command{-3, evalKeys, true, func(c *cctx, a []string) any { return eval(c, "", strings.ToLower(a[1]), a) }}
	commands["EVALSHA_RO"] = commands["EVALSHA"]
	commands["SCRIPT"] = command{-2, noKeys, false, func(c *cctx, a []string) any {
		switch strings.ToUpper(a[1]) {
		case "LOAD":
			sha := shaOf(a[2])
			if _, err := c.srv.compile(c.node, a[2]); err != nil {
				return errReply("ERR Error compiling script (new function): " + err.Error())
			}
			return sha
		case "EXISTS":
			out := []any{}
			for _, s := range a[2:] {
				n := int64(0)
				if c.srv.nodes[c.node].scripts[strings.ToLower(s)] != nil {
					n = 1
				}
				out = append(out, n)
			}
			return out
		case "FLUSH":
			c.srv.nodes[c.node].scripts = map[string]*funcExpr{}
			return status("OK")
		}
		return errReply("ERR unknown subcommand")
	}}
}

func (c *cctx) removeAll(k string, ms []member) int64 {
	if len(ms) > 0 {
		z := c.zset(k, false)
		for _, m := range append([]member{}, ms...) {
			z.remove(m.name)
		}
		c.dropIfEmpty(k)
	}
	return int64(len(ms))
}

func zpop(c *cctx, a []string, rev bool) any {
	n := int64(1)
	if len(a) > 2 {
		n = parseInt(a[2])
	}
	ms := append([]member{}, c.zset(a[1], false).byRank(0, n-1, rev)...)
	if n <= 0 {
		ms = nil
	}
	c.removeAll(a[1], ms)
	return members(ms, true)
}

func rank(c *cctx, a []string, rev bool) any {
	z := c.zset(a[1], false)
	if z == nil {
		return nil
	}
	s, ok := z.scores[a[2]]
	if !ok {
		return nil
	}
	i := z.pos(member{s, a[2]})
	if rev {
		i = len(z.sorted) - 1 - i
	}
	return int64(i)
}

func incr(c *cctx, k string, by int64) any {
	e := c.get(k)
	if e == nil {
		e = &entry{str: "0"}
		c.data()[k] = e
	}
	if e.kind() != "string" {
		return wrongType
	}
	n := parseInt(e.str) + by
	e.str = strconv.FormatInt(n, 10)
	return n
}

func del(c *cctx, a []string) any {
	n := int64(0)
	for _, k := range a[1:] {
		if c.get(k) != nil {
			n++
			delete(c.data(), k)
		}
	}
	return n
}

func expire(c *cctx, k string, ms int64) any {
	e := c.get(k)
	if e == nil {
		return int64(0)
	}
	if ms <= 0 {
		delete(c.data(), k)
	} else {
		e.expireAt = time.Now().UnixMilli() + ms
	}
	return int64(1)
}

func ttl(c *cctx, k string, unit int64) any {
	e := c.get(k)
	if e == nil {
		return int64(-2)
	}
	if e.expireAt == 0 {
		return int64(-1)
	}
	return (e.expireAt - time.Now().UnixMilli() + unit - 1) / unit
}

func zadd(c *cctx, a []string) any {
	nx, xx, gt, lt, ch, inc := false, false, false, false, false, false
	i := 2
flags:
	for ; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "NX":
			nx = true
		case "XX":
			xx = true
		case "GT":
			gt = true
		case "LT":
			lt = true
		case "CH":
			ch = true
		case "INCR":
			inc = true
		default:
			break flags
		}
	}
	rest := a[i:]
	if len(rest) == 0 || len(rest)%2 != 0 || inc && len(rest) > 2 {
		return errReply("ERR syntax error")
	}
	if nx && xx || nx && (gt || lt) || gt && lt {
		return errReply("ERR XX and NX, GT, LT, and/or NX options at the same time are not compatible")
	}
	scores := make([]float64, len(rest)/2)
	for j := range scores {
		scores[j] = parseScore(rest[2*j])
	}
	if e := c.get(a[1]); e != nil && e.z == nil {
		return wrongType
	}
	z := c.zset(a[1], !xx)
	if z == nil {
		if inc {
			return nil
		}
		return int64(0)
	}
	added, changed := int64(0), int64(0)
	var res any
	for j, s := range scores {
		name := rest[2*j+1]
		old, ok := z.scores[name]
		if inc && ok {
			s += old
			if s != s {
				return errReply("ERR resulting score is not a number (NaN)")
			}
		}
		if ok && nx || !ok && xx || ok && gt && s <= old || ok && lt && s >= old {
			continue
		}
		if !ok {
			added++
			changed++
		} else if old != s {
			changed++
		}
		z.put(name, s)
		res = s
	}
	c.dropIfEmpty(a[1])
	if inc {
		return res
	}
	if ch {
		return changed
	}
	return added
}

func zrange(c *cctx, a []string) any {
	byScore, rev, with, limited := false, false, false, false
	off, count := int64(0), int64(-1)
	for i := 4; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "BYSCORE":
			byScore = true
		case "REV":
			rev = true
		case "WITHSCORES":
			with = true
		case "LIMIT":
			if i+2 >= len(a) {
				return errReply("ERR syntax error")
			}
			off, count = parseInt(a[i+1]), parseInt(a[i+2])
			limited = true
			i += 2
		default:
			return errReply("ERR syntax error")
		}
	}
	if limited && !byScore {
		return errReply("ERR syntax error, LIMIT is only supported in combination with either BYSCORE or BYLEX")
	}
	if !byScore {
		start, stop := parseInt(a[2]), parseInt(a[3])
		return members(c.zset(a[1], false).byRank(start, stop, rev), with)
	}
	lo, hi := parseBound(a[2]), parseBound(a[3])
	if rev {
		lo, hi = hi, lo
	}
	return members(c.zset(a[1], false).byScore(lo, hi, rev, off, count), with)
}

func hashKey(k string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(k))
	return h.Sum32()
}

// ownKeys returns the keys of a node in the order of their hashes.
func (c *cctx) ownKeys() []string {
	var out []string
	for k := range c.data() {
		if c.get(k) != nil && (len(c.srv.nodes) == 1 || c.srv.owner[slotOf(k)] == c.node) {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := hashKey(out[i]), hashKey(out[j])
		return a < b || a == b && out[i] < out[j]
	})
	return out
}

// scan returns the keys in the order of their hashes. All keys which exist during the whole scan are returned, some of them
// may be returned more than once.
func scan(c *cctx, a []string) any {
	cur, err := strconv.ParseUint(a[1], 10, 64)
	if err != nil {
		return errReply("ERR invalid cursor")
	}
	pattern, count, kind := "*", int64(10), ""
	for i := 2; i < len(a); i += 2 {
		if i+1 >= len(a) {
			return errReply("ERR syntax error")
		}
		switch strings.ToUpper(a[i]) {
		case "MATCH":
			pattern = a[i+1]
		case "COUNT":
			count = parseInt(a[i+1])
			if count < 1 {
				return errReply("ERR syntax error")
			}
		case "TYPE":
			kind = strings.ToLower(a[i+1])
		default:
			return errReply("ERR syntax error")
		}
	}
	if c.srv.ScanPage > 0 && count > c.srv.ScanPage {
		count = c.srv.ScanPage
	}
	keys := []any{}
	next := uint64(0)
	seen := int64(0)
	last := uint64(0)
	for _, k := range c.ownKeys() {
		h := uint64(hashKey(k)) + 1
		if h < cur {
			continue
		}
		if seen >= count && h != last {
			next = h
			break
		}
		seen++
		last = h
		if globMatch(pattern, k) && (kind == "" || c.data()[k].kind() == kind) {
			keys = append(keys, k)
			if c.srv.ScanRepeats && h%3 == 0 {
				keys = append(keys, k)
			}
		}
	}
	return []any{strconv.FormatUint(next, 10), keys}
}

func shaOf(src string) string {
	h := sha1.Sum([]byte(src))
	return hex.EncodeToString(h[:])
}

func (s *Server) compile(node int, src string) (*funcExpr, error) {
	sha := shaOf(src)
	if f := s.nodes[node].scripts[sha]; f != nil {
		return f, nil
	}
	f, err := parse(src)
	if err != nil {
		return nil, err
	}
	s.nodes[node].scripts[sha] = f
	return f, nil
}

func eval(c *cctx, src, sha string, a []string) (res any) {
	if c.script {
		return errReply("ERR This Redis command is not allowed from script")
	}
	n, err := strconv.Atoi(a[2])
	if err != nil {
		return errReply("ERR value is not an integer or out of range")
	}
	if n < 0 {
		return errReply("ERR Number of keys can't be negative")
	}
	if n > len(a)-3 {
		return errReply("ERR Number of keys can't be greater than number of args")
	}
	f := c.srv.nodes[c.node].scripts[sha]
	if sha == "" {
		if f, err = c.srv.compile(c.node, src); err != nil {
			return errReply("ERR Error compiling script (new function): " + err.Error())
		}
	} else if f == nil {
		return errReply("NOSCRIPT No matching script. Please use EVAL.")
	}
	c.srv.Evals++
	list := func(items []string) *table {
		t := newTable()
		for _, s := range items {
			t.arr = append(t.arr, s)
		}
		return t
	}
	inner := &cctx{srv: c.srv, node: c.node, db: c.db, script: true}
	m := newVM(func(args []value, protected bool) value { return scriptCall(inner, args, protected) })
	m.globals.set("KEYS", list(a[3:3+n]))
	m.globals.set("ARGV", list(a[3+n:]))
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(luaError)
			if !ok {
				panic(r)
			}
			if t, ok := e.v.(*table); ok {
				if s, ok := t.get("err").(string); ok {
					res = errReply(s)
					return
				}
			}
			res = errReply("ERR " + tostr(e.v) + " script: " + shaOf(src))
		}
	}()
	out := m.invoke(&function{def: f}, nil)
	if len(out) == 0 {
		return nil
	}
	return fromLua(out[0])
}

func scriptCall(c *cctx, args []value, protected bool) value {
	a := make([]string, len(args))
	for i, v := range args {
		switch x := v.(type) {
		case string:
			a[i] = x
		case float64:
			if x == math.Trunc(x) && math.Abs(x) < 1e17 {
				a[i] = strconv.FormatFloat(x, 'f', -1, 64)
			} else {
				a[i] = fmtG(x, 17)
			}
		default:
			throw("Lua redis lib command arguments must be strings or integers")
		}
	}
	if len(a) == 0 {
		throw("Please specify at least one argument for this redis.call()")
	}
	r := c.srv.execute(c, a)
	if e, ok := r.(errReply); ok {
		t := newTable()
		t.set("err", string(e))
		if protected {
			return t
		}
		panic(luaError{t})
	}
	return toLua(r)
}

func toLua(r any) value {
	switch x := r.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case float64:
		return fmtDouble(x)
	case string:
		return x
	case status:
		t := newTable()
		t.set("ok", string(x))
		return t
	case errReply:
		t := newTable()
		t.set("err", string(x))
		return t
	case []any:
		t := newTable()
		for _, v := range x {
			t.arr = append(t.arr, toLua(v))
		}
		return t
	}
	panic(fmt.Sprintf("reply %T", r))
}

func fromLua(v value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case string:
		return x
	case *table:
		if s, ok := x.get("err").(string); ok {
			return errReply(s)
		}
		if s, ok := x.get("ok").(string); ok {
			return status(s)
		}
		out := []any{}
		for _, v := range x.arr {
			if v == nil {
				break
			}
			out = append(out, fromLua(v))
		}
		return out
	}
	return nil
}

var crcTable [256]uint16

func init() {
	for i := range crcTable {
		crc := uint16(i) << 8
		for j := 0; j < 8; j++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
		crcTable[i] = crc
	}
}

func slotOf(key string) int {
	if i := strings.IndexByte(key, '{'); i >= 0 {
		if j := strings.IndexByte(key[i+1:], '}'); j > 0 {
			key = key[i+1 : i+1+j]
		}
	}
	crc := uint16(0)
	for i := 0; i < len(key); i++ {
		crc = crc<<8 ^ crcTable[byte(crc>>8)^key[i]]
	}
	return int(crc) % 16384
}
