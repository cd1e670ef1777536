package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// The life of connections: servers with generated keepalive settings, and clients which speak HTTP/2 themselves and record what happens to
// their connections. A server must not end a connection or a call before its settings allow it, and has to once they demand it.

// span is a duration as it is configured: milliseconds (0: not set) and how it is written.
type span struct{ Ms, Format int }

func (s span) set() bool { return s.Ms != 0 }

func (s span) d() time.Duration { return time.Duration(s.Ms) * time.Millisecond }

func (s span) String() string {
	switch {
	case s.Ms == 0:
		return ""
	case s.Format == 1:
		return fmt.Sprintf("%dms", s.Ms)
	case s.Format == 2:
		return fmt.Sprintf("%gs", float64(s.Ms)/1000)
	case s.Format == 3:
		return fmt.Sprintf("0h%ds%dms", s.Ms/1000, s.Ms%1000)
	}
	return s.d().String()
}

type lifeClient struct {
	Kind string // quiet: no calls; busy: a call after the other; hanging: a call whose request is sent later; library: the client of grpc
	Mute bool   // no frame of the server is answered
	Gap  int    // milliseconds between the calls of a busy one
	Send int    // when the request of the hanging call is sent; -1: never
}

type lifeServer struct {
	Time, Timeout, Idle, Age, Grace span
	Clients                         []lifeClient
}

type lifeCase struct{ Servers []lifeServer }

const (
	lifeWindow = 3500 * time.Millisecond // what must not happen is watched for
	lifeSlack  = 12 * time.Second        // what has to happen may be late
)

func genLife(t *rapid.T) lifeCase {
	sp := func(n string, set int, values ...int) span {
		if rapid.IntRange(0, 9).Draw(t, n+"?") >= set {
			return span{}
		}
		return span{rapid.OneOf(rapid.SampledFrom(values), rapid.IntRange(values[0], values[len(values)-1])).Draw(t, n), rapid.IntRange(0, 3).Draw(t, "format")}
	}
	c := lifeCase{}
	for range rapid.IntRange(8, 16).Draw(t, "servers") {
		s := lifeServer{
			Time:    sp("time", 5, 1000, 1300, 1800),
			Timeout: sp("timeout", 6, 200, 500, 1500, 2500),
			Idle:    sp("idle", 5, 300, 700, 1200, 2500),
			Age:     sp("age", 5, 400, 800, 1500, 2500),
			Grace:   sp("grace", 6, 300, 700, 1200, 2000),
		}
		if rapid.IntRange(0, 9).Draw(t, "hour") == 0 {
			rapid.SampledFrom([]func(){func() { s.Idle = span{3600000, 0} }, func() { s.Age = span{3600000, 0} }, func() { s.Time = span{3600000, 0} }}).Draw(t, "of")()
		}
		for range rapid.IntRange(2, 5).Draw(t, "clients") {
			cl := lifeClient{Kind: rapid.SampledFrom([]string{"quiet", "busy", "hanging", "hanging", "library"}).Draw(t, "kind"), Mute: rapid.IntRange(0, 2).Draw(t, "mute") == 2}
			cl.Gap = rapid.SampledFrom([]int{5, 50, 200}).Draw(t, "gap")
			cl.Send = rapid.SampledFrom([]int{-1, 100, 600, 1200, 2000, 3000}).Draw(t, "send")
			s.Clients = append(s.Clients, cl)
		}
		c.Servers = append(c.Servers, s)
	}
	return c
}

// lifeCall is a call of a client: when its request was sent completely (or -1) and answered (or -1), and with which status.
type lifeCall struct {
	opened, sent, answered time.Duration
	status                 string
}

// life is what a client saw, in times since before it connected.
type life struct {
	mu      sync.Mutex
	start   time.Time
	conn    net.Conn
	framer  *http2.Framer
	out     bytes.Buffer
	enc     *hpack.Encoder
	encBuf  bytes.Buffer
	writes  []time.Duration // before each
	goaway  time.Duration   // -1: none
	closed  time.Duration   // -1: not
	pings   []time.Duration
	calls   map[uint32]*lifeCall
	next    uint32
	pending int
}

func (l *life) now() time.Duration { return time.Since(l.start) }

// write sends the frames in the buffer.
func (l *life) flush() {
	l.writes = append(l.writes, l.now())
	l.conn.Write(l.out.Bytes())
	l.out.Reset()
}

func (l *life) open() uint32 {
	id := l.next
	l.next += 2
	l.encBuf.Reset()
	for _, f := range [][2]string{{":method", "POST"}, {":scheme", "http"}, {":path", deckard.Deckard_Pull_FullMethodName}, {":authority", "localhost"}, {"content-type", "application/grpc"}, {"te", "trailers"}} {
		l.enc.WriteField(hpack.HeaderField{Name: f[0], Value: f[1]})
	}
	l.framer.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: l.encBuf.Bytes(), EndHeaders: true})
	l.calls[id] = &lifeCall{opened: l.now(), sent: -1, answered: -1}
	l.pending++
	return id
}

func (l *life) send(id uint32) {
	b, err := proto.Marshal(&deckard.PullRequest{Queue: "nothing"})
	Must(err)
	p := make([]byte, 5, 5+len(b))
	binary.BigEndian.PutUint32(p[1:], uint32(len(b)))
	l.framer.WriteData(id, true, append(p, b...))
	l.calls[id].sent = l.now()
}

// read processes the frames of the server until the end of the connection.
func (l *life) read(mute bool) {
	for {
		f, err := l.framer.ReadFrame()
		l.mu.Lock()
		if err != nil {
			if l.closed < 0 {
				l.closed = l.now()
			}
			l.mu.Unlock()
			return
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() && !mute {
				l.framer.WriteSettingsAck()
				l.flush()
			}
		case *http2.PingFrame:
			if !f.IsAck() {
				if f.Data == [8]byte{} {
					l.pings = append(l.pings, l.now())
				}
				if !mute {
					l.framer.WritePing(true, f.Data)
					l.flush()
				}
			}
		case *http2.GoAwayFrame:
			if l.goaway < 0 {
				l.goaway = l.now()
			}
		case *http2.MetaHeadersFrame:
			if f.StreamEnded() {
				c := l.calls[f.StreamID]
				c.answered = l.now()
				for _, h := range f.Fields {
					if h.Name == "grpc-status" {
						c.status = h.Value
					}
				}
				l.pending--
			}
		case *http2.RSTStreamFrame:
			if c := l.calls[f.StreamID]; c != nil && c.answered < 0 {
				c.answered, c.status = l.now(), "reset"
				l.pending--
			}
		}
		l.mu.Unlock()
	}
}

// lastWrite is the last time at which the client sent anything before t.
func (l *life) lastWrite(t time.Duration) (r time.Duration) {
	for _, w := range l.writes {
		if w <= t {
			r = w
		}
	}
	return r
}

// watch runs a client. It returns what is wrong.
func (l *life) watch(addr string, s lifeServer, c lifeClient) (wrong string) {
	l.start = time.Now()
	var err error
	l.conn, err = net.Dial("tcp", addr)
	Must(err)
	defer l.conn.Close()
	l.goaway, l.closed, l.next, l.calls = -1, -1, 1, map[uint32]*lifeCall{}
	l.framer = http2.NewFramer(&l.out, l.conn)
	l.framer.ReadMetaHeaders = hpack.NewDecoder(4096, nil)
	l.enc = hpack.NewEncoder(&l.encBuf)
	l.out.WriteString(http2.ClientPreface)
	l.framer.WriteSettings()
	var hanging uint32
	if c.Kind == "hanging" {
		hanging = l.open()
	}
	l.flush()
	go l.read(c.Mute)
	if hanging != 0 && c.Send < 0 {
		c.Send = 1 << 30
	}
	due := func(d time.Duration, what string) string {
		if l.now() > d+lifeSlack {
			return fmt.Sprintf("%s %v after it was due (%v)", what, l.now()-d, d)
		}
		return "wait"
	}
	for ; ; time.Sleep(2 * time.Millisecond) {
		l.mu.Lock()
		state := ""
		now := l.now()
		if l.closed < 0 {
			if c.Kind == "busy" && l.pending == 0 && l.goaway < 0 && now < lifeWindow && now-l.lastWrite(now) >= time.Duration(c.Gap)*time.Millisecond {
				l.send(l.open())
				l.flush()
			}
			if hanging != 0 && l.calls[hanging].sent < 0 && now >= time.Duration(c.Send)*time.Millisecond {
				l.send(hanging)
				l.flush()
			}
			idleSince := time.Duration(0)
			for _, k := range l.calls {
				idleSince = max(idleSince, k.answered)
			}
			settled := l.pending == 0 && (c.Kind != "busy" || now > lifeWindow)
			blocked := hanging != 0 && l.calls[hanging].sent < 0
			kp := max(s.Time.d(), time.Second)
			// what has to happen (or has happened), the latest obligation last
			if s.Idle.set() && s.Idle.Ms < 100000 && settled && l.goaway < 0 {
				state = due(idleSince+2*s.Idle.d(), "an idle connection is still open")
			}
			if s.Age.set() && s.Age.Ms < 100000 && l.goaway < 0 {
				state = due(s.Age.d()*11/10, "an old connection is still open")
			}
			if l.goaway >= 0 && l.pending == 0 {
				state = due(max(l.goaway, idleSince), "the connection was not closed after its end was announced:")
			}
			if l.goaway >= 0 && l.pending > 0 && s.Age.set() && s.Age.Ms < 100000 && s.Grace.set() {
				state = due(s.Age.d()*11/10+s.Grace.d(), "the connection was not closed after the grace:")
			}
			if s.Time.set() && s.Time.Ms < 100000 && l.goaway < 0 && (settled || blocked) {
				w := l.lastWrite(now)
				pinged := false
				for _, p := range l.pings {
					pinged = pinged || p >= w
				}
				if !pinged && len(l.pings) == 0 {
					state = due(w+2*kp, "no ping was sent")
				}
				if c.Mute && s.Timeout.set() {
					state = due(w+2*kp+s.Timeout.d(), "a connection whose client does not answer is still open")
				}
			}
			if state == "" && !blocked && l.pending > 0 {
				for _, k := range l.calls {
					if k.sent >= 0 && k.answered < 0 {
						state = due(k.sent, "a call was not answered")
					}
				}
			}
		}
		if state == "wait" || state == "" && now < lifeWindow && l.closed < 0 {
			l.mu.Unlock()
			continue
		}
		if l.closed < 0 {
			l.closed = -2 // by the client
			l.conn.Close()
		}
		defer l.mu.Unlock()
		if state != "" {
			return state
		}
		break
	}
	// nothing happened too early
	const eps = 5 * time.Millisecond
	if g := l.goaway; g >= 0 {
		last, inUse := time.Duration(0), false
		for _, k := range l.calls {
			if k.answered >= 0 && k.answered <= g {
				last = max(last, k.sent) // the server knew it when it announced the end
			} else if c.Kind == "hanging" {
				inUse = true
			}
		}
		idle := s.Idle.set() && !inUse && g-last >= s.Idle.d()-eps
		aged := s.Age.set() && g >= s.Age.d()*9/10-eps
		if !idle && !aged {
			return fmt.Sprintf("the end of the connection was announced after %v, %v after its last call (in progress: %v)", g, g-last, inUse)
		}
	}
	dead := func() bool {
		timeout := s.Timeout.d()
		if !s.Timeout.set() {
			timeout = 20 * time.Second
		}
		last := l.writes[0]
		for _, k := range l.calls {
			if k.answered >= 0 {
				last = max(last, k.sent)
			}
		}
		// a client which answers may still be too late for a short timeout
		return (c.Mute || len(l.pings) > 0 && timeout < 1500*time.Millisecond) && s.Time.set() && l.closed >= last+max(s.Time.d(), time.Second)+timeout-eps
	}
	cut := s.Age.set() && s.Grace.set() && l.closed >= s.Age.d()*9/10+s.Grace.d()-eps
	if l.closed >= 0 && !dead() {
		if l.goaway < 0 {
			return fmt.Sprintf("the connection was closed after %v without notice", l.closed)
		}
		for id, k := range l.calls {
			if k.answered < 0 && !cut {
				return fmt.Sprintf("the connection was closed after %v although call %d, opened at %v and sent at %v, was not answered", l.closed, id, k.opened, k.sent)
			}
		}
	}
	for id, k := range l.calls {
		if k.answered >= 0 && k.status != "0" {
			return fmt.Sprintf("call %d, opened at %v and sent at %v, was answered at %v with status %q", id, k.opened, k.sent, k.answered, k.status)
		}
	}
	for i, p := range l.pings {
		if !s.Time.set() || p < time.Duration(i+1)*max(s.Time.d(), time.Second)-eps {
			return fmt.Sprintf("ping %d came at %v", i+1, p)
		}
	}
	return ""
}

// library calls the server by the client of grpc for the window: a client does not notice that its connections end.
func library(h *H, addr string, s lifeServer) string {
	cc := dial(h, addr, nil)
	client := deckard.NewDeckardClient(cc)
	for start := time.Now(); time.Since(start) < lifeWindow; time.Sleep(5 * time.Millisecond) {
		ctx, cancel := callCtx()
		t := time.Now()
		_, err := client.Pull(ctx, &deckard.PullRequest{Queue: "nothing"})
		took := time.Since(t)
		cancel()
		if err != nil && (!s.Grace.set() || took < s.Grace.d()/2) {
			return fmt.Sprintf("a call failed at %v after %v: %v %v", t.Sub(start), took, status.Code(err), err)
		}
	}
	return ""
}

func execLife(h *H, c lifeCase) {
	config.Configure(true)
	h.Cleanup(func() { config.Configure(true) })
	type result struct {
		server, client int
		wrong          string
		life           *life
	}
	var results []result
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, s := range c.Servers {
		config.GrpcServerKeepaliveTime.Set(s.Time.String())
		config.GrpcServerKeepaliveTimeout.Set(s.Timeout.String())
		config.GrpcServerMaxConnectionIdle.Set(s.Idle.String())
		config.GrpcServerMaxConnectionAge.Set(s.Age.String())
		config.GrpcServerMaxConnectionAgeGrace.Set(s.Grace.String())
		addr, err := serve(h, newInstance("memory"))
		h.Check(err == nil, "C36", "the server does not start: %v", err)
		for j, cl := range s.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := result{server: i, client: j, life: &life{}}
				if cl.Kind == "library" {
					r.wrong = library(h, addr, s)
				} else {
					r.wrong = r.life.watch(addr, s, cl)
				}
				mu.Lock()
				results = append(results, r)
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	for _, r := range results {
		s := c.Servers[r.server]
		if r.wrong != "" {
			if os.Getenv("LIFE_TRACE") != "" {
				for id, k := range r.life.calls {
					h.Logf("call %d %+v", id, *k)
				}
			}
			h.Logf("writes %v pings %v goaway %v closed %v", tail(r.life.writes), r.life.pings, r.life.goaway, r.life.closed)
			h.Fail("C36", "server time=%v timeout=%v idle=%v age=%v grace=%v, client %+v: %s", s.Time, s.Timeout, s.Idle, s.Age, s.Grace, s.Clients[r.client], r.wrong)
		}
		l := r.life
		if s.Clients[r.client].Kind != "library" {
			if l.goaway >= 0 {
				h.Label("announced end")
			}
			if l.closed >= 0 && l.goaway < 0 {
				h.Label("dead client")
			}
			for _, k := range l.calls {
				if k.answered < 0 {
					h.Label("call was cut")
				} else if l.goaway >= 0 && k.answered > l.goaway {
					h.Label("call ended within the grace")
				}
			}
			if len(l.pings) > 0 {
				h.Label("pings")
			}
		}
	}
	h.Nontrivial()
}

func tail(l []time.Duration) []time.Duration { return l[max(0, len(l)-8):] }

func init() {
	register("C36", "the connections of several servers were watched", sub("life", 96, 4000, genLife, execLife))
}
