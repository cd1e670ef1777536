// Package fakeredis is a stand-in for Redis: a server speaking RESP 2 and 3, with scripts, transactions and a cluster.
package fakeredis

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Action is what happens to a command.
type Action struct {
	Drop  string // "before" or "after" it is executed: the connection is closed instead of an answer
	Err   string // answer with this error instead of executing the command
	After string // answer with this error after executing the command
	Delay time.Duration
}

type node struct {
	ln      net.Listener
	addr    string
	scripts map[string]*funcExpr
	conns   map[net.Conn]bool
}

// Server is one Redis server, or a cluster of masters.
type Server struct {
	mu          sync.Mutex
	dbs         map[int]database
	nodes       []*node
	owner       [16384]int
	version     int64
	ScanPage    int64 // at most this many keys per call of SCAN
	ScanRepeats bool  // SCAN returns some keys twice
	// Hook is called before each command of a client (not within scripts), with the lock held
	Hook func(node int, args []string) Action
	// Access is called with the keys of each command, including those of scripts, with the lock held
	Access   func(keys []string)
	Commands int64
	Evals    int64
	Moved    int64
	closed   bool
}

// Start listens at the given addresses (port 0: any). More than one: a cluster.
func Start(addrs ...string) (*Server, error) {
	s := &Server{dbs: map[int]database{}}
	for i, a := range addrs {
		network := "tcp"
		if strings.HasPrefix(a, "/") {
			network = "unix"
		}
		ln, err := net.Listen(network, a)
		if err != nil {
			s.Close()
			return nil, err
		}
		n := &node{ln: ln, addr: ln.Addr().String(), scripts: map[string]*funcExpr{}, conns: map[net.Conn]bool{}}
		s.nodes = append(s.nodes, n)
		go s.serve(i, ln)
	}
	for i := range s.owner {
		s.owner[i] = i * len(addrs) / 16384
	}
	return s, nil
}

func (s *Server) Addr(i int) string { return s.nodes[i].addr }

// Reset removes all data and faults. The scripts stay.
func (s *Server) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dbs = map[int]database{}
	s.Hook, s.Access = nil, nil
	for i := range s.owner {
		s.owner[i] = i * len(s.nodes) / 16384
	}
}

// Watch calls f with the keys of each command.
func (s *Server) Watch(f func(keys []string)) {
	s.mu.Lock()
	s.Access = f
	s.mu.Unlock()
}

// ForgetScripts empties the cache of scripts.
func (s *Server) ForgetScripts() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, n := range s.nodes {
		n.scripts = map[string]*funcExpr{}
	}
}

// Lose removes all data, as after a restart without persistence.
func (s *Server) Lose() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dbs = map[int]database{}
	for _, n := range s.nodes {
		n.scripts = map[string]*funcExpr{}
	}
}

// SetHook changes what happens to commands.
func (s *Server) SetHook(h func(node int, args []string) Action) {
	s.mu.Lock()
	s.Hook = h
	s.mu.Unlock()
}

// Disconnect closes all connections.
func (s *Server) Disconnect() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, n := range s.nodes {
		for c := range n.conns {
			c.Close()
		}
	}
}

// MoveSlot gives a slot (and its keys) to another node of the cluster.
func (s *Server) MoveSlot(slot, node int) {
	s.mu.Lock()
	s.owner[slot] = node
	s.mu.Unlock()
}

// Slot returns the slot of a key.
func Slot(key string) int { return slotOf(key) }

// Nodes returns how many masters there are.
func (s *Server) Nodes() int { return len(s.nodes) }

// Owner returns the node with a slot.
func (s *Server) Owner(slot int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.owner[slot]
}

// Keys returns all keys of database 0.
func (s *Server) Keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k := range s.dbs[0] {
		out = append(out, k)
	}
	return out
}

// SetString stores a string, as another application does.
func (s *Server) SetString(key, val string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dbs[0] == nil {
		s.dbs[0] = database{}
	}
	s.dbs[0][key] = &entry{str: val}
}

// GetString returns a string.
func (s *Server) GetString(key string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.dbs[0][key]
	if e == nil || e.kind() != "string" {
		return "", false
	}
	return e.str, true
}

// SortedSet returns the members of a sorted set.
func (s *Server) SortedSet(key string) map[string]float64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]float64{}
	if e := s.dbs[0][key]; e != nil && e.z != nil {
		for k, v := range e.z.scores {
			out[k] = v
		}
	}
	return out
}

// Close ends the server.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	for _, n := range s.nodes {
		n.ln.Close()
		for c := range n.conns {
			c.Close()
		}
	}
	s.mu.Unlock()
}

func (s *Server) serve(i int, ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			c.Close()
			return
		}
		s.nodes[i].conns[c] = true
		s.mu.Unlock()
		go func() {
			defer func() {
				c.Close()
				s.mu.Lock()
				delete(s.nodes[i].conns, c)
				s.mu.Unlock()
			}()
			s.handle(i, c)
		}()
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := readLine(r)
	if err != nil {
		return nil, err
	}
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 || n > 1<<20 {
		return nil, fmt.Errorf("bad array")
	}
	out := make([]string, n)
	for i := range out {
		line, err := readLine(r)
		if err != nil {
			return nil, err
		}
		if line == "" || line[0] != '$' {
			return nil, fmt.Errorf("bad bulk")
		}
		l, err := strconv.Atoi(line[1:])
		if err != nil || l < 0 {
			return nil, fmt.Errorf("bad bulk length")
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:l])
	}
	return out, nil
}

func readLine(r *bufio.Reader) (string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimRight(l, "\r\n"), nil
}

type client struct {
	resp    int
	db      int
	multi   [][]string
	inMulti bool
	dirty   bool
	asking  bool
	watched map[string]int64
}

func write(w *bufio.Writer, r any, resp int) {
	switch x := r.(type) {
	case nil:
		if resp == 3 {
			w.WriteString("_\r\n")
		} else {
			w.WriteString("$-1\r\n")
		}
	case int64:
		fmt.Fprintf(w, ":%d\r\n", x)
	case float64:
		if resp == 3 {
			fmt.Fprintf(w, ",%s\r\n", fmtDouble(x))
		} else {
			write(w, fmtDouble(x), resp)
		}
	case string:
		fmt.Fprintf(w, "$%d\r\n", len(x))
		w.WriteString(x)
		w.WriteString("\r\n")
	case status:
		fmt.Fprintf(w, "+%s\r\n", string(x))
	case errReply:
		fmt.Fprintf(w, "-%s\r\n", strings.NewReplacer("\r", " ", "\n", " ").Replace(string(x)))
	case mapReply:
		if resp == 3 {
			fmt.Fprintf(w, "%%%d\r\n", len(x)/2)
		} else {
			fmt.Fprintf(w, "*%d\r\n", len(x))
		}
		for _, v := range x {
			write(w, v, resp)
		}
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, v := range x {
			write(w, v, resp)
		}
	default:
		panic(fmt.Sprintf("reply %T", r))
	}
}

type mapReply []any

func (s *Server) handle(i int, conn net.Conn) {
	r := bufio.NewReader(conn)
	w := bufio.NewWriter(conn)
	c := &client{resp: 2}
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			return
		}
		var act Action
		if hook := s.Hook; hook != nil {
			s.mu.Unlock()
			act = hook(i, args)
			s.mu.Lock()
		}
		if act.Delay > 0 {
			s.mu.Unlock()
			time.Sleep(act.Delay)
			s.mu.Lock()
		}
		if act.Drop == "before" {
			s.mu.Unlock()
			return
		}
		var res any
		if act.Err != "" {
			res = errReply(act.Err)
		} else {
			res = s.command(i, c, args)
			if act.After != "" {
				res = errReply(act.After)
			}
		}
		s.mu.Unlock()
		if act.Drop == "after" {
			return
		}
		write(w, res, c.resp)
		if strings.EqualFold(args[0], "QUIT") {
			w.Flush()
			return
		}
		if r.Buffered() == 0 {
			if w.Flush() != nil {
				return
			}
		}
	}
}

func (s *Server) command(i int, c *client, a []string) any {
	s.Commands++
	ctx := &cctx{srv: s, node: i, db: c.db}
	name := strings.ToUpper(a[0])
	switch name {
	case "HELLO":
		if len(a) > 1 {
			v, err := strconv.Atoi(a[1])
			if err != nil || v != 2 && v != 3 {
				return errReply("NOPROTO unsupported protocol version")
			}
			c.resp = v
		}
		mode := "standalone"
		if len(s.nodes) > 1 {
			mode = "cluster"
		}
		return mapReply{"server", "redis", "version", "8.0.0", "proto", int64(c.resp), "id", int64(1), "mode", mode, "role", "master", "modules", []any{}}
	case "QUIT", "RESET", "READONLY", "READWRITE", "AUTH":
		return status("OK")
	case "ASKING":
		c.asking = true
		return status("OK")
	case "CLIENT":
		if len(a) > 1 && strings.EqualFold(a[1], "MAINT_NOTIFICATIONS") {
			return errReply("ERR unknown subcommand 'MAINT_NOTIFICATIONS'. Try CLIENT HELP.")
		}
		if len(a) > 1 && strings.EqualFold(a[1], "ID") {
			return int64(1)
		}
		return status("OK")
	case "SELECT":
		n, err := strconv.Atoi(a[1])
		if err != nil || n < 0 || n > 15 || n > 0 && len(s.nodes) > 1 {
			return errReply("ERR DB index is out of range")
		}
		c.db = n
		return status("OK")
	case "COMMAND":
		return s.commandTable(a)
	case "INFO":
		return "# Server\r\nredis_version:8.0.0\r\n# Replication\r\nrole:master\r\n"
	case "CLUSTER":
		return s.cluster(a)
	case "MULTI":
		if c.inMulti {
			return errReply("ERR MULTI calls can not be nested")
		}
		c.inMulti, c.multi, c.dirty = true, nil, false
		return status("OK")
	case "DISCARD":
		c.inMulti, c.multi, c.watched = false, nil, nil
		return status("OK")
	case "WATCH":
		if c.watched == nil {
			c.watched = map[string]int64{}
		}
		for _, k := range a[1:] {
			c.watched[k] = versionOf(ctx, k)
		}
		return status("OK")
	case "UNWATCH":
		c.watched = nil
		return status("OK")
	case "EXEC":
		if !c.inMulti {
			return errReply("ERR EXEC without MULTI")
		}
		cmds, dirty, watched := c.multi, c.dirty, c.watched
		c.inMulti, c.multi, c.watched = false, nil, nil
		if dirty {
			return errReply("EXECABORT Transaction discarded because of previous errors.")
		}
		for k, v := range watched {
			if versionOf(ctx, k) != v {
				return nil
			}
		}
		out := []any{}
		for _, cmd := range cmds {
			out = append(out, s.execute(ctx, cmd))
		}
		return out
	}
	if e := s.check(ctx, name, a); e != nil {
		c.dirty = true
		return e
	}
	if c.inMulti {
		c.multi = append(c.multi, a)
		return status("QUEUED")
	}
	c.asking = false
	return s.execute(ctx, a)
}

func versionOf(c *cctx, k string) int64 {
	if e := c.get(k); e != nil {
		return e.version
	}
	return 0
}

// check decides whether a command can run here.
func (s *Server) check(c *cctx, name string, a []string) any {
	cmd, ok := commands[name]
	if !ok {
		return errReply(fmt.Sprintf("ERR unknown command '%s', with args beginning with: ", a[0]))
	}
	if cmd.min > 0 && len(a) != cmd.min || cmd.min < 0 && len(a) < -cmd.min {
		return errReply(fmt.Sprintf("ERR wrong number of arguments for '%s' command", strings.ToLower(name)))
	}
	if len(s.nodes) > 1 {
		slot := -1
		for _, k := range cmd.keys(a) {
			sl := slotOf(k)
			if slot >= 0 && sl != slot {
				return errReply("CROSSSLOT Keys in request don't hash to the same slot")
			}
			slot = sl
		}
		if slot >= 0 && s.owner[slot] != c.node {
			if c.script {
				return errReply("ERR Script attempted to access a non local key in a cluster node")
			}
			s.Moved++
			return errReply(fmt.Sprintf("MOVED %d %s", slot, s.nodes[s.owner[slot]].addr))
		}
	}
	return nil
}

func (s *Server) execute(c *cctx, a []string) (res any) {
	name := strings.ToUpper(a[0])
	if e := s.check(c, name, a); e != nil {
		return e
	}
	cmd := commands[name]
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(errReply)
			if !ok {
				panic(r)
			}
			res = e
		}
	}()
	if s.Access != nil {
		if keys := cmd.keys(a); len(keys) > 0 {
			s.Access(keys)
		}
	}
	res = cmd.run(c, a)
	if cmd.write && !strings.HasPrefix(name, "EVAL") {
		for _, k := range cmd.keys(a) {
			c.touch(k)
		}
	}
	return res
}

func (s *Server) slotRanges() (out [][3]int) {
	for i := 0; i < 16384; {
		j := i
		for j+1 < 16384 && s.owner[j+1] == s.owner[i] {
			j++
		}
		out = append(out, [3]int{i, j, s.owner[i]})
		i = j + 1
	}
	return out
}

func (s *Server) cluster(a []string) any {
	if len(s.nodes) == 1 {
		return errReply("ERR This instance has cluster support disabled")
	}
	if len(a) < 2 {
		return errReply("ERR wrong number of arguments for 'cluster' command")
	}
	host := func(i int) (string, int64) {
		h, p, _ := net.SplitHostPort(s.nodes[i].addr)
		port, _ := strconv.ParseInt(p, 10, 64)
		return h, port
	}
	switch strings.ToUpper(a[1]) {
	case "SLOTS":
		out := []any{}
		for _, r := range s.slotRanges() {
			h, p := host(r[2])
			out = append(out, []any{int64(r[0]), int64(r[1]), []any{h, p, fmt.Sprintf("node%d", r[2])}})
		}
		return out
	case "INFO":
		return "cluster_enabled:1\r\ncluster_state:ok\r\ncluster_slots_assigned:16384\r\ncluster_slots_ok:16384\r\n"
	case "KEYSLOT":
		return int64(slotOf(a[2]))
	case "MYID":
		return "node"
	}
	return errReply("ERR unknown subcommand")
}

// commandTable answers COMMAND: a client of a cluster learns from it where the keys of a command are.
func (s *Server) commandTable(a []string) any {
	if len(a) > 1 {
		if strings.EqualFold(a[1], "COUNT") {
			return int64(len(commands))
		}
		return []any{}
	}
	out := []any{}
	for n, c := range commands {
		first, last := int64(1), int64(1)
		probe := c.keys([]string{n, "k", "2", "x", "y", "z"})
		flag := "readonly"
		if c.write {
			flag = "write"
		}
		switch {
		case strings.HasPrefix(n, "EVAL"):
			first, last = 0, 0
		case len(probe) == 0:
			first, last = 0, 0
		case len(probe) > 1:
			last = -1
		}
		step := int64(1)
		if first == 0 {
			step = 0
		}
		out = append(out, []any{strings.ToLower(n), int64(c.min), []any{status(flag)}, first, last, step})
	}
	return out
}
