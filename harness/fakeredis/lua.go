package fakeredis

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// An interpreter of Lua 5.1, as far as scripts for Redis need it (no coroutines, no metatables, no loading of code).

type (
	value    any // nil, bool, float64, string, *table, *function
	luaError struct{ v value }
	table    struct {
		arr  []value
		hash map[value]value
		keys []value
	}
	function struct {
		name    string
		builtin func(vm *vm, args []value) []value
		def     *funcExpr
		env     *scope
	}
	vm struct {
		globals *table
		// the names which may not be looked up when they do not exist, as in the sandbox of Redis
		steps int
		call  func(args []value, protected bool) value
	}
	scope struct {
		up    *scope
		names []string
		vals  []value
	}
)

func (e luaError) Error() string {
	if t, ok := e.v.(*table); ok {
		if s, ok := t.get("err").(string); ok {
			return s
		}
	}
	return tostr(e.v)
}

func throw(format string, a ...any) { panic(luaError{fmt.Sprintf(format, a...)}) }

func newTable() *table { return &table{} }

func (t *table) get(k value) value {
	if n, ok := k.(float64); ok && n >= 1 && n <= float64(len(t.arr)) && n == math.Trunc(n) {
		return t.arr[int(n)-1]
	}
	if t.hash == nil {
		return nil
	}
	return t.hash[k]
}

func (t *table) set(k, v value) {
	if k == nil {
		throw("table index is nil")
	}
	if n, ok := k.(float64); ok {
		if n != n {
			throw("table index is NaN")
		}
		if n == math.Trunc(n) && n >= 1 && n <= float64(len(t.arr)) {
			t.arr[int(n)-1] = v
			for v == nil && len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
				t.arr = t.arr[:len(t.arr)-1]
			}
			return
		}
		if n == float64(len(t.arr)+1) && v != nil {
			t.rawDelete(k)
			t.arr = append(t.arr, v)
			for t.hash != nil {
				next, ok := t.hash[float64(len(t.arr)+1)]
				if !ok {
					break
				}
				t.rawDelete(float64(len(t.arr) + 1))
				t.arr = append(t.arr, next)
			}
			return
		}
	}
	if v == nil {
		// keeps the place in the order, so that a traversal may clear fields
		if t.hash != nil {
			if _, ok := t.hash[k]; ok {
				t.hash[k] = nil
			}
		}
		return
	}
	if t.hash == nil {
		t.hash = map[value]value{}
	}
	if _, ok := t.hash[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.hash[k] = v
}

func (t *table) rawDelete(k value) {
	if t.hash == nil {
		return
	}
	if _, ok := t.hash[k]; !ok {
		return
	}
	delete(t.hash, k)
	for i := range t.keys {
		if t.keys[i] == k {
			t.keys = append(append([]value{}, t.keys[:i]...), t.keys[i+1:]...)
			break
		}
	}
}

func (t *table) next(k value) (value, value) {
	i := 0
	if n, ok := k.(float64); ok && n >= 1 && n <= float64(len(t.arr)) && n == math.Trunc(n) {
		i = int(n)
		k = nil
	}
	if k == nil {
		for ; i < len(t.arr); i++ {
			if t.arr[i] != nil {
				return float64(i + 1), t.arr[i]
			}
		}
	}
	found := k == nil
	for _, c := range t.keys {
		if found {
			if v := t.hash[c]; v != nil {
				return c, v
			}
		} else if c == k {
			found = true
		}
	}
	if !found {
		throw("invalid key to 'next'")
	}
	return nil, nil
}

func (t *table) length() int { return len(t.arr) }

func truth(v value) bool {
	if v == nil {
		return false
	}
	b, ok := v.(bool)
	return !ok || b
}

func tonum(v value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		s := strings.TrimSpace(x)
		if s == "" || strings.ContainsAny(s, "_") {
			return 0, false
		}
		if len(s) > 2 && (strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X")) {
			n, err := strconv.ParseUint(s[2:], 16, 64)
			return float64(n), err == nil
		}
		n, err := strconv.ParseFloat(s, 64)
		if err != nil {
			if ne, ok := err.(*strconv.NumError); !ok || ne.Err != strconv.ErrRange {
				return 0, false
			}
		}
		return n, true
	}
	return 0, false
}

// fmtG is printf's %.<prec>g.
func fmtG(n float64, prec int) string {
	switch {
	case math.IsInf(n, 1):
		return "inf"
	case math.IsInf(n, -1):
		return "-inf"
	case n != n:
		return "nan"
	}
	if n == 0 {
		if math.Signbit(n) {
			return "-0"
		}
		return "0"
	}
	s := strconv.FormatFloat(n, 'e', prec-1, 64)
	i := strings.IndexByte(s, 'e')
	exp, _ := strconv.Atoi(s[i+1:])
	if exp < -4 || exp >= prec {
		m := s[:i]
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		sign := "+"
		if exp < 0 {
			sign, exp = "-", -exp
		}
		return fmt.Sprintf("%se%s%02d", m, sign, exp)
	}
	s = strconv.FormatFloat(n, 'f', prec-1-exp, 64)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	return s
}

func tostr(v value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return fmtG(x, 14)
	case string:
		return x
	case *table:
		return fmt.Sprintf("table: %p", x)
	}
	return fmt.Sprintf("function: %p", v)
}

func typeName(v value) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *table:
		return "table"
	}
	return "function"
}

// ---- lexer

type token struct {
	kind byte // 'n' name, 'k' keyword, '#' number, 's' string, 'o' operator, 'e' end
	s    string
	n    float64
	line int
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while") {
		keywords[k] = true
	}
}

type syntaxError string

func lex(src string) []token {
	var out []token
	line := 1
	i := 0
	long := func(at int) (string, int, bool) {
		j := at + 1
		eq := 0
		for j < len(src) && src[j] == '=' {
			eq++
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", at, false
		}
		end := "]" + strings.Repeat("=", eq) + "]"
		k := strings.Index(src[j+1:], end)
		if k < 0 {
			panic(syntaxError("unfinished long string"))
		}
		s := src[j+1 : j+1+k]
		line += strings.Count(s, "\n")
		if strings.HasPrefix(s, "\n") {
			s = s[1:]
		}
		return s, j + 1 + k + len(end), true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if i < len(src) && src[i] == '[' {
				if _, j, ok := long(i); ok {
					i = j
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			k := byte('n')
			if keywords[src[i:j]] {
				k = 'k'
			}
			out = append(out, token{k, src[i:j], 0, line})
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' ||
				(src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				j++
			}
			n, ok := tonum(src[i:j])
			if !ok {
				panic(syntaxError("malformed number near '" + src[i:j] + "'"))
			}
			out = append(out, token{'#', src[i:j], n, line})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(src) || src[j] == '\n' {
					panic(syntaxError("unfinished string"))
				}
				if src[j] == c {
					break
				}
				if src[j] == '\\' {
					j++
					if j >= len(src) {
						panic(syntaxError("unfinished string"))
					}
					switch e := src[j]; e {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case 'a':
						b.WriteByte(7)
					case 'b':
						b.WriteByte(8)
					case 'f':
						b.WriteByte(12)
					case 'v':
						b.WriteByte(11)
					case '\n':
						line++
						b.WriteByte('\n')
					default:
						if e >= '0' && e <= '9' {
							n := 0
							k := 0
							for k < 3 && j < len(src) && src[j] >= '0' && src[j] <= '9' {
								n = n*10 + int(src[j]-'0')
								j++
								k++
							}
							j--
							b.WriteByte(byte(n))
						} else {
							b.WriteByte(e)
						}
					}
					j++
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, token{'s', b.String(), 0, line})
			i = j + 1
		default:
			if c == '[' {
				if s, j, ok := long(i); ok {
					out = append(out, token{'s', s, 0, line})
					i = j
					continue
				}
			}
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("+-*/%^#<>=(){}[];:,.", rune(c)) {
					panic(syntaxError(fmt.Sprintf("line %d: unexpected symbol near '%c'", line, c)))
				}
				op = string(c)
			}
			out = append(out, token{'o', op, 0, line})
			i += len(op)
		}
	}
	return append(out, token{'e', "<eof>", 0, line})
}

// ---- syntax

type (
	expr     interface{}
	constant struct{ v value }
	vararg   struct{}
	nameExpr struct{ name string }
	index    struct{ obj, key expr }
	callExpr struct {
		fn   expr
		self string
		args []expr
	}
	binary struct {
		op   string
		a, b expr
	}
	unary struct {
		op string
		a  expr
	}
	paren    struct{ a expr }
	funcExpr struct {
		params []string
		vararg bool
		body   []stmt
	}
	tableExpr struct{ items []tableItem }
	tableItem struct{ key, val expr }

	stmt      interface{}
	localStmt struct {
		names []string
		vals  []expr
	}
	localFunc struct {
		name string
		fn   *funcExpr
	}
	assign   struct{ targets, vals []expr }
	callStmt struct{ call *callExpr }
	ifStmt   struct {
		conds  []expr
		blocks [][]stmt
		els    []stmt
	}
	whileStmt struct {
		cond expr
		body []stmt
	}
	repeatStmt struct {
		body []stmt
		cond expr
	}
	forNum struct {
		name             string
		start, stop, inc expr
		body             []stmt
	}
	forIn struct {
		names []string
		vals  []expr
		body  []stmt
	}
	doStmt    struct{ body []stmt }
	retStmt   struct{ vals []expr }
	breakStmt struct{}
)

type parser struct {
	t []token
	i int
}

func (p *parser) peek() token { return p.t[p.i] }
func (p *parser) fail() {
	panic(syntaxError(fmt.Sprintf("line %d: unexpected '%s'", p.peek().line, p.peek().s)))
}
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.kind == 'k' || t.kind == 'o') && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(syntaxError(fmt.Sprintf("line %d: '%s' expected near '%s'", p.peek().line, s, p.peek().s)))
	}
}
func (p *parser) name() string {
	t := p.peek()
	if t.kind != 'n' {
		panic(syntaxError(fmt.Sprintf("line %d: <name> expected near '%s'", t.line, t.s)))
	}
	p.i++
	return t.s
}

func parse(src string) (fn *funcExpr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(syntaxError); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(r)
		}
	}()
	p := &parser{t: lex(src)}
	fn = &funcExpr{vararg: true, body: p.block()}
	if p.peek().kind != 'e' {
		p.fail()
	}
	return fn, nil
}

func (p *parser) blockEnd() bool {
	return p.peek().kind == 'e' || p.is("end") || p.is("else") || p.is("elseif") || p.is("until")
}

func (p *parser) block() []stmt {
	var out []stmt
	for !p.blockEnd() {
		if p.accept(";") {
			continue
		}
		if p.accept("return") {
			var vals []expr
			if !p.blockEnd() && !p.is(";") {
				vals = p.exprs()
			}
			p.accept(";")
			out = append(out, &retStmt{vals})
			if !p.blockEnd() {
				p.fail()
			}
			return out
		}
		if p.accept("break") {
			p.accept(";")
			out = append(out, &breakStmt{})
			if !p.blockEnd() {
				p.fail()
			}
			return out
		}
		out = append(out, p.statement())
	}
	return out
}

func (p *parser) statement() stmt {
	switch {
	case p.accept("local"):
		if p.accept("function") {
			n := p.name()
			return &localFunc{n, p.funcBody(false)}
		}
		names := []string{p.name()}
		for p.accept(",") {
			names = append(names, p.name())
		}
		var vals []expr
		if p.accept("=") {
			vals = p.exprs()
		}
		return &localStmt{names, vals}
	case p.accept("if"):
		s := &ifStmt{}
		for {
			s.conds = append(s.conds, p.expr(0))
			p.expect("then")
			s.blocks = append(s.blocks, p.block())
			if p.accept("elseif") {
				continue
			}
			if p.accept("else") {
				s.els = p.block()
			}
			p.expect("end")
			return s
		}
	case p.accept("while"):
		c := p.expr(0)
		p.expect("do")
		b := p.block()
		p.expect("end")
		return &whileStmt{c, b}
	case p.accept("repeat"):
		b := p.block()
		p.expect("until")
		return &repeatStmt{b, p.expr(0)}
	case p.accept("do"):
		b := p.block()
		p.expect("end")
		return &doStmt{b}
	case p.accept("for"):
		n := p.name()
		if p.accept("=") {
			f := &forNum{name: n, start: p.expr(0)}
			p.expect(",")
			f.stop = p.expr(0)
			if p.accept(",") {
				f.inc = p.expr(0)
			}
			p.expect("do")
			f.body = p.block()
			p.expect("end")
			return f
		}
		f := &forIn{names: []string{n}}
		for p.accept(",") {
			f.names = append(f.names, p.name())
		}
		p.expect("in")
		f.vals = p.exprs()
		p.expect("do")
		f.body = p.block()
		p.expect("end")
		return f
	case p.accept("function"):
		var target expr = &nameExpr{p.name()}
		method := false
		for {
			if p.accept(".") {
				target = &index{target, &constant{p.name()}}
				continue
			}
			if p.accept(":") {
				target = &index{target, &constant{p.name()}}
				method = true
			}
			break
		}
		return &assign{[]expr{target}, []expr{p.funcBody(method)}}
	}
	e := p.suffixed()
	if c, ok := e.(*callExpr); ok && !p.is("=") && !p.is(",") {
		return &callStmt{c}
	}
	targets := []expr{e}
	for p.accept(",") {
		targets = append(targets, p.suffixed())
	}
	p.expect("=")
	for _, t := range targets {
		switch t.(type) {
		case *nameExpr, *index:
		default:
			p.fail()
		}
	}
	return &assign{targets, p.exprs()}
}

func (p *parser) exprs() []expr {
	out := []expr{p.expr(0)}
	for p.accept(",") {
		out = append(out, p.expr(0))
	}
	return out
}

func (p *parser) funcBody(method bool) *funcExpr {
	f := &funcExpr{}
	if method {
		f.params = append(f.params, "self")
	}
	p.expect("(")
	for !p.accept(")") {
		if p.accept("...") {
			f.vararg = true
			p.expect(")")
			break
		}
		f.params = append(f.params, p.name())
		if !p.is(")") {
			p.expect(",")
		}
	}
	f.body = p.block()
	p.expect("end")
	return f
}

var prec = map[string][2]int{
	"or": {1, 1}, "and": {2, 2},
	"<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9},
}

func (p *parser) expr(limit int) expr {
	var left expr
	switch {
	case p.is("not") || p.is("-") || p.is("#"):
		op := p.peek().s
		p.i++
		left = &unary{op, p.expr(8)}
	default:
		left = p.simple()
	}
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || t.kind != 'k' && t.kind != 'o' || pr[0] <= limit {
			return left
		}
		p.i++
		left = &binary{t.s, left, p.expr(pr[1])}
	}
}

func (p *parser) simple() expr {
	t := p.peek()
	switch t.kind {
	case '#':
		p.i++
		return &constant{t.n}
	case 's':
		p.i++
		return &constant{t.s}
	}
	switch {
	case p.accept("nil"):
		return &constant{nil}
	case p.accept("true"):
		return &constant{true}
	case p.accept("false"):
		return &constant{false}
	case p.accept("..."):
		return &vararg{}
	case p.accept("function"):
		return p.funcBody(false)
	case p.is("{"):
		return p.table()
	}
	return p.suffixed()
}

func (p *parser) table() expr {
	p.expect("{")
	t := &tableExpr{}
	for !p.accept("}") {
		switch {
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			p.expect("=")
			t.items = append(t.items, tableItem{k, p.expr(0)})
		case p.peek().kind == 'n' && p.t[p.i+1].kind == 'o' && p.t[p.i+1].s == "=":
			k := &constant{p.name()}
			p.expect("=")
			t.items = append(t.items, tableItem{k, p.expr(0)})
		default:
			t.items = append(t.items, tableItem{nil, p.expr(0)})
		}
		if !p.accept(",") && !p.accept(";") && !p.is("}") {
			p.fail()
		}
	}
	return t
}

func (p *parser) suffixed() expr {
	var e expr
	if p.accept("(") {
		e = &paren{p.expr(0)}
		p.expect(")")
	} else {
		e = &nameExpr{p.name()}
	}
	for {
		switch {
		case p.accept("."):
			e = &index{e, &constant{p.name()}}
		case p.accept("["):
			e = &index{e, p.expr(0)}
			p.expect("]")
		case p.accept(":"):
			n := p.name()
			e = &callExpr{e, n, p.args()}
		case p.is("(") || p.is("{") || p.peek().kind == 's':
			e = &callExpr{e, "", p.args()}
		default:
			return e
		}
	}
}

func (p *parser) args() []expr {
	if t := p.peek(); t.kind == 's' {
		p.i++
		return []expr{&constant{t.s}}
	}
	if p.is("{") {
		return []expr{p.table()}
	}
	p.expect("(")
	if p.accept(")") {
		return nil
	}
	a := p.exprs()
	p.expect(")")
	return a
}

// ---- evaluation

func (s *scope) declare(n string, v value) {
	s.names = append(s.names, n)
	s.vals = append(s.vals, v)
}

func (s *scope) find(n string) *value {
	for ; s != nil; s = s.up {
		for i := len(s.names) - 1; i >= 0; i-- {
			if s.names[i] == n {
				return &s.vals[i]
			}
		}
	}
	return nil
}

type control int

const (
	goOn control = iota
	broke
	returned
)

func (m *vm) tick() {
	m.steps++
	if m.steps > 50_000_000 {
		throw("BUSY the script runs for too long")
	}
}

func (m *vm) run(b []stmt, s *scope) (control, []value) {
	for _, st := range b {
		m.tick()
		switch x := st.(type) {
		case *localStmt:
			vals := m.list(x.vals, s)
			for i, n := range x.names {
				var v value
				if i < len(vals) {
					v = vals[i]
				}
				s.declare(n, v)
			}
		case *localFunc:
			s.declare(x.name, nil)
			*s.find(x.name) = &function{name: x.name, def: x.fn, env: s}
		case *assign:
			vals := m.list(x.vals, s)
			for i, t := range x.targets {
				var v value
				if i < len(vals) {
					v = vals[i]
				}
				switch t := t.(type) {
				case *nameExpr:
					if p := s.find(t.name); p != nil {
						*p = v
					} else {
						throw("Script attempted to create global variable '%s'", t.name)
					}
				case *index:
					o, ok := m.eval(t.obj, s).(*table)
					if !ok {
						throw("attempt to index a non-table value")
					}
					if o == m.globals {
						throw("Attempt to modify a readonly table")
					}
					o.set(m.eval(t.key, s), v)
				}
			}
		case *callStmt:
			m.callAll(x.call, s)
		case *ifStmt:
			done := false
			for i, c := range x.conds {
				if truth(m.eval(c, s)) {
					if ctl, v := m.run(x.blocks[i], &scope{up: s}); ctl != goOn {
						return ctl, v
					}
					done = true
					break
				}
			}
			if !done && x.els != nil {
				if ctl, v := m.run(x.els, &scope{up: s}); ctl != goOn {
					return ctl, v
				}
			}
		case *whileStmt:
			for truth(m.eval(x.cond, s)) {
				m.tick()
				ctl, v := m.run(x.body, &scope{up: s})
				if ctl == returned {
					return ctl, v
				}
				if ctl == broke {
					break
				}
			}
		case *repeatStmt:
			for {
				m.tick()
				in := &scope{up: s}
				ctl, v := m.run(x.body, in)
				if ctl == returned {
					return ctl, v
				}
				if ctl == broke || truth(m.eval(x.cond, in)) {
					break
				}
			}
		case *forNum:
			num := func(e expr, what string) float64 {
				n, ok := tonum(m.eval(e, s))
				if !ok {
					throw("'for' %s must be a number", what)
				}
				return n
			}
			from, to, inc := num(x.start, "initial value"), num(x.stop, "limit"), 1.0
			if x.inc != nil {
				inc = num(x.inc, "step")
			}
			for i := from; inc > 0 && i <= to || inc <= 0 && i >= to; i += inc {
				m.tick()
				in := &scope{up: s}
				in.declare(x.name, i)
				ctl, v := m.run(x.body, in)
				if ctl == returned {
					return ctl, v
				}
				if ctl == broke {
					break
				}
			}
		case *forIn:
			vals := append(m.list(x.vals, s), nil, nil, nil)
			f, state, k := vals[0], vals[1], vals[2]
			for {
				m.tick()
				r := m.invoke(f, []value{state, k})
				if len(r) == 0 || r[0] == nil {
					break
				}
				k = r[0]
				in := &scope{up: s}
				for i, n := range x.names {
					var v value
					if i < len(r) {
						v = r[i]
					}
					in.declare(n, v)
				}
				ctl, v := m.run(x.body, in)
				if ctl == returned {
					return ctl, v
				}
				if ctl == broke {
					break
				}
			}
		case *doStmt:
			if ctl, v := m.run(x.body, &scope{up: s}); ctl != goOn {
				return ctl, v
			}
		case *retStmt:
			return returned, m.list(x.vals, s)
		case *breakStmt:
			return broke, nil
		}
	}
	return goOn, nil
}

func (m *vm) list(es []expr, s *scope) []value {
	out := make([]value, 0, len(es))
	for i, e := range es {
		if i == len(es)-1 {
			switch x := e.(type) {
			case *callExpr:
				return append(out, m.callAll(x, s)...)
			case *vararg:
				if p := s.find("..."); p != nil {
					return append(out, (*p).([]value)...)
				}
			}
		}
		out = append(out, m.eval(e, s))
	}
	return out
}

func (m *vm) callAll(c *callExpr, s *scope) []value {
	m.tick()
	f := m.eval(c.fn, s)
	if c.self != "" {
		obj := f
		f = m.indexOf(obj, c.self)
		return m.invoke(f, append([]value{obj}, m.list(c.args, s)...))
	}
	if _, ok := f.(*function); !ok {
		throw("attempt to call a %s value", typeName(f))
	}
	return m.invoke(f, m.list(c.args, s))
}

func (m *vm) invoke(f value, args []value) []value {
	fn, ok := f.(*function)
	if !ok {
		throw("attempt to call a %s value", typeName(f))
	}
	if fn.builtin != nil {
		return fn.builtin(m, args)
	}
	s := &scope{up: fn.env}
	for i, p := range fn.def.params {
		var v value
		if i < len(args) {
			v = args[i]
		}
		s.declare(p, v)
	}
	if fn.def.vararg {
		var rest []value
		if len(args) > len(fn.def.params) {
			rest = args[len(fn.def.params):]
		}
		s.declare("...", rest)
	}
	_, v := m.run(fn.def.body, s)
	return v
}

func (m *vm) indexOf(o, k value) value {
	switch x := o.(type) {
	case *table:
		v := x.get(k)
		if v == nil && x == m.globals {
			throw("Script attempted to access nonexistent global variable '%s'", tostr(k))
		}
		return v
	case string:
		return m.globals.get("string").(*table).get(k)
	}
	throw("attempt to index a %s value", typeName(o))
	return nil
}

func (m *vm) eval(e expr, s *scope) value {
	switch x := e.(type) {
	case *constant:
		return x.v
	case *nameExpr:
		if p := s.find(x.name); p != nil {
			return *p
		}
		return m.indexOf(m.globals, x.name)
	case *index:
		return m.indexOf(m.eval(x.obj, s), m.eval(x.key, s))
	case *callExpr:
		if r := m.callAll(x, s); len(r) > 0 {
			return r[0]
		}
		return nil
	case *vararg:
		if p := s.find("..."); p != nil {
			if l := (*p).([]value); len(l) > 0 {
				return l[0]
			}
		}
		return nil
	case *paren:
		return m.eval(x.a, s)
	case *funcExpr:
		return &function{name: "anonymous", def: x, env: s}
	case *tableExpr:
		t := newTable()
		n := 0
		for i, it := range x.items {
			if it.key != nil {
				t.set(m.eval(it.key, s), m.eval(it.val, s))
				continue
			}
			vals := []value{nil}
			if i == len(x.items)-1 {
				vals = m.list([]expr{it.val}, s)
			} else {
				vals[0] = m.eval(it.val, s)
			}
			for _, v := range vals {
				n++
				t.set(float64(n), v)
			}
		}
		return t
	case *unary:
		a := m.eval(x.a, s)
		switch x.op {
		case "not":
			return !truth(a)
		case "-":
			n, ok := tonum(a)
			if !ok {
				throw("attempt to perform arithmetic on a %s value", typeName(a))
			}
			return -n
		}
		switch a := a.(type) {
		case string:
			return float64(len(a))
		case *table:
			return float64(a.length())
		}
		throw("attempt to get length of a %s value", typeName(a))
	case *binary:
		if x.op == "and" || x.op == "or" {
			a := m.eval(x.a, s)
			if truth(a) == (x.op == "or") {
				return a
			}
			return m.eval(x.b, s)
		}
		a, b := m.eval(x.a, s), m.eval(x.b, s)
		switch x.op {
		case "==":
			return a == b
		case "~=":
			return a != b
		case "<":
			return less(a, b)
		case ">":
			return less(b, a)
		case "<=":
			return lessEq(a, b)
		case ">=":
			return lessEq(b, a)
		case "..":
			for _, v := range []value{a, b} {
				switch v.(type) {
				case string, float64:
				default:
					throw("attempt to concatenate a %s value", typeName(v))
				}
			}
			return tostr(a) + tostr(b)
		}
		na, ok1 := tonum(a)
		nb, ok2 := tonum(b)
		if !ok1 || !ok2 {
			bad := a
			if ok1 {
				bad = b
			}
			throw("attempt to perform arithmetic on a %s value", typeName(bad))
		}
		switch x.op {
		case "+":
			return na + nb
		case "-":
			return na - nb
		case "*":
			return na * nb
		case "/":
			return na / nb
		case "%":
			return na - math.Floor(na/nb)*nb
		case "^":
			return math.Pow(na, nb)
		}
	}
	throw("cannot evaluate %T", e)
	return nil
}

func less(a, b value) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return x < y
		}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	throw("attempt to compare %s with %s", typeName(a), typeName(b))
	return false
}

func lessEq(a, b value) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return x <= y
		}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x <= y
		}
	}
	throw("attempt to compare %s with %s", typeName(a), typeName(b))
	return false
}

// ---- library

// maxUnpack is how many values fit on the stack of Lua 5.1 (LUAI_MAXCSTACK is 8000, one is the table itself).
const maxUnpack = 7999

func arg(a []value, i int) value {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func tbl(a []value, i int, f string) *table {
	t, ok := arg(a, i).(*table)
	if !ok {
		throw("bad argument #%d to '%s' (table expected, got %s)", i+1, f, typeName(arg(a, i)))
	}
	return t
}

func num(a []value, i int, f string) float64 {
	n, ok := tonum(arg(a, i))
	if !ok {
		throw("bad argument #%d to '%s' (number expected, got %s)", i+1, f, typeName(arg(a, i)))
	}
	return n
}

func str(a []value, i int, f string) string {
	switch x := arg(a, i).(type) {
	case string:
		return x
	case float64:
		return tostr(x)
	}
	throw("bad argument #%d to '%s' (string expected, got %s)", i+1, f, typeName(arg(a, i)))
	return ""
}

func lib(fs map[string]func(m *vm, a []value) []value) *table {
	t := newTable()
	names := make([]string, 0)
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t.set(n, &function{name: n, builtin: fs[n]})
	}
	return t
}

func (m *vm) pcall(f value, args []value) (out []value) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(luaError); ok {
				out = []value{false, e.v}
				return
			}
			panic(r)
		}
	}()
	return append([]value{true}, m.invoke(f, args)...)
}

func newVM(call func(args []value, protected bool) value) *vm {
	m := &vm{call: call}
	one := func(v value) []value { return []value{v} }
	unpack := func(m *vm, a []value) []value {
		t := tbl(a, 0, "unpack")
		i, j := 1, t.length()
		if arg(a, 1) != nil {
			i = int(num(a, 1, "unpack"))
		}
		if arg(a, 2) != nil {
			j = int(num(a, 2, "unpack"))
		}
		if j-i+1 > maxUnpack {
			throw("too many results to unpack")
		}
		var out []value
		for ; i <= j; i++ {
			out = append(out, t.get(float64(i)))
		}
		return out
	}
	g := lib(map[string]func(m *vm, a []value) []value{
		"unpack":   unpack,
		"tostring": func(m *vm, a []value) []value { return one(tostr(arg(a, 0))) },
		"tonumber": func(m *vm, a []value) []value {
			if arg(a, 1) != nil && num(a, 1, "tonumber") != 10 {
				n, err := strconv.ParseInt(str(a, 0, "tonumber"), int(num(a, 1, "tonumber")), 64)
				if err != nil {
					return one(nil)
				}
				return one(float64(n))
			}
			if n, ok := tonum(arg(a, 0)); ok {
				return one(n)
			}
			return one(nil)
		},
		"type": func(m *vm, a []value) []value { return one(typeName(arg(a, 0))) },
		"next": func(m *vm, a []value) []value {
			k, v := tbl(a, 0, "next").next(arg(a, 1))
			if k == nil {
				return one(nil)
			}
			return []value{k, v}
		},
		"ipairs": func(m *vm, a []value) []value {
			t := tbl(a, 0, "ipairs")
			return []value{&function{name: "ipairs_iterator", builtin: func(m *vm, a []value) []value {
				i := num(a, 1, "ipairs") + 1
				if v := t.get(i); v != nil {
					return []value{i, v}
				}
				return one(nil)
			}}, t, 0.0}
		},
		"pairs": func(m *vm, a []value) []value {
			return []value{m.globals.get("next"), tbl(a, 0, "pairs"), nil}
		},
		"select": func(m *vm, a []value) []value {
			if s, ok := arg(a, 0).(string); ok && s == "#" {
				return one(float64(len(a) - 1))
			}
			n := int(num(a, 0, "select"))
			if n < 0 {
				n = len(a) + n
			}
			if n < 1 {
				throw("bad argument #1 to 'select' (index out of range)")
			}
			if n >= len(a) {
				return nil
			}
			return a[n:]
		},
		"error": func(m *vm, a []value) []value { panic(luaError{arg(a, 0)}) },
		"assert": func(m *vm, a []value) []value {
			if !truth(arg(a, 0)) {
				if len(a) > 1 {
					panic(luaError{a[1]})
				}
				throw("assertion failed!")
			}
			return a
		},
		"pcall":    func(m *vm, a []value) []value { return m.pcall(arg(a, 0), a[1:]) },
		"rawget":   func(m *vm, a []value) []value { return one(tbl(a, 0, "rawget").get(arg(a, 1))) },
		"rawset":   func(m *vm, a []value) []value { tbl(a, 0, "rawset").set(arg(a, 1), arg(a, 2)); return a[:1] },
		"rawequal": func(m *vm, a []value) []value { return one(arg(a, 0) == arg(a, 1)) },
	})
	g.set("table", lib(map[string]func(m *vm, a []value) []value{
		"insert": func(m *vm, a []value) []value {
			t := tbl(a, 0, "insert")
			if len(a) == 2 {
				t.set(float64(t.length()+1), a[1])
				return nil
			}
			if len(a) != 3 {
				throw("wrong number of arguments to 'insert'")
			}
			p := int(num(a, 1, "insert"))
			n := t.length() + 1
			if p > n {
				n = p
			}
			for i := n; i > p; i-- {
				t.set(float64(i), t.get(float64(i-1)))
			}
			t.set(float64(p), a[2])
			return nil
		},
		"remove": func(m *vm, a []value) []value {
			t := tbl(a, 0, "remove")
			n := t.length()
			p := n
			if arg(a, 1) != nil {
				p = int(num(a, 1, "remove"))
			}
			if p < 1 || p > n {
				return nil
			}
			v := t.get(float64(p))
			for i := p; i < n; i++ {
				t.set(float64(i), t.get(float64(i+1)))
			}
			t.set(float64(n), nil)
			return one(v)
		},
		"getn":   func(m *vm, a []value) []value { return one(float64(tbl(a, 0, "getn").length())) },
		"maxn":   func(m *vm, a []value) []value { return one(float64(tbl(a, 0, "maxn").length())) },
		"unpack": unpack,
		"concat": func(m *vm, a []value) []value {
			t := tbl(a, 0, "concat")
			sep := ""
			if arg(a, 1) != nil {
				sep = str(a, 1, "concat")
			}
			var parts []string
			for i := 1; i <= t.length(); i++ {
				parts = append(parts, str([]value{t.get(float64(i))}, 0, "concat"))
			}
			return one(strings.Join(parts, sep))
		},
		"sort": func(m *vm, a []value) []value {
			t := tbl(a, 0, "sort")
			sort.SliceStable(t.arr, func(i, j int) bool {
				if arg(a, 1) != nil {
					r := m.invoke(a[1], []value{t.arr[i], t.arr[j]})
					return len(r) > 0 && truth(r[0])
				}
				return less(t.arr[i], t.arr[j])
			})
			return nil
		},
		"foreach": func(m *vm, a []value) []value {
			t := tbl(a, 0, "foreach")
			for k, v := t.next(nil); k != nil; k, v = t.next(k) {
				if r := m.invoke(arg(a, 1), []value{k, v}); len(r) > 0 && r[0] != nil {
					return r[:1]
				}
			}
			return nil
		},
	}))
	math1 := func(f func(float64) float64) func(m *vm, a []value) []value {
		return func(m *vm, a []value) []value { return one(f(num(a, 0, "math"))) }
	}
	mt := lib(map[string]func(m *vm, a []value) []value{
		"floor": math1(math.Floor), "ceil": math1(math.Ceil), "abs": math1(math.Abs), "sqrt": math1(math.Sqrt), "exp": math1(math.Exp),
		"log": math1(math.Log), "log10": math1(math.Log10),
		"max": func(m *vm, a []value) []value {
			n := num(a, 0, "max")
			for i := range a {
				n = math.Max(n, num(a, i, "max"))
			}
			return one(n)
		},
		"min": func(m *vm, a []value) []value {
			n := num(a, 0, "min")
			for i := range a {
				n = math.Min(n, num(a, i, "min"))
			}
			return one(n)
		},
		"fmod": func(m *vm, a []value) []value { return one(math.Mod(num(a, 0, "fmod"), num(a, 1, "fmod"))) },
		"pow":  func(m *vm, a []value) []value { return one(math.Pow(num(a, 0, "pow"), num(a, 1, "pow"))) },
	})
	mt.set("huge", math.Inf(1))
	mt.set("pi", math.Pi)
	g.set("math", mt)
	g.set("string", lib(map[string]func(m *vm, a []value) []value{
		"len":   func(m *vm, a []value) []value { return one(float64(len(str(a, 0, "len")))) },
		"lower": func(m *vm, a []value) []value { return one(strings.ToLower(str(a, 0, "lower"))) },
		"upper": func(m *vm, a []value) []value { return one(strings.ToUpper(str(a, 0, "upper"))) },
		"rep": func(m *vm, a []value) []value {
			return one(strings.Repeat(str(a, 0, "rep"), max(0, int(num(a, 1, "rep")))))
		},
		"sub": func(m *vm, a []value) []value {
			s := str(a, 0, "sub")
			i, j := int(num(a, 1, "sub")), -1
			if arg(a, 2) != nil {
				j = int(num(a, 2, "sub"))
			}
			if i < 0 {
				i = max(1, len(s)+i+1)
			} else if i == 0 {
				i = 1
			}
			if j < 0 {
				j = len(s) + j + 1
			} else if j > len(s) {
				j = len(s)
			}
			if i > j {
				return one("")
			}
			return one(s[i-1 : j])
		},
		"byte": func(m *vm, a []value) []value {
			s := str(a, 0, "byte")
			i := 1
			if arg(a, 1) != nil {
				i = int(num(a, 1, "byte"))
			}
			if i < 1 || i > len(s) {
				return nil
			}
			return one(float64(s[i-1]))
		},
		"char": func(m *vm, a []value) []value {
			var b []byte
			for i := range a {
				b = append(b, byte(num(a, i, "char")))
			}
			return one(string(b))
		},
		"find": func(m *vm, a []value) []value {
			s, p := str(a, 0, "find"), str(a, 1, "find")
			if !truth(arg(a, 3)) && strings.ContainsAny(p, "^$*+?.([%-") {
				throw("patterns are not supported")
			}
			i := strings.Index(s, p)
			if i < 0 {
				return one(nil)
			}
			return []value{float64(i + 1), float64(i + len(p))}
		},
		"format": func(m *vm, a []value) []value {
			f := str(a, 0, "format")
			var b strings.Builder
			n := 1
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					b.WriteByte(f[i])
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("0123456789.-+ #", f[j]) >= 0 {
					j++
				}
				if j >= len(f) {
					throw("invalid format")
				}
				spec := f[i:j]
				switch f[j] {
				case '%':
					b.WriteByte('%')
					n--
				case 'd', 'i':
					fmt.Fprintf(&b, spec+"d", int64(num(a, n, "format")))
				case 'f', 'e':
					fmt.Fprintf(&b, f[i:j+1], num(a, n, "format"))
				case 'g':
					p := 6
					if k := strings.IndexByte(spec, '.'); k >= 0 {
						p, _ = strconv.Atoi(spec[k+1:])
					}
					b.WriteString(fmtG(num(a, n, "format"), p))
				case 's':
					fmt.Fprintf(&b, spec+"s", tostr(arg(a, n)))
				case 'x', 'X':
					fmt.Fprintf(&b, f[i:j+1], int64(num(a, n, "format")))
				default:
					throw("invalid option in format")
				}
				n++
				i = j
			}
			return one(b.String())
		},
	}))
	reply := func(k string) func(m *vm, a []value) []value {
		return func(m *vm, a []value) []value {
			t := newTable()
			t.set(k, str(a, 0, k))
			return one(t)
		}
	}
	r := lib(map[string]func(m *vm, a []value) []value{
		"call":               func(m *vm, a []value) []value { return one(m.call(a, false)) },
		"pcall":              func(m *vm, a []value) []value { return one(m.call(a, true)) },
		"error_reply":        reply("err"),
		"status_reply":       reply("ok"),
		"log":                func(m *vm, a []value) []value { return nil },
		"replicate_commands": func(m *vm, a []value) []value { return one(true) },
		"set_repl":           func(m *vm, a []value) []value { return nil },
		"setresp":            func(m *vm, a []value) []value { return nil },
	})
	for i, n := range []string{"LOG_DEBUG", "LOG_VERBOSE", "LOG_NOTICE", "LOG_WARNING"} {
		r.set(n, float64(i))
	}
	g.set("redis", r)
	g.set("server", r)
	m.globals = g
	return m
}
