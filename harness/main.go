// Package main is the verification harness. It is compiled inside of the deckard module (through a build
// overlay), so that it can reach the internal packages; nothing of it is part of /repo.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// H is given to the execution of one case.
type H struct {
	Prop       string
	Tier       string
	Dir        string // scratch directory of this process
	nontrivial bool
	labels     map[string]bool
	Trace      []string // what happened, for the reports
	cleanups   []func()
	known      func(key, text string)
}

type failure struct {
	props []string
	msg   string
}

type discard struct{ why string }

// Label classifies the case.
func (h *H) Label(l string) { h.labels[l] = true }

// Nontrivial marks the case as one which exercised the property.
func (h *H) Nontrivial() { h.nontrivial = true }

func (h *H) Logf(f string, a ...any) {
	if len(h.Trace) < 4000 {
		h.Trace = append(h.Trace, fmt.Sprintf(f, a...))
	}
}

// Discard ends the case without a verdict.
func (h *H) Discard(why string) { panic(discard{why}) }

// Cleanup runs f after the case.
func (h *H) Cleanup(f func()) { h.cleanups = append(h.cleanups, f) }

// Fail reports that the given properties (space separated) do not hold.
func (h *H) Fail(props string, f string, a ...any) {
	panic(failure{strings.Fields(props), fmt.Sprintf(f, a...)})
}

// Check fails if cond is false.
func (h *H) Check(cond bool, props string, f string, a ...any) {
	if !cond {
		h.Fail(props, f, a...)
	}
}

// Failf fails for the property being checked, whatever it is.
func (h *H) Failf(f string, a ...any) { h.Fail(h.Prop, f, a...) }

// Must aborts the check with an error (not a violation): the harness itself is not working.
func Must(err error) {
	if err != nil {
		panic(harnessError{err, string(debug.Stack())})
	}
}

type harnessError struct {
	err   error
	stack string
}

// Known reports a known finding which was observed to be still present.
func (h *H) Known(key, text string) {
	if h.known != nil {
		h.known(key, text)
	}
}

// Sub is one generator with its execution.
type Sub struct {
	Name            string
	Quick, Thorough int
	Serial          bool // only in one process
	Race            bool // only in the build with the race detector
	Gen             func(t *rapid.T) any
	Exec            func(h *H, c any)
	Decode          func(b []byte) (any, error)
	Fixed           []any // cases which are always executed first
}

func sub[T any](name string, quick, thorough int, gen func(t *rapid.T) T, exec func(h *H, c T), fixed ...T) *Sub {
	s := &Sub{Name: name, Quick: quick, Thorough: thorough,
		Gen:  func(t *rapid.T) any { return gen(t) },
		Exec: func(h *H, c any) { exec(h, c.(T)) },
		Decode: func(b []byte) (any, error) {
			var v T
			err := json.Unmarshal(b, &v)
			return v, err
		}}
	for _, f := range fixed {
		s.Fixed = append(s.Fixed, f)
	}
	return s
}

func (s *Sub) serial() *Sub { s.Serial = true; return s }
func (s *Sub) race() *Sub   { s.Race = true; return s }

// Prop is the check of one property.
type Prop struct {
	ID   string
	Rule string
	Subs []*Sub
}

var props = map[string]*Prop{}

func register(id, rule string, subs ...*Sub) {
	props[id] = &Prop{ID: id, Rule: rule, Subs: subs}
}

type subResult struct {
	Name        string
	Evaluations int
	Discarded   int
	Labels      map[string]int
}

type violation struct {
	Sub     string
	Props   []string
	Message string
	Case    json.RawMessage
	Trace   []string
}

type result struct {
	Evaluations int
	Nontrivial  []string // hashes of the distinct non-trivial cases
	Subs        []*subResult
	Samples     []json.RawMessage
	Known       map[string]string
	Discards    map[string]int
	Violation   *violation
	Error       string
	Rule        string
}

// fakeTB lets rapid run outside of go test.
type fakeTB struct {
	failed bool
	log    []string
}

func (t *fakeTB) Helper()                 {}
func (t *fakeTB) Name() string            { return "check" }
func (t *fakeTB) Logf(f string, a ...any) { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *fakeTB) Log(a ...any)            { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *fakeTB) Skipf(f string, a ...any) {
	t.Logf(f, a...)
	runtime.Goexit()
}
func (t *fakeTB) Skip(a ...any) { t.Log(a...); runtime.Goexit() }
func (t *fakeTB) SkipNow()      { runtime.Goexit() }
func (t *fakeTB) Errorf(f string, a ...any) {
	t.Logf(f, a...)
	t.failed = true
}
func (t *fakeTB) Error(a ...any) { t.Log(a...); t.failed = true }
func (t *fakeTB) Fatalf(f string, a ...any) {
	t.Errorf(f, a...)
	runtime.Goexit()
}
func (t *fakeTB) Fatal(a ...any) { t.Error(a...); runtime.Goexit() }
func (t *fakeTB) FailNow()       { t.failed = true; runtime.Goexit() }
func (t *fakeTB) Fail()          { t.failed = true }
func (t *fakeTB) Failed() bool   { return t.failed }

type runner struct {
	prop     *Prop
	tier     string
	dir      string
	res      *result
	seen     map[string]bool
	caseFile *os.File
}

type outcome struct {
	v          *violation
	discarded  string
	harness    *harnessError
	nontrivial bool
	labels     map[string]bool
}

// inProgress is written before each case so that a crash of the process can be replayed.
func (r *runner) inProgress(s *Sub, raw []byte) {
	if r.caseFile == nil {
		return
	}
	b, _ := json.Marshal(map[string]any{"property": r.prop.ID, "sub": s.Name, "case": json.RawMessage(raw)})
	_, _ = r.caseFile.WriteAt(b, 0)
	_ = r.caseFile.Truncate(int64(len(b)))
}

func (r *runner) exec(s *Sub, c any, raw []byte) (o outcome) {
	h := &H{Prop: r.prop.ID, Tier: r.tier, Dir: r.dir, labels: map[string]bool{}}
	h.known = func(k, t string) {
		if r.res.Known == nil {
			r.res.Known = map[string]string{}
		}
		r.res.Known[k] = t
	}
	r.inProgress(s, raw)
	defer func() {
		for i := len(h.cleanups) - 1; i >= 0; i-- {
			h.cleanups[i]()
		}
	}()
	defer func() {
		o.labels, o.nontrivial = h.labels, h.nontrivial
		p := recover()
		if p == nil {
			return
		}
		switch f := p.(type) {
		case failure:
			for _, id := range f.props {
				if id == r.prop.ID || id == "*" {
					o.v = &violation{Sub: s.Name, Props: f.props, Message: f.msg, Case: raw, Trace: h.Trace}
					return
				}
			}
			o.discarded = "diverged in another property (" + strings.Join(f.props, " ") + "): " + f.msg
		case discard:
			o.discarded = f.why
		case harnessError:
			o.harness = &f
		default:
			stack := string(debug.Stack())
			if fmt.Sprintf("%T", p) != "rapid.invalidData" && inHarness(stack) {
				o.harness = &harnessError{fmt.Errorf("panic: %v", p), stack}
				return
			}
			if err, ok := p.(error); ok && fmt.Sprintf("%T", p) == "rapid.invalidData" {
				panic(err)
			}
			o.v = &violation{Sub: s.Name, Props: []string{"*"}, Message: fmt.Sprintf("panic: %v", p), Case: raw, Trace: append(h.Trace, strings.Split(stack, "\n")...)}
		}
	}()
	s.Exec(h, c)
	return
}

// inHarness says whether the code which panicked is part of the checks.
func inHarness(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/takenet/deckard") || strings.HasPrefix(l, "main.") {
			return strings.HasPrefix(l, "main.")
		}
	}
	return false
}

func (r *runner) account(s *Sub, sr *subResult, raw []byte, o outcome) {
	sr.Evaluations++
	r.res.Evaluations++
	if o.discarded != "" {
		sr.Discarded++
		if r.res.Discards == nil {
			r.res.Discards = map[string]int{}
		}
		if len(r.res.Discards) < 20 {
			r.res.Discards[o.discarded]++
		}
		return
	}
	for l := range o.labels {
		sr.Labels[l]++
	}
	if o.nontrivial {
		sum := sha256.Sum256(append([]byte(s.Name+"\x00"), raw...))
		k := fmt.Sprintf("%x", sum[:8])
		if !r.seen[k] {
			r.seen[k] = true
			if len(r.res.Samples) < 4 && len(raw) < 3000 && sr.Evaluations > 3 {
				b, _ := json.Marshal(map[string]any{"sub": s.Name, "case": json.RawMessage(raw)})
				r.res.Samples = append(r.res.Samples, b)
			}
		}
	}
}

func seedFor(seed uint64, parts ...any) uint64 {
	f := fnv.New64a()
	_ = binary.Write(f, binary.LittleEndian, seed)
	fmt.Fprint(f, parts...)
	v := f.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func (r *runner) run(s *Sub, checks int, seed uint64, shrink string) {
	sr := &subResult{Name: s.Name, Labels: map[string]int{}}
	r.res.Subs = append(r.res.Subs, sr)
	var fail *violation
	var failed time.Time // when it failed first
	var herr *harnessError
	one := func(c any) bool {
		raw, err := json.Marshal(c)
		if err != nil {
			herr = &harnessError{err: err}
			return false
		}
		// run the decoded form, so that a replay of the file is the same execution
		dec, err := s.Decode(raw)
		if err != nil {
			herr = &harnessError{err: err}
			return false
		}
		o := r.exec(s, dec, raw)
		if o.harness != nil {
			herr = o.harness
			return false
		}
		if fail == nil {
			r.account(s, sr, raw, o)
		}
		if o.v != nil {
			serverLimit = 12 * time.Second // while the failure is shrunk
			if fail == nil {
				failed = time.Now()
			}
			fail = o.v
			return false
		}
		return true
	}
	for _, c := range s.Fixed {
		if !one(c) {
			break
		}
	}
	if fail == nil && herr == nil && checks > 0 {
		_ = flag.Set("rapid.checks", fmt.Sprint(checks))
		_ = flag.Set("rapid.seed", fmt.Sprint(seed))
		_ = flag.Set("rapid.shrinktime", shrink)
		limit, err := time.ParseDuration(shrink)
		Must(err)
		tb := &fakeTB{}
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			rapid.Check(tb, func(t *rapid.T) {
				if herr != nil {
					return
				}
				if fail != nil && time.Since(failed) > limit {
					return // rapid looks at its limit only after each pass over a case
				}
				c := s.Gen(t)
				if !one(c) && herr == nil {
					t.Fatalf("violation")
				}
			})
		}()
		if p := <-done; p != nil {
			r.res.Error = fmt.Sprintf("rapid: %v", p)
			return
		}
		if tb.failed && fail == nil && herr == nil {
			r.res.Error = "rapid: " + strings.Join(tb.log, "\n")
			return
		}
	}
	if herr != nil {
		r.res.Error = fmt.Sprintf("harness: %v\n%s", herr.err, herr.stack)
		return
	}
	r.res.Violation = fail
}

func main() {
	propID := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Uint64("seed", 1, "seed")
	worker := flag.Int("worker", 0, "index of this process")
	workers := flag.Int("workers", 1, "number of processes")
	out := flag.String("out", "", "result file")
	dir := flag.String("dir", "", "scratch directory")
	replay := flag.String("replay", "", "case file")
	only := flag.String("sub", "", "only this sub check")
	scale := flag.Float64("scale", 1, "factor for the number of cases")
	race := flag.Bool("racebuild", false, "run the subs for the race detector build")
	child := flag.String("child", "", "run a helper process")
	testing.Init()
	flag.Parse()
	if *child != "" {
		runChild(*child, flag.Args())
		return
	}
	_ = flag.Set("rapid.nofailfile", "true")
	debug.SetGCPercent(200)
	if *propID == "list" {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			race := 0
			for _, s := range props[id].Subs {
				if s.Race {
					race++
				}
			}
			fmt.Println(id, len(props[id].Subs), race)
		}
		return
	}
	if *dir == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		defer os.RemoveAll(d)
		*dir = d
	}
	setupProcess(*dir)
	p := props[*propID]
	if p == nil {
		fmt.Println("unknown property", *propID)
		os.Exit(3)
	}
	r := &runner{prop: p, tier: *tier, dir: *dir, res: &result{Rule: p.Rule}, seen: map[string]bool{}}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var rp struct {
			Sub  string
			Case json.RawMessage
		}
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		for _, s := range p.Subs {
			if s.Name != rp.Sub {
				continue
			}
			c, err := s.Decode(rp.Case)
			if err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
			o := r.exec(s, c, rp.Case)
			// the schedule of these is not part of the case
			for i := 0; s.Race && i < 300 && o.v == nil && o.harness == nil; i++ {
				o = r.exec(s, c, rp.Case)
			}
			switch {
			case o.harness != nil:
				fmt.Println("error:", o.harness.err, o.harness.stack)
				os.Exit(3)
			case o.v != nil:
				fmt.Println(strings.Join(o.v.Trace, "\n"))
				fmt.Println("VIOLATED:", o.v.Message)
				os.Exit(1)
			case o.discarded != "":
				fmt.Println("discarded:", o.discarded)
			default:
				fmt.Println("held")
			}
			return
		}
		fmt.Println("unknown sub", rp.Sub)
		os.Exit(3)
	}
	if *out != "" {
		f, err := os.OpenFile(filepath.Join(*dir, "current.json"), os.O_CREATE|os.O_RDWR, 0o644)
		if err == nil {
			r.caseFile = f
		}
	}
	start := time.Now()
	for _, s := range p.Subs {
		if *only != "" && s.Name != *only {
			continue
		}
		if s.Race != *race {
			continue
		}
		n := s.Quick
		shrink := "20s"
		if *tier == "thorough" {
			n, shrink = s.Thorough, "60s"
		}
		n = int(float64(n) * *scale)
		if s.Serial {
			if *worker != indexOf(p.Subs, s)%*workers {
				continue
			}
		} else {
			n = (n + *workers - 1) / *workers
			if *worker != 0 {
				cp := *s
				cp.Fixed = nil
				s = &cp
			}
		}
		t0 := time.Now()
		r.run(s, n, seedFor(*seed, *propID, s.Name, *worker), shrink)
		if *out == "" {
			fmt.Printf("sub %s: %d cases %.2fs\n", s.Name, r.res.Subs[len(r.res.Subs)-1].Evaluations, time.Since(t0).Seconds())
		}
		if r.res.Violation != nil || r.res.Error != "" {
			break
		}
	}
	for k := range r.seen {
		r.res.Nontrivial = append(r.res.Nontrivial, k)
	}
	if *out != "" {
		b, err := json.Marshal(r.res)
		if err == nil {
			err = os.WriteFile(*out, b, 0o644)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		return
	}
	for _, s := range r.res.Subs {
		fmt.Printf("%s: evaluations=%d discarded=%d labels=%v\n", s.Name, s.Evaluations, s.Discarded, s.Labels)
	}
	fmt.Printf("nontrivial=%d known=%v discards=%v in %.1fs\n", len(r.res.Nontrivial), r.res.Known, r.res.Discards, time.Since(start).Seconds())
	if r.res.Error != "" {
		fmt.Println("ERROR", r.res.Error)
		os.Exit(3)
	}
	if v := r.res.Violation; v != nil {
		fmt.Println(strings.Join(v.Trace, "\n"))
		fmt.Printf("VIOLATION in %s (%v): %s\ncase: %s\n", v.Sub, v.Props, v.Message, v.Case)
		os.Exit(1)
	}
}

func indexOf(subs []*Sub, s *Sub) int {
	for i := range subs {
		if subs[i] == s {
			return i
		}
	}
	return 0
}
