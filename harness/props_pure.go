package main

import (
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/score"
	"github.com/takenet/deckard/internal/queue/storage"
	"go.opentelemetry.io/otel"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------------------------
// C23: configuration

type confKey struct {
	name    string // main key
	aliases []string
	kind    string // string, bool, int, duration
	def     string // the documented default
	key     config.ConfigKey
}

// The defaults are those of the README (and of docs/components.md).
var confKeys = []confKey{
	{"debug", nil, "bool", "false", config.DebugEnabled},
	{"log_type", nil, "string", "json", config.LogType},
	{"grpc.enabled", nil, "bool", "true", config.GrpcEnabled},
	{"grpc.port", nil, "int", "8081", config.GrpcPort},
	{"grpc.server.keepalive_time", nil, "duration", "", config.GrpcServerKeepaliveTime},
	{"grpc.server.keepalive_timeout", nil, "duration", "", config.GrpcServerKeepaliveTimeout},
	{"grpc.server.max_connection_idle", nil, "duration", "", config.GrpcServerMaxConnectionIdle},
	{"grpc.server.max_connection_age", nil, "duration", "", config.GrpcServerMaxConnectionAge},
	{"grpc.server.max_connection_age_grace", nil, "duration", "", config.GrpcServerMaxConnectionAgeGrace},
	{"grpc.server.max_recv_msg_size", nil, "int", "4194304", config.GrpcServerMaxRecvMsgSize},
	{"grpc.server.max_send_msg_size", nil, "int", "4194304", config.GrpcServerMaxSendMsgSize},
	{"cache.type", nil, "string", "MEMORY", config.CacheType},
	{"cache.uri", []string{"redis.uri"}, "string", "", config.CacheUri},
	{"cache.prefix", nil, "string", "deckard_v1", config.CachePrefix},
	{"redis.cluster.mode", nil, "bool", "false", config.RedisClusterMode},
	{"cache.connection.retry.enabled", nil, "bool", "true", config.CacheConnectionRetryEnabled},
	{"cache.connection.retry.attempts", nil, "int", "10", config.CacheConnectionRetryAttempts},
	{"cache.connection.retry.delay", nil, "duration", "5s", config.CacheConnectionRetryDelay},
	{"storage.type", nil, "string", "MEMORY", config.StorageType},
	{"storage.uri", []string{"mongo.uri", "mongodb.uri"}, "string", "", config.StorageUri},
	{"storage.connection.retry.enabled", nil, "bool", "true", config.StorageConnectionRetryEnabled},
	{"storage.connection.retry.attempts", nil, "int", "10", config.StorageConnectionRetryAttempts},
	{"storage.connection.retry.delay", nil, "duration", "5s", config.StorageConnectionRetryDelay},
	{"mongo.database", []string{"mongodb.database"}, "string", "deckard", config.MongoDatabase},
	{"mongo.collection", []string{"mongodb.collection"}, "string", "queue", config.MongoCollection},
	{"mongo.queue_configuration_collection", []string{"mongodb.queue_configuration_collection"}, "string", "queue_configuration", config.MongoQueueConfigurationCollection},
	{"housekeeper.enabled", nil, "bool", "true", config.HousekeeperEnabled},
	{"housekeeper.task.timeout.delay", nil, "duration", "1s", config.HousekeeperTaskTimeoutDelay},
	{"housekeeper.task.unlock.delay", nil, "duration", "1s", config.HousekeeperTaskUnlockDelay},
	{"housekeeper.task.update.delay", nil, "duration", "1s", config.HousekeeperTaskUpdateDelay},
	{"housekeeper.task.ttl.delay", nil, "duration", "1s", config.HousekeeperTaskTTLDelay},
	{"housekeeper.task.max_elements.delay", nil, "duration", "1s", config.HousekeeperTaskMaxElementsDelay},
	{"housekeeper.task.metrics.delay", nil, "duration", "60s", config.HousekeeperTaskMetricsDelay},
	{"audit.enabled", nil, "bool", "false", config.AuditEnabled},
	{"elastic.address", nil, "string", "http://localhost:9200/", config.ElasticAddress},
	{"elastic.password", nil, "string", "", config.ElasticPassword},
	{"elastic.user", nil, "string", "", config.ElasticUser},
	{"metrics.enabled", nil, "bool", "true", config.MetricsEnabled},
	{"metrics.port", nil, "int", "22022", config.MetricsPort},
	{"metrics.path", nil, "string", "/metrics", config.MetricsPath},
	{"metrics.histogram.buckets", nil, "string", "0,1,2,5,10,15,20,30,35,50,100,200,400,600,800,1000,1500,2000,5000,10000", config.MetricsHistogramBuckets},
	{"metrics.openmetrics.enabled", nil, "bool", "true", config.MetricsOpenMetricsEnabled},
	{"tls.client.auth_type", nil, "string", "NoClientCert", config.TlsClientAuthType},
	{"tls.server.cert_file_paths", nil, "string", "", config.TlsServerCertFilePaths},
	{"tls.server.key_file_paths", nil, "string", "", config.TlsServerKeyFilePaths},
	{"tls.client.cert_file_paths", nil, "string", "", config.TlsClientCertFilePaths},
	// keys of the harness: the kinds of value for which no real key has aliases
	{"zz.verif.bool", []string{"zz.verif.bool_a", "zz.verif.bool_b"}, "bool", "true", nil},
	{"zz.verif.int", []string{"zz.verif.int_a", "zz.verif.int_b"}, "int", "17", nil},
	{"zz.verif.duration", []string{"zz.verif.duration_a", "zz.verif.duration_b"}, "duration", "5s", nil},
	{"zz.verif.string", []string{"zz.verif.string_a", "zz.verif.string_b"}, "string", "default", nil},
}

func init() {
	for i := range confKeys {
		k := &confKeys[i]
		if k.key != nil {
			continue
		}
		var d any = k.def
		switch k.kind {
		case "bool":
			d = true
		case "int":
			d = 17
		}
		k.key = config.Create(&config.ViperConfigKey{Key: k.name, Aliases: k.aliases, Default: d})
	}
}

func envName(key string) string {
	return "DECKARD_" + strings.ToUpper(strings.ReplaceAll(key, ".", "_"))
}

type confOp struct {
	Kind  string // env, unset, set, reset, configure
	Key   int
	Alias int // 0 is the main key
	Value string
	Typed bool // set: as a value of the type instead of as text
}

type confCase struct{ Ops []confOp }

func genConf(t *rapid.T) confCase {
	var c confCase
	n := rapid.IntRange(1, 8).Draw(t, "ops")
	focus := rapid.IntRange(0, len(confKeys)-1).Draw(t, "focus")
	withAlias := []int{}
	for i, k := range confKeys {
		if len(k.aliases) > 0 {
			withAlias = append(withAlias, i)
		}
	}
	if rapid.Bool().Draw(t, "aliased") {
		focus = rapid.SampledFrom(withAlias).Draw(t, "aliasedFocus")
	}
	for i := 0; i < n; i++ {
		op := confOp{Kind: rapid.SampledFrom([]string{"env", "env", "env", "set", "unset", "reset", "configure"}).Draw(t, "kind"), Key: focus}
		if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
			op.Key = rapid.IntRange(0, len(confKeys)-1).Draw(t, "key")
		}
		k := confKeys[op.Key]
		op.Alias = rapid.IntRange(0, len(k.aliases)).Draw(t, "alias")
		var vals []string
		switch k.kind {
		case "bool":
			vals = []string{"true", "false", "1", "0", "TRUE", "False"}
		case "int":
			vals = []string{"0", "1", "-1", "2", "17", "100", "65535", "2147483647", k.def}
		case "duration":
			vals = []string{"0s", "1ms", "250ms", "1s", "5s", "1m30s", "2h", "bad", "5 seconds", "s", k.def}
		default:
			vals = []string{"a", "MEMORY", "REDIS", "with space", "a=b", "redis://h:1/2?x=y", "é", "0", "true", k.def}
		}
		op.Value = rapid.SampledFrom(vals).Draw(t, "value")
		if op.Value == "" {
			op.Value = "x"
			if k.kind == "duration" {
				op.Value = "3s"
			}
		}
		op.Typed = op.Kind == "set" && rapid.Bool().Draw(t, "typed") && op.Value != "bad" && op.Value != "s" && op.Value != "5 seconds"
		c.Ops = append(c.Ops, op)
	}
	return c
}

func typedValue(kind, v string) any {
	switch kind {
	case "bool":
		return parseBool(v)
	case "int":
		var n int
		_, _ = fmt.Sscan(v, &n)
		return n
	case "duration":
		d, _ := time.ParseDuration(v)
		return d
	}
	return v
}

func parseBool(v string) bool {
	switch v {
	case "true", "1", "TRUE":
		return true
	}
	return false
}

func execConf(h *H, c confCase) {
	set := map[int]string{}
	env := map[string]string{}
	clear := func() {
		for _, k := range confKeys {
			for _, n := range append([]string{k.name}, k.aliases...) {
				_ = os.Unsetenv(envName(n))
			}
		}
		config.Configure(true)
	}
	clear()
	h.Cleanup(clear)
	check := func(i int, step int) {
		k := confKeys[i]
		// the acceptable texts
		want := []string{}
		if v, ok := set[i]; ok {
			want = append(want, v)
		} else {
			for _, n := range append([]string{k.name}, k.aliases...) {
				if v, ok := env[n]; ok {
					want = append(want, v)
					if k.kind != "duration" {
						break
					}
					if _, err := time.ParseDuration(v); err == nil {
						break
					}
					want = want[:len(want)-1]
					// not usable: the default, or the next source. Which one is not specified.
					want = append(want, k.def)
					continue
				}
			}
		}
		if len(want) == 0 {
			want = append(want, k.def)
		}
		switch k.kind {
		case "bool":
			got := k.key.GetBool()
			h.Check(got == parseBool(want[0]), "C23", "step %d: %s is %v, expected %v", step, k.name, got, want)
		case "int":
			got := k.key.GetInt()
			h.Check(fmt.Sprint(got) == want[0], "C23", "step %d: %s is %v, expected %v", step, k.name, got, want)
		case "duration":
			got := k.key.GetDuration()
			ok := false
			for _, w := range want {
				d, err := time.ParseDuration(w)
				if err != nil {
					d, _ = time.ParseDuration(k.def)
				}
				ok = ok || d == got
			}
			h.Check(ok, "C23", "step %d: %s is %v, expected %v", step, k.name, got, want)
		default:
			got := k.key.Get()
			h.Check(got == want[0], "C23", "step %d: %s is %q, expected %q", step, k.name, got, want)
		}
	}
	for step, op := range c.Ops {
		k := confKeys[op.Key]
		n := k.name
		if op.Alias > 0 {
			n = k.aliases[op.Alias-1]
		}
		h.Logf("%d: %s %s %q", step, op.Kind, n, op.Value)
		h.Label(op.Kind)
		switch op.Kind {
		case "env":
			env[n] = op.Value
			_ = os.Setenv(envName(n), op.Value)
			if op.Alias > 0 {
				h.Label("alias")
			}
			if len(env) > 1 {
				h.Nontrivial()
			}
		case "unset":
			delete(env, n)
			_ = os.Unsetenv(envName(n))
		case "set":
			set[op.Key] = op.Value
			if op.Typed {
				k.key.Set(typedValue(k.kind, op.Value))
			} else {
				k.key.Set(op.Value)
			}
			if len(env) > 0 {
				h.Nontrivial()
			}
		case "reset":
			if len(set)+len(env) > 0 {
				h.Nontrivial()
			}
			set = map[int]string{}
			config.Configure(true)
		case "configure":
			config.Configure()
		}
		for i := range confKeys {
			check(i, step)
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------
// C29: scores and times

// anyScore covers the special values, the bounds and everything between.
func anyScore(t *rapid.T, name string) float64 {
	switch rapid.IntRange(0, 7).Draw(t, name+"Kind") {
	case 0:
		return rapid.SampledFrom([]float64{0, 1, -1, 0.5, -0.5, 1e-300, 5e-324, -5e-324, maxScore, maxScore - 1, maxScore + 2, -maxScore, 1e300, -1e300, math.MaxFloat64, float64(startMs)}).Draw(t, name)
	case 1:
		return rapid.Float64Range(0, maxScore).Draw(t, name)
	case 2:
		return rapid.Float64Range(-10, 10).Draw(t, name)
	case 3:
		return float64(rapid.Int64Range(startMs-1000000, startMs+1000000).Draw(t, name))
	case 4:
		return float64(rapid.Int64Range(1<<53-100, 1<<53+100).Draw(t, name))
	case 5:
		return float64(rapid.Int64Range(-100, 100).Draw(t, name))
	default:
		return rapid.Float64().Draw(t, name)
	}
}

type scoreCase struct {
	A, B  string // the bits matter: text form of the floats
	Now   int64
	Ms    int64
	Nanos int64
}

func fstr(f float64) string { return fmt.Sprintf("%016x", math.Float64bits(f)) }

func ffrom(s string) float64 {
	var b uint64
	_, err := fmt.Sscanf(s, "%x", &b)
	Must(err)
	return math.Float64frombits(b)
}

func genScoreCase(t *rapid.T) scoreCase {
	a := anyScore(t, "a")
	if rapid.IntRange(0, 19).Draw(t, "special") == 0 {
		a = rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}).Draw(t, "specialA")
	}
	b := anyScore(t, "b")
	if rapid.Bool().Draw(t, "near") {
		b = math.Nextafter(a, b)
	}
	lim := math.MaxInt64 / int64(1e6)
	return scoreCase{fstr(a), fstr(b),
		rapid.Int64Range(1, lim).Draw(t, "now"),
		rapid.OneOf(rapid.Int64Range(-lim, lim), rapid.Int64Range(startMs-100000, startMs+100000), rapid.Int64Range(-5000, 5000)).Draw(t, "ms"),
		rapid.OneOf(rapid.Int64(), rapid.Int64Range(-3000000, 3000000), rapid.Int64Range(startMs*1000000, startMs*1000000+5000000)).Draw(t, "nanos")}
}

func clampScore(f float64) float64 {
	switch {
	case math.IsNaN(f) || f < 0:
		return 0
	case f > maxScore:
		return maxScore
	}
	return f
}

func execScore(h *H, c scoreCase) {
	a, b := ffrom(c.A), ffrom(c.B)
	h.Logf("a=%v b=%v now=%d ms=%d ns=%d", a, b, c.Now, c.Ms, c.Nanos)
	setClock(c.Now)
	h.Cleanup(func() { setClock(0) })
	add := func(f float64) float64 {
		s := score.GetAddScore(f)
		want := clampScore(f)
		if f == 0 {
			want = float64(c.Now)
		}
		h.Check(s == want, "C29", "the add score of %v at %d is %v, expected %v", f, c.Now, s, want)
		return s
	}
	sa, sb := add(a), add(b)
	if a != 0 && b != 0 && !math.IsNaN(a) && !math.IsNaN(b) {
		h.Check(!(a <= b) || sa <= sb, "C29", "%v <= %v but their scores are %v and %v", a, b, sa, sb)
		h.Check(!(b <= a) || sb <= sa, "C29", "%v <= %v but their scores are %v and %v", b, a, sb, sa)
		h.Nontrivial()
	}
	h.Check(score.GetScoreByDefaultAlgorithm() == float64(c.Now), "C29", "the default score at %d is %v", c.Now, score.GetScoreByDefaultAlgorithm())
	for _, f := range []float64{a, b} {
		if math.IsNaN(f) {
			continue // not a bound
		}
		for name, fn := range map[string]func(float64) *float64{"max": score.GetPullMaxScore, "min": score.GetPullMinScore} {
			p := fn(f)
			if f == 0 {
				h.Check(p == nil, "C29", "a %s score of 0 is a bound", name)
				continue
			}
			h.Check(p != nil && *p == clampScore(f), "C29", "the %s bound of %v is %v", name, f, deref(p))
		}
	}
	h.Check(score.IsUndefined(a) == (a == -1), "C29", "IsUndefined(%v) is %v", a, score.IsUndefined(a))
	// the limits were not changed through the pointers
	h.Check(score.Max == maxScore && score.Min == 0, "C29", "the limits are now [%v, %v]", score.Min, score.Max)

	tm := dtime.MsToTime(c.Ms)
	h.Check(dtime.TimeToMs(&tm) == c.Ms, "C29", "%d ms became %d", c.Ms, dtime.TimeToMs(&tm))
	h.Check(tm.Equal(time.UnixMilli(c.Ms)), "C29", "%d ms is %v", c.Ms, tm)
	h.Check(score.GetScoreFromTime(&tm) == float64(c.Ms), "C29", "the score of time %d is %v", c.Ms, score.GetScoreFromTime(&tm))
	n := time.Unix(0, c.Nanos)
	r := dtime.MsPrecision(&n)
	d := r.Sub(n)
	h.Check(d > -time.Millisecond && d < time.Millisecond, "C29", "rounding %d ns moved it by %v", c.Nanos, d)
	h.Check(r.UnixNano()%1e6 == 0, "C29", "%d ns was rounded to %d ns", c.Nanos, r.UnixNano())
	r2 := dtime.MsPrecision(&r)
	h.Check(r2.Equal(r), "C29", "rounding %v again gives %v", r, r2)
	h.Check(dtime.TimeToMs(&n) == dtime.TimeToMs(&r), "C29", "rounding changes the milliseconds of %d ns", c.Nanos)
	if c.Now > 0 {
		h.Check(dtime.NowMs() == c.Now, "C29", "now is %d instead of %d", dtime.NowMs(), c.Now)
	}
}

func deref(p *float64) any {
	if p == nil {
		return nil
	}
	return *p
}

// The scores which the service computes from requests and from the clock, seen in the cache and in the storage.
type scoreServiceCase struct {
	Add       string
	Nack      bool
	Score     string
	Subtract  string
	Lock      int64
	Now, Step int64
}

func genScoreService(t *rapid.T) scoreServiceCase {
	special := func(f float64, n string) string {
		if rapid.IntRange(0, 15).Draw(t, n) == 0 {
			f = rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, n+"v")
		}
		return fstr(f)
	}
	c := scoreServiceCase{Nack: rapid.Bool().Draw(t, "nack"), Now: 2 * rapid.Int64Range(1, startMs).Draw(t, "now"), Step: rapid.Int64Range(1, 100000).Draw(t, "step")}
	c.Add = special(anyScore(t, "add"), "addS")
	if rapid.Bool().Draw(t, "hasScore") {
		c.Score = special(anyScore(t, "score"), "scoreS")
	}
	if rapid.Bool().Draw(t, "hasSub") {
		c.Subtract = special(anyScore(t, "sub"), "subS")
	}
	if rapid.Bool().Draw(t, "locked") {
		c.Lock = rapid.Int64Range(1, 100000).Draw(t, "lock")
	}
	return c
}

func execScoreService(h *H, c scoreServiceCase) {
	in := newInstance("memory")
	t := c.Now
	setClock(t)
	h.Cleanup(func() { setClock(0) })
	add := ffrom(c.Add)
	_, err := rpc(in.svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "m", Queue: "q", Timeless: true, Score: add}}})
	h.Check(err == nil, "C29", "add: %v", err)
	in.check(h, "m", wantAdd(add, t))
	res, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: "q"})
	h.Check(err == nil && len(res.GetMessages()) == 1, "C29", "pull: %v %v", res, err)
	t += c.Step
	setClock(t)
	req := &deckard.AckRequest{Id: "m", Queue: "q", LockMs: c.Lock}
	sc, sub := 0.0, 0.0
	if c.Score != "" {
		sc = ffrom(c.Score)
	}
	if c.Subtract != "" {
		sub = ffrom(c.Subtract)
	}
	req.Score, req.ScoreSubtract = sc, sub
	f := in.svc.Ack
	if c.Nack {
		f = in.svc.Nack
	}
	ar, err := rpc(f, req)
	h.Check(err == nil && ar.GetSuccess(), "C29", "ack: %v %v", ar, err)
	want := 0.0
	switch {
	case sc != 0:
		want = clampScore(sc)
	case !c.Nack && c.Lock == 0:
		want = clampScore(float64(t) - sub)
	}
	if c.Lock != 0 {
		t += c.Lock + 1
		setClock(t)
		queue.ProcessLockPool(bg, in.q)
		if !c.Nack && sc == 0 {
			want = float64(t)
		}
		h.Label("locked")
	}
	h.Nontrivial()
	in.check(h, "m", want)
}

func wantAdd(f float64, now int64) float64 {
	if f == 0 {
		return float64(now)
	}
	return clampScore(f)
}

// check compares the score with which the message is available by pulling it with exact bounds.
func (in *instance) check(h *H, id string, want float64) {
	lo, hi := want, want
	if want == 0 {
		lo = -1 // a bound of 0
		hi = -1
	}
	probe := func(lo, hi float64) bool {
		b := in.cache
		var l, u *float64
		if lo != 0 {
			l = score.GetPullMinScore(lo)
		}
		if hi != 0 {
			u = score.GetPullMaxScore(hi)
		}
		ids, err := b.PullMessages(bg, "q", 1, l, u, 3600000)
		Must(err)
		if len(ids) == 0 {
			return false
		}
		// put it back where it was
		_, err = b.Remove(bg, "q", id)
		Must(err)
		_, err = b.Insert(bg, "q", &message.Message{ID: id, Queue: "q", Score: want})
		Must(err)
		return true
	}
	h.Check(probe(lo, hi), "C29", "the message is not available with score %v", want)
	if want < maxScore {
		h.Check(!probe(math.Nextafter(want, math.Inf(1)), maxScore), "C29", "the score is more than %v", want)
	}
}

// ---------------------------------------------------------------------------------------------------------------
// C31: names of the queues

type nameCase struct{ Name string }

func genName(t *rapid.T) nameCase {
	parts := rapid.SliceOfN(rapid.SampledFrom([]string{":", "::", "a", "b", "é", " ", "\n", "{", "*", "-", "0", ":::", "queue"}), 1, 8).Draw(t, "parts")
	return nameCase{strings.Join(parts, "")}
}

func splitName(s string) (string, string) {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == ':' && s[i+1] == ':' {
			return s[:i], s[i+2:]
		}
	}
	return s, ""
}

func execName(h *H, c nameCase) {
	p, s := splitName(c.Name)
	if strings.Contains(c.Name, "::") {
		h.Nontrivial()
		h.Label("separator")
	}
	gp, gs := message.GetQueueParts(c.Name)
	h.Check(gp == p && gs == s, "C31", "%q was split into %q and %q", c.Name, gp, gs)
	h.Check(message.GetQueuePrefix(c.Name) == p, "C31", "the prefix of %q is %q", c.Name, message.GetQueuePrefix(c.Name))
	m := message.Message{Queue: c.Name}
	mp, ms := m.GetQueueParts()
	h.Check(mp == p && ms == s, "C31", "a message of %q was split into %q and %q", c.Name, mp, ms)
	if strings.Contains(c.Name, "::") {
		h.Check(gp+"::"+gs == c.Name, "C31", "%q was split into %q and %q", c.Name, gp, gs)
	}
}

// execNameService follows the name through the stored messages, the audit entries and the metrics.
func execNameService(h *H, c nameCase) {
	p, s := splitName(c.Name)
	if strings.Contains(c.Name, "::") {
		h.Nontrivial()
	}
	t := startMs
	setClock(t)
	h.Cleanup(func() { setClock(0) })
	in := newInstance("memory")
	before := metricsByQueue()
	_, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: c.Name})
	h.Check(err == nil, "C31", "pull: %v", err)
	ids := []string{"a", "b", "c", "d", "e"}
	req := &deckard.AddRequest{}
	for _, id := range ids {
		req.Messages = append(req.Messages, &deckard.AddMessage{Id: id, Queue: c.Name, TtlMinutes: 60})
	}
	_, err = rpc(in.svc.Add, req)
	h.Check(err == nil, "C31", "add: %v", err)
	pr, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: c.Name, Amount: 4, AckDeadlineMs: 1000})
	h.Check(err == nil && len(pr.GetMessages()) == 4, "C31", "pull: %v %v", pr, err)
	for i, m := range pr.GetMessages() {
		r := &deckard.AckRequest{Id: m.GetId(), Queue: c.Name}
		switch i {
		case 0:
			_, err = rpc(in.svc.Ack, r)
		case 1:
			r.LockMs = 10
			_, err = rpc(in.svc.Nack, r)
		case 2:
			_, err = rpc(in.svc.Remove, &deckard.RemoveRequest{Ids: []string{m.GetId()}, Queue: c.Name})
		}
		h.Check(err == nil, "C31", "%v", err)
	}
	setClock(t + 2001)
	queue.ProcessLockPool(bg, in.q)
	_ = queue.ProcessTimeoutMessages(bg, in.q)
	found, err := in.storage.Find(bg, &storage.FindOptions{Limit: 10})
	Must(err)
	h.Check(len(found) == 4, "C31", "%d messages stored", len(found))
	for _, m := range found {
		h.Check(m.Queue == c.Name && m.QueuePrefix == p && m.QueueSuffix == s, "C31", "a message of %q was stored with prefix %q and suffix %q", c.Name, m.QueuePrefix, m.QueueSuffix)
	}
	if p != "" {
		n, err := in.storage.Count(bg, &storage.FindOptions{InternalFilter: &storage.InternalFilter{QueuePrefix: p}}, nil)
		Must(err)
		h.Check(n == 4, "C31", "%d messages of prefix %q", n, p)
	}
	prefixes, err := in.storage.ListQueuePrefixes(bg)
	Must(err)
	h.Check(len(prefixes) == 1 && prefixes[0] == p, "C31", "the prefixes are %q", prefixes)
	kinds := map[string]bool{}
	for _, e := range in.aud.take() {
		kinds[string(e.Signal)] = true
		h.Check(e.Queue == c.Name && (e.QueuePrefix == "" || e.QueuePrefix == p), "C31", "the %s entry of %q has prefix %q", e.Signal, c.Name, e.QueuePrefix)
	}
	h.Check(len(kinds) >= 5, "C31", "only %d kinds of audit entries", len(kinds))
	queue.ComputeMetrics(bg, in.q)
	n := 0
	for k, v := range metricsByQueue() {
		if v == before[k] || v == 0 {
			continue
		}
		n++
		h.Check(k[1] == p, "C31", "metric %s was labelled %q for queue %q", k[0], k[1], c.Name)
	}
	h.Check(n >= 5, "C31", "only %d labelled metrics", n)
}

// metricsByQueue sums the points of the metrics by metric and queue label.
func metricsByQueue() map[[2]string]float64 {
	out := map[[2]string]float64{}
	p, ok := otel.GetMeterProvider().(*sdkmetric.MeterProvider)
	if !ok {
		Must(fmt.Errorf("no meter provider"))
	}
	for _, s := range p.Collect(bg) {
		for _, pt := range s.Points {
			for _, kv := range pt.Attrs.ToSlice() {
				if string(kv.Key) == "queue" {
					out[[2]string{s.Name, kv.Value.AsString()}] += pt.Sum
				}
			}
		}
	}
	return out
}

func init() {
	register("C23", "a value from more than one source, or a reset which has something to drop",
		sub("keys", 6000, 400000, genConf, execConf, confCase{Ops: []confOp{{Kind: "configure"}}}))
	register("C29", "requests whose scores are ordered, or a score which went through the service",
		sub("functions", 200000, 6000000, genScoreCase, execScore),
		sub("service", 20000, 800000, genScoreService, execScoreService))
	register("C31", "a name with a separator",
		sub("functions", 100000, 3000000, genName, execName),
		sub("service", 4000, 16000, genName, execNameService))
}
