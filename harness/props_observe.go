package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard"
	deckardproject "github.com/takenet/deckard/internal/project"
	"pgregory.net/rapid"
)

// observeCase is a server with settings of metrics and logs, and what its clients do.
type observeCase struct {
	Metrics     bool
	Path        string
	OpenMetrics int // 0: unset, 1: false, 2: true
	Buckets     []F64
	Format      int    // of the list of buckets: 0: unset, 1: plain, 2: with spaces, 3: with exponents
	Invalid     string // instead of the buckets
	Service     string
	Attributes  [][2]string
	Malformed   []string // attributes which are to be ignored, by where they are among the others
	Debug       int      // 0: unset, 1: false, 2: true
	LogType     string   // "": unset
	Queues      []string
	Acks, Nacks []int // by queue
	Empty       int   // pulls of an empty queue
}

var defaultBuckets = []float64{0, 1, 2, 5, 10, 15, 20, 30, 35, 50, 100, 200, 400, 600, 800, 1000, 1500, 2000, 5000, 10000}

func genObserve(t *rapid.T) observeCase {
	c := observeCase{
		Metrics:     rapid.IntRange(0, 5).Draw(t, "metrics") < 5,
		Path:        rapid.SampledFrom([]string{"/metrics", "", "/m", "/a/b/c", "/metrics2", "/Metrics", "/x.y"}).Draw(t, "path"),
		OpenMetrics: rapid.IntRange(0, 2).Draw(t, "openmetrics"),
		Service:     rapid.SampledFrom([]string{"", "svc", "my service", "é"}).Draw(t, "service"),
		Debug:       rapid.IntRange(0, 2).Draw(t, "debug"),
		LogType:     rapid.SampledFrom([]string{"", "json", "text"}).Draw(t, "log type"),
		Empty:       rapid.IntRange(0, 3).Draw(t, "empty pulls"),
	}
	switch rapid.IntRange(0, 3).Draw(t, "buckets?") {
	case 0:
	case 1:
		c.Invalid = rapid.SampledFrom([]string{"x", "1,x,3", ",", "1,,2", "1;2", "one", "1,2,", "0x", "--1"}).Draw(t, "invalid buckets")
	default:
		seen := map[float64]bool{}
		for _, b := range rapid.SliceOfN(rapid.OneOf(rapid.Float64Range(0, 30), rapid.SampledFrom([]float64{0, 1, 2, 5, 0.5, 100, 1e6, 2.5, -1, 1e-3, 1 << 40})), 1, 12).Draw(t, "buckets") {
			if !seen[b] {
				seen[b] = true
				c.Buckets = append(c.Buckets, F64(b))
			}
		}
		sort.Slice(c.Buckets, func(i, j int) bool { return c.Buckets[i] < c.Buckets[j] })
		c.Format = rapid.IntRange(1, 3).Draw(t, "format")
	}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"deployment.environment", "a", "a.b.c", "service.version", "host_name", "region"}), 0, 3, rapid.ID[string]).Draw(t, "attributes") {
		c.Attributes = append(c.Attributes, [2]string{k, rapid.SampledFrom([]string{"prod", "1", "x y", "a-b.c", "v2"}).Draw(t, "value")})
	}
	if rapid.Bool().Draw(t, "malformed attributes") {
		for range len(c.Attributes) + 1 {
			c.Malformed = append(c.Malformed, rapid.SampledFrom([]string{"", "", "zz", "zz=1=2", "-"}).Draw(t, "malformed"))
		}
	}
	for _, q := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"qa", "qb::x", "qc::y::z", "q d"}), 1, 3, rapid.ID[string]).Draw(t, "queues") {
		c.Queues = append(c.Queues, q)
		c.Acks = append(c.Acks, rapid.IntRange(0, 5).Draw(t, "acks"))
		c.Nacks = append(c.Nacks, rapid.IntRange(0, 5).Draw(t, "nacks"))
	}
	return c
}

type sample struct {
	name   string
	labels map[string]string
	value  float64
}

var (
	sampleLine = regexp.MustCompile(`^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? ([^ ]+)(?: [0-9.e+]+)?$`)
	labelPair  = regexp.MustCompile(`([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"`)
)

// parseSamples reads the text format of Prometheus.
func parseSamples(text string) (l []sample, err error) {
	for _, line := range strings.Split(text, "\n") {
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		m := sampleLine.FindStringSubmatch(line)
		if m == nil {
			return nil, fmt.Errorf("line %q", line)
		}
		s := sample{name: m[1], labels: map[string]string{}}
		for _, p := range labelPair.FindAllStringSubmatch(m[2], -1) {
			if _, ok := s.labels[p[1]]; ok {
				return nil, fmt.Errorf("line %q has a label twice", line)
			}
			s.labels[p[1]] = p[2]
		}
		if s.value, err = strconv.ParseFloat(m[3], 64); err != nil {
			return nil, fmt.Errorf("line %q", line)
		}
		l = append(l, s)
	}
	return l, nil
}

func runObserve(h *H, c observeCase) {
	env := backendEnv("memory")
	put := func(k, v string) {
		if v != "" {
			env[k] = v
		}
	}
	flags := []string{"", "false", "true"}
	put("METRICS_PATH", c.Path)
	put("METRICS_OPENMETRICS_ENABLED", flags[c.OpenMetrics])
	put("DEBUG", flags[c.Debug])
	put("LOG_TYPE", c.LogType)
	want := defaultBuckets
	if c.Invalid != "" {
		put("METRICS_HISTOGRAM_BUCKETS", c.Invalid)
	} else if len(c.Buckets) > 0 {
		var l []string
		want = nil
		for _, b := range c.Buckets {
			want = append(want, float64(b))
			l = append(l, strconv.FormatFloat(float64(b), map[bool]byte{true: 'e', false: 'f'}[c.Format == 3], -1, 64))
		}
		put("METRICS_HISTOGRAM_BUCKETS", strings.Join(l, map[bool]string{true: " , ", false: ","}[c.Format == 2]))
	}
	put("OTEL_SERVICE_NAME", c.Service)
	labels := map[string]string{"service_name": "deckard", "service_version": deckardproject.Version}
	if c.Service != "" {
		labels["service_name"] = c.Service
	}
	var attrs []string
	for i, a := range c.Attributes {
		if i < len(c.Malformed) && c.Malformed[i] != "" {
			attrs = append(attrs, c.Malformed[i])
		}
		attrs = append(attrs, a[0]+"="+a[1])
		labels[strings.ReplaceAll(a[0], ".", "_")] = a[1]
	}
	if n := len(c.Attributes); n < len(c.Malformed) && c.Malformed[n] != "" {
		attrs = append(attrs, c.Malformed[n])
	}
	put("OTEL_RESOURCE_ATTRIBUTES", strings.Join(attrs, ","))
	spec := serverSpec{Grpc: true, Housekeeper: true, Metrics: c.Metrics}
	for i := range spec.Tasks {
		spec.Tasks[i] = true
	}
	s := spawn(h, spec, time.UnixMilli(startMs), env)
	acks, nacks := map[string]float64{}, map[string]float64{}
	for i, q := range c.Queues {
		n := c.Acks[i] + c.Nacks[i]
		req := &deckard.AddRequest{}
		for j := range n {
			req.Messages = append(req.Messages, &deckard.AddMessage{Id: fmt.Sprint(j), Queue: q, Timeless: true})
		}
		if n > 0 {
			_, err := s.client.Add(bg, req)
			h.Check(err == nil, "C35", "add: %v", err)
			_, err = s.client.Pull(bg, &deckard.PullRequest{Queue: q, Amount: int32(n)})
			h.Check(err == nil, "C35", "pull: %v", err)
		}
		for j := range n {
			var err error
			if j < c.Acks[i] {
				_, err = s.client.Ack(bg, &deckard.AckRequest{Id: fmt.Sprint(j), Queue: q})
				acks[splitPrefix(q)]++
			} else {
				_, err = s.client.Nack(bg, &deckard.AckRequest{Id: fmt.Sprint(j), Queue: q})
				nacks[splitPrefix(q)]++
			}
			h.Check(err == nil, "C35", "ack or nack: %v", err)
		}
	}
	for range c.Empty {
		_, err := s.client.Pull(bg, &deckard.PullRequest{Queue: "nothing"})
		h.Check(err == nil, "C35", "pull: %v", err)
	}
	get := func(path, accept string) (code int, kind, body string, err error) {
		cl := http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, DisableCompression: true}}
		req, err := http.NewRequest("GET", fmt.Sprintf("http://127.0.0.1:%d%s", s.metrPort, path), nil)
		Must(err)
		if accept != "" {
			req.Header.Set("Accept", accept)
		}
		r, err := cl.Do(req)
		if err != nil {
			return 0, "", "", err
		}
		defer r.Body.Close()
		b, err := io.ReadAll(r.Body)
		return r.StatusCode, r.Header.Get("Content-Type"), string(b), err
	}
	path := c.Path
	if path == "" {
		path = "/metrics"
	}
	if !c.Metrics {
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.metrPort), time.Second)
		h.Check(err != nil, "C35", "the port of the metrics is open although they are disabled")
		if err == nil {
			conn.Close()
		}
		h.Label("disabled")
	}
	for start := time.Now(); c.Metrics; time.Sleep(5 * time.Millisecond) {
		code, kind, body, err := get(path, "")
		wrong := ""
		sum := func(l []sample, name string, by string) map[string]float64 {
			r := map[string]float64{}
			for _, x := range l {
				if x.name == name {
					r[x.labels[by]] += x.value
				}
			}
			return r
		}
		var l []sample
		switch {
		case err != nil:
			wrong = err.Error()
		case code != 200:
			wrong = fmt.Sprintf("status %d at %q", code, path)
		case !strings.HasPrefix(kind, "text/plain"):
			wrong = fmt.Sprintf("content type %q", kind)
		default:
			l, err = parseSamples(body)
			h.Check(err == nil, "C35", "the metrics cannot be read: %v", err)
			if got := sum(l, "deckard_ack_total", "queue"); fmt.Sprint(got) != fmt.Sprint(acks) {
				wrong = fmt.Sprintf("acks are reported as %v instead of %v", got, acks)
			} else if got := sum(l, "deckard_nack_total", "queue"); fmt.Sprint(got) != fmt.Sprint(nacks) {
				wrong = fmt.Sprintf("nacks are reported as %v instead of %v", got, nacks)
			} else if got := sum(l, "deckard_messages_empty_queue_total", "queue")["nothing"]; got != float64(c.Empty) {
				wrong = fmt.Sprintf("%v pulls of an empty queue are reported instead of %d", got, c.Empty)
			} else if sum(l, "deckard_housekeeper_task_latency_count", "task")["unlock"] == 0 {
				wrong = "no task was measured"
			}
		}
		if wrong != "" {
			if time.Since(start) > serverLimit {
				h.Fail("C35", "metrics: %s", wrong)
			}
			continue
		}
		bounds := map[string][]float64{} // by series
		last := map[string]float64{}
		for _, x := range l {
			for k, v := range labels {
				if x.name != "target_info" && x.labels[k] != v {
					h.Fail("C35", "%s has the label %s=%q instead of %q", x.name, k, x.labels[k], v)
				}
			}
			if strings.HasSuffix(x.name, "_bucket") {
				le, err := strconv.ParseFloat(x.labels["le"], 64)
				h.Check(err == nil, "C35", "the bucket %q of %s", x.labels["le"], x.name)
				delete(x.labels, "le")
				key := fmt.Sprint(x.name, x.labels)
				if n := len(bounds[key]); n > 0 {
					h.Check(bounds[key][n-1] < le && last[key] <= x.value, "C35", "the bucket %v of %s has %v after %v", le, key, x.value, last[key])
				}
				bounds[key], last[key] = append(bounds[key], le), x.value
			}
		}
		for key, b := range bounds {
			got := b[:len(b)-1]
			h.Check(fmt.Sprint(got) == fmt.Sprint(want), "C35", "the buckets of %s are %v instead of %v", key, got, want)
			h.Label("histogram")
		}
		h.Check(len(bounds) > 0, "C35", "there is no histogram")
		for _, other := range []string{"/metrics", "/", "/m", "/metrics/x"} {
			if other == path {
				continue
			}
			code, _, _, err := get(other, "")
			h.Check(err == nil && code == 404, "C35", "%s is answered with status %d although the path is %s", other, code, path)
		}
		code, kind, body, err = get(path, "application/openmetrics-text; version=1.0.0")
		open := strings.HasPrefix(kind, "application/openmetrics-text")
		h.Check(err == nil && code == 200 && open == (c.OpenMetrics != 1), "C35", "OpenMetrics (setting %q) was answered with %d %q", flags[c.OpenMetrics], code, kind)
		h.Check(strings.HasSuffix(strings.TrimSpace(body), "# EOF") == open, "C35", "the end of the answer as %q is %q", kind, body[max(0, len(body)-20):])
		h.Label("scraped")
		break
	}
	// the logs
	h.Check(s.running(), "C35", "the server ended: %s", s.out.String())
	out := s.out.String()
	if i := strings.IndexByte(out, '\n'); len(out) >= 4000 {
		out = out[i+1:]
	}
	lines := strings.Split(out, "\n")
	debug := false
	info := false
	for _, line := range lines[:len(lines)-1] {
		var m map[string]any
		err := json.Unmarshal([]byte(line), &m)
		if c.LogType != "text" {
			h.Check(err == nil, "C35", "a line of the log is not JSON: %q", line)
			sev, _ := m["severity"].(string)
			msg, _ := m["message"].(string)
			h.Check(sev != "" && msg != "" && m["application_name"] == "deckard" && m["application_version"] == deckardproject.Version, "C35", "a line of the log is %q", line)
			debug, info = debug || sev == "DEBUG", info || sev == "INFO"
		} else {
			h.Check(err != nil, "C35", "a line of the log is JSON: %q", line)
			debug, info = debug || strings.Contains(line, "\tDEBUG\t"), info || strings.Contains(line, "\tINFO\t")
		}
	}
	h.Check(debug == (c.Debug == 2), "C35", "lines of debugging were logged: %v, the setting is %q:\n%s", debug, flags[c.Debug], out)
	h.Check(info || debug, "C35", "nothing was logged: %q", out)
	h.Nontrivial()
	s.release()
}

func init() {
	register("C35", "the metrics and the log of a running server were read", sub("observe", 240, 8000, genObserve, runObserve))
}
