//go:build go1.25

package srv

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/kacheio/kache/verifharness/core"
)

func TestC40(t *testing.T) {
	c := core.New(t, "C40")
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			f()
		}()
	}
	for k := 0; k < core.N(250, 2500); k++ {
		run(func() { startGood(t, c, k) })
	}
	for k := 0; k < core.N(330, 3300); k++ {
		run(func() { startBad(t, c, k) })
	}
	wg.Wait()
	c.Done("a case is a start of the program: with a random usable configuration, whose listeners, admin routes, debug routes, log and end are then compared with it, or with something it cannot run with; "+
		"distinct by the configuration",
		"good_starts", "bad_starts", "routes_present", "routes_absent", "shared_hits", "log_records", "admin_calls_on_listeners")
}

var lowLevels = map[string]int{"trace": -1, "debug": 0, "info": 1, "warn": 2, "error": 3, "fatal": 4, "panic": 5}

func startGood(t *testing.T, c *core.Check, k int) {
	if c.Stopped() {
		return
	}
	r := c.Rand("good", k)
	var mu sync.Mutex
	seen := map[string]int{}
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		seen[r.Method+" "+r.RequestURI]++
		mu.Unlock()
		if r.Method == "GET" || r.Method == "HEAD" {
			w.Header().Set("Cache-Control", "max-age=1000")
		}
		w.Header().Set("X-Up", "1")
		_, _ = fmt.Fprintf(w, "up %s %s", r.Method, r.RequestURI)
	}))
	defer up.Close()
	asked := func(s string) int { mu.Lock(); defer mu.Unlock(); return seen[s] }

	extra := r.Intn(3)
	var addrs []string
	debug := r.P(0.5)
	prefix, base := "", "/api"
	switch r.Intn(6) {
	case 0:
		prefix, base = "prefix: api, ", "/api"
	case 1:
		prefix, base = "prefix: /x/y/, ", "/x/y"
	case 2:
		prefix, base = "prefix: \"/admin\", ", "/admin"
	case 3:
		prefix, base = "prefix: \"/\", ", ""
	case 4:
		prefix, base = "prefix: a.b-c_d/, ", "/a.b-c_d"
	}
	// who may ask: nobody else than loopback can here
	acl, allowed := "", true
	switch r.Intn(5) {
	case 0:
		acl = ", acl: \"127.0.0.1\""
	case 1:
		acl = ", acl: \"10.0.0.0/8,127.0.0.0/8,::1\""
	case 2:
		acl, allowed = ", acl: \"10.0.0.0/8, 192.0.2.7\"", false
	}
	level := core.Pick(r, "trace", "debug", "info", "warn", "error", "INFO", "Error", "DeBug", "WARN", "loud", "")
	min := lowLevels["info"]
	if level == "loud" { // which is none
		min = lowLevels["error"]
		c.Count("unknown_level", 1)
	} else if level != "" {
		min = lowLevels[strings.ToLower(level)]
	}
	format := core.Pick(r, "json", "json", "console", "")
	toFile := r.P(0.6)
	color := r.P(0.4)
	root := r.P(0.7) // a catch-all upstream
	var text, logFile string
	p := newProc(t, func(web, web2 string, api int) string {
		addrs = []string{web, web2}
		for i := 0; i < extra; i++ {
			addrs = append(addrs, fmt.Sprintf("127.0.0.%d:%d", i+2, freePort()))
		}
		var b strings.Builder
		b.WriteString("listeners:\n")
		for i, a := range addrs {
			fmt.Fprintf(&b, "  l%d: {addr: \"%s\"}\n", i, a)
		}
		path := "/"
		if !root {
			path = "/known"
		}
		fmt.Fprintf(&b, "upstreams:\n  - {name: u, addr: \"%s\", path: %s}\nprovider: {backend: inmemory, inmemory: {max_size: 30000000, max_item_size: 1000000}}\n", up.URL, path)
		fmt.Fprintf(&b, "cache: {x_header: true}\napi: {%sport: %d, debug: %v%s}\n", prefix, api, debug, acl)
		b.WriteString("logging: {")
		if level != "" {
			fmt.Fprintf(&b, "level: %s, ", level)
		}
		if format != "" {
			fmt.Fprintf(&b, "format: %s, ", format)
		}
		if toFile {
			b.WriteString("file: log/k.log, max_size: 10, max_backups: 1, max_age: 1, ")
		}
		fmt.Fprintf(&b, "color: %v}\n", color)
		text = b.String()
		return text
	})
	defer p.kill()
	logFile = filepath.Join(p.dir, "log", "k.log")
	if r.P(0.5) && toFile {
		_ = os.MkdirAll(filepath.Join(p.dir, "log"), 0o755)
	}
	hist := strings.Split(text, "\n")
	bad := func(sig, f string, args ...any) { c.Violate(sig, hist, f, args...) }
	if err := p.start(t); err != nil {
		bad("no-start", "kache does not start with a usable configuration: %.500v", err)
		return
	}
	c.Count("good_starts", 1)
	c.Eval(fmt.Sprint(debug, prefix, acl, level, format, toFile, root, extra))
	// every listener serves the same content from the same cache
	for i, a := range addrs {
		code, h, body, err := do("GET", "http://"+a+"/known/1", "", nil)
		if err != nil || code != 200 || body != "up GET /known/1" || h.Get("X-Up") == "" {
			bad("listener", "listener l%d (%s) answers %d %q, %v", i, a, code, body, err)
			return
		}
		if (h.Get("X-Kache") == "HIT") != (i > 0) || asked("GET /known/1") != 1 {
			bad("not-shared", "listener l%d answers with X-Kache %q, upstream was asked %d times", i, h.Get("X-Kache"), asked("GET /known/1"))
			return
		}
		if i > 0 {
			c.Count("shared_hits", 1)
		}
	}
	// the administration is not reachable through them
	type call struct{ method, path string }
	for _, q := range []call{{"GET", base + "/cache/keys"}, {"DELETE", base + "/cache/flush"}, {"DELETE", base + "/cache/invalidate"}, {"PURGE", "/"}, {"PURGE", "/known/2"}, {"PUT", base + "/cache/config/update"}, {"POST", base + "/cache/config/reload"},
		{"GET", "/version"}, {"GET", "/metrics"}, {"GET", "/debug/vars"}, {"GET", "/debug/pprof/"}} {
		a := core.Pick(r, addrs...)
		want, body := 200, "up "+q.method+" "+q.path
		if !root && !strings.HasPrefix(q.path, "/known") {
			want = 503
		}
		code, _, got, err := do(q.method, "http://"+a+q.path, "", http.Header{"X-Purge-Key": {"*"}})
		if err != nil || code != want || want == 200 && got != body {
			bad("admin-on-listener", "%s %s on a listener is answered %d %.100q, %v", q.method, q.path, code, got, err)
			return
		}
		c.Count("admin_calls_on_listeners", 1)
	}
	if _, h, _, err := do("GET", "http://"+addrs[0]+"/known/1", "", nil); err != nil || h.Get("X-Kache") != "HIT" {
		bad("admin-on-listener", "admin calls on a listener took effect: X-Kache %q, %v", h.Get("X-Kache"), err)
		return
	}
	// the admin port has what is configured, and only that
	ask := func(method, path string, want ...int) (http.Header, string, bool) {
		code, h, body, err := do(method, "http://"+p.api+path, "", http.Header{"X-Purge-Key": {"none"}})
		if !allowed {
			for _, w := range want {
				if w == 200 {
					want = []int{403, 401}
					break
				}
			}
			if code == 401 || code == 403 { // may be refused before it is looked up
				want = append(want, code)
			}
		}
		for _, w := range want {
			if err == nil && code == w {
				if code == 200 {
					c.Count("routes_present", 1)
				} else {
					c.Count("routes_absent", 1)
				}
				return h, body, code == 200
			}
		}
		bad("admin-route", "%s %s on the admin port is answered %d %.200q, %v, expected %v", method, path, code, body, err, want)
		return nil, "", false
	}
	if h, body, ok := ask("GET", "/version", 200); ok {
		var v map[string]string
		if err := json.Unmarshal([]byte(body), &v); err != nil || v["Runtime"] != runtime.Version() || v["Platform"] != runtime.GOOS+"/"+runtime.GOARCH || v["Version"] == "" || !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
			bad("version", "the version is %s (%s)", body, h.Get("Content-Type"))
		}
	}
	if _, body, ok := ask("GET", "/metrics", 200); ok {
		for _, m := range []string{"kache_build_info{", "go_goroutines "} {
			if !strings.Contains(body, "\n"+m) {
				bad("metrics", "the metrics lack %s", m)
			}
		}
	}
	if h, body, ok := ask("GET", base+"/cache/keys", 200); ok && !strings.Contains(body, "/known/1") {
		bad("admin-route", "the keys are %.200s (%s)", body, headerString(h))
	}
	if _, body, ok := ask("GET", base+"/cache/config", 200); ok && !json.Valid([]byte(body)) {
		bad("admin-route", "the configuration is %.200s", body)
	}
	ask("POST", base+"/cache/config/reload", 200)
	on := 404
	if debug {
		on = 200
	}
	if _, body, ok := ask("GET", "/debug/vars", on); ok && !json.Valid([]byte(body)) {
		bad("debug", "/debug/vars is no JSON: %.200s", body)
	}
	for _, path := range []string{"/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/goroutine?debug=1", "/debug/pprof/heap?debug=1"} {
		ask("GET", path, on)
	}
	if base != "/api" {
		ask("GET", "/api/cache/keys", 404)
		ask("DELETE", "/api/cache/flush", 404)
	}
	for _, call := range [][2]string{{"DELETE", "/cache/flush"}, {"DELETE", "/cache/invalidate"}, {"PUT", "/cache/config/update"}, {"POST", "/cache/config/reload"}, {"GET", "/cache/config"}} {
		for _, more := range []string{"x", "/x", "%20", "/1", "-all"} {
			ask(call[0], base+call[1]+more, 404, 405)
		}
		ask(call[0], "/x"+base+call[1], 404, 405)
	}
	ask("PURGE", "/x", 404, 405)
	ask("GET", "/known/1", 404)
	ask("GET", "/", 404, 405)
	ask("GET", base+"/cache/flush", 404, 405)
	ask("POST", base+"/cache/keys", 404, 405)
	ask("GET", base+"/cache/invalidate", 404, 405)
	ask("DELETE", base+"/cache/config/update", 404, 405)
	ask("GET", base+"/cache/config/reload", 404, 405)
	ask("POST", base+"/cache/flush", 404, 405)
	ask("PURGE", base+"/cache", 404, 405)
	if _, h, _, err := do("GET", "http://"+addrs[0]+"/known/1", "", nil); err != nil || h.Get("X-Kache") != "HIT" {
		bad("admin-route", "calls that are no admin calls took effect: X-Kache %q, %v", h.Get("X-Kache"), err)
	}
	// the calls which change the cache are where they are configured to be
	mark := func() string {
		_, h, _, _ := do("GET", "http://"+addrs[0]+"/known/1", "", nil)
		return h.Get("X-Kache")
	}
	ask("DELETE", base+"/cache/invalidate", 200)
	ask("PURGE", "/", 200)
	if m := mark(); m != "HIT" {
		bad("admin-route", "purging another key removed this one: X-Kache %q", m)
	}
	ask("DELETE", base+"/cache/flush", 200)
	if m := mark(); (m == "HIT") == allowed {
		bad("admin-route", "X-Kache %q after a flush (allowed: %v)", m, allowed)
	}
	if code, _, _, err := do("PUT", "http://"+p.api+base+"/cache/config/update", "x_header: true\nx_header_name: X-Mark\n", nil); err != nil || (code == 200) != allowed {
		bad("admin-route", "updating the configuration is answered %d, %v (allowed: %v)", code, err, allowed)
	}
	if _, h, _, _ := do("GET", "http://"+addrs[0]+"/known/1", "", nil); (h.Get("X-Mark") == "HIT") != allowed {
		bad("admin-route", "after a configuration update: %s (allowed: %v)", headerString(h), allowed)
	}
	c.Count("changing_calls", 4)
	// something to log: targets which do not exist, failing updates, odd names
	for _, path := range []string{"/nowhere", "/nowhere/%0a%7B%22level%22:%22fatal%22%7D", "/nowhere/?a=%0d%0aERR", "/nowhere/%22%1b%5b31m", "/nowhere/ä"} {
		_, _, _, _ = do("GET", "http://"+addrs[0]+path, "", http.Header{"X-Odd": {"\xff\x22\x27{}"}})
	}
	select {
	case <-p.done:
		bad("ended", "kache ended with code %d: %.500s", p.code, p.err.String())
		return
	default:
	}
	_ = p.cmd.Process.Signal(core.Pick(r, syscall.SIGTERM, syscall.SIGINT))
	if !p.exited(30*time.Second) || p.code != 0 {
		bad("ended", "kache did not end properly (code %d)", p.code)
		return
	}
	for i, a := range append(addrs, p.api) {
		if conn, err := net.Dial("tcp", a); err == nil {
			_ = conn.Close()
			bad("ended", "address %d (%s) is still open after the end", i, a)
		}
	}
	startLog(c, bad, p, toFile, logFile, format, color, min, !root)
}

var consoleLine = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\S* (TRC|DBG|INF|WRN|ERR|FTL|PNC) `)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var consoleLevels = map[string]int{"TRC": -1, "DBG": 0, "INF": 1, "WRN": 2, "ERR": 3, "FTL": 4, "PNC": 5}

// startLog judges the log.
func startLog(c *core.Check, bad func(string, string, ...any), p *proc, toFile bool, file, format string, color bool, min int, errors bool) {
	text := p.err.String()
	if min == lowLevels["error"] { // an unknown level is told before the log is set up
		var rest []string
		for _, l := range strings.SplitAfter(text, "\n") {
			if !strings.Contains(l, "invalid log level") {
				rest = append(rest, l)
			}
		}
		text = strings.Join(rest, "")
	}
	if color && !toFile && format != "json" { // only a terminal may get colours
		plain := ansi.ReplaceAllString(text, "")
		if plain == text && text != "" {
			bad("log-record", "the log is to be coloured: %.300q", text)
		}
		text = plain
	}
	if toFile {
		if strings.TrimSpace(text) != "" {
			bad("log-place", "the log goes to a file, but there is output: %.300s", text)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			if min <= lowLevels["info"] {
				bad("log-place", "the log is to be in %s: %v", file, err)
			}
			return
		}
		text = string(b)
	}
	started, nowhere := 0, 0
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if text == "" {
		lines = nil
	}
	for _, l := range lines {
		c.Count("log_records", 1)
		lv := 0
		msg := ""
		if format == "json" {
			var v map[string]any
			if err := json.Unmarshal([]byte(l), &v); err != nil {
				bad("log-record", "a line of the log is no JSON record: %.300q", l)
				return
			}
			s, _ := v["level"].(string)
			n, ok := lowLevels[s]
			if _, err := time.Parse(time.RFC3339, fmt.Sprint(v["time"])); err != nil || !ok {
				bad("log-record", "a record without a level or time: %.300q", l)
				return
			}
			lv = n
			msg = fmt.Sprint(v["message"])
		} else {
			m := consoleLine.FindStringSubmatch(l)
			if m == nil {
				bad("log-record", "a line of the log is no record: %.300q", l)
				return
			}
			lv, msg = consoleLevels[m[1]], l
		}
		if lv < min {
			bad("log-level", "a record below the configured level: %.300q", l)
			return
		}
		if strings.Contains(l, "\x1b") {
			bad("log-record", "a record with control characters: %.300q", l)
			return
		}
		if strings.Contains(msg, "Kache just started") {
			started++
		}
		if strings.Contains(msg, "no matching target") {
			nowhere++
		}
	}
	if (started == 1) != (min <= lowLevels["info"]) {
		bad("log-level", "%d records of the start", started)
	}
	if want := min <= lowLevels["error"]; errors && (nowhere > 0) != want {
		bad("log-level", "%d records of requests without target", nowhere)
	}
}

func startBad(t *testing.T, c *core.Check, k int) {
	if c.Stopped() {
		return
	}
	r := c.Rand("bad", k)
	good := ""
	web, web2, port := "", "", 0
	p := newProc(t, func(w, w2 string, api int) string {
		web, web2, port = w, w2, api
		good = fmt.Sprintf("listeners:\n  a: {addr: \"%s\"}\n  b: {addr: \"%s\"}\nupstreams:\n  - {name: u, addr: \"http://127.0.0.1:1\", path: /}\nprovider: {backend: inmemory}\napi: {port: %d, acl: \"127.0.0.1\"}\n", w, w2, api)
		return good
	})
	defer p.kill()
	args := []string{"-config.file", p.file}
	text := good
	occupy := func(addr string) func() {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return nil
		}
		return func() { _ = l.Close() }
	}
	kind := []string{"version", "unknown-option", "no-file", "directory", "empty", "garbage", "unknown-setting", "busy-listener", "busy-admin", "bad-listener", "bad-admin-port", "bad-acl", "no-redis", "bad-provider", "no-upstream", "bad-interval",
		"same-listeners", "unset-option", "help", "layered-ttl", "bad-upstream", "no-listeners"}[k%22]
	wantZero, verbatim := false, ""
	switch kind {
	case "version":
		args, wantZero, verbatim = []string{"-version"}, true, "Kache, version"
	case "help":
		args, wantZero, verbatim = []string{"-help"}, true, "config.file"
	case "unknown-option":
		args = append(args, core.Pick(r, "-nope", "--config.fil=x", "-config.watch-interval=often", "-config.auto-reload=7"))
	case "unset-option":
		args = []string{"-config.file"}
	case "no-file":
		args[1] = filepath.Join(p.dir, "nope.yml")
	case "directory":
		args[1] = p.dir
	case "empty":
		text = core.Pick(r, "", "\n", "# only a comment\n", "---\n")
	case "garbage":
		text = core.Pick(r, "\x00\x01", "listeners: [", "{", good[:len(good)/2]+"\t}", "kache", "- a\n- b\n")
	case "unknown-setting":
		text += core.Pick(r, "oops: 1\n", "cahce: {}\n", "cache: {stricct: true}\n", "logging: {lvl: info}\n")
	case "busy-listener":
		free := occupy(core.Pick(r, web, web2))
		if free == nil {
			return
		}
		defer free()
	case "busy-admin":
		free := occupy(fmt.Sprintf(":%d", port))
		if free == nil {
			return
		}
		defer free()
	case "bad-listener":
		text = strings.Replace(good, web2, core.Pick(r, "127.0.0.1:99999", "127.0.0.1", "[::1:80", ":-1"), 1)
	case "same-listeners":
		text = strings.Replace(good, web2, web, 1)
	case "bad-admin-port":
		text = strings.Replace(good, fmt.Sprint("port: ", port), core.Pick(r, "port: 70000", "port: -1", "port: "+web[strings.LastIndex(web, ":")+1:]), 1)
	case "bad-acl":
		text = strings.Replace(good, "127.0.0.1\"}\n", core.Pick(r, "300.1.1.1", "10.0.0.0/40", "everyone", "127.0.0.1,x")+"\"}\n", 1)
		if text == good {
			text = good[:strings.LastIndex(good, "acl:")] + "acl: \"everyone\"}\n"
		}
	case "no-redis":
		text = strings.Replace(good, "{backend: inmemory}", "{backend: redis, redis: {endpoint: \"127.0.0.1:1\", max_queue_concurrency: 1, max_queue_buffer_size: 1}}", 1)
	case "bad-provider":
		text = strings.Replace(good, "backend: inmemory", "backend: "+core.Pick(r, "disk", "\"\"", "redis"), 1)
	case "layered-ttl":
		text = strings.Replace(good, "{backend: inmemory}", "{backend: redis, layered: true, layered_ttl: soon, redis: {endpoint: \"127.0.0.1:1\", max_queue_concurrency: 1, max_queue_buffer_size: 1}}", 1)
	case "no-upstream":
		text = strings.Replace(good, "  - {name: u, addr: \"http://127.0.0.1:1\", path: /}\n", "", 1)
	case "bad-upstream":
		text = strings.Replace(good, "http://127.0.0.1:1", core.Pick(r, "127.0.0.1", "http://", "ftp//x", "://x", "%zz"), 1)
	case "no-listeners":
		text = strings.Replace(good, fmt.Sprintf("\n  a: {addr: \"%s\"}\n  b: {addr: \"%s\"}\n", web, web2), " {}\n", 1)
	case "bad-interval":
		args = append(args, "-config.auto-reload", "-config.watch-interval", core.Pick(r, "0s", "-1s", "0"))
	}
	_ = os.WriteFile(p.file, []byte(text), 0o600)
	hist := append([]string{kind, strings.Join(args, " ")}, strings.Split(text, "\n")...)
	code, out, ended := runFor(p, 15*time.Second, args...)
	c.Count("bad_starts", 1)
	c.Eval(kind + strings.NewReplacer(web, "", web2, "", strconv.Itoa(port), "").Replace(text))
	switch {
	case !ended:
		c.Violate("runs-anyway", hist, "kache runs although it cannot (%s): %.300s", kind, out)
	case strings.Contains(out, "\ngoroutine ") || strings.Contains(out, "panic:"):
		c.Violate("start-panic", append(hist, strings.Split(out, "\n")...), "kache panics (%s): %.200s", kind, out)
	case wantZero && (code != 0 || !strings.Contains(out, verbatim)):
		c.Violate("exit-code", hist, "kache ends with code %d (%s): %.300s", code, kind, out)
	case !wantZero && (code <= 0 || strings.TrimSpace(out) == ""):
		c.Violate("exit-code", hist, "kache ends with code %d (%s) although it cannot run: %.300s", code, kind, out)
	}
	if k < 3 {
		c.Sample(append(hist, strconv.Itoa(code), out))
	}
}

// runFor runs the program and waits for its end.
func runFor(p *proc, d time.Duration, args ...string) (int, string, bool) {
	if err := p.begin(args...); err != nil {
		panic(err)
	}
	if !p.exited(d) {
		return 0, p.err.String(), false
	}
	return p.code, p.err.String(), true
}
