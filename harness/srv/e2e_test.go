//go:build go1.25

package srv

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/verifharness/core"
)

// exchange is one exchange with upstream, as upstream saw it.
type exchange struct {
	serial     int
	method     string
	uri        string
	ver        int
	status     int // 200, 304 or what failed
	start, end time.Duration
	sum        [32]byte
	user, lang string
}

// clientOp is one request of a client.
type clientOp struct {
	client     int
	method     string
	uri        string
	user, lang string
	start, end time.Duration
	status     int
	body       []byte
	mark       string
	age        string
	err        error
}

// span is a confirmed admin or write operation.
type span struct {
	what       string
	pattern    string // purge
	uri        string // write
	ver        int    // version in force after the write
	gen        int    // excluded path in force after a reload, -1 for none
	start, end time.Duration
}

type e2e struct {
	t0   time.Time
	mu   sync.Mutex
	ex   []*exchange
	ops  []*clientOp
	adm  []*span
	vers map[string]int
	seq  int
	fail atomic.Bool
}

func (w *e2e) now() time.Duration { return time.Since(w.t0) }

func kindOf(uri string) string {
	p := strings.SplitN(uri, "/", 3)
	if len(p) < 3 {
		return ""
	}
	return p[1]
}

// e2eLife is the lifetime upstream gives to resources.
func e2eLife(uri string) time.Duration {
	switch kindOf(uri) {
	case "f", "e", "v":
		n := 0
		for _, c := range uri {
			n += int(c)
		}
		return time.Duration(1+n%3) * time.Second
	case "t", "a", "ex":
		return 600 * time.Second
	}
	return 0
}

const e2eTTL = 2 * time.Second // configured for ^/t/

func (w *e2e) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	_, _ = io.Copy(io.Discard, r.Body)
	w.mu.Lock()
	w.seq++
	x := &exchange{serial: w.seq, method: r.Method, uri: r.RequestURI, start: w.now(), user: r.Header.Get("X-User"), lang: r.Header.Get("Accept-Language")}
	if r.Method == "POST" {
		w.vers[x.uri]++
	}
	x.ver = w.vers[x.uri]
	w.mu.Unlock()
	kind := kindOf(x.uri)
	etag := fmt.Sprintf("\"%s-%d\"", x.uri, x.ver)
	h := rw.Header()
	h.Set("Etag", etag)
	h.Set("Content-Type", "text/plain")
	life := int(e2eLife(x.uri) / time.Second)
	switch kind {
	case "n":
		h.Set("Cache-Control", "no-store, max-age=60")
	case "p":
		h.Set("Cache-Control", "max-age=60, private")
	default:
		h.Set("Cache-Control", fmt.Sprintf("max-age=%d", life))
	}
	if kind == "v" {
		h.Set("Vary", "Accept-Language")
	}
	record := func(status int) {
		w.mu.Lock()
		x.status, x.end = status, w.now()
		w.ex = append(w.ex, x)
		w.mu.Unlock()
	}
	if kind == "e" && w.fail.Load() && x.serial%3 != 0 {
		record(0)
		if x.serial%2 == 0 {
			panic(http.ErrAbortHandler)
		}
		h.Set("Content-Length", "100000")
		_, _ = rw.Write(bytes.Repeat([]byte("cut "), 1000))
		panic(http.ErrAbortHandler)
	}
	if x.serial%5 == 0 {
		time.Sleep(time.Duration(x.serial%7) * time.Millisecond)
	}
	if r.Method == "GET" && r.Header.Get("If-None-Match") == etag && kind != "n" && kind != "p" {
		record(304)
		rw.WriteHeader(304)
		return
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s|%d|%d|%s|%s|", x.uri, x.ver, x.serial, x.user, x.lang)
	pad := (x.serial * 7919) % 9000
	if x.serial%40 == 0 {
		pad = 300000
	}
	for i := 0; i < pad; i++ {
		b.WriteByte(byte(i*x.serial + i>>8))
	}
	x.sum = sha256.Sum256(b.Bytes())
	record(200)
	if x.serial%2 == 0 {
		h.Set("Content-Length", strconv.Itoa(b.Len()))
	}
	_, _ = rw.Write(b.Bytes())
}

func TestC38(t *testing.T) {
	c := core.New(t, "C38")
	var wg sync.WaitGroup
	worlds := core.N(6, 24)
	sem := make(chan struct{}, 3)
	for wi := 0; wi < worlds; wi++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			if !c.Stopped() {
				e2eWorld(t, c, wi)
			}
		}()
	}
	wg.Wait()
	c.Done("a running kache (memory, redis and layered) under concurrent clients, writers, purges, reloads and upstream failures; every answer is judged afterwards against the recorded history; a case counts if the history has answers from the cache and a purge or write",
		"answers_checked", "from_cache", "purges", "writes", "reloads", "after_purge_checked", "after_write_checked", "excluded_checked", "validated", "quiet_hits")
}

func e2eWorld(t *testing.T, c *core.Check, wi int) {
	r := c.Rand("world", wi)
	backend := []string{"inmemory", "redis", "layered"}[wi%3]
	w := &e2e{t0: time.Now(), vers: map[string]int{}}
	up := httptest.NewServer(w)
	up.Config.ErrorLog = nil
	defer up.Close()
	second := httptest.NewServer(w)
	defer second.Close()
	pc := "provider: {backend: inmemory, inmemory: {max_size: 200000000, max_item_size: 10000000}}\n"
	if backend != "inmemory" {
		mr, err := miniredis.Run()
		if err != nil {
			t.Error(err)
			return
		}
		defer mr.Close()
		stop := make(chan struct{})
		defer close(stop)
		go func() { // miniredis does not expire keys by itself
			for {
				select {
				case <-stop:
					return
				case <-time.After(10 * time.Millisecond):
					mr.FastForward(10 * time.Millisecond)
				}
			}
		}()
		pc = fmt.Sprintf("provider: {backend: redis, layered: %v, layered_ttl: 1s, redis: {endpoint: \"%s\", max_queue_concurrency: 1, max_queue_buffer_size: 10000}}\n", backend == "layered", mr.Addr())
	}
	var web, web2 string
	var port int
	text := func(gen int) string {
		ex := `"^/ex/"`
		if gen >= 0 {
			ex += fmt.Sprintf(`, "^/f/%d$"`, gen)
		}
		return fmt.Sprintf(`listeners:
  a: {addr: "%s"}
  b: {addr: "%s"}
cache:
  x_header: true
  x_header_name: X-Seen
  default_ttl: 100s
  timeouts: [{path: "^/t/", ttl: %ds}]
  exclude: {path: [%s]}
upstreams:
  - {name: two, addr: "%s", path: /v/}
  - {name: one, addr: "%s", path: /}
%slogging: {level: error}
api: {port: %d, acl: "127.0.0.1"}
`, web, web2, e2eTTL/time.Second, ex, second.URL, up.URL, pc, port)
	}
	p := newProc(t, func(a, b string, api int) string { web, web2, port = a, b, api; return text(-1) })
	defer p.kill()
	if err := p.start(t); err != nil {
		t.Errorf("kache: %v", err)
		return
	}
	key := func(uri string) string {
		if kindOf(uri) == "v" {
			return "kache-" + second.URL + uri
		}
		return "kache-" + up.URL + uri
	}

	newClient := func() *http.Client {
		return &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableCompression: true, DialContext: (&net.Dialer{Timeout: 10 * time.Second}).DialContext}}
	}
	exec := func(cl *http.Client, op *clientOp, addr string) {
		req, _ := http.NewRequest(op.method, "http://"+addr+op.uri, nil)
		if op.user != "" {
			req.Header.Set("X-User", op.user)
			req.Header.Set("Authorization", "Bearer "+op.user)
		}
		if op.lang != "" {
			req.Header.Set("Accept-Language", op.lang)
		}
		op.start = w.now()
		resp, err := cl.Do(req)
		if err == nil {
			op.status, op.mark, op.age = resp.StatusCode, resp.Header.Get("X-Seen"), resp.Header.Get("Age")
			op.body, err = io.ReadAll(resp.Body)
			_ = resp.Body.Close()
		}
		op.err = err
		op.end = w.now()
		w.mu.Lock()
		w.ops = append(w.ops, op)
		w.mu.Unlock()
	}
	admin := func(s *span, f func() (int, error)) {
		s.start = w.now()
		code, err := f()
		s.end = w.now()
		if err != nil || code != 200 {
			c.Violate("admin-failed", nil, "%s %s answered %d, %v", s.what, s.pattern, code, err)
			return
		}
		w.mu.Lock()
		w.adm = append(w.adm, s)
		w.mu.Unlock()
	}

	stop := make(chan struct{})
	var wg sync.WaitGroup
	const nf = 6
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := c.Rand("client", wi*100+k)
			cl := newClient()
			defer cl.CloseIdleConnections()
			for {
				select {
				case <-stop:
					return
				default:
				}
				op := &clientOp{client: k, method: "GET"}
				switch r.Intn(16) {
				case 0:
					op.uri = fmt.Sprint("/n/", r.Intn(3))
				case 1:
					op.uri, op.user = fmt.Sprint("/p/", r.Intn(3)), fmt.Sprint("user", k)
				case 2:
					op.uri, op.user = fmt.Sprint("/a/", r.Intn(3)), fmt.Sprint("user", k)
				case 3, 4:
					op.uri, op.lang = fmt.Sprint("/v/", r.Intn(3)), core.Pick(r, "de", "fr", "en, de;q=0.5")
				case 5:
					op.uri = fmt.Sprint("/ex/", r.Intn(3))
				case 6, 7:
					op.uri = fmt.Sprint("/t/", r.Intn(4))
				case 8:
					op.uri = fmt.Sprint("/e/", r.Intn(3))
				case 9:
					op.uri = fmt.Sprint("/f/", r.Intn(nf), "?q=", r.Intn(3))
				default:
					op.uri = fmt.Sprint("/f/", r.Intn(nf))
				}
				exec(cl, op, core.Pick(r, p.web, p.web2))
				time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			}
		}()
	}
	wg.Add(1)
	go func() { // writers
		defer wg.Done()
		r := c.Rand("writer", wi)
		cl := newClient()
		defer cl.CloseIdleConnections()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(r.Range(20, 120)) * time.Millisecond):
			}
			op := &clientOp{client: 50, method: "POST", uri: fmt.Sprint("/f/", r.Intn(nf))}
			exec(cl, op, p.web)
			if op.err == nil && op.status == 200 {
				w.mu.Lock()
				w.adm = append(w.adm, &span{what: "write", uri: op.uri, ver: w.vers[op.uri], start: op.start, end: op.end}) // a single writer
				w.mu.Unlock()
				c.Count("writes", 1)
			}
		}
	}()
	wg.Add(1)
	go func() { // operators
		defer wg.Done()
		r := c.Rand("operator", wi)
		gen := -1
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(r.Range(40, 200)) * time.Millisecond):
			}
			switch r.Intn(5) {
			case 0: // reload
				gen = r.Range(-1, nf-1)
				_ = os.WriteFile(p.file+".new", []byte(text(gen)), 0o600)
				_ = os.Rename(p.file+".new", p.file)
				admin(&span{what: "reload", gen: gen}, func() (int, error) {
					code, _, _, err := do("POST", "http://"+p.api+"/api/cache/config/reload", "", nil)
					return code, err
				})
				c.Count("reloads", 1)
			case 1:
				w.fail.Store(r.P(0.5))
			case 2:
				pat := core.Pick(r, "*", key("/f/*"), key("/t/*"), "*/v/*", "*?q=1")
				admin(&span{what: "purge", pattern: pat}, func() (int, error) {
					code, _, _, err := do("DELETE", "http://"+p.api+"/api/cache/invalidate", "", http.Header{"X-Purge-Key": {pat}})
					return code, err
				})
				c.Count("purges", 1)
			default:
				pat := key(fmt.Sprint(core.Pick(r, "/f/", "/t/", "/v/"), r.Intn(nf)))
				admin(&span{what: "purge", pattern: pat}, func() (int, error) {
					code, _, _, err := do("PURGE", "http://"+p.api+"/", "", http.Header{"X-Purge-Key": {pat}})
					return code, err
				})
				c.Count("purges", 1)
			}
		}
	}()
	time.Sleep(time.Duration(core.N(7000, 30000)) * time.Millisecond)
	close(stop)
	wg.Wait()

	// quiet: what was just fetched is answered from the cache
	w.fail.Store(false)
	_ = os.WriteFile(p.file, []byte(text(-1)), 0o600)
	admin(&span{what: "reload", gen: -1}, func() (int, error) {
		code, _, _, err := do("POST", "http://"+p.api+"/api/cache/config/reload", "", nil)
		return code, err
	})
	cl := newClient()
	for i := 0; i < 4; i++ {
		uri := fmt.Sprintf("/a/quiet%d", i)
		first, again := &clientOp{client: 60, method: "GET", uri: uri}, &clientOp{client: 60, method: "GET", uri: uri}
		exec(cl, first, p.web)
		if backend != "inmemory" {
			time.Sleep(300 * time.Millisecond)
		}
		exec(cl, again, p.web2)
		if again.err != nil || !bytes.Equal(first.body, again.body) || again.mark != "HIT" || first.mark != "" || again.age == "" {
			c.Violate("not-from-cache", []string{fmt.Sprintf("first %d %q %v", first.status, first.mark, first.err), fmt.Sprintf("again %d %q age %q %v", again.status, again.mark, again.age, again.err)},
				"a fresh response (%s, %s) is not served from the cache to the next request", backend, uri)
		} else {
			c.Count("quiet_hits", 1)
		}
	}
	cl.CloseIdleConnections()
	select {
	case <-p.done:
		c.Violate("e2e-crash", strings.Split(p.err.String(), "\n"), "kache ended with code %d", p.code)
	default:
		_ = p.cmd.Process.Signal(syscall.SIGTERM)
		if !p.exited(40*time.Second) || p.code != 0 {
			c.Violate("e2e-exit", strings.Split(p.err.String(), "\n"), "kache did not end properly (code %d)", p.code)
		}
	}
	if s := p.err.String(); strings.Contains(s, "panic") {
		c.Violate("e2e-panic", strings.Split(s, "\n"), "kache reports a panic")
	}
	w.judge(c, wi, backend, key)
	_ = r
}

// judge decides all answers against the history.
func (w *e2e) judge(c *core.Check, wi int, backend string, key func(string) string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	margin := 300 * time.Millisecond
	if backend != "inmemory" {
		margin = 1500 * time.Millisecond // stores are asynchronous
	}
	bySerial := map[int]*exchange{}
	byVer := map[string][]*exchange{}
	for _, x := range w.ex {
		bySerial[x.serial] = x
		if x.method == "GET" && (x.status == 200 || x.status == 304) {
			k := fmt.Sprint(x.uri, "#", x.ver)
			byVer[k] = append(byVer[k], x)
		}
		if x.status == 304 {
			c.Count("validated", 1)
		}
	}
	// A response may be stored until the requests it answers are over.
	until := map[int]time.Duration{}
	byURI := map[string][]*clientOp{}
	for _, op := range w.ops {
		byURI[op.uri] = append(byURI[op.uri], op)
	}
	for _, x := range w.ex {
		until[x.serial] = x.end
		for _, op := range byURI[x.uri] {
			if op.method == "GET" && op.start <= x.start && op.end >= x.end && op.end > until[x.serial] {
				until[x.serial] = op.end
			}
		}
	}
	sort.Slice(w.adm, func(i, j int) bool { return w.adm[i].start < w.adm[j].start })
	delivered := map[int]int{}
	shape := map[string]int{}
	for _, op := range w.ops {
		if op.method != "GET" {
			continue
		}
		kind := kindOf(op.uri)
		// what upstream did for this URL around the request
		var hist []string
		histOf := func() []string {
			hist = append(hist, fmt.Sprintf("%s: client %d GET %s user %q lang %q [%v, %v] -> %d mark %q age %q %v %s", backend, op.client, op.uri, op.user, op.lang, op.start, op.end, op.status, op.mark, op.age, op.err, short(op.body)))
			for _, x := range w.ex {
				if x.uri == op.uri && x.start < op.end {
					hist = append(hist, fmt.Sprintf("upstream %s %s #%d version %d [%v, %v] -> %d", x.method, x.uri, x.serial, x.ver, x.start, x.end, x.status))
				}
			}
			if len(hist) > 40 {
				hist = append(hist[:1], hist[len(hist)-39:]...)
			}
			for _, a := range w.adm {
				if a.start < op.end && op.start-a.end < 5*time.Second {
					hist = append(hist, fmt.Sprintf("%s %s%s gen %d version %d [%v, %v]", a.what, a.pattern, a.uri, a.gen, a.ver, a.start, a.end))
				}
			}
			return hist
		}
		bad := func(sig, f string, args ...any) { c.Violate(sig, histOf(), f, args...) }
		if op.err != nil || op.status != 200 {
			if kind != "e" {
				bad("unavailable", "client got %d, %v although upstream answers %s", op.status, op.err, op.uri)
			} else if op.err == nil && op.status < 500 {
				bad("odd-error", "upstream failed or answered 200, the client got %d", op.status)
			}
			c.Count("failed_answers", 1)
			continue
		}
		f := bytes.SplitN(op.body, []byte("|"), 6)
		if len(f) != 6 {
			bad("foreign-body", "the body is none that upstream sent")
			continue
		}
		serial, _ := strconv.Atoi(string(f[2]))
		x := bySerial[serial]
		if x == nil || x.status != 200 || sha256.Sum256(op.body) != x.sum {
			bad("foreign-body", "the body is none that upstream sent")
			continue
		}
		c.Count("answers_checked", 1)
		delivered[serial]++
		if x.uri != op.uri {
			bad("wrong-resource", "the answer is that of %s", x.uri)
		}
		if x.start > op.end {
			bad("clock", "answer from the future")
		}
		if x.lang != op.lang && kind == "v" {
			bad("wrong-variant", "the answer is for %q", x.lang)
		}
		if x.user != op.user {
			bad("wrong-user", "the answer was made for user %q", x.user)
		}
		own := x.start >= op.start
		if !own {
			c.Count("from_cache", 1)
			shape[kind]++
		}
		switch kind {
		case "n", "p", "ex":
			if delivered[serial] > 1 {
				bad("reused:"+kind, "a response which must not be reused was delivered %d times", delivered[serial])
			}
			if !own {
				bad("reused:"+kind, "the answer was made before the request")
			}
			c.Count("excluded_checked", 1)
		case "a":
			if op.user != "" && (!own || delivered[serial] > 1) {
				bad("reused:credentials", "a response to a request with credentials was reused")
			}
		}
		// the most recent time upstream vouched for this version
		var vouched, inFlight, vouchedFetch time.Duration
		for _, y := range byVer[fmt.Sprint(op.uri, "#", x.ver)] {
			if y.start <= op.end && y.end > vouched {
				vouched = y.end
			}
			if y.start <= op.end {
				inFlight = max(inFlight, until[y.serial])
			}
		}
		vouchedFetch = x.end
		if life := e2eLife(op.uri); life > 0 && op.start-vouched > life+1500*time.Millisecond {
			bad("stale", "the answer was last vouched for %v before the request, its lifetime is %v", op.start-vouched, life)
		}
		if kind == "t" && op.start-vouchedFetch > e2eTTL+margin+1500*time.Millisecond {
			last := vouchedFetch
			for _, y := range byVer[fmt.Sprint(op.uri, "#", x.ver)] {
				if y.status == 304 && y.start <= op.end && y.end > last {
					last = y.end
				}
			}
			if op.start-last > e2eTTL+margin+1500*time.Millisecond {
				bad("kept-too-long", "the answer was fetched %v before the request, the configured lifetime is %v", op.start-last, e2eTTL)
			}
		}
		for _, a := range w.adm {
			if a.end >= op.start {
				continue
			}
			switch a.what {
			case "purge":
				if glob(a.pattern, key(op.uri)) {
					c.Count("after_purge_checked", 1)
					if inFlight < a.start-margin {
						bad("purged-served", "the answer stems from before the purge of %s, confirmed %v before the request", a.pattern, op.start-a.end)
					}
				}
			case "write":
				if a.uri == op.uri {
					c.Count("after_write_checked", 1)
					if x.ver < a.ver && inFlight < a.start-margin {
						bad("overwritten-served", "the answer is version %d, a write confirmed before the request made version %d", x.ver, a.ver)
					}
				}
			}
		}
		// the configuration in force throughout the request
		gen, sure := -1, true
		for _, a := range w.adm {
			if a.what != "reload" {
				continue
			}
			if a.end < op.start {
				gen = a.gen
			} else if a.start < op.end {
				sure = false
			}
		}
		if sure && gen >= 0 && op.uri == fmt.Sprint("/f/", gen) {
			if !own || op.mark == "HIT" {
				bad("excluded-cached", "%s is excluded by the configuration in force, but was answered from the cache", op.uri)
			}
			c.Count("excluded_checked", 1)
		}
	}
	if len(w.adm) > 3 && len(shape) > 0 {
		c.Eval(fmt.Sprint(wi, backend, shape))
	} else {
		c.Eval("")
	}
	if wi < 3 {
		c.Sample(map[string]any{"backend": backend, "requests": len(w.ops), "upstream_exchanges": len(w.ex), "admin": len(w.adm), "from_cache_by_kind": shape})
	}
}
