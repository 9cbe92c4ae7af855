//go:build go1.25

package srv

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/verifharness/core"
)

// odd is a field value that is allowed on the wire, but odd.
func odd(r *core.R) string {
	word := func() string {
		return core.Pick(r, "max-age", "s-maxage", "max-stale", "min-fresh", "no-cache", "no-store", "private", "public", "must-revalidate", "only-if-cached", "stale-if-error", "gzip",
			"Max-Age", "bytes", "*", "W/", "Set-Cookie", "10", "0", "-1", "9999999999999999999999", "1e3", "0x10", "1.5", " ", "\t", "ä", "\xff\xfe", "Mon, 02 Jan 2006 15:04:05 GMT", "Thu, 01 Jan 1970 00:00:00 GMT",
			"Sun Nov  6 08:49:37 1994", "Sunday, 06-Nov-94 08:49:37 GMT", "Fri, 31 Dec 9999 23:59:59 GMT", "Mon, 02 Jan 2006", "text/html; charset", "a=b; c=\"d", "../..", "%00%0d%0aX-Injected:%201", "<script>", "${jndi:x}", "{}", "[]", "()", "(", "[", "\\", "a|b", "^$", "::1", "127.0.0.1", "1.2.3.4:5", "fe80::1%eth0")
	}
	var b strings.Builder
	for k, n := 0, r.Range(0, 6); k < n; k++ {
		b.WriteString(core.Pick(r, "", "", ",", ", ", "=", ";", "\"", " ", ",,", "==", "'"))
		b.WriteString(word())
	}
	if r.P(0.03) {
		b.WriteString(strings.Repeat(core.Pick(r, ",", "a", "\"", "=,", "*"), r.Range(1000, 20000)))
	}
	return strings.Trim(b.String(), " \t")
}

type hostileUp struct {
	*httptest.Server
	mu   sync.Mutex
	seen map[string]int
	tell []string // what must not arrive
	good atomic.Int64
}

// planOf is what upstream answers to /f/<seed>/...
func planOf(uri string) (status int, h http.Header) {
	h = http.Header{}
	parts := strings.Split(uri, "/")
	if len(parts) < 3 || parts[1] != "f" {
		return 200, h
	}
	seed, _ := strconv.Atoi(parts[2])
	r := core.NewR(int64(seed) * 7907)
	for k, n := 0, r.Range(0, 5); k < n; k++ {
		name := core.Pick(r, "Cache-Control", "Cache-Control", "Age", "Date", "Expires", "Vary", "Etag", "Last-Modified", "Pragma", "Content-Type", "Set-Cookie", "Warning", "Surrogate-Control",
			"Authorization", "X-Kache", "Content-Range", "Accept-Ranges", "Link", "Location", "Www-Authenticate", "Allow", "Content-Location", "Retry-After")
		for v, m := 0, core.Pick(r, 1, 1, 1, 2, 3); v < m; v++ {
			h[name] = append(h[name], odd(r))
		}
	}
	status = core.Pick(r, 200, 200, 200, 200, 200, 200, 203, 204, 206, 226, 300, 301, 304, 308, 400, 404, 410, 418, 429, 451, 500, 503, 599, 700, 999)
	return
}

func newHostileUp() *hostileUp {
	u := &hostileUp{seen: map[string]int{}}
	u.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		u.mu.Lock()
		u.seen[r.Method+" "+r.RequestURI]++
		if strings.Contains(r.RequestURI, "smuggled") {
			u.tell = append(u.tell, r.Method+" "+r.RequestURI)
		}
		if strings.Contains(r.RequestURI, "ambiguous") && r.Header.Get("X-Forwarded-For") == "" && u.good.Load() > 0 {
			u.tell = append(u.tell, r.Method+" "+r.RequestURI+" (not forwarded as others are)")
		}
		if r.Header.Get("X-Injected") != "" {
			u.tell = append(u.tell, r.Method+" "+r.RequestURI+" with an injected field")
		}
		if r.Header.Get("X-Forwarded-For") != "" {
			u.good.Add(1)
		}
		u.mu.Unlock()
		status, h := planOf(r.RequestURI)
		for k, v := range h {
			w.Header()[k] = v
		}
		if strings.HasPrefix(r.RequestURI, "/ok/") {
			w.Header().Set("Cache-Control", "max-age=100")
		}
		w.Header().Set("X-Path", r.RequestURI)
		w.Header().Set("X-Len", strconv.Itoa(len(body)))
		w.WriteHeader(status)
		if status != 204 && status != 304 && r.Method != "HEAD" {
			_, _ = fmt.Fprintf(w, "body of %s", r.RequestURI)
		}
	}))
	u.Start()
	return u
}

func TestC39(t *testing.T) {
	c := core.New(t, "C39")
	var wg sync.WaitGroup
	for wi := 0; wi < core.N(3, 9); wi++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			hostileWorld(t, c, wi)
		}()
	}
	wg.Wait()
	c.Done("a case is a connection with a sequence of well-formed requests with odd contents, possibly followed by a malformed one, or an odd admin call, against a running process whose upstream "+
		"answers with odd fields; distinct by the kinds of the requests",
		"connections", "well_formed", "malformed", "embedded", "admin_calls", "refused", "oversized", "patterns", "never_completed", "names")
}

// malformed is a message that breaks the rules; what follows its head must not become a request of upstream's own accord.
func malformed(r *core.R, tag string) (kind string, raw []byte) {
	next := fmt.Sprintf("GET /ambiguous/%s HTTP/1.1\r\nHost: x\r\n\r\n", tag)
	head := func(line string, fields ...string) string {
		return line + "\r\nHost: x\r\n" + strings.Join(append(fields, ""), "\r\n") + "\r\n"
	}
	post := "POST /bad/" + tag + " HTTP/1.1"
	get := "GET /bad/" + tag + " HTTP/1.1"
	chunk := "0\r\n\r\n" + next
	switch r.Intn(30) {
	case 0:
		return "cl-te", []byte(head(post, fmt.Sprintf("Content-Length: %d", len(chunk)), "Transfer-Encoding: chunked") + chunk)
	case 1:
		return "te-cl", []byte(head(post, "Transfer-Encoding: chunked", "Content-Length: 4") + "5c\r\n" + next + strings.Repeat("a", 40) + "\r\n0\r\n\r\n")
	case 2:
		return "two-lengths", []byte(head(post, "Content-Length: 0", fmt.Sprintf("Content-Length: %d", len(next))) + next)
	case 3:
		return "length-list", []byte(head(post, fmt.Sprintf("Content-Length: %d, 0", len(next))) + next)
	case 4:
		return "length-sign", []byte(head(post, fmt.Sprintf("Content-Length: +%d", len(next))) + next)
	case 5:
		return "length-negative", []byte(head(post, "Content-Length: -1") + next)
	case 6:
		return "length-huge", []byte(head(post, "Content-Length: 99999999999999999999") + next)
	case 7:
		return "te-odd", []byte(head(post, core.Pick(r, "Transfer-Encoding: xchunked", "Transfer-Encoding: chunked, identity", "Transfer-Encoding: identity", "Transfer-Encoding:\vchunked", "Transfer-Encoding: \"chunked\""), "Content-Length: 3") + chunk)
	case 8:
		return "te-space", []byte(head(post, "Transfer-Encoding : chunked", "Content-Length: 3") + chunk)
	case 9:
		return "te-twice", []byte(head(post, "Transfer-Encoding: chunked", "Transfer-Encoding: chunked") + chunk)
	case 10:
		return "chunk-size", []byte(head(post, "Transfer-Encoding: chunked") + core.Pick(r, "x\r\n", "-1\r\n", "ffffffffffffffffff\r\nabc", "0x5\r\nhello\r\n0\r\n\r\n", "5 \r\nhelloX\r\n0\r\n\r\n", "5\r\nhelloworld\r\n0\r\n\r\n") + next)
	case 11:
		return "fold", []byte(head(get, "X-A: b\r\n c: d", "\tX: y") + next)
	case 12:
		return "nul", []byte(head(get, "X-A: b\x00c") + next)
	case 13:
		return "bare-cr", []byte(head(get, "X-A: b\rX-Injected: 1") + next)
	case 14:
		return "bare-lf", []byte("GET /bad/" + tag + " HTTP/1.1\nHost: x\nX-A: b\n\n" + next)
	case 15:
		return "version", []byte(strings.Replace(head(get), "HTTP/1.1", core.Pick(r, "HTTP/9.9", "HTTP/1", "http/1.1", "HTTP/2.0", "XTTP/1.1", "HTTP/1.1 "), 1) + next)
	case 16:
		return "method", []byte(head(core.Pick(r, "G\x01T", "G(T", "", "GET\t", "GÄT")+" /bad/"+tag+" HTTP/1.1") + next)
	case 17:
		return "uri", []byte(head("GET "+core.Pick(r, "bad", "http://[::1", "/%zz", "/a b", "/\x01", "//", "http://", "", "/a\x7f", "http://u:p@h:port/", "*", "/%00", "/..%2f..%2f", "?x", "#f", "http:/bad")+" HTTP/1.1") + next)
	case 18:
		return "no-host", []byte("GET /bad/" + tag + " HTTP/1.1\r\n\r\n" + next)
	case 19:
		return "two-hosts", []byte(head(get, "Host: y") + next)
	case 20:
		return "odd-host", []byte(strings.Replace(head(get), "Host: x", "Host: "+core.Pick(r, "a b", "a/b", "@", "[", "x:99999999", "\xff"), 1) + next)
	case 21:
		return "name", []byte(head(get, core.Pick(r, "X A: b", ": b", "X-A", "X\x00: a", "(x): y", "X-Ä: b", "=: b")) + next)
	case 22:
		return "old", []byte("GET /bad/" + tag + "\r\n")
	case 23:
		return "preface", []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + next)
	case 24:
		return "tls", []byte("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + string(r.Bytes(300)))
	case 25:
		return "noise", append(r.Bytes(r.Range(1, 2000)), "\r\n\r\n"...)
	case 26:
		return "connect", []byte("CONNECT /bad/" + tag + " HTTP/1.1\r\nHost: x\r\n\r\n" + next)
	case 27:
		return "cut", []byte(head(post, "Content-Length: 1000") + "short")
	case 28:
		return "expect", []byte(head(post, "Expect: "+core.Pick(r, "100-continue", "200-ok", "\"100-continue"), "Content-Length: 5") + "hello" + next)
	}
	return "upgrade", []byte(head(get, "Connection: Upgrade", "Upgrade: "+core.Pick(r, "websocket", "h2c", "x/\xff"), "Sec-WebSocket-Key: x", "HTTP2-Settings: AAA") + next)
}

func hostileWorld(t *testing.T, c *core.Check, wi int) {
	up := newHostileUp()
	up.Config.ErrorLog = nil
	defer up.Close()
	pc := "provider: {backend: inmemory, inmemory: {max_size: 30000000, max_item_size: 1000000}}\n"
	if wi%3 == 1 {
		mr, err := miniredis.Run()
		if err != nil {
			t.Error(err)
			return
		}
		defer mr.Close()
		core.PageScan(mr, int64(wi)) // the patterns of the stand-in panic on what is not UTF-8
		pc = fmt.Sprintf("provider: {backend: redis, layered: true, layered_ttl: 1s, redis: {endpoint: \"%s\", max_queue_concurrency: 2, max_queue_buffer_size: 1000}}\n", mr.Addr())
	}
	p := newProc(t, func(a, b string, api int) string {
		return fmt.Sprintf(`listeners:
  a: {addr: "%s"}
  b: {addr: "%s"}
cache:
  strict: %v
  x_header: true
  default_ttl: 10s
  exclude: {path: ["^/f/1"], header: {X-Odd: "1"}, content: [{type: "text/h.*", size: 10}]}
  timeouts: [{path: "^/f/2", ttl: 1s}]
upstreams:
  - {name: u, addr: "%s", path: /}
%slogging: {level: %s}
api: {port: %d, acl: "127.0.0.1"}
`, a, b, wi%3 != 2, up.URL, pc, []string{"error", "debug", "info"}[wi%3], api)
	})
	defer p.kill()
	if err := p.start(t); err != nil {
		t.Errorf("kache: %v", err)
		return
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < core.N(1000, 8000) && !c.Stopped(); k++ {
				hostileConn(c, up, core.Pick(c.Rand("addr", k), p.web, p.web2), wi*100000+w*10000+k)
			}
		}()
	}
	for w := 0; w < 2; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < core.N(500, 4000) && !c.Stopped(); k++ {
				hostileAdmin(c, p, wi*100000+w*10000+k)
			}
		}()
	}
	wg.Wait()
	// far too large heads
	for k := 0; k < 4; k++ {
		conn, err := net.Dial("tcp", p.web)
		if err != nil {
			c.Violate("dead", []string{p.err.String()}, "no connection is accepted any more: %v", err)
			break
		}
		_ = conn.SetDeadline(time.Now().Add(20 * time.Second))
		_, err = io.WriteString(conn, "GET /ok/big HTTP/1.1\r\nHost: x\r\n")
		line := "X-A: " + strings.Repeat("a", 1<<16) + "\r\n"
		if k%2 == 1 {
			line = strings.Repeat("a", 1<<16)
		}
		sent := 0
		for ; err == nil && sent < 64<<20; sent += len(line) {
			_, err = io.WriteString(conn, line)
		}
		if err == nil {
			a := readAnswer(bufio.NewReader(conn), "GET")
			if a.status < 400 {
				c.Violate("endless-head", nil, "a head of %d MB is accepted (answer %d, %v)", sent>>20, a.status, a.err)
			}
		} else if ne := net.Error(nil); errors.As(err, &ne) && ne.Timeout() {
			c.Violate("endless-head", nil, "a head of %d MB is read on and on", sent>>20)
		}
		c.Count("oversized", 1)
		_ = conn.Close()
	}
	// messages which are never completed
	var sl sync.WaitGroup
	parts := []string{"", "GET /ok/1", "GET /ok/1 HTTP/1.1\r\nHost: x\r\n", "GET /ok/1 HTTP/1.1\r\nHost: x\r\nX-A: ", "POST /ok/1 HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc",
		"POST /ok/1 HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n", "GET /ok/1 HTTP/1.1\r\nHost: x\r\nX-Drip: "}
	onWeb := len(parts)
	parts = append(parts, "", "GET /version HTTP/1.1\r\nHost: x\r\n", "PUT /api/cache/config/update HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nx_header: true\n",
		"PURGE / HTTP/1.1\r\nHost: x\r\nX-Purge-Key: nothing\r\nX-Drip: ")
	for k, part := range parts {
		sl.Add(1)
		go func() {
			defer sl.Done()
			to := []string{p.web, p.web2}[k%2]
			if k >= onWeb {
				to = p.api
			}
			conn, err := net.Dial("tcp", to)
			if err != nil {
				c.Violate("dead", []string{p.err.String()}, "no connection is accepted any more: %v", err)
				return
			}
			defer conn.Close()
			t0 := time.Now()
			_, _ = io.WriteString(conn, part)
			if strings.HasSuffix(part, "X-Drip: ") { // a byte now and then
				go func() {
					for range 120 {
						if _, err := io.WriteString(conn, "a"); err != nil {
							return
						}
						time.Sleep(250 * time.Millisecond)
					}
				}()
			}
			_ = conn.SetReadDeadline(t0.Add(25 * time.Second))
			if _, err = io.Copy(io.Discard, conn); err != nil {
				if ne := net.Error(nil); errors.As(err, &ne) && ne.Timeout() {
					c.Violate("endless-message", []string{part}, "a connection whose message %.60q is never completed is kept for %v", part, time.Since(t0))
				}
			}
			c.Count("never_completed", 1)
		}()
	}
	sl.Wait()
	// names for the debug field
	for k, name := range []string{"X(Y", "X\\\"Y", "X/Y", "X,Y", "X;Y", "X=Y", "X?", "X[0]", "X{a}", "Ä", "X\\tY", "X@Y", "<x>", "X\\x01", "X~a|b", "x-ok"} {
		code, _, ans, err := do("PUT", "http://"+p.api+"/api/cache/config/update", fmt.Sprintf("x_header: true\ndefault_ttl: 10s\nx_header_name: \"%s\"\n", name), http.Header{"Content-Type": {"application/yaml"}})
		if err != nil {
			c.Violate("admin-no-answer", nil, "naming the debug field %q is answered %d, %v", name, code, err)
			break
		}
		for j, m := range []string{"POST", "GET", "GET", "HEAD"} {
			uri := fmt.Sprintf("/ok/name%d", k)
			st, h, body, err := do(m, "http://"+p.web+uri, "", nil)
			if err != nil || st != 200 || h.Get("X-Path") != uri || m == "GET" && string(body) != "body of "+uri {
				c.Violate("odd-name", []string{fmt.Sprintf("x_header_name %q -> %d %s", name, code, ans)}, "after naming the debug field %q (answer %d), request %d (%s) is answered %d %.200s, %v", name, code, j, m, st, body, err)
				break
			}
		}
		c.Count("names", 1)
	}
	// patterns that take a naive matcher forever
	long := "/ok/" + strings.Repeat("a", 300)
	if code, _, _, err := do("GET", "http://"+p.web+long, "", nil); err != nil || code != 200 {
		c.Violate("dead", []string{p.err.String()}, "a plain request after hostile ones is answered %d, %v", code, err)
	}
	for _, pat := range []string{strings.Repeat("*a", 60) + "*b", "*" + strings.Repeat("a*", 100) + "c", strings.Repeat("*", 200) + "x", strings.Repeat("(a*)*", 30) + "z", strings.Repeat("a", 20000)} {
		t0 := time.Now()
		code, _, _, err := do("PURGE", "http://"+p.api+"/", "", http.Header{"X-Purge-Key": {pat}})
		took := time.Since(t0)
		c.Count("patterns", 1)
		if err != nil || took > 10*time.Second {
			c.Violate("slow-pattern", nil, "the purge of %.40s... is answered %d, %v after %v", pat, code, err, took)
		}
	}
	up.mu.Lock()
	if len(up.tell) > 0 {
		c.Violate("smuggled", up.tell[:min(len(up.tell), 20)], "upstream got a request which no client sent: %s", up.tell[0])
	}
	up.mu.Unlock()
	select {
	case <-p.done:
		c.Violate("ended", tail(p.err.String(), 100), "kache ended with code %d", p.code)
		return
	default:
	}
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	if !p.exited(40*time.Second) || p.code != 0 {
		c.Violate("ended", tail(p.err.String(), 100), "kache did not end properly (code %d)", p.code)
	}
	if s := p.err.String(); strings.Contains(s, "panic serving") || strings.Contains(s, "\ngoroutine ") {
		k := max(strings.Index(s, "panic serving"), 0)
		c.Violate("panic", strings.Split(s[k:min(len(s), k+4000)], "\n"), "kache reports a panic: %.200s", s[k:])
	}
	_ = os.RemoveAll(p.dir)
}

func tail(s string, n int) []string {
	l := strings.Split(s, "\n")
	return l[max(0, len(l)-n):]
}

// hostileConn sends a sequence of requests over one connection.
func hostileConn(c *core.Check, up *hostileUp, addr string, id int) {
	r := c.Rand("conn", id)
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		c.Violate("dead", nil, "no connection is accepted any more: %v", err)
		return
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(20 * time.Second))
	c.Count("connections", 1)
	br := bufio.NewReader(conn)
	type item struct {
		raw    []byte
		method string
		uri    string
		body   int
	}
	var items []item
	var shape strings.Builder
	tag := fmt.Sprint(id)
	for k, n := 0, r.Range(1, 5); k < n; k++ {
		it := item{method: core.Pick(r, "GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "TRACE", "FOO")}
		it.uri = core.Pick(r, fmt.Sprintf("/f/%d/%s", r.Intn(3000), core.Pick(r, "", "x?y="+tag)), fmt.Sprintf("/f/%d/z", r.Intn(300)), fmt.Sprintf("/ok/%d", r.Intn(20)),
			fmt.Sprintf("/ok/t%s?%s", tag, core.Pick(r, "a=%0d%0aX-Injected:%201", "x=%00", "q=%zz", "&&", "a;b", strings.Repeat("k=v&", 500), "u=http://h/", "%C3%28", "..", "p=../..")))
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", it.method, it.uri, core.Pick(r, "x", "www.example.com:80", "[::1]", addr))
		for f, m := 0, r.Range(0, 4); f < m; f++ {
			name := core.Pick(r, "Cache-Control", "Cache-Control", "Pragma", "If-None-Match", "If-Modified-Since", "If-Range", "Range", "Authorization", "Cookie", "Accept-Encoding", "Accept-Language", "Accept", "X-Odd",
				"X-Forwarded-For", "X-Real-Ip", "X-Purge-Key", "X-Kache-Cluster", "X-Kache", "Referer", "User-Agent", "Content-Type", "Forwarded", "Via", "X-Http-Method-Override", "Max-Forwards", "Date")
			fmt.Fprintf(&b, "%s: %s\r\n", name, odd(r))
			shape.WriteString(name[:2])
		}
		if it.method == "POST" || it.method == "PUT" {
			inner := fmt.Sprintf("GET /smuggled/%s HTTP/1.1\r\nHost: x\r\n\r\n", tag)
			body := core.Pick(r, "", inner, "0\r\n\r\n"+inner, "\r\n\r\n"+inner, string(r.Bytes(r.Range(1, 5000)))+inner)
			it.body = len(body)
			c.Count("embedded", 1)
			if r.P(0.5) {
				fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
			} else {
				b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
				for len(body) > 0 {
					n := r.Range(1, len(body))
					fmt.Fprintf(&b, "%x%s\r\n%s\r\n", n, core.Pick(r, "", ";ext=1", ";a=\"b\""), body[:n])
					body = body[n:]
				}
				b.WriteString("0\r\n" + core.Pick(r, "", "X-Trailer: a\r\n") + "\r\n")
			}
		} else {
			b.WriteString("\r\n")
		}
		it.raw = b.Bytes()
		items = append(items, it)
		shape.WriteString(it.method[:1] + it.uri[1:2])
	}
	badKind := ""
	var bad []byte
	if r.P(0.6) {
		badKind, bad = malformed(r, tag)
		shape.WriteString(badKind)
	}
	var hist []string
	for _, it := range items {
		hist = append(hist, fmt.Sprintf("%.1500q", it.raw))
	}
	hist = append(hist, fmt.Sprintf("%s %.500q", badKind, bad))
	pipelined := r.P(0.5)
	if pipelined {
		var all []byte
		for _, it := range items {
			all = append(all, it.raw...)
		}
		all = append(all, bad...)
		go func() { _, _ = conn.Write(all) }()
	}
	for k, it := range items {
		if !pipelined {
			if _, err := conn.Write(it.raw); err != nil {
				c.Violate("cut-off", hist, "the connection ended before request %d: %v", k, err)
				return
			}
		}
		a := readAnswer(br, it.method)
		c.Count("well_formed", 1)
		if a.err != nil {
			if pipelined && badKind != "" {
				return // the malformed message may end the connection early
			}
			c.Violate("no-answer", hist, "request %d (%s %.100s) is not answered: %v", k, it.method, it.uri, a.err)
			return
		}
		status, _ := planOf(it.uri)
		switch {
		case a.status != status && a.status >= 500 && a.status <= 504 && (status == 204 || status == 304 || it.method == "HEAD"):
			// net/http hands a connection back before the response without a body has been taken from it, so
			// that the failure of the next request on it can reach the one before: not the doing of kache
			c.Count("taken_along", 1)
			continue
		case a.status != status && !(a.status == 200 && status < 300):
			c.Violate("odd-status", hist, "request %d (%s %.100s) is answered %d, upstream answers %d: %s %.200s", k, it.method, it.uri, a.status, status, headerString(a.header), a.body)
			return
		case a.header.Get("X-Path") != it.uri:
			c.Violate("mixed-up", hist, "request %d (%s %.100s) got the answer to %.100s", k, it.method, it.uri, a.header.Get("X-Path"))
			return
		case it.body > 0 && a.header.Get("X-Len") != strconv.Itoa(it.body):
			c.Violate("body-changed", hist, "request %d has a body of %d bytes, upstream got %s", k, it.body, a.header.Get("X-Len"))
			return
		case a.header.Get("X-Injected") != "":
			c.Violate("injected", hist, "the answer to request %d has a field put there by the client", k)
			return
		}
	}
	if badKind != "" {
		c.Count("malformed", 1)
		if !pipelined {
			_, _ = conn.Write(bad)
		}
		if badKind == "cut" || badKind == "te-cl" || badKind == "chunk-size" || badKind == "tls" || badKind == "length-huge" || badKind == "noise" {
			if tc, ok := conn.(*net.TCPConn); ok {
				_ = tc.CloseWrite()
			}
		}
		_ = conn.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		a := readAnswer(br, "GET")
		if a.err == nil && a.status >= 400 {
			c.Count("refused", 1)
		}
	}
	c.Eval(shape.String())
	if id%100000 < 2 {
		c.Sample(hist)
	}
}

// hostileAdmin makes an admin call with odd contents from an allowed client.
func hostileAdmin(c *core.Check, p *proc, id int) {
	r := c.Rand("admin", id)
	method, path, body := "GET", "/api/cache/keys", ""
	h := http.Header{}
	if r.P(0.4) {
		h.Set(core.Pick(r, "X-Forwarded-For", "X-Real-Ip", "Forwarded"), odd(r))
	}
	kind := r.Intn(7)
	switch kind {
	case 0:
		path += "?prefix=" + core.Pick(r, "%00", "%zz", "*", "[", "kache-", "%ff", strings.Repeat("a", 3000))
	case 1, 2:
		method, path = "PURGE", core.Pick(r, "/", "/x", "//")
		if r.P(.1) { // names nothing
			break
		}
		h.Set("X-Purge-Key", core.Pick(r, odd(r)+"x", "[a-", "\\", "a{1,99999}", "(?i)x", "(?P<n", "x**y", "?", "[[:alpha:]]", strings.Repeat("[", 2000), "\xff\xfe"))
		if r.P(0.5) {
			h.Set("X-Kache-Cluster", odd(r))
		}
	case 3, 4:
		method, path = "PUT", "/api/cache/config/update"
		body = core.Pick(r, "", "{", "[]", "null", "strict: [", "- a", "strict: maybe", "a: &a [*a]", "x: !!binary ä", "timeouts: [{path: '(', ttl: 1s}]", "timeouts: [{path: '^/f/2', ttl: -5s}]",
			"exclude: {path: ['[']}", "exclude: {content: [{type: '(', size: -1}]}", "exclude: {header: {? [a] : b}}", "default_ttl: x", "default_cache_control: \"\\r\\nX-Injected: 1\"",
			"x_header: true\nx_header_name: \"a b\"", "a: "+strings.Repeat("[", 5000), strings.Repeat("a: ", 300)+"b", "\x00\x01", "\xff\xfea\x00", "%YAML 9.9\n---\na: b",
			"a: &a [x,x,x,x,x,x,x,x,x]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\ne: &e [*d,*d,*d,*d,*d,*d,*d,*d,*d]\nf: &f [*e,*e,*e,*e,*e,*e,*e,*e,*e]\ng: &g [*f,*f,*f,*f,*f,*f,*f,*f,*f]\nexclude: {path: *g}")
		h.Set("Content-Type", core.Pick(r, "application/yaml", "application/json", odd(r)))
	case 5:
		method, path = core.Pick(r, "DELETE", "POST", "FOO", "OPTIONS"), core.Pick(r, "/api/cache/invalidate", "/api/cache/config/update", "/api/cache/../cache/keys", "/api//cache/keys", "/api/cache/config", "/metrics", "/version", "/debug/pprof/", "/%2e%2e/", "/api/cache/keys/x")
		h.Set("X-Purge-Key", "kache-nothing")
	case 6:
		path = core.Pick(r, "/api/cache/config", "/metrics", "/version", "/api", "/api/cache/keys/", "/favicon.ico")
	}
	t0 := time.Now()
	code, _, _, err := do(method, "http://"+p.api+path, body, h)
	c.Count("admin_calls", 1)
	c.Eval(fmt.Sprint("admin", kind, method, path, len(body)))
	if err != nil && strings.Contains(err.Error(), "invalid header field") {
		return // not sent
	}
	if err != nil || time.Since(t0) > 15*time.Second || code < 200 {
		c.Violate("admin-no-answer", []string{method, path, body, headerString(h)}, "the admin call %s %.80s is answered %d, %v after %v", method, path, code, err, time.Since(t0))
	}
}
