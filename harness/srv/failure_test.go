//go:build go1.25

package srv

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/verifharness/core"
)

// flaky is an upstream which misbehaves on the wire as scripted per path.
type flaky struct {
	l     net.Listener
	mu    sync.Mutex
	plans map[string]*flakyPlan
	conns map[net.Conn]bool
	stop  chan struct{}
}

type flakyPlan struct {
	modes []string // consumed in order, then the upstream is healthy
	body  []byte
	stale bool // healthy answers must be validated each time
	seen  int
	ok    int
	log   []string
}

func newFlaky() *flaky {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f := &flaky{l: l, plans: map[string]*flakyPlan{}, conns: map[net.Conn]bool{}, stop: make(chan struct{})}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.conns[c] = true
			f.mu.Unlock()
			go f.serve(c)
		}
	}()
	return f
}

func (f *flaky) close() {
	close(f.stop)
	_ = f.l.Close()
	f.mu.Lock()
	for c := range f.conns {
		_ = c.Close()
	}
	f.mu.Unlock()
}

func (f *flaky) serve(c net.Conn) {
	defer func() {
		_ = c.Close()
		f.mu.Lock()
		delete(f.conns, c)
		f.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		_, _ = (&bytes.Buffer{}).ReadFrom(req.Body)
		f.mu.Lock()
		p := f.plans[req.URL.Path]
		mode := "ok"
		if p == nil {
			f.mu.Unlock()
			return
		}
		if p.seen < len(p.modes) {
			mode = p.modes[p.seen]
		}
		p.seen++
		inm := req.Header.Get("If-None-Match")
		if mode == "ok" {
			p.ok++
		}
		p.log = append(p.log, fmt.Sprintf("upstream: %s %s -> %s (If-None-Match %q)", req.Method, req.URL, mode, inm))
		body, stale := p.body, p.stale
		f.mu.Unlock()

		cc := "max-age=60"
		if stale {
			cc = "max-age=0"
		}
		head := "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nCache-Control: " + cc + "\r\nEtag: \"v\"\r\nDate: " + time.Now().UTC().Format(http.TimeFormat) + "\r\n"
		cut := len(body) / 2
		cl := fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))
		w := func(s string, b []byte) { _, _ = c.Write(append([]byte(s), b...)) }
		reset := func() {
			if tc, ok := c.(*net.TCPConn); ok {
				_ = tc.SetLinger(0)
			}
		}
		switch mode {
		case "ok":
			if inm != "" && strings.Contains(inm, "\"v\"") {
				w("HTTP/1.1 304 Not Modified\r\nEtag: \"v\"\r\nCache-Control: "+cc+"\r\n\r\n", nil)
				continue
			}
			if req.Method == "HEAD" {
				w(head+cl, nil)
			} else {
				w(head+cl, body)
			}
			continue
		case "close":
			return
		case "reset":
			reset()
			return
		case "half-header":
			w(head[:len(head)/2], nil)
			return
		case "garbage":
			w("BLAH BLAH\r\n\r\n<html>", nil)
			return
		case "bad-length":
			w(head+"Content-Length: 12x\r\n\r\n", body)
			return
		case "bad-header":
			w("HTTP/1.1 200 OK\r\nCache-Control: max-age=60\r\nno colon here\r\n\r\n", body)
			return
		case "bad-status":
			w("HTTP/1.1 20x OK\r\nCache-Control: max-age=60\r\nContent-Length: 2\r\n\r\nok", nil)
			return
		case "short-body":
			w(head+cl, body[:cut])
			return
		case "short-body-reset":
			w(head+cl, body[:cut])
			time.Sleep(2 * time.Millisecond)
			reset()
			return
		case "no-body":
			w(head+cl, nil)
			return
		case "chunk-cut":
			w(head+"Transfer-Encoding: chunked\r\n\r\n", []byte(fmt.Sprintf("%x\r\n%s\r\n", cut, body[:cut])))
			return
		case "chunk-cut-inside":
			w(head+"Transfer-Encoding: chunked\r\n\r\n", []byte(fmt.Sprintf("%x\r\n%s", len(body), body[:cut])))
			return
		case "chunk-garbage":
			w(head+"Transfer-Encoding: chunked\r\n\r\n", []byte(fmt.Sprintf("%x\r\n%s\r\nZZZ\r\n", cut, body[:cut])))
			return
		case "gzip-cut":
			var z bytes.Buffer
			zw := gzip.NewWriter(&z)
			_, _ = zw.Write(body)
			_ = zw.Close()
			part := z.Bytes()[:z.Len()*2/3]
			w(head+fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", len(part)), part)
			return
		case "stall":
			<-f.stop
			return
		case "stall-body":
			w(head+cl, body[:cut])
			<-f.stop
			return
		}
	}
}

var failModes = []string{"close", "reset", "half-header", "garbage", "bad-length", "bad-header", "bad-status", "short-body", "short-body-reset", "no-body",
	"chunk-cut", "chunk-cut-inside", "chunk-garbage", "gzip-cut"}

func TestC27(t *testing.T) {
	c := core.New(t, "C27")
	up := newFlaky()
	defer up.close()
	dead, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	deadAddr := dead.Addr().String()
	_ = dead.Close()

	get := func(n *node, method, path, body string, limit time.Duration) answer {
		raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n", method, path)
		if method == "POST" {
			raw += fmt.Sprintf("Content-Length: %d\r\n", len(body))
		}
		return rawDo(hostOf(n.front), []byte(raw+"\r\n"+body), method, limit)
	}
	judge := func(method string, a answer, full []byte) string {
		switch {
		case a.err != nil && a.status == 0:
			return "broken"
		case a.err != nil:
			return "broken transfer"
		case a.status >= 502 && a.status <= 504:
			for _, f := range []string{"Cache-Control", "Expires", "Etag", "Last-Modified", "Age", "X-Kache"} { // of no response anyone may reuse
				if v := a.header.Get(f); v != "" && v != "no-store" && v != "no-cache" {
					return fmt.Sprintf("BAD error %d with %s: %s", a.status, f, v)
				}
			}
			return fmt.Sprint("error ", a.status)
		case a.status == 200 && (method == "HEAD" || bytes.Equal(a.body, full)):
			return "complete"
		}
		return fmt.Sprintf("BAD status %d body %s of %d", a.status, short(a.body), len(full))
	}

	var all sync.WaitGroup
	// upstreams that never answer (in full)
	{
		n := mustNode(t, config.Upstreams{{Name: "u", Addr: "http://" + up.l.Addr().String(), Path: "/"}}, &cache.HttpCacheConfig{Strict: true}, nil, nil)
		n.serve()
		for _, mode := range []string{"stall", "stall-body"} {
			path := "/" + mode
			body := bytes.Repeat([]byte("0123456789"), 500)
			up.mu.Lock()
			up.plans[path] = &flakyPlan{modes: []string{mode, mode, mode, mode}, body: body}
			up.mu.Unlock()
			for k := 0; k < 3; k++ {
				all.Add(1)
				go func() {
					defer all.Done()
					t0 := time.Now()
					a := get(n, "GET", path, "", 45*time.Second)
					took := time.Since(t0)
					c.Count("stalled_upstreams", 1)
					c.Eval(mode)
					if verdict := judge("GET", a, body); !strings.HasPrefix(verdict, "error") && !strings.HasPrefix(verdict, "broken") || took > 40*time.Second {
						c.Violate("stalled-upstream", []string{mode}, "upstream stalled (%s): client got %s after %v instead of an error within the timeout", mode, verdict, took)
					}
				}()
			}
		}
		defer n.close()
		// an upstream which accepts connections and never speaks TLS, one which never accepts any
		mute, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		defer mute.Close()
		nt := mustNode(t, config.Upstreams{{Name: "u", Addr: "https://" + mute.Addr().String(), Path: "/"}}, &cache.HttpCacheConfig{Strict: true}, nil, nil)
		nt.serve()
		defer nt.close()
		for k := 0; k < 2; k++ {
			all.Add(1)
			go func() {
				defer all.Done()
				t0 := time.Now()
				a := get(nt, []string{"GET", "POST"}[k], fmt.Sprint("/mute", k), "", 45*time.Second)
				took := time.Since(t0)
				c.Count("stalled_upstreams", 1)
				c.Eval("tls-stall")
				if a.err != nil || a.status < 502 || a.status > 504 || took > 40*time.Second {
					c.Violate("stalled-upstream", []string{"tls-stall"}, "upstream never answers the TLS handshake: client got status %d, %v after %v instead of a gateway error within the timeout", a.status, a.err, took)
				}
			}()
		}
	}

	cases := core.N(700, 8000)
	r0 := c.Rand("worlds", 0)
	var n *node
	var size int
	for i := 0; i < cases && !c.Stopped(); i++ {
		if i%50 == 0 {
			if n != nil {
				n.close()
			}
			hc := &cache.HttpCacheConfig{Strict: !r0.P(0.3), XCache: r0.P(0.5)}
			size = 0
			if r0.P(0.4) {
				size = 100000
				hc.Exclude = &cache.Exclude{Content: []cache.Content{{Type: "text/.*", Size: size}}}
			}
			n = mustNode(t, config.Upstreams{{Name: "dead", Addr: "http://" + deadAddr, Path: "/dead"},
				{Name: "u", Addr: "http://" + up.l.Addr().String(), Path: "/"}}, hc, nil, nil)
			n.serve()
		}
		r := c.Rand("case", i)
		path := fmt.Sprintf("/c%d", i)
		method := core.Pick(r, "GET", "GET", "GET", "GET", "HEAD", "POST")
		if r.P(0.03) {
			a := get(n, method, "/dead"+path, "x", 20*time.Second)
			c.Count("refused", 1)
			c.Eval("refused" + method)
			if a.err != nil || a.status < 502 || a.status > 504 {
				c.Violate("refused", nil, "upstream refuses connections: client got status %d, %v", a.status, a.err)
			}
			continue
		}
		body := r.Bytes(core.Pick(r, 2, 100, 5000, 200000))
		for j := range body {
			body[j] = 'a' + body[j]%26
		}
		stale := r.P(0.3)
		primed := stale && r.P(0.7)
		clients := core.Pick(r, 1, 1, 2, 4)
		nfail := r.Range(1, 3) + 2*clients // the transport may try again on its own
		p := &flakyPlan{body: body, stale: stale}
		mode := core.Pick(r, failModes...)
		if method == "HEAD" && (strings.Contains(mode, "body") || strings.Contains(mode, "chunk") || mode == "gzip-cut") {
			mode = core.Pick(r, failModes[:7]...)
		}
		if primed {
			p.modes = append(p.modes, "ok")
		}
		for k := 0; k < nfail; k++ {
			p.modes = append(p.modes, mode)
		}
		up.mu.Lock()
		up.plans[path] = p
		up.mu.Unlock()
		var log core.Log
		log.Add("strict %v, size limit %d, body of %d, validated each time %v, %d clients %s %s", n.cache.Strict(), size, len(body), stale, clients, method, path)
		if primed {
			a := get(n, "GET", path, "", 20*time.Second)
			if v := judge("GET", a, body); v != "complete" {
				c.Violate("healthy-failed", log.Lines(), "healthy upstream, but client got %s", v)
			}
		}
		if stale && !n.cache.Strict() {
			primed = false // then the stored one may be used
		}
		up.mu.Lock()
		okPrimed := p.ok
		up.mu.Unlock()
		var wg sync.WaitGroup
		verdicts := make([]string, clients)
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				a := get(n, method, path, "payload", 20*time.Second)
				verdicts[k] = judge(method, a, body)
			}()
		}
		wg.Wait()
		up.mu.Lock()
		okBefore := p.ok
		for _, l := range p.log {
			log.Add("%s", l)
		}
		up.mu.Unlock()
		failed := 0
		for k, v := range verdicts {
			log.Add("client %d: %s", k, v)
			if strings.HasPrefix(v, "BAD") {
				c.Violate("truncated-as-complete:"+mode, log.Lines(), "upstream failed (%s) but a client got %s as a complete response", mode, v)
			}
			if v != "complete" {
				failed++
				c.Count("client_errors", 1)
			}
			if v == "complete" && okBefore == okPrimed && (stale || !primed) && n.cache.Strict() {
				c.Violate("answered-without-upstream:"+mode, log.Lines(), "upstream failed (%s) and nothing fresh is stored, yet a client got a complete response", mode)
			}
			if strings.HasPrefix(v, "broken") {
				c.Count("visibly_broken_transfers", 1)
			}
		}
		if failed > 0 {
			c.Eval(fmt.Sprint(mode, method, clients, failed, stale, primed, size, n.cache.Strict(), len(body)))
		} else {
			c.Eval("")
		}
		if okBefore == 0 {
			for _, k := range n.pdr.Keys(bg, "") {
				if strings.HasSuffix(k, path) {
					c.Violate("failure-stored:"+mode, log.Lines(), "upstream only failed (%s), yet %s is stored", mode, k)
				}
			}
			c.Count("storage_checked", 1)
		}
		// recovery
		up.mu.Lock()
		p.modes = nil
		up.mu.Unlock()
		for k := 0; k < 2; k++ {
			a := get(n, "GET", path, "", 20*time.Second)
			v := judge("GET", a, body)
			if v != "complete" {
				log.Add("after recovery: %s", v)
				c.Violate("no-recovery:"+mode, log.Lines(), "upstream is healthy again after %s, but the client got %s", mode, v)
				break
			}
		}
		up.mu.Lock()
		if p.ok == 0 {
			c.Violate("answer-from-nowhere", log.Lines(), "complete response although upstream never gave one")
		}
		up.mu.Unlock()
		c.Count("recovered", 1)
		if i < 4 {
			c.Sample(map[string]any{"mode": mode, "method": method, "clients": clients, "verdicts": verdicts})
		}
	}
	n.close()
	all.Wait()
	c.Done("scripted wire-level failures of upstream (refused, closed, reset, malformed, cut short, stalled) below 1-4 concurrent clients, then recovery; a case counts if a client saw the failure",
		"client_errors", "visibly_broken_transfers", "recovered", "storage_checked", "stalled_upstreams")
}
