//go:build go1.25

package srv

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/kacheio/kache/verifharness/core"
)

// slowUpstream answers /d/<ms>/... after that time, /b/<ms>/... with a body that takes as long.
func slowUpstream() (*httptest.Server, *atomic.Int64) {
	var inside atomic.Int64
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		inside.Add(1)
		defer inside.Add(-1)
		parts := strings.Split(r.URL.Path, "/")
		ms := 0
		if len(parts) > 2 {
			ms, _ = strconv.Atoi(parts[2])
		}
		wait := func(d time.Duration) {
			select {
			case <-time.After(d):
			case <-r.Context().Done():
			}
		}
		w.Header().Set("Cache-Control", "max-age=60")
		w.Header().Set("Content-Length", fmt.Sprint(len(r.URL.Path)*10))
		if parts[1] == "b" {
			for i := 0; i < 10; i++ {
				_, _ = fmt.Fprint(w, r.URL.Path)
				w.(http.Flusher).Flush()
				wait(time.Duration(ms) * time.Millisecond / 10)
			}
			return
		}
		wait(time.Duration(ms) * time.Millisecond)
		_, _ = fmt.Fprint(w, strings.Repeat(r.URL.Path, 10))
	})), &inside
}

func TestC33(t *testing.T) {
	c := core.New(t, "C33")
	up, _ := slowUpstream()
	defer up.Close()
	// some nodes have further listeners, which serve requests too
	extra := func(api int) (s string) {
		for j := 0; j < api%4; j++ {
			s += fmt.Sprintf("  extra%d: {addr: \"%s\"}\n", j, extraAddr(api, j))
		}
		return
	}
	cfg := func(web, web2 string, api int) string {
		return fmt.Sprintf("listeners:\n  a: {addr: \"%s\"}\n  b: {addr: \"%s\"}\n%supstreams:\n  - {name: u, addr: \"%s\", path: /}\nprovider: {backend: inmemory}\nlogging: {level: error}\napi: {port: %d}\n", web, web2, extra(api), up.URL, api)
	}
	var all sync.WaitGroup

	// answers which take long, without any shutdown
	all.Add(1)
	go func() {
		defer all.Done()
		p := newProc(t, cfg)
		defer p.kill()
		if err := p.start(t); err != nil {
			t.Errorf("kache: %v", err)
			return
		}
		delays := []int{1200, 2500, 5500, 11500, 17000, 24000}
		if core.Thorough() {
			delays = append(delays, 9000, 14000, 20000, 28000)
		}
		var wg sync.WaitGroup
		for _, ms := range delays {
			for _, kind := range []string{"d", "b"} {
				for k := 0; k < 2; k++ { // the second one joins the first
					wg.Add(1)
					go func() {
						defer wg.Done()
						path := fmt.Sprintf("/%s/%d/x", kind, ms)
						t0 := time.Now()
						code, _, body, err := do("GET", "http://"+p.web+path, "", nil)
						c.Count("slow_answers", 1)
						c.Eval("slow" + path)
						if err != nil || code != 200 || body != strings.Repeat(path, 10) {
							c.Violate("slow-answer-lost", nil, "answer taking %d ms (%s) was not delivered: %d, %d bytes, %v after %v", ms, kind, code, len(body), err, time.Since(t0))
						}
					}()
				}
			}
		}
		wg.Wait()
	}()

	runs := core.N(20, 80)
	sem := make(chan struct{}, 5)
	for i := 0; i < runs; i++ {
		all.Add(1)
		sem <- struct{}{}
		go func() {
			defer all.Done()
			defer func() { <-sem }()
			shutdownRun(t, c, i, cfg)
		}()
	}
	all.Wait()
	c.Done("a real kache process is told to stop (SIGTERM, SIGINT) while requests of known duration are in progress; a case counts per request in progress at the time",
		"in_progress_at_stop", "refused_after_stop", "clean_exits", "slow_answers", "extra_listeners")
}

// extraAddr is a loopback address of its own.
func extraAddr(api, j int) string {
	return fmt.Sprintf("127.33.%d.%d:%d", api>>8, max(api&255, 1), 21000+j)
}

func shutdownRun(t *testing.T, c *core.Check, i int, cfg func(string, string, int) string) {
	r := c.Rand("stop", i)
	p := newProc(t, cfg)
	defer p.kill()
	if err := p.start(t); err != nil {
		t.Errorf("kache: %v", err)
		return
	}
	addrs := []string{p.web, p.web2}
	for e := 0; e < p.port%4; e++ {
		addrs = append(addrs, extraAddr(p.port, e))
	}
	for _, a := range addrs {
		if !waitFor(10*time.Second, func() bool {
			conn, err := net.Dial("tcp", a)
			if err == nil {
				conn.Close()
			}
			return err == nil
		}) {
			t.Errorf("no listener at %s: %s", a, p.err.String())
			return
		}
	}
	overlong := r.P(0.2)
	var log core.Log
	type flight struct {
		path string
		ms   int
		code int
		body string
		err  error
		at   time.Time
		sent time.Time
	}
	var fl []*flight
	var wg sync.WaitGroup
	k := r.Range(3, 9)
	for j := 0; j < k; j++ {
		ms := core.Pick(r, 300, 600, 900, 1500, 2500)
		if r.P(0.1) {
			ms = 3600
		}
		if overlong && j == 0 {
			ms = 15000
		}
		same := j
		if r.P(0.3) {
			same = 100 // shared with others
		}
		f := &flight{path: fmt.Sprintf("/%s/%d/%d", core.Pick(r, "d", "d", "b"), ms, same), ms: ms}
		fl = append(fl, f)
		addr := core.Pick(r, addrs...)
		if len(addrs) > 2 && addr == addrs[len(addrs)-1] {
			c.Count("extra_listeners", 1)
		}
		wg.Add(1)
		f.sent = time.Now()
		go func() {
			defer wg.Done()
			f.code, _, f.body, f.err = do("GET", "http://"+addr+f.path, "", nil)
			f.at = time.Now()
		}()
	}
	// a kept-alive idle connection must not hold up anything
	idle, err := net.Dial("tcp", p.web)
	if err == nil {
		defer idle.Close()
		_, _ = fmt.Fprintf(idle, "GET /d/0/idle HTTP/1.1\r\nHost: x\r\n\r\n")
		if a := readAnswer(bufio.NewReader(idle), "GET"); a.err != nil || a.status != 200 {
			c.Violate("plain-request-failed", nil, "request before the stop failed: %d %v", a.status, a.err)
		}
	}
	time.Sleep(time.Duration(r.Range(120, 400)) * time.Millisecond)
	sig := core.Pick(r, syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT)
	stopAt := time.Now()
	_ = p.cmd.Process.Signal(sig)
	time.Sleep(150 * time.Millisecond)
	for _, addr := range addrs {
		if p.exited(0) {
			c.Count("refused_after_stop", 1)
			continue
		}
		code, _, _, err := do("GET", "http://"+addr+"/d/0/late", "", nil)
		if err == nil {
			log.Add("new request after the stop: %d", code)
			c.Violate("accepts-after-stop", log.Lines(), "a new connection made 150 ms after the stop was served (%d)", code)
		} else {
			c.Count("refused_after_stop", 1)
		}
	}
	exited := p.exited(12 * time.Second)
	took := time.Since(stopAt)
	longest := time.Duration(0)
	wgDone := make(chan struct{})
	go func() { wg.Wait(); close(wgDone) }()
	if !exited {
		c.Violate("never-ends", []string{p.err.String()}, "12 s after %v kache still runs", sig)
		p.kill()
	}
	<-wgDone
	for _, f := range fl {
		rem := f.sent.Add(time.Duration(f.ms) * time.Millisecond).Sub(stopAt)
		log.Add("%s: %v left at the stop -> %d, %d bytes, %v (%v after the stop)", f.path, rem.Round(time.Millisecond), f.code, len(f.body), f.err, f.at.Sub(stopAt).Round(time.Millisecond))
		if rem > longest {
			longest = rem
		}
		if rem > 0 {
			c.Count("in_progress_at_stop", 1)
			c.Eval(fmt.Sprint(i, f.path))
		}
	}
	log.Add("%v, ended after %v with code %d", sig, took.Round(time.Millisecond), p.code)
	for _, f := range fl {
		rem := f.sent.Add(time.Duration(f.ms) * time.Millisecond).Sub(stopAt)
		ok := f.err == nil && f.code == 200 && f.body == strings.Repeat(f.path, 10)
		if rem < 4*time.Second && !ok {
			c.Violate("request-cut-off", log.Lines(), "request %s, accepted before the stop with %v left, was not answered completely: %d, %d bytes, %v", f.path, rem, f.code, len(f.body), f.err)
		}
		if f.err == nil && !ok {
			c.Violate("request-cut-off", log.Lines(), "request %s got a response that looks complete but is not: %d, %d bytes", f.path, f.code, len(f.body))
		}
	}
	if exited {
		limit := longest + 2*time.Second
		if overlong {
			limit = 8 * time.Second
			if took < 4500*time.Millisecond {
				c.Violate("ends-too-early", log.Lines(), "kache ended %v after the stop although a request was in progress and the grace period is 5 s", took)
			}
		}
		if took > limit {
			c.Violate("ends-too-late", log.Lines(), "kache ended only %v after the stop (longest request in progress had %v left)", took, longest)
		}
		if p.code != 0 {
			c.Violate("exit-code", append(log.Lines(), strings.Split(p.err.String(), "\n")...), "kache ended with code %d", p.code)
		} else {
			c.Count("clean_exits", 1)
		}
	}
	if i < 2 {
		c.Sample(log.Lines())
	}
}
