//go:build go1.25

package prov

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

// faulty sits between the client and the miniature server.
type faulty struct {
	ln     net.Listener
	target string
	mu     sync.Mutex
	cond   *sync.Cond
	mode   string // pass, stall, reset, garbage
	conns  map[net.Conn]struct{}
	sets   atomic.Int64 // SET commands seen
	faults atomic.Int64 // connections or commands that met a fault
}

func newFaulty(target string) *faulty {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f := &faulty{ln: ln, target: target, mode: "pass", conns: map[net.Conn]struct{}{}}
	f.cond = sync.NewCond(&f.mu)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f
}

func (f *faulty) addr() string { return f.ln.Addr().String() }

func (f *faulty) set(mode string) {
	f.mu.Lock()
	f.mode = mode
	if mode == "reset" {
		for c := range f.conns {
			c.Close()
		}
	}
	f.cond.Broadcast()
	f.mu.Unlock()
}

func (f *faulty) close() {
	f.ln.Close()
	f.set("reset")
}

// gate waits while stalled; it returns the mode.
func (f *faulty) gate() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.mode != "pass" {
		f.faults.Add(1)
	}
	for f.mode == "stall" {
		f.cond.Wait()
	}
	if f.mode == "slow" {
		f.mu.Unlock()
		time.Sleep(400 * time.Millisecond)
		f.mu.Lock()
	}
	return f.mode
}

func (f *faulty) serve(c net.Conn) {
	defer c.Close()
	f.mu.Lock()
	f.conns[c] = struct{}{}
	mode := f.mode
	f.mu.Unlock()
	defer func() {
		f.mu.Lock()
		delete(f.conns, c)
		f.mu.Unlock()
	}()
	if mode == "reset" {
		f.faults.Add(1)
		return
	}
	up, err := net.Dial("tcp", f.target)
	if err != nil {
		return
	}
	defer up.Close()
	go func() {
		_, _ = io.Copy(c, up)
		c.Close()
	}()
	buf := make([]byte, 4096)
	var tail []byte
	pat := []byte("\r\n$3\r\nset\r\n")
	for {
		n, err := c.Read(buf)
		if n > 0 {
			switch f.gate() {
			case "reset":
				return
			case "garbage":
				_, _ = c.Write([]byte("?!garbage\r\n\x00\xff"))
				return
			}
			tail = append(tail, buf[:n]...)
			f.sets.Add(int64(bytes.Count(bytes.ToLower(tail), pat)))
			if len(tail) >= len(pat) {
				tail = append([]byte(nil), tail[len(tail)-len(pat)+1:]...)
			}
			if _, err := up.Write(buf[:n]); err != nil {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

func TestC24(t *testing.T) {
	c := core.New(t, "C24")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < core.N(3, 20) && !c.Stopped(); i++ {
			failedWrites(c, i)
		}
	}()
	wg.Add(1)
	for i := range core.N(2, 8) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slowRemote(c, i)
		}()
	}
	go func() { // slow, so it runs beside the others
		defer wg.Done()
		for _, layered := range []bool{false, true} {
			stalledReads(c, layered)
		}
	}()
	for i := 0; i < core.N(12, 300) && !c.Stopped(); i++ {
		wholeWrites(c, i)
	}
	for i := 0; i < core.N(25, 600) && !c.Stopped(); i++ {
		exactlyOnce(c, i)
	}
	for i := 0; i < core.N(30, 400) && !c.Stopped(); i++ {
		boundedQueue(c, i)
	}
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < core.N(20, 240) && !c.Stopped(); i += 4 {
				outage(c, i/4+w)
			}
		}()
	}
	wg.Wait()
	c.Done("a case is one run against a real (miniature) server behind a faulty connection: a burst of writes that must arrive exactly once and unmodified; a burst into a stalled backend that must not "+
		"block, must respect the queue bound and must apply exactly the accepted writes afterwards; big values stored by three clients under one key; or proxied requests before, during and after an outage (reset, garbage, error replies, stall). "+
		"Distinct by queue sizes, fault and outcome; trivial if no fault or concurrency was involved",
		"writes", "applied", "accepted_while_stalled", "rejected_while_stalled", "requests_during_outage", "hits_after_recovery", "oversized", "requests_during_stall", "sets_while_stalled", "failed_writes_purged", "faults_met", "whole_reads", "slow_writes", "dropped_for_good")
}

func exactlyOnce(c *core.Check, i int) {
	r := c.Rand("once", i)
	srv := startRedis()
	defer srv.Close()
	f := newFaulty(srv.Addr())
	defer f.close()
	conc := r.Range(1, 8)
	maxItem := core.Pick(r, 0, 300)
	n := r.Range(20, 300)
	p, cl := newRedis(f.addr(), provider.RedisClientConfig{MaxQueueConcurrency: conc, MaxQueueBufferSize: 400, MaxItemSize: maxItem})
	defer cl.Stop()
	vals := map[string][]byte{}
	over := map[string]bool{}
	for j := 0; j < n; j++ {
		k := fmt.Sprintf("k%d", j)
		vals[k] = r.Bytes(core.Pick(r, 0, 1, 10, 299, 300, 301, 5000))
		if maxItem > 0 && len(vals[k]) > maxItem {
			over[k] = true
			if r.P(0.5) {
				_ = srv.Set(k, "previous")
			}
		}
	}
	var wg sync.WaitGroup
	ks := keysOf(vals)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := w; j < len(ks); j += 4 {
				p.Set(ks[j], vals[ks[j]], time.Hour)
			}
		}()
	}
	wg.Wait()
	c.Count("writes", n)
	want := int64(n - len(over))
	for k, v := range vals {
		if over[k] {
			c.Count("oversized", 1)
			if !eventually(10*time.Second, func() bool { return !srv.Exists(k) }) {
				c.Violate("oversized-kept", nil, "%s: an item above the limit (%d of %d bytes) or its predecessor is kept", k, len(v), maxItem)
				return
			}
			continue
		}
		if !eventually(10*time.Second, func() bool { s, err := srv.Get(k); return err == nil && s == string(v) }) {
			s, err := srv.Get(k)
			c.Violate("lost-write", nil, "%s: accepted a value of %d bytes, the backend holds %s (%v)", k, len(v), short([]byte(s)), err)
			return
		}
		if got := p.Get(bg, k); !bytes.Equal(got, v) {
			c.Violate("modified", nil, "%s: stored %s, read %s", k, short(v), short(got))
			return
		}
		c.Count("applied", 1)
		if ttl := srv.TTL(k); ttl <= 0 || ttl > time.Hour {
			c.Violate("ttl", nil, "%s: stored for 1h, the backend keeps it for %v", k, ttl)
			return
		}
	}
	time.Sleep(5 * time.Millisecond)
	if got := f.sets.Load(); got != want {
		c.Violate("not-once", nil, "%d writes were accepted, the backend received %d", want, got)
	}
	c.Eval(fmt.Sprint("once", conc, maxItem, n, len(over)))
}

// slowRemote writes to a remote cache which takes its time, but answers.
func slowRemote(c *core.Check, i int) {
	r := c.Rand("slow", i)
	srv := startRedis()
	defer srv.Close()
	f := newFaulty(srv.Addr())
	defer f.close()
	p, cl := newRedis(f.addr(), provider.RedisClientConfig{MaxQueueConcurrency: r.Range(2, 6), MaxQueueBufferSize: 100})
	defer cl.Stop()
	if i%2 == 1 {
		var err error
		if p, err = provider.NewCached(p, "t", time.Minute, provider.InMemoryCacheConfig{}); err != nil {
			panic(err)
		}
	}
	_ = srv.Set("there", "v")
	f.set("slow")
	const n = 16
	for k := range n {
		t0 := time.Now()
		p.Set(fmt.Sprint("s", k), []byte(fmt.Sprint("v", k)), time.Hour)
		if d := time.Since(t0); d > 300*time.Millisecond {
			c.Violate("blocked", nil, "a write to the slow backend blocked its caller for %v", d)
		}
	}
	if got := p.Get(bg, "there"); string(got) != "v" {
		c.Violate("slow-not-read", nil, "an item is not found in a remote cache that takes 400 ms to answer: %s", short(got))
	}
	for k := range n {
		if !eventually(20*time.Second, func() bool { v, err := srv.Get(fmt.Sprint("s", k)); return err == nil && v == fmt.Sprint("v", k) }) {
			c.Violate("lost-write", nil, "write %d of %d to a remote cache that takes 400 ms to answer was accepted, but is not applied", k, n)
			return
		}
	}
	c.Count("slow_writes", n)
	if got := f.sets.Load(); got != n {
		c.Violate("not-once", nil, "%d writes were accepted, the slow backend received %d", n, got)
	}
	c.Eval(fmt.Sprint("slow", i))
}

func boundedQueue(c *core.Check, i int) {
	r := c.Rand("bound", i)
	srv := startRedis()
	defer srv.Close()
	f := newFaulty(srv.Addr())
	defer f.close()
	conc, buf := r.Range(1, 4), r.Range(1, 20)
	if i%5 == 4 {
		buf = 0 // only idle workers take writes
	}
	p, cl := newRedis(f.addr(), provider.RedisClientConfig{MaxQueueConcurrency: conc, MaxQueueBufferSize: map[bool]int{true: -1, false: buf}[buf == 0]})
	if r.P(0.5) {
		p, _ = provider.NewCached(p, "t", time.Hour, provider.InMemoryCacheConfig{})
	}
	f.set("stall")
	var mu sync.Mutex
	var accepted, rejected []string
	var slowest time.Duration
	var wg sync.WaitGroup
	total := conc + buf + r.Range(1, 30)
	callers := core.Pick(r, 1, 4)
	for w := 0; w < callers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := w; j < total; j += callers {
				k := fmt.Sprintf("k%d", j)
				t0 := time.Now()
				err := cl.StoreAsync(k, []byte("v"+k), time.Hour)
				d := time.Since(t0)
				mu.Lock()
				slowest = max(slowest, d)
				if err == nil {
					accepted = append(accepted, k)
				} else {
					rejected = append(rejected, k)
				}
				mu.Unlock()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	log := []string{fmt.Sprintf("concurrency=%d buffer=%d writes=%d callers=%d", conc, buf, total, callers)}
	select {
	case <-done:
	case <-time.After(1500 * time.Millisecond):
		c.Violate("blocked", log, "a write to the stalled backend blocked its caller")
		f.set("pass")
		<-done
		cl.Stop()
		return
	}
	if slowest > time.Second {
		c.Violate("blocked", log, "a write to the stalled backend blocked its caller for %v", slowest)
	}
	if len(accepted) > conc+buf {
		c.Violate("unbounded", log, "%d writes were accepted with nothing processed; at most %d workers + %d queued", len(accepted), conc, buf)
	}
	if len(accepted) < buf {
		c.Violate("dropped-early", log, "only %d writes were accepted, the queue holds %d", len(accepted), buf)
	}
	set := make(chan struct{})
	go func() { p.Set("direct", []byte("v"), time.Hour); close(set) }()
	select {
	case <-set:
		c.Count("sets_while_stalled", 1)
	case <-time.After(1500 * time.Millisecond):
		c.Violate("blocked", log, "storing to the cache blocked its caller while the backend stalls")
	}
	full := len(rejected) > 0 // and it stays full while nothing is processed
	if full {
		for j := range 3 {
			p.Set(fmt.Sprintf("dropped%d", j), []byte("v"), time.Hour)
		}
		// Dropping takes no time: a crowd of requests is not held up one after another.
		t0 := time.Now()
		const drops = 60
		for j := range drops {
			p.Set(fmt.Sprintf("dropped%d", j%3), []byte("v"), time.Hour)
		}
		if d := time.Since(t0); d > time.Second {
			c.Violate("blocked", log, "%d writes which the full queue drops kept their caller for %v", drops, d)
		}
		c.Count("drops_timed", drops)
	}
	f.set("pass")
	for _, k := range accepted {
		if !eventually(20*time.Second, func() bool { s, err := srv.Get(k); return err == nil && s == "v"+k }) {
			c.Violate("lost-write", log, "%s was accepted but never written", k)
			break
		}
	}
	time.Sleep(2 * time.Millisecond)
	for _, k := range rejected {
		if srv.Exists(k) {
			c.Violate("phantom-write", log, "%s was rejected but written", k)
		}
	}
	if full && i%6 == 0 { // neither do they turn up later
		time.Sleep(700 * time.Millisecond)
		for _, k := range append(rejected, "dropped0", "dropped1", "dropped2", "direct") {
			if srv.Exists(k) {
				c.Violate("late-write", log, "%s was dropped because the queue was full, but it was written later", k)
				break
			}
		}
		c.Count("dropped_for_good", 1)
	}
	c.Count("accepted_while_stalled", len(accepted))
	c.Count("rejected_while_stalled", len(rejected))
	c.Count("faults_met", int(f.faults.Load()))
	c.Eval(fmt.Sprint("bound", conc, buf, len(accepted), len(rejected), callers))
	// stopping ends the workers
	stopped := make(chan struct{})
	go func() { cl.Stop(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(10 * time.Second):
		c.Violate("stop-hangs", log, "stopping the client did not return")
	}
}

// upstream numbers its responses; the body names the path.
type numbered struct{ n atomic.Int64 }

func (o *numbered) RoundTrip(req *http.Request) (*http.Response, error) {
	b := []byte(fmt.Sprintf("%s %s %d", req.Method, req.URL.Path, o.n.Add(1)))
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:        http.Header{"Cache-Control": {"max-age=3600"}, "Date": {time.Now().UTC().Format(http.TimeFormat)}},
		ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewReader(b)), Request: req}, nil
}

type plane struct {
	rt  http.RoundTripper
	up  *numbered
	log []string
}

func newPlane(p provider.Provider) *plane {
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "1h"}, p)
	if err != nil {
		panic(err)
	}
	w := &plane{up: &numbered{}}
	tr := middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	tr.Transport = w.up
	w.rt = middleware.NewCoalesced(tr)
	return w
}

// get returns the body, whether upstream was contacted, and the time it took.
func (w *plane) get(c *core.Check, method, path string) (body string, upstream bool, took time.Duration) {
	req, _ := http.NewRequest(method, "http://h.test"+path, nil)
	before := w.up.n.Load()
	t0 := time.Now()
	res, err := w.rt.RoundTrip(req)
	if err != nil {
		trace(&w.log, "%s %s -> error %v", method, path, err)
		c.Violate("request-failed", w.log, "%s %s failed: %v", method, path, err)
		return "", false, 0
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	took = time.Since(t0)
	upstream = w.up.n.Load() > before
	trace(&w.log, "%s %s -> %d %q err=%v upstream=%v took=%v", method, path, res.StatusCode, b, err, upstream, took.Round(time.Millisecond))
	if f := strings.Fields(string(b)); err != nil || res.StatusCode != 200 || len(f) != 3 || f[0] != method || f[1] != path {
		c.Violate("wrong-response", w.log, "%s %s was answered with %d %q", method, path, res.StatusCode, b)
	}
	return string(b), upstream, took
}

func outage(c *core.Check, i int) {
	r := c.Rand("outage", i)
	srv := startRedis()
	defer func() { srv.Close() }()
	addr := srv.Addr()
	f := newFaulty(addr)
	defer f.close()
	p, cl := newRedis(f.addr(), provider.RedisClientConfig{MaxQueueConcurrency: r.Range(1, 4), MaxQueueBufferSize: r.Range(5, 50)})
	defer cl.Stop()
	layered := r.P(0.5)
	if layered {
		var err error
		if p, err = provider.NewCached(p, "t", time.Hour, provider.InMemoryCacheConfig{}); err != nil {
			panic(err)
		}
	}
	w := newPlane(p)
	fault := []string{"reset", "garbage", "error", "down"}[i%4]
	trace(&w.log, "layered=%v fault=%s", layered, fault)
	stored := func(path string) bool {
		return eventually(10*time.Second, func() bool { return srv.Exists("kache-http://h.test" + path) })
	}
	w.get(c, "GET", "/a")
	if !stored("/a") {
		c.Violate("not-stored", w.log, "the response was not written to the backend")
		return
	}
	if _, up, _ := w.get(c, "GET", "/a"); up {
		c.Violate("no-hit", w.log, "the stored response was not used")
	}
	switch fault {
	case "error":
		srv.SetError("ERR out of order")
	case "down":
		srv.Close()
	default:
		f.set(fault)
	}
	trace(&w.log, "outage begins")
	for j, n := 0, r.Range(2, 5); j < n; j++ {
		path := fmt.Sprintf("/b%d", j)
		_, up, took := w.get(c, core.Pick(r, "GET", "GET", "HEAD"), path)
		if !up {
			c.Violate("invented", w.log, "a request for a resource that was never stored was answered without upstream")
		}
		if took > 8*time.Second {
			c.Violate("slow", w.log, "a request during the outage took %v", took)
		}
		c.Count("requests_during_outage", 1)
	}
	if body, up, _ := w.get(c, "GET", "/a"); !up && body != "GET /a 1" {
		c.Violate("wrong-response", w.log, "answered %q", body)
	}
	w.get(c, "DELETE", "/a")
	if fault != "garbage" {
		if err := p.Purge(bg, "*b*"); err == nil {
			c.Violate("purge-silent", w.log, "a purge during the outage reported success")
		}
		if err := p.Flush(bg); err == nil {
			c.Violate("flush-silent", w.log, "a flush during the outage reported success")
		}
	}
	_ = p.Keys(bg, "")
	_ = p.Size()
	switch fault {
	case "error":
		srv.SetError("")
	case "down":
		srv = miniredis.NewMiniRedis()
		if !eventually(5*time.Second, func() bool { return srv.StartAddr(addr) == nil }) {
			return // the port was taken by something else
		}
	default:
		f.set("pass")
	}
	trace(&w.log, "outage ends")
	w.get(c, "GET", "/c")
	// A first write may still meet a dead connection; caching must resume.
	ok := eventually(15*time.Second, func() bool {
		if srv.Exists("kache-http://h.test/c") {
			return true
		}
		w.get(c, "GET", "/c")
		time.Sleep(5 * time.Millisecond)
		return false
	})
	if layered && !ok {
		// the local tier answers by itself; use a fresh resource
		w.get(c, "GET", "/d")
		ok = stored("/d")
	}
	if !ok {
		c.Violate("no-recovery", w.log, "after the outage nothing is stored any more")
		return
	}
	if _, up, _ := w.get(c, "GET", "/c"); up {
		c.Violate("no-recovery", w.log, "after the outage a stored response is not used")
	} else {
		c.Count("hits_after_recovery", 1)
	}
	c.Count("faults_met", int(f.faults.Load()))
	c.Eval(fmt.Sprint("outage", fault, layered, len(w.log)))
	if i < 4 {
		c.Sample(w.log)
	}
}

// stalledReads: the backend accepts commands but never answers.
func stalledReads(c *core.Check, layered bool) {
	srv := startRedis()
	defer srv.Close()
	f := newFaulty(srv.Addr())
	defer f.close()
	p, cl := newRedis(f.addr(), provider.RedisClientConfig{MaxQueueConcurrency: 2, MaxQueueBufferSize: 10})
	if layered {
		p, _ = provider.NewCached(p, "t", time.Hour, provider.InMemoryCacheConfig{})
	}
	w := newPlane(p)
	f.set("stall")
	var wg sync.WaitGroup
	// many at once take no longer than one
	for j := 0; j < core.N(60, 90); j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wj := &plane{rt: w.rt, up: w.up}
			trace(&wj.log, "the backend stalls (layered=%v)", layered)
			done := make(chan struct{})
			go func() {
				defer close(done)
				wj.get(c, "GET", "/s"+strconv.Itoa(j))
			}()
			select {
			case <-done:
				c.Count("requests_during_stall", 1)
			case <-time.After(40 * time.Second):
				c.Violate("stalled", wj.log, "a request, one of many, has no answer after 40 s while the backend stalls")
			}
		}()
	}
	wg.Wait()
	c.Count("faults_met", int(f.faults.Load()))
	c.Eval(fmt.Sprint("stall", layered))
	f.set("pass")
	cl.Stop()
}

// wholeWrites: several clients of one backend store big values under the same key, all the time
// each of them and the backend hold one of the values in full.
func wholeWrites(c *core.Check, i int) {
	r := c.Rand("whole", i)
	srv := startRedis()
	defer srv.Close()
	const key = "k"
	size := core.Pick(r, 1000, 64<<10, 65<<10, 100000, 128<<10, 300000, 1<<20)
	val := func(cl, n int) []byte {
		return bytes.Repeat([]byte(fmt.Sprintf("%d-%04d.", cl, n)), (size+n%13*50)/7)
	}
	log := []string{fmt.Sprintf("three clients store values of %d bytes", size)}
	var ps []provider.Provider
	for range 3 {
		p, cl := newRedis(srv.Addr(), provider.RedisClientConfig{MaxQueueConcurrency: r.Range(1, 4), MaxQueueBufferSize: 200})
		defer cl.Stop()
		ps = append(ps, p)
	}
	var wg, rd sync.WaitGroup
	stop := make(chan struct{})
	bad := func(who string, v []byte) bool {
		if v == nil {
			return false
		}
		var cl, n int
		if _, err := fmt.Sscanf(string(v[:min(7, len(v))]), "%1d-%04d.", &cl, &n); err != nil || !bytes.Equal(v, val(cl, n)) {
			c.Violate("torn", log, "%s read %d bytes, %s..., which is none of the values stored in full", who, len(v), short(v[:min(len(v), 20)]))
			return true
		}
		c.Count("whole_reads", 1)
		return false
	}
	for k, p := range ps {
		rd.Add(1)
		go func() {
			defer rd.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				v := p.Get(bg, key)
				if bad(fmt.Sprintf("client %d", k), v) {
					return
				}
			}
		}()
	}
	n := r.Range(8, 20)
	for k, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range n {
				p.Set(key, val(k, j), time.Hour)
				if j%4 == 3 {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(20 * time.Millisecond)
	close(stop)
	rd.Wait()
	if s, err := srv.Get(key); err == nil {
		bad("the backend's user", []byte(s))
	}
	c.Eval(fmt.Sprint("whole", size, n))
}

// failedWrites: writes which the backend refused must not turn up after it was purged.
func failedWrites(c *core.Check, i int) {
	r := c.Rand("failed", i)
	srv := startRedis()
	defer srv.Close()
	f := newFaulty(srv.Addr())
	defer f.close()
	p, cl := newRedis(f.addr(), provider.RedisClientConfig{MaxQueueConcurrency: r.Range(1, 3), MaxQueueBufferSize: 100})
	defer cl.Stop()
	_ = srv.Set("k0", "old")
	srv.SetError("ERR out of order")
	n := r.Range(2, 12)
	for j := 0; j < n; j++ {
		p.Set(fmt.Sprintf("k%d", j), []byte("refused"), time.Hour)
	}
	log := []string{fmt.Sprintf("%d writes are refused by the backend", n)}
	if !eventually(10*time.Second, func() bool { return f.sets.Load() >= int64(n) }) {
		c.Violate("lost-write", log, "%d writes were accepted, %d tried", n, f.sets.Load())
		return
	}
	time.Sleep(50 * time.Millisecond)
	srv.SetError("")
	how := core.Pick(r, "purge", "flush", "delete")
	var err error
	switch how {
	case "purge":
		err = p.Purge(bg, "k*")
	case "flush":
		err = p.Flush(bg)
	case "delete":
		for j := 0; j < n; j++ {
			p.Delete(bg, fmt.Sprintf("k%d", j))
		}
	}
	log = append(log, fmt.Sprintf("the backend recovers; %s -> %v", how, err))
	if err != nil {
		c.Violate("no-recovery", log, "%s after the recovery failed: %v", how, err)
		return
	}
	for end := time.Now().Add(2500 * time.Millisecond); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		for j := 0; j < n; j++ {
			if v := p.Get(bg, fmt.Sprintf("k%d", j)); v != nil {
				c.Violate("late-write", log, "k%d holds %s %v after the %s", j, short(v), time.Since(end.Add(-2500*time.Millisecond)).Round(time.Millisecond), how)
				return
			}
		}
	}
	c.Count("failed_writes_purged", n)
	c.Eval(fmt.Sprint("failed", n, how))
}
