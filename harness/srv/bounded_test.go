//go:build go1.25

package srv

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

// census is an upstream that counts its open connections.
type census struct {
	*httptest.Server
	open, peak, dialled atomic.Int64
}

func newCensus() *census {
	u := &census{}
	u.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = io.Copy(io.Discard, r.Body)
		q := r.URL.Query()
		if cc := q.Get("cc"); cc != "" {
			w.Header().Set("Cache-Control", cc)
		}
		if v := q.Get("vary"); v != "" {
			w.Header().Set("Vary", v)
		}
		if e := q.Get("etag"); e != "" {
			w.Header().Set("Etag", `"`+e+`"`)
			if r.Header.Get("If-None-Match") == `"`+e+`"` {
				w.WriteHeader(304)
				return
			}
		}
		if d, _ := strconv.Atoi(q.Get("d")); d > 0 {
			select {
			case <-time.After(time.Duration(d) * time.Millisecond):
			case <-r.Context().Done():
				return
			}
		}
		n, _ := strconv.Atoi(q.Get("n"))
		cut, _ := strconv.Atoi(q.Get("cut"))
		if cut > 0 {
			w.Header().Set("Content-Length", fmt.Sprint(n))
			_, _ = w.Write(bytes.Repeat([]byte("c"), cut))
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		}
		if q.Get("chunk") != "" {
			w.(http.Flusher).Flush()
		}
		if st, _ := strconv.Atoi(q.Get("st")); st > 0 {
			w.WriteHeader(st)
		}
		_, _ = w.Write(bytes.Repeat([]byte("b"), n))
	}))
	u.Config.ConnState = func(_ net.Conn, s http.ConnState) {
		switch s {
		case http.StateNew:
			u.dialled.Add(1)
			n := u.open.Add(1)
			for {
				p := u.peak.Load()
				if n <= p || u.peak.CompareAndSwap(p, n) {
					break
				}
			}
		case http.StateClosed, http.StateHijacked:
			u.open.Add(-1)
		}
	}
	u.Start()
	return u
}

func backendConfig(t testing.TB, backend string, small uint64) (*provider.ProviderBackendConfig, *miniredis.Miniredis) {
	pc := memConfig()
	pc.InMemory.MaxSize, pc.InMemory.MaxItemSize = small, small/4
	if backend == "inmemory" {
		return pc, nil
	}
	mr, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	pc.Backend = "redis"
	pc.Layered = backend == "layered"
	pc.LayeredTTL = "60s"
	pc.Redis = provider.RedisClientConfig{Endpoint: mr.Addr(), MaxItemSize: int(small / 4), MaxQueueConcurrency: 4, MaxQueueBufferSize: 4000}
	return pc, mr
}

func remoteBackendConfig(t testing.TB, backend string, small uint64) *provider.ProviderBackendConfig {
	pc := memConfig()
	pc.InMemory.MaxSize, pc.InMemory.MaxItemSize = small, small/4
	if backend == "inmemory" {
		return pc
	}
	addr, stop := newRemoteRedis(t)
	t.Cleanup(stop)
	pc.Backend = "redis"
	pc.Layered = backend == "layered"
	pc.LayeredTTL = "60s"
	pc.Redis = provider.RedisClientConfig{Endpoint: addr, MaxItemSize: int(small / 4), MaxQueueConcurrency: 4, MaxQueueBufferSize: 4000}
	return pc
}

func TestC36(t *testing.T) {
	c := core.New(t, "C36")
	finish := idleConnections(t, c)
	for _, backend := range []string{"inmemory", "redis", "layered"} {
		traffic(t, c, backend)
	}
	for i := 0; i < core.N(2, 6); i++ {
		for _, backend := range []string{"inmemory", "redis", "layered"} {
			heap(t, c, backend, i)
		}
	}
	providerHeap(t, c)
	serverHeap(t, c)
	listener(t, c)
	clusterMessages(c)
	finish()
	c.Done("a case is a census after a round of traffic, a long history or a set of stuck connections; distinct by kind, backend and round",
		"requests", "censuses", "cancelled", "aborted", "heap_measurements", "upstream_connections", "stuck_connections", "evicting_stores", "burst_connections", "cluster_messages")
}

// traffic counts what is left after rounds of mixed concurrent traffic.
func traffic(t *testing.T, c *core.Check, backend string) {
	u := newCensus()
	defer u.Close()
	pc, mr := backendConfig(t, backend, 1<<20)
	if mr != nil {
		defer mr.Close()
	}
	n := mustNode(t, config.Upstreams{{Name: "u", Addr: u.URL, Path: "/"}}, &cache.HttpCacheConfig{Strict: true, XCache: true,
		Exclude: &cache.Exclude{Path: []string{"^/ex"}}}, pc, nil).serve()
	defer n.close()
	const workers = 24
	rounds := core.N(5, 25)
	var base, baseAll int
	for round := 0; round < rounds && !c.Stopped(); round++ {
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			r := c.Rand("traffic-"+backend, round*workers+w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				tr := &http.Transport{}
				cl := &http.Client{Transport: tr, Timeout: 30 * time.Second}
				defer tr.CloseIdleConnections()
				per := 30
				for k := 0; k < per; k++ {
					ctx, cancel := context.WithCancel(bg)
					method := core.Pick(r, "GET", "GET", "GET", "GET", "POST", "HEAD", "DELETE")
					path := core.Pick(r, "/a", "/b", "/c", "/ex", fmt.Sprintf("/u%d", r.Intn(1000)))
					q := "?n=" + core.Pick(r, "0", "10", "5000", "300000", "900000")
					q += core.Pick(r, "&cc=max-age%3D100", "&cc=max-age%3D100", "&cc=no-store", "&cc=no-cache&etag=x", "")
					kind := r.Intn(8)
					switch kind {
					case 0:
						q += "&cut=5"
						c.Count("aborted", 1)
					case 1:
						q += "&chunk=1"
					case 2, 3:
						q += fmt.Sprintf("&d=%d", r.Range(1, 20))
						time.AfterFunc(time.Duration(r.Intn(25))*time.Millisecond, cancel)
						c.Count("cancelled", 1)
					case 4:
						q += "&vary=X-V"
					}
					req, _ := http.NewRequestWithContext(ctx, method, n.front.URL+path+q, strings.NewReader(strings.Repeat("p", r.Intn(3)*4000)))
					if r.P(0.1) {
						req.Header.Set("X-V", fmt.Sprint(r.Intn(3)))
					}
					if r.P(0.05) {
						req.Header.Set("Range", "bytes=0-3")
					}
					c.Count("requests", 1)
					resp, err := cl.Do(req)
					if err == nil {
						if r.P(0.1) {
							_, _ = io.CopyN(io.Discard, resp.Body, 100) // leave in the middle
						} else {
							_, _ = io.Copy(io.Discard, resp.Body)
						}
						_ = resp.Body.Close()
					}
					cancel()
					if r.P(0.03) {
						n.call("PURGE", "/", "1.1.1.1:1", http.Header{"X-Purge-Key": {"*" + path + "*"}}, "")
					}
				}
			}()
		}
		wg.Wait()
		// quiescence, then the census
		var left int
		var sample string
		quiet := func(limit int) bool {
			return waitFor(45*time.Second, func() bool {
				left, sample = kacheGoroutines()
				return left <= limit
			})
		}
		if round == 0 {
			waitFor(3*time.Second, func() bool { l, _ := kacheGoroutines(); return l <= 12 })
			time.Sleep(300 * time.Millisecond)
			base, sample = kacheGoroutines()
			baseAll = runtime.NumGoroutine()
			if base > 12 { // the workers of the redis queue, and nothing else
				c.Violate("goroutines-left", []string{sample}, "%s: %d goroutines of kache are left after traffic ended", backend, base)
			}
		} else if !quiet(base) {
			c.Violate("goroutines-left", []string{sample}, "%s: %d goroutines of kache are left after round %d, %d after the first", backend, left, round, base)
		}
		if !waitFor(20*time.Second, func() bool { return u.open.Load() <= workers+8 }) {
			c.Violate("connections-left", nil, "%s: %d upstream connections are open after traffic of %d concurrent clients ended (round %d)", backend, u.open.Load(), workers, round)
		}
		if p := u.peak.Load(); p > 4*workers {
			c.Violate("connections-peak", nil, "%s: up to %d upstream connections for %d concurrent clients", backend, p, workers)
		}
		if !waitFor(20*time.Second, func() bool { return runtime.NumGoroutine() <= baseAll+6*workers }) {
			c.Violate("goroutines-grow", nil, "%s: %d goroutines after round %d, %d after the first", backend, runtime.NumGoroutine(), round, baseAll)
		}
		c.Count("censuses", 1)
		c.Max("upstream_connections", int(u.dialled.Load()))
		c.Eval(fmt.Sprint("traffic", backend, round))
	}
}

// upstreamFunc answers without a network.
type upstreamFunc func(*http.Request) (*http.Response, error)

func (f upstreamFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func liveHeap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// heap compares the live heap after equal long histories of requests for ever new resources.
func heap(t *testing.T, c *core.Check, backend string, run int) {
	pc := remoteBackendConfig(t, backend, 1<<20)
	redis := pc.Redis.Endpoint
	pdr, err := provider.CreateCacheProvider("kache", *pc)
	if err != nil {
		t.Fatal(err)
	}
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, XCache: true}, pdr)
	if err != nil {
		t.Fatal(err)
	}
	base := middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	opened, closed := atomic.Int64{}, atomic.Int64{}
	base.Transport = upstreamFunc(func(req *http.Request) (*http.Response, error) {
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
		if strings.Contains(req.URL.RawQuery, "fail") {
			return nil, errors.New("upstream failed")
		}
		opened.Add(1)
		h := http.Header{"Date": {time.Now().UTC().Format(http.TimeFormat)}}
		cc := "max-age=1000"
		switch {
		case strings.Contains(req.URL.RawQuery, "nostore"):
			cc = "no-store"
		case strings.Contains(req.URL.RawQuery, "short"):
			cc = "max-age=1"
		case strings.Contains(req.URL.RawQuery, "vary"):
			h.Set("Vary", "X-V")
		}
		if strings.Contains(req.URL.RawQuery, "reval") {
			cc = "max-age=1000"
			h.Set("Age", "2000")
			h.Set("Etag", `"v"`)
			if req.Header.Get("If-None-Match") == `"v"` {
				h.Set("Cache-Control", cc)
				c.Count("revalidations", 1)
				return &http.Response{StatusCode: 304, ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: &countBody{Reader: strings.NewReader(""), n: &closed}, Request: req}, nil
			}
		}
		h.Set("Cache-Control", cc)
		body := strings.Repeat("z", 200)
		if strings.Contains(req.URL.RawQuery, "big") {
			body = strings.Repeat("z", 400<<10)
		}
		return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: &countBody{Reader: strings.NewReader(body), n: &closed}, Request: req, ContentLength: int64(len(body))}, nil
	})
	rt := middleware.NewCoalesced(base)
	per := core.N(6000, 30000)
	phases := core.N(5, 12)
	serial := atomic.Int64{}
	var sizes []uint64
	for ph := 0; ph < phases && !c.Stopped(); ph++ {
		var wg sync.WaitGroup
		const workers = 6
		for w := 0; w < workers; w++ {
			r := c.Rand(fmt.Sprint("heap-", backend, run), ph*workers+w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per/workers; k++ {
					id := serial.Add(1)
					if r.P(0.15) {
						id -= int64(r.Intn(40))
					}
					url := fmt.Sprintf("http://u.test/item/%d?%s", id, core.Pick(r, "", "", "", "", "nostore", "short", "vary", "fail", "x=1", "x=2", "reval", "reval"))
					again := strings.Contains(url, "reval")
					if k%200 == 7 {
						url += "big"
					}
					method := "GET"
					if r.P(0.08) {
						method = core.Pick(r, "POST", "DELETE", "HEAD", "PURGE")
					}
					ctx, cancel := context.WithCancel(bg)
					if r.P(0.03) {
						cancel()
					}
					req, _ := http.NewRequestWithContext(ctx, method, url, nil)
					if strings.Contains(url, "vary") {
						req.Header.Set("X-V", fmt.Sprint(r.Intn(2)))
					}
					for {
						resp, err := rt.RoundTrip(req)
						if err == nil {
							_, _ = io.Copy(io.Discard, resp.Body)
							_ = resp.Body.Close()
						}
						c.Count("requests", 1)
						if !again {
							break
						}
						again = false
					}
					cancel()
					if k%500 == 499 {
						_ = pdr.Purge(bg, fmt.Sprintf("*item/%d*", id))
					}
				}
			}()
		}
		wg.Wait()
		if backend == "inmemory" {
			if got := pdr.Size(); got > (1<<20)/200 {
				c.Violate("entries", nil, "%d entries of 200 bytes in a cache of 1 MiB", got)
			}
			c.Count("evicting_stores", per)
		}
		time.Sleep(100 * time.Millisecond) // queued writes
		if redis != "" {
			prev := -2
			waitFor(10*time.Second, func() bool {
				now := dbSize(redis)
				same := now == prev
				prev = now
				if !same {
					time.Sleep(60 * time.Millisecond)
				}
				return same
			})
		}
		_ = pdr.Flush(bg)
		if o, cl := opened.Load(), closed.Load(); o != cl {
			waitFor(5*time.Second, func() bool { return opened.Load() == closed.Load() })
			if o, cl = opened.Load(), closed.Load(); o != cl {
				c.Violate("bodies-left", nil, "%s: %d upstream bodies were opened, %d closed", backend, o, cl)
			}
		}
		sizes = append(sizes, liveHeap())
		c.Count("heap_measurements", 1)
		c.Eval(fmt.Sprint("heap", backend, run, ph))
	}
	if len(sizes) < phases {
		return
	}
	// from the second phase on nothing may pile up; 8 bytes per request would already show
	first, last := sizes[1], sizes[len(sizes)-1]
	reqs := per * (phases - 2)
	limit := uint64(reqs*8) + 128<<10
	c.Max("heap_growth_kb", int((int64(last)-int64(first))/1024))
	if last > first+limit {
		again := liveHeap()
		if again > first+limit {
			c.Violate("heap-grows", []string{fmt.Sprint("live heap after each phase: ", sizes)}, "%s: live heap grows by %d bytes over %d requests for distinct resources, with the cache emptied each time", backend, again-first, reqs)
		}
	}
	runtime.KeepAlive(rt)
}

type countBody struct {
	io.Reader
	n    *atomic.Int64
	once sync.Once
}

func (b *countBody) Close() error { b.once.Do(func() { b.n.Add(1) }); return nil }

// providerHeap runs long histories of stores, expirations, deletions and evictions on the memory cache.
func providerHeap(t *testing.T, c *core.Check) {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 256 << 10, MaxItemSize: 64 << 10, DefaultTTL: "60s"})
	if err != nil {
		t.Fatal(err)
	}
	per := core.N(60000, 400000)
	var sizes []uint64
	for ph := 0; ph < 4; ph++ {
		r := c.Rand("provider", ph)
		for k := 0; k < per; k++ {
			key := fmt.Sprintf("key-%d-%d", ph, k)
			switch r.Intn(10) {
			case 0, 1:
				p.Set(key, make([]byte, r.Intn(2000)), time.Nanosecond)
				p.Get(bg, key)
			case 2:
				p.Set(key, make([]byte, r.Intn(2000)), time.Hour)
				p.Delete(bg, key)
			case 3:
				p.Set(key, make([]byte, 70<<10), time.Hour) // too big
			case 4:
				p.Set(key, make([]byte, 2000), time.Hour)
				p.Set(key, make([]byte, 10), time.Hour)
				p.Set(key, make([]byte, 3000), time.Hour)
			default:
				p.Set(key, make([]byte, r.Intn(2000)), time.Hour)
			}
			if k%5000 == 4999 {
				_ = p.Purge(bg, fmt.Sprintf("key-%d-%d*", ph, k/10))
			}
			c.Count("evicting_stores", 1)
		}
		// not flushed: the content itself is bounded by the limit
		sizes = append(sizes, liveHeap())
		c.Count("heap_measurements", 1)
		c.Eval(fmt.Sprint("provider", ph))
	}
	// Each way an item comes and goes on its own: nothing of it stays.
	for op := range 6 {
		if c.Stopped() {
			break
		}
		q, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 64 << 10, MaxItemSize: 16 << 10, DefaultTTL: "60s", TTLEviction: op%2 == 0})
		if err != nil {
			t.Fatal(err)
		}
		some := core.N(30000, 200000)
		big, small := make([]byte, 17<<10), make([]byte, 600)
		var at [3]uint64
		for ph := range at {
			for k := range some {
				key := fmt.Sprintf("solo-%d-%d-%d", op, ph, k)
				switch op {
				case 0: // too big
					q.Set(key, big, time.Hour)
				case 1: // too big, then small, then gone
					q.Set(key, big, time.Hour)
					q.Set(key, small, time.Hour)
					q.Delete(bg, key)
				case 2: // small, then too big
					q.Set(key, small, time.Hour)
					q.Set(key, big, time.Hour)
				case 3: // evicted
					q.Set(key, small, time.Hour)
				case 4: // expired
					q.Set(key, small, time.Nanosecond)
					q.Get(bg, key)
				case 5: // purged
					q.Set(key, small, time.Hour)
					if k%50 == 49 {
						_ = q.Purge(bg, "solo-*")
					}
				}
				c.Count("solo_stores", 1)
			}
			at[ph] = liveHeap()
		}
		if grown := int64(at[2]) - int64(at[0]); grown > int64(2*some*16)+128<<10 {
			c.Violate("heap-grows", []string{fmt.Sprint(at)}, "the live heap of a 64 KiB cache grows by %d bytes over %d stores (way %d of coming and going)", grown, 2*some, op)
		}
		c.Eval(fmt.Sprint("solo", op))
		runtime.KeepAlive(q)
	}
	limit := uint64(256<<10) + uint64(2*per*12) + 256<<10
	if sizes[3] > sizes[1]+limit {
		c.Violate("heap-grows", []string{fmt.Sprint(sizes)}, "the live heap of a 256 KiB cache grows by %d bytes over %d stores", sizes[3]-sizes[1], 2*per)
	}
	runtime.KeepAlive(p)
}

// listener checks that connections which never complete a request do not stay.
func listener(t *testing.T, c *core.Check) {
	u := newCensus()
	defer u.Close()
	addr := fmt.Sprintf("127.0.0.1:%d", freePort())
	pdr, _ := provider.CreateCacheProvider("kache", *memConfig())
	hc, _ := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true}, pdr)
	srv, err := newListening(addr, u.URL, pdr, hc)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	started := make(chan struct{})
	go func() { srv.Start(ctx); close(started) }()
	defer func() { cancel(); srv.Await() }()
	if !waitFor(10*time.Second, func() bool {
		cn, err := net.Dial("tcp", addr)
		if err == nil {
			_ = cn.Close()
		}
		return err == nil
	}) {
		t.Fatal("listener does not start")
	}
	before, _ := kacheGoroutines()
	var conns []net.Conn
	kinds := []string{"", "GET / HT", "GET /a HTTP/1.1\r\nHost: x\r\n", "GET /a HTTP/1.1\r\nHost: x\r\nX-Long: aaaa", "POST /a HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc",
		"POST /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab"}
	if core.Thorough() {
		kinds = append(kinds, "GET /a?n=10 HTTP/1.1\r\nHost: x\r\n\r\n")
	}
	for i := 0; i < core.N(70, 400); i++ {
		cn, err := net.Dial("tcp", addr)
		if err != nil {
			continue
		}
		_, _ = io.WriteString(cn, kinds[i%len(kinds)])
		conns = append(conns, cn)
		c.Count("stuck_connections", 1)
	}
	// each is ended by the server within its timeouts
	end := time.Now().Add(60 * time.Second)
	open := 0
	for i, cn := range conns {
		_ = cn.SetReadDeadline(end)
		br := bufio.NewReader(cn)
		_, err := io.Copy(io.Discard, br)
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			open++
			c.Violate("connection-stays", nil, "a connection which sent %q and nothing more is still open after 60 s", kinds[i%len(kinds)])
			break
		}
		_ = cn.Close()
	}
	waitFor(20*time.Second, func() bool { n, _ := kacheGoroutines(); return n <= before })
	if n, s := kacheGoroutines(); n > before {
		c.Violate("goroutines-left", []string{s}, "%d goroutines of kache remain of %d stuck connections, %d before", n, len(conns), before)
	}
	c.Eval(fmt.Sprint("listener", len(conns), open))
}

// serverHeap compares the live heap of a whole node after equal long histories of requests, most of which are hits.
func serverHeap(t *testing.T, c *core.Check) {
	u := newCensus()
	defer u.Close()
	addr := fmt.Sprintf("127.0.0.1:%d", freePort())
	pdr, _ := provider.CreateCacheProvider("kache", *memConfig())
	hc, _ := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, Exclude: &cache.Exclude{Path: []string{"^/ex"}}}, pdr)
	srv, err := newListening(addr, u.URL, pdr, hc)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	go srv.Start(ctx)
	defer func() { cancel(); srv.Await() }()
	waitFor(10*time.Second, func() bool {
		cn, err := net.Dial("tcp", addr)
		if err == nil {
			_ = cn.Close()
		}
		return err == nil
	})
	per, phases := core.N(4000, 20000), core.N(6, 12)
	var sizes []uint64
	for ph := 0; ph < phases; ph++ {
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			r := c.Rand("server-heap", ph*8+w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				tr := &http.Transport{}
				defer tr.CloseIdleConnections()
				cl := &http.Client{Transport: tr, Timeout: 30 * time.Second}
				for k := 0; k < per/8; k++ {
					url := fmt.Sprintf("http://%s%s/%d?n=100&cc=max-age%%3D1000", addr, core.Pick(r, "/a", "/a", "/a", "/a", "/ex", "/ex2"), r.Intn(10))
					req, _ := http.NewRequest(core.Pick(r, "GET", "GET", "GET", "GET", "GET", "GET", "GET", "HEAD", "POST"), url, nil)
					if r.P(0.05) {
						req.Header.Set("Connection", "close")
					}
					resp, err := cl.Do(req)
					if err != nil {
						c.Violate("request-failed", nil, "%s: %v", url, err)
						return
					}
					_, _ = io.Copy(io.Discard, resp.Body)
					_ = resp.Body.Close()
					c.Count("requests", 1)
				}
			}()
		}
		wg.Wait()
		time.Sleep(50 * time.Millisecond)
		sizes = append(sizes, liveHeap())
		c.Count("heap_measurements", 1)
		c.Eval(fmt.Sprint("server heap", ph))
	}
	reqs := per * (phases - 2)
	first, last := sizes[1], sizes[len(sizes)-1]
	if limit := first + uint64(reqs*24) + 256<<10; last > limit && liveHeap() > limit {
		c.Violate("heap-grows", []string{fmt.Sprint("live heap after each phase: ", sizes)}, "live heap of a server grows by %d bytes over %d requests for the same resources", last-first, reqs)
	}
	c.Max("server_heap_growth_kb", (int(last)-int(first))/1024)
}

// clusterMessages counts what is left after many messages to a peer whose answers have contents.
func clusterMessages(c *core.Check) {
	u := newCensus()
	defer u.Close()
	flaky := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.Contains(r.URL.RawQuery, "fail=1") && r.ContentLength%3 == 0 {
			w.WriteHeader(500)
			_, _ = io.WriteString(w, strings.Repeat("e", 5000))
			return
		}
		u.Config.Handler.ServeHTTP(w, r)
	}))
	flaky.Config.ConnState = nil
	defer flaky.Close()
	before, _ := kacheGoroutines()
	q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: 8, MaxWorkers: 4, MaxRetries: 3, Backoff: time.Millisecond})
	r := c.Rand("cluster", 0)
	const msgs = 400
	for k := 0; k < msgs; k++ {
		to := u.URL
		if k%4 == 3 {
			to = flaky.URL
		}
		query := core.Pick(r, "?n=10", "?n=100000", "?n=5000&chunk=1", "?n=0", "?n=9000&fail=1", "?n=9000&cut=5", "?n=9000&st=500", "?n=20&st=404", "?n=100000&st=202", "?st=204")
		req, err := http.NewRequest(core.Pick(r, "DELETE", "PUT"), to+"/x"+query, strings.NewReader(strings.Repeat("b", r.Intn(30))))
		if err != nil {
			panic(err)
		}
		q.Queue <- cluster.Message{Request: req}
		c.Count("cluster_messages", 1)
	}
	settled := func() bool { return len(q.Queue) == 0 }
	waitFor(20*time.Second, settled)
	time.Sleep(100 * time.Millisecond)
	waitFor(20*time.Second, settled)
	// connections kept for reuse are few, all others end
	const keep = 8
	if !waitFor(10*time.Second, func() bool { return u.open.Load() <= keep }) {
		c.Violate("connections-left", nil, "%d connections to a cluster peer stay open after %d messages", u.open.Load(), msgs)
	}
	// four workers need few connections at any time
	if p := u.peak.Load(); p > 60 {
		c.Violate("connections-pile-up", nil, "4 workers sending %d messages had %d connections to a peer open at the same time", msgs, p)
	}
	stopped := make(chan struct{})
	go func() { q.Stop(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(60 * time.Second):
		c.Violate("goroutines-left", nil, "the workers of the message queue do not end")
		return
	}
	waitFor(10*time.Second, func() bool { n, _ := kacheGoroutines(); return n <= before })
	if n, s := kacheGoroutines(); n > before {
		c.Violate("goroutines-left", []string{s}, "%d goroutines of kache remain after %d cluster messages, %d before", n, msgs, before)
	}
	c.Eval("cluster messages")
}

// newListening builds a server with a listener of its own.
func newListening(addr, upstream string, pdr provider.Provider, hc *cache.HttpCache) (*server.Server, error) {
	return server.NewServer(&config.Configuration{Upstreams: config.Upstreams{{Name: "u", Addr: upstream, Path: "/"}}, Provider: memConfig(),
		API: &config.API{}, Listeners: config.Listeners{"web": {Addr: addr}}}, pdr, hc, prometheus.NewRegistry())
}

// idleConnections makes many upstream connections at once; most end right after, all in the end.
func idleConnections(t *testing.T, c *core.Check) (finish func()) {
	const burst = 500
	u := newCensus()
	n := mustNode(t, config.Upstreams{{Name: "u", Addr: u.URL, Path: "/"}}, &cache.HttpCacheConfig{Strict: true}, nil, nil)
	var wg sync.WaitGroup
	for k := 0; k < burst; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := httptest.NewRecorder()
			n.srv.ServeHTTP(rr, httptest.NewRequest("GET", fmt.Sprintf("/i%d?n=10&d=400", k), nil))
			if rr.Code == 200 {
				c.Count("burst_requests", 1)
			}
		}()
	}
	wg.Wait()
	end := time.Now()
	c.Max("burst_connections", int(u.peak.Load()))
	if !waitFor(20*time.Second, func() bool { return u.open.Load() <= 150 }) {
		c.Violate("connections-left", nil, "%d upstream connections stay open after a burst of %d requests", u.open.Load(), burst)
	}
	return func() {
		defer u.Close()
		waitFor(time.Until(end.Add(150*time.Second)), func() bool { return u.open.Load() == 0 })
		if o := u.open.Load(); o > 0 {
			c.Violate("connections-left", nil, "%d upstream connections are still open %v after the last request", o, time.Since(end).Round(time.Second))
		}
		c.Max("idle_closed_after_s", int(time.Since(end).Seconds()))
		c.Eval("idle connections")
		runtime.KeepAlive(n)
	}
}
