//go:build go1.25

package srv

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

// TestC34 runs every entry point of a node concurrently under the race detector.
func TestC34(t *testing.T) {
	c := core.New(t, "C34")
	k := newK8s()
	defer k.Close()
	defer k.use(t)()
	rounds := core.N(1, 6)
	for round := 0; round < rounds; round++ {
		for _, backend := range []string{"inmemory", "redis", "layered"} {
			raceNode(t, c, k, backend, round)
		}
	}
	raceLoader(t, c)
	raceProviders(t, c)
	c.Done("concurrent stress of all entry points under the race detector; a case is a (backend, round), the counters say how often each entry point ran",
		"proxied", "admin", "config_updates", "loads", "broadcasts", "cancelled", "hits", "provider_operations")
}

func raceNode(t *testing.T, c *core.Check, k *k8s, backend string, round int) {
	u := newCensus()
	defer u.Close()
	mr, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	defer mr.Close()
	mkpc := func() *provider.ProviderBackendConfig {
		pc := memConfig()
		pc.InMemory.MaxSize, pc.InMemory.MaxItemSize = 200<<10, 50<<10
		if backend != "inmemory" {
			pc.Backend = "redis"
			pc.Layered = backend == "layered"
			pc.LayeredTTL = core.Pick(c.Rand("race", round), "30ms", "1s")
			pc.Redis = provider.RedisClientConfig{Endpoint: mr.Addr(), MaxItemSize: 50 << 10, MaxQueueConcurrency: 4, MaxQueueBufferSize: 100}
		}
		return pc
	}
	hcfg := func(g int) *cache.HttpCacheConfig {
		hc := &cache.HttpCacheConfig{Strict: g%5 != 0, XCache: g%2 == 0, XCacheName: fmt.Sprint("X-", g%3), DefaultTTL: "1s", ForceCacheControl: g%3 == 0, DefaultCacheControl: "max-age=1",
			Timeouts: []cache.Timeout{{Path: "^/t", TTL: time.Second}}}
		if g%4 != 0 {
			hc.Exclude = &cache.Exclude{Path: []string{"^/ex"}, Header: map[string]string{"x_requested_with": "1"}, Content: []cache.Content{{Type: "image/.*", Size: 10}}}
		}
		return hc
	}
	pc := mkpc()
	n := &node{reg: prometheus.NewRegistry()}
	n.cfg = &config.Configuration{Upstreams: config.Upstreams{{Name: "u", Addr: u.URL, Path: "/"}, {Name: "v", Addr: u.URL + "/v", Path: "/v"}}, HttpCache: hcfg(1), Provider: pc,
		API: &config.API{ACL: "10.0.0.0/8,127.0.0.1"}, Listeners: config.Listeners{"a": {Addr: "127.0.0.1:0"}, "b": {Addr: "127.0.0.1:0"}},
		Cluster: &cluster.Config{Discovery: "kubernetes", Namespace: "prod", Service: "kache"}}
	if n.pdr, err = provider.CreateCacheProvider("kache", *pc); err != nil {
		t.Fatal(err)
	}
	if n.cache, err = cache.NewHttpCache(n.cfg.HttpCache, n.pdr); err != nil {
		t.Fatal(err)
	}
	if n.srv, err = server.NewServer(n.cfg, n.pdr, n.cache, n.reg); err != nil {
		t.Fatal(err)
	}
	if n.api, err = apiNew(*n.cfg.API, n.srv); err != nil {
		t.Fatal(err)
	}
	n.serve()
	ctx, cancel := context.WithCancel(bg)
	go n.srv.Start(ctx)
	p, err := newPeer("self", "127.0.0.1:0", n.api)
	if err != nil {
		t.Fatal(err)
	}
	flaky, _ := newPeer("flaky", "127.0.0.1:0", nil)
	for i := 0; i < 50; i++ {
		flaky.fail = append(flaky.fail, []int{500, -1, 0}[i%3])
	}
	k.set([]dest{{ip: p.host(), ports: map[string]int{"api": p.port()}, ready: true}, {ip: flaky.host(), ports: map[string]int{"api": flaky.port()}, ready: true}})

	stop := make(chan struct{})
	var wg sync.WaitGroup
	loop := func(stream string, w int, f func(r *core.R)) {
		r := c.Rand(fmt.Sprint("race-", backend, round, stream), w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					f(r)
				}
			}
		}()
	}
	cc := []string{"&cc=max-age%3D100", "&cc=max-age%3D1", "&cc=no-store", "&cc=no-cache&etag=x", "&cc=max-age%3D0&etag=y", "", "&cc=s-maxage%3D0,max-age%3D9&etag=z"}
	for w := 0; w < 8; w++ {
		loop("client", w, func(r *core.R) {
			path := core.Pick(r, "/a", "/b", "/t/x", "/ex/1", "/v/q", fmt.Sprint("/u", r.Intn(200)))
			url := path + "?n=" + core.Pick(r, "0", "100", "5000", "60000") + core.Pick(r, cc...) + core.Pick(r, "", "", "", "&vary=X-V", "&d=3", "&cut=5", "&chunk=1")
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			if r.P(0.1) {
				time.AfterFunc(time.Duration(r.Intn(4))*time.Millisecond, cancel)
				c.Count("cancelled", 1)
			}
			req := httptest.NewRequest(core.Pick(r, "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "HEAD", "POST", "DELETE"), url, nil).WithContext(ctx)
			for _, h := range []string{"X-V", "X-Requested-With", "Range", "Authorization"} {
				if r.P(0.05) {
					req.Header.Set(h, core.Pick(r, "1", "2", "bytes=0-1"))
				}
			}
			if r.P(0.1) {
				req.Header.Set("Cache-Control", core.Pick(r, "no-cache", "max-age=0", "max-stale=5", "min-fresh=1"))
			}
			rr := httptest.NewRecorder()
			func() {
				defer func() { _ = recover() }() // broken transfers end in http.ErrAbortHandler
				n.srv.ServeHTTP(rr, req)
			}()
			c.Count("proxied", 1)
			for i := 0; i < 3; i++ {
				if rr.Header().Get(fmt.Sprint("X-", i)) == "HIT" {
					c.Count("hits", 1)
				}
			}
		})
	}
	for w := 0; w < 2; w++ {
		loop("admin", w, func(r *core.R) {
			h := http.Header{"X-Purge-Key": {core.Pick(r, "*/u1*", "*/u2*", "*/ex*", "*n=60000*", "kache-"+u.URL+"/b?n=100")}}
			if r.P(0.01) {
				h.Set("X-Purge-Key", core.Pick(r, "*", ""))
			}
			switch r.Intn(7) {
			case 0:
				n.call("PURGE", "/", "10.0.0.1:1", h, "")
				c.Count("broadcasts", 1)
			case 1:
				n.call("DELETE", "/api/cache/invalidate", "10.0.0.1:1", h, "")
			case 2:
				if r.P(0.02) {
					n.call("DELETE", "/api/cache/flush", "10.0.0.1:1", nil, "")
				}
			case 3:
				n.call("GET", "/api/cache/config", "10.0.0.1:1", nil, "")
			case 4:
				h.Set("X-Kache-Cluster", "Broadcast")
				n.call("PUT", "/api/cache/config/update", "10.0.0.1:1", h, fmt.Sprintf("strict: true\nx_header: %v\nexclude: {path: ['^/q%d'], header: {x_a: '1'}, content: [{type: 'text/.*', size: 100}]}\ntimeouts: [{path: '^/u', ttl: 3s}]\n", r.P(0.5), r.Intn(5)))
				c.Count("config_updates", 1)
			case 5:
				n.call("GET", "/metrics", "192.168.0.1:1", nil, "")
			default:
				n.call("GET", "/api/cache/keys", "10.0.0.1:1", nil, "")
			}
			c.Count("admin", 1)
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		})
	}
	loop("reload", 0, func(r *core.R) {
		n.cache.UpdateConfig(hcfg(r.Intn(60)))
		_ = n.cache.Config()
		c.Count("config_updates", 1)
		time.Sleep(time.Millisecond)
	})
	loop("direct", 0, func(r *core.R) { // what else the components offer
		key := core.Pick(r, "k1", "k2", "kache-"+u.URL+"/a")
		switch r.Intn(6) {
		case 0:
			n.pdr.Set(key, make([]byte, r.Intn(3000)), time.Duration(r.Intn(3))*time.Millisecond)
		case 1:
			n.pdr.Get(bg, key)
		case 2:
			n.pdr.Delete(bg, key)
		case 3:
			n.pdr.Keys(bg, "kache")
		case 4:
			n.pdr.Size()
		case 5:
			_ = n.pdr.Purge(bg, "k1*")
		}
	})
	time.Sleep(time.Duration(core.N(2500, 6000)) * time.Millisecond)
	if backend != "inmemory" { // outage while everything runs
		mr.SetError("LOADING")
		time.Sleep(50 * time.Millisecond)
		mr.SetError("")
		time.Sleep(100 * time.Millisecond)
	}
	close(stop)
	wg.Wait()
	cancel()
	waited := make(chan struct{})
	go func() { n.srv.Await(); close(waited) }()
	select {
	case <-waited:
	case <-time.After(30 * time.Second):
	}
	n.close()
	p.close()
	flaky.close()
	c.Eval(fmt.Sprint("race", backend, round))
}

// raceLoader loads, watches and reads a configuration file that keeps changing.
func raceLoader(t *testing.T, c *core.Check) {
	dir, _ := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cfg")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "kache.yml")
	text := func(g int) string {
		return fmt.Sprintf("listeners:\n  a: {addr: \":0\"}\ncache: {x_header_name: X-%d}\nupstreams: [{name: u, addr: \"http://127.0.0.1:1\", path: /}]\nprovider: {backend: inmemory}\napi: {port: 1}\n", g)
	}
	_ = os.WriteFile(file, []byte(text(0)), 0o600)
	l, err := config.NewLoader(file, true, 2*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	if err := l.Watch(ctx); err != nil {
		t.Fatal(err)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 5; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for g := 0; ; g++ {
				select {
				case <-stop:
					return
				case <-l.Events:
					_ = l.Config().HttpCache
				default:
				}
				switch w {
				case 0:
					_ = os.WriteFile(file+".tmp", []byte(text(g)), 0o600)
					_ = os.Rename(file+".tmp", file)
					time.Sleep(time.Millisecond)
				case 1, 2:
					_, _ = l.Load(bg)
					c.Count("loads", 1)
				default:
					_ = l.Config().HttpCache.XCacheName
					_ = l.Checksum()
				}
			}
		}()
	}
	time.Sleep(time.Duration(core.N(700, 3000)) * time.Millisecond)
	close(stop)
	wg.Wait()
	cancel()
	l.Close()
	c.Eval("loader")
}

var raceSite = regexp.MustCompile(`kache/(?:pkg|cmd)/[\w/.()*-]+`)

// TestC34Proc runs the race-instrumented program itself under load, reloads and a stop.
func TestC34Proc(t *testing.T) {
	c := core.New(t, "C34")
	u := newCensus()
	defer u.Close()
	var wg sync.WaitGroup
	for pi, backend := range []string{"inmemory", "layered"} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			raceProc(t, c, u, pi, backend)
		}()
	}
	wg.Wait()
	c.Done("the race-instrumented program under client load, admin calls, file changes, SIGHUP, API reloads and SIGTERM", "requests", "reloads", "admin_calls", "stops")
}

func raceProc(t *testing.T, c *core.Check, u *census, pi int, backend string) {
	mr, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	defer mr.Close()
	var web, web2 string
	var port int
	text := func(g int) string {
		prov := "{backend: inmemory}"
		if backend == "layered" {
			prov = fmt.Sprintf("{backend: redis, layered: true, layered_ttl: 1s, redis: {endpoint: %q, max_item_size: 100000, max_queue_concurrency: 4, max_queue_buffer_size: 100}}", mr.Addr())
		}
		return fmt.Sprintf(`listeners:
  a: {addr: "%s"}
  b: {addr: "%s"}
cache:
  x_header: true
  x_header_name: X-G-%d
  default_ttl: %ds
  timeouts: [{path: "^/g", ttl: %ds}]
  exclude: {path: ["^/never"], header: {x_a: "1"}}
upstreams:
  - {name: u, addr: "%s", path: /}
provider: %s
logging: {level: error}
api: {port: %d, debug: true, acl: "127.0.0.0/8"}
`, web, web2, g, g+1, g+1, u.URL, prov, port)
	}
	p := newProc(t, func(w, w2 string, api int) string { web, web2, port = w, w2, api; return text(0) })
	defer p.kill()
	if err := p.start(t, "-config.auto-reload", "-config.watch-interval", "5ms"); err != nil {
		t.Errorf("kache: %v", err)
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		r := c.Rand("proc-client", pi*10+w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := &http.Client{Timeout: 20 * time.Second}
			for {
				select {
				case <-stop:
					return
				default:
				}
				if w == 5 {
					req, _ := http.NewRequest(core.Pick(r, "GET", "GET", "PURGE", "DELETE"), "http://"+p.api+core.Pick(r, "/api/cache/config", "/api/cache/keys", "/", "/api/cache/flush", "/metrics", "/version"), nil)
					req.Header.Set("X-Purge-Key", "*u1*")
					if resp, err := cl.Do(req); err == nil {
						_, _ = io.Copy(io.Discard, resp.Body)
						_ = resp.Body.Close()
						c.Count("admin_calls", 1)
					}
					continue
				}
				url := "http://" + core.Pick(r, p.web, p.web2) + core.Pick(r, "/a", "/b", "/g", fmt.Sprint("/u", r.Intn(50))) + "?n=" + core.Pick(r, "10", "3000") + core.Pick(r, "&cc=max-age%3D50", "&cc=no-cache&etag=x", "&cc=max-age%3D1", "")
				if resp, err := cl.Get(url); err == nil {
					_, _ = io.Copy(io.Discard, resp.Body)
					_ = resp.Body.Close()
					c.Count("requests", 1)
				}
			}
		}()
	}
	r := c.Rand("proc-reload", pi)
	end := time.Now().Add(time.Duration(core.N(4, 15)) * time.Second)
	for g := 1; time.Now().Before(end); g++ {
		_ = os.WriteFile(p.file+".tmp", []byte(text(g)), 0o600)
		_ = os.Rename(p.file+".tmp", p.file)
		switch r.Intn(3) {
		case 0:
			_ = p.cmd.Process.Signal(syscall.SIGHUP)
		case 1:
			_, _, _, _ = do("POST", "http://"+p.api+"/api/cache/config/reload", "", nil)
		}
		_, _, _, _ = do("PUT", "http://"+p.api+"/api/cache/config/update", fmt.Sprintf("x_header: true\nx_header_name: X-U-%d\n", g), nil)
		c.Count("reloads", 1)
		time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
	}
	_ = p.cmd.Process.Signal(syscall.SIGTERM) // under load
	time.Sleep(200 * time.Millisecond)
	close(stop)
	wg.Wait()
	if p.exited(40 * time.Second) {
		c.Count("stops", 1)
	}
	out := p.err.String()
	for _, blk := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "=================="); i > 0 {
			blk = blk[:i]
		}
		if site := raceSite.FindString(blk); site != "" {
			c.Violate("data-race", strings.Split(blk, "\n"), "the race detector reports a race at %s", site)
		}
	}
	if strings.Contains(out, "fatal error: concurrent map") {
		c.Violate("data-race", strings.Split(out, "\n"), "concurrent map access")
	}
	c.Eval("proc-" + backend)
}

// raceProviders uses the cache backends directly: many keys which expire, are evicted, purged and replaced.
func raceProviders(t *testing.T, c *core.Check) {
	for kind := 0; kind < 4; kind++ {
		var p provider.Provider
		var err error
		mem := provider.InMemoryCacheConfig{MaxSize: 4000, MaxItemSize: 1000}
		switch kind {
		case 0:
			p, err = provider.NewInMemoryCache(mem)
		case 1:
			p, err = provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
		case 2:
			p, err = provider.NewSimpleCache(nil)
		case 3:
			outer, _ := provider.NewSimpleCache(nil)
			p, err = provider.NewCached(outer, "outer", 200*time.Microsecond, mem)
		}
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			r := c.Rand(fmt.Sprint("race-provider", kind), w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				ops := core.N(4000, 30000)
				for i := 0; i < ops; i++ {
					key := fmt.Sprint("k", r.Intn(6))
					switch x := r.Intn(40); {
					case x < 12:
						p.Set(key, make([]byte, r.Intn(1200)), time.Duration(core.Pick(r, -1, 1, 1000, 50000, 1000000, int(time.Hour))))
					case x < 32:
						if v := p.Get(bg, key); len(v) > 0 {
							_ = v[len(v)-1]
						}
					case x < 35:
						p.Delete(bg, key)
					case x < 37:
						p.Keys(bg, core.Pick(r, "", "k1"))
					case x < 38:
						_ = p.Purge(bg, core.Pick(r, "k1*", "*2", "k3"))
					case x < 39:
						p.Size()
					default:
						if r.P(.2) {
							_ = p.Flush(bg)
						}
					}
				}
				c.Count("provider_operations", ops)
			}()
		}
		wg.Wait()
		c.Eval(fmt.Sprint("provider", kind))
	}
}
