//go:build go1.25

package prov

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

// event of a purge history; ids are unique values.
type event struct {
	kind      string // set, get, clear
	key, id   int
	scope     [3]bool // keys that a clear covers
	call, ret int64
	what      string
}

func (e event) String() string {
	if e.kind == "clear" {
		return fmt.Sprintf("[%d-%d] %s", e.call, e.ret, e.what)
	}
	return fmt.Sprintf("[%d-%d] %s k%d value %d", e.call, e.ret, e.kind, e.key, e.id)
}

func jitter(seed int64) func() {
	var x atomic.Uint64
	x.Store(uint64(seed) | 1)
	return func() {
		v := x.Load()
		v ^= v << 13
		v ^= v >> 7
		v ^= v << 17
		x.Store(v)
		switch {
		case v%16 == 0:
			time.Sleep(time.Duration(v>>32%40) * time.Microsecond)
		default:
			for j := uint64(0); j < v%5; j++ {
				runtime.Gosched()
			}
		}
	}
}

func TestC22(t *testing.T) {
	c := core.New(t, "C22")
	srv := startRedis()
	defer srv.Close()
	remote, cl := newRedis(srv.Addr(), provider.RedisClientConfig{MaxQueueConcurrency: 2})
	defer cl.Stop()
	kinds := []string{"inmemory", "layered", "layered", "layered-redis", "redis", "http"}
	for i := 0; i < core.N(6000, 80000) && !c.Stopped(); i++ {
		kind := kinds[i%len(kinds)]
		r := c.Rand("durable", i)
		var p provider.Provider
		wait := func(string) {}
		drop := func(string) {} // the remote tier loses the item
		var err error
		switch kind {
		case "inmemory":
			p = newMem(provider.InMemoryCacheConfig{})
		case "layered", "http":
			tr := newTier()
			tr.yield = jitter(r.Int63())
			drop = func(k string) {
				tr.mu.Lock()
				delete(tr.m, k)
				tr.mu.Unlock()
			}
			p, err = provider.NewCached(tr, "t", time.Hour, provider.InMemoryCacheConfig{})
		case "redis", "layered-redis":
			srv.FlushAll()
			wait = func(k string) {
				if !eventually(10*time.Second, func() bool { return srv.Exists(k) }) {
					c.Violate("not-stored", nil, "%s was not written to redis", k)
				}
			}
			p = remote
			drop = func(k string) { srv.Del(k) }
			if kind == "layered-redis" {
				p, err = provider.NewCached(remote, "t", time.Hour, provider.InMemoryCacheConfig{})
			}
		}
		if err != nil {
			t.Fatal(err)
		}
		if kind == "http" {
			durableHTTP(c, i, r, p, drop)
		} else {
			durable(c, i, r, kind, p, wait, drop)
		}
	}
	c.Done("a case is a round of readers (which refill the local tier) and a writer running concurrently with deletes, purges and flushes on three keys, with injected delays in the remote tier, "+
		"at the storage API (in-memory, layered, layered over redis, redis) or through the proxy transport; no read that began after a clearing call returned may see a value stored before the call began. "+
		"Distinct by the recorded order of events; trivial if no read overlapped a clearing call",
		"clears", "reads", "reads_after_clear", "overlapping_reads", "rounds_inmemory", "rounds_layered", "rounds_layered-redis", "rounds_redis", "rounds_http", "rounds_with_losses", "hits")
}

type recorder struct {
	clock atomic.Int64
	mu    sync.Mutex
	ev    []event
}

func (h *recorder) add(e event) {
	h.mu.Lock()
	h.ev = append(h.ev, e)
	h.mu.Unlock()
}

// judge checks the recorded history. stored tells when a value was surely stored.
func (h *recorder) judge(c *core.Check, kind string) {
	stored := map[int]int64{}
	var clears []event
	sort.Slice(h.ev, func(a, b int) bool { return h.ev[a].call < h.ev[b].call })
	var shape strings.Builder
	for _, e := range h.ev {
		fmt.Fprintf(&shape, "%s%d %d-%d;", e.kind, e.key, e.call, e.ret)
		switch e.kind {
		case "set":
			stored[e.id] = e.ret
		case "clear":
			clears = append(clears, e)
		case "get":
			// delivered through the proxy: stored before it was delivered
			if t, ok := stored[e.id]; e.id != 0 && kind == "http" && (!ok || e.ret < t) {
				stored[e.id] = e.ret
			}
		}
	}
	c.Count("clears", len(clears))
	c.Count("rounds_"+kind, 1)
	overlap := false
	for _, g := range h.ev {
		if g.kind != "get" {
			continue
		}
		c.Count("reads", 1)
		if g.id != 0 {
			c.Count("hits", 1)
		}
		for _, cl := range clears {
			if !cl.scope[g.key] {
				continue
			}
			if g.call < cl.ret && cl.call < g.ret {
				overlap = true
				c.Count("overlapping_reads", 1)
			}
			if cl.ret < g.call {
				c.Count("reads_after_clear", 1)
				if t, ok := stored[g.id]; g.id != 0 && ok && t < cl.call {
					var lines []string
					for _, e := range h.ev {
						lines = append(lines, e.String())
					}
					c.Violate("resurrected:"+kind, lines, "%s: %v returned a value stored before %v", kind, g, cl)
					return
				}
			}
		}
	}
	if overlap {
		c.Eval(kind + shape.String())
	} else {
		c.Eval("")
	}
}

var clearing = []struct {
	what  string
	scope [3]bool
	do    func(p provider.Provider, keys [3]string)
}{
	{"delete k0", [3]bool{true}, func(p provider.Provider, k [3]string) { p.Delete(bg, k[0]) }},
	{"delete k1", [3]bool{1: true}, func(p provider.Provider, k [3]string) { p.Delete(bg, k[1]) }},
	{"purge k0,k1", [3]bool{true, true}, func(p provider.Provider, k [3]string) { _ = p.Purge(bg, "*/a/*") }},
	{"purge all", [3]bool{true, true, true}, func(p provider.Provider, k [3]string) { _ = p.Purge(bg, "*") }},
	{"purge exactly k2", [3]bool{2: true}, func(p provider.Provider, k [3]string) { _ = p.Purge(bg, k[2]) }},
	{"flush", [3]bool{true, true, true}, func(p provider.Provider, k [3]string) { _ = p.Flush(bg) }},
}

func durable(c *core.Check, i int, r *core.R, kind string, p provider.Provider, wait, drop func(string)) {
	keys := [3]string{"x/a/0", "x/a/1", "x/b/2"}
	h := &recorder{}
	ids := 0
	for k := range keys {
		ids++
		e := event{kind: "set", key: k, id: ids, call: h.clock.Add(1)}
		p.Set(keys[k], []byte(strconv.Itoa(ids)), time.Hour)
		wait(keys[k])
		e.ret = h.clock.Add(1)
		h.add(e)
	}
	read := func(k int) {
		e := event{kind: "get", key: k, call: h.clock.Add(1)}
		v := p.Get(bg, keys[k])
		e.ret = h.clock.Add(1)
		e.id, _ = strconv.Atoi(string(v))
		h.add(e)
	}
	var wg, gate sync.WaitGroup
	gate.Add(1)
	spawn := func(f func(r *core.R)) {
		wg.Add(1)
		seed := r.Int63()
		go func() {
			defer wg.Done()
			gate.Wait()
			f(core.NewR(seed))
		}()
	}
	for w := 0; w < 3; w++ {
		spawn(func(r *core.R) {
			for s := 0; s < 6; s++ {
				read(r.Intn(3))
				if r.P(0.3) {
					runtime.Gosched()
				}
			}
		})
	}
	if kind != "inmemory" && r.P(0.3) {
		c.Count("rounds_with_losses", 1)
		lose := func(r *core.R) {
			for k := range keys {
				if r.P(0.5) {
					drop(keys[k])
				}
			}
		}
		if r.P(0.5) {
			lose(r)
		} else {
			spawn(lose)
		}
	}
	nclear := 1 + i%2
	spawn(func(r *core.R) {
		for s := 0; s < nclear; s++ {
			cl := core.Pick(r, clearing...)
			e := event{kind: "clear", what: cl.what, scope: cl.scope, call: h.clock.Add(1)}
			cl.do(p, keys)
			e.ret = h.clock.Add(1)
			h.add(e)
			for k := range keys {
				read(k)
			}
		}
	})
	if !strings.Contains(kind, "redis") {
		spawn(func(r *core.R) {
			for s := 0; s < 2; s++ {
				k := r.Intn(3)
				e := event{kind: "set", key: k, id: 100 + s, call: h.clock.Add(1)}
				p.Set(keys[k], []byte(strconv.Itoa(e.id)), time.Hour)
				e.ret = h.clock.Add(1)
				h.add(e)
			}
		})
	}
	gate.Done()
	wg.Wait()
	for k := range keys {
		read(k)
	}
	h.judge(c, kind)
	if i < 6 {
		c.Sample(fmt.Sprint(kind, h.ev))
	}
}

// versions is an upstream whose responses are numbered.
type versions struct {
	n     atomic.Int64
	yield func()
}

func (o *versions) RoundTrip(req *http.Request) (*http.Response, error) {
	o.yield()
	b := []byte(strconv.FormatInt(o.n.Add(1), 10))
	o.yield()
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:        http.Header{"Cache-Control": {"max-age=3600"}, "Date": {time.Now().UTC().Format(http.TimeFormat)}},
		ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewReader(b)), Request: req}, nil
}

func durableHTTP(c *core.Check, i int, r *core.R, p provider.Provider, drop func(string)) {
	urls := [3]string{"http://h.test/a/0", "http://h.test/a/1", "http://h.test/b/2"}
	var keys [3]string
	for k, u := range urls {
		keys[k] = "kache-" + u
	}
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: true, DefaultTTL: "1h"}, p)
	if err != nil {
		panic(err)
	}
	tr := middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	tr.Transport = &versions{yield: jitter(r.Int63())}
	// Not coalesced: a request that joins another in progress shares that one's lookup.
	var rt http.RoundTripper = tr
	h := &recorder{}
	read := func(k int) {
		req, _ := http.NewRequest("GET", urls[k], nil)
		e := event{kind: "get", key: k, call: h.clock.Add(1)}
		res, err := rt.RoundTrip(req)
		if err != nil {
			c.Violate("http-error", nil, "GET %s: %v", urls[k], err)
			return
		}
		b, _ := io.ReadAll(res.Body)
		res.Body.Close()
		e.ret = h.clock.Add(1)
		e.id, _ = strconv.Atoi(string(b))
		h.add(e)
	}
	for k := range urls {
		read(k)
	}
	if r.P(0.3) {
		c.Count("rounds_with_losses", 1)
		for k := range keys {
			if r.P(0.5) {
				drop(keys[k])
			}
		}
	}
	var wg, gate sync.WaitGroup
	gate.Add(1)
	for w := 0; w < 3; w++ {
		wg.Add(1)
		seed := r.Int63()
		go func() {
			defer wg.Done()
			r := core.NewR(seed)
			gate.Wait()
			for s := 0; s < 6; s++ {
				read(r.Intn(3))
			}
		}()
	}
	wg.Add(1)
	seed := r.Int63()
	go func() {
		defer wg.Done()
		r := core.NewR(seed)
		gate.Wait()
		for s := 0; s < 2; s++ {
			cl := core.Pick(r, clearing...)
			e := event{kind: "clear", what: cl.what, scope: cl.scope, call: h.clock.Add(1)}
			cl.do(p, keys)
			e.ret = h.clock.Add(1)
			h.add(e)
			for k := range keys {
				read(k)
			}
		}
	}()
	gate.Done()
	wg.Wait()
	h.judge(c, "http")
}
