//go:build go1.25

package srv

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// TestC15Srv sends herds of clients to whole nodes of every kind.
func TestC15Srv(t *testing.T) {
	c := core.New(t, "C15")
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for k := 0; k < core.N(120, 1500); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if !c.Stopped() {
				herd(t, c, k)
			}
		}()
	}
	wg.Wait()
	c.Done("over sockets: a case is a node (memory, redis, redis with a local tier; strict or not; several upstreams) and a herd of 2-60 clients which ask for one missing resource while upstream takes its time; distinct by node, herd and body",
		"herds", "herd_clients", "herd_shared")
}

func herd(t *testing.T, c *core.Check, k int) {
	r := c.Rand("herd", k)
	size := core.Pick(r, 0, 1, 1000, 70000, 600000)
	chunked, split := r.P(.5), size > 0 && r.P(.5)
	data := r.Bytes(size)
	var asked sync.Map
	var gate atomic.Value // chan struct{}
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		n, _ := asked.LoadOrStore(q.URL.Path, new(atomic.Int64))
		no := n.(*atomic.Int64).Add(1)
		w.Header().Set("Cache-Control", "max-age=100")
		w.Header().Set("X-No", fmt.Sprint(no))
		if !chunked {
			w.Header().Set("Content-Length", fmt.Sprint(size))
		}
		half := 0
		if split {
			half = size / 2
			w.WriteHeader(200)
			_, _ = w.Write(data[:half])
			w.(http.Flusher).Flush()
		}
		<-gate.Load().(chan struct{})
		_, _ = w.Write(data[half:])
	}))
	defer up.Close()
	pc := memConfig()
	kind := []string{"memory", "redis", "layered"}[k%3]
	if kind != "memory" {
		mr, err := miniredis.Run()
		if err != nil {
			t.Error(err)
			return
		}
		defer mr.Close()
		pc = &provider.ProviderBackendConfig{Backend: "redis", Layered: kind == "layered", LayeredTTL: "10s", InMemory: pc.InMemory,
			Redis: provider.RedisClientConfig{Endpoint: mr.Addr(), MaxQueueConcurrency: r.Range(1, 4), MaxQueueBufferSize: 100}}
	}
	hc := &cache.HttpCacheConfig{Strict: r.P(.6), XCache: r.P(.5)}
	ups := config.Upstreams{{Name: "a", Addr: up.URL, Path: "/"}}
	if r.P(.5) {
		ups = append(ups, &config.Upstream{Name: "b", Addr: up.URL, Path: "/b"})
	}
	n, err := newNode(ups, hc, pc, nil)
	if err != nil {
		t.Error(err)
		return
	}
	var in atomic.Int64
	front := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		in.Add(1)
		n.srv.ServeHTTP(w, q)
	}))
	defer front.Close()
	addr := front.Listener.Addr().(*net.TCPAddr).String()
	split2, clients := r.P(.3), r.Range(2, 60)
	prefix := core.Pick(r, "/", "/b/")
	hist := []string{fmt.Sprintf("%s strict=%v upstreams=%d, %d clients, %d bytes chunked=%v in two parts=%v", kind, hc.Strict, len(ups), clients, size, chunked, split)}
	// More than one request is only held against the node if it happens again and again: what the clients
	// do between arriving and waiting cannot be observed.
	for try := 0; ; try++ {
		g := make(chan struct{})
		gate.Store(g)
		path := fmt.Sprintf("%sherd/%d/%d", prefix, k, try)
		in.Store(0)
		out := make([]answer, clients)
		var wg sync.WaitGroup
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if split2 && i > 0 {
					time.Sleep(time.Duration(i) * time.Millisecond)
				}
				out[i] = rawDo(addr, []byte("GET "+path+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"), "GET", 60*time.Second)
			}()
		}
		waitFor(20*time.Second, func() bool { return in.Load() == int64(clients) })
		time.Sleep(time.Duration(60<<(2*try)) * time.Millisecond)
		close(g)
		wg.Wait()
		total := int64(0)
		asked.Range(func(p, v any) bool {
			if p == path || "/b"+p.(string) == path || prefix == "/b/" && "/b"+p.(string) == path {
				total += v.(*atomic.Int64).Load()
			}
			return true
		})
		for i, a := range out {
			if a.err != nil || a.status != 200 || !bytes.Equal(a.body, data) {
				c.Violate("herd-answer", hist, "client %d is answered %d with %d of %d bytes, %v", i, a.status, len(a.body), size, a.err)
				return
			}
		}
		c.Count("herds", 1)
		c.Count("herd_clients", clients)
		if total == 1 {
			c.Count("herd_shared", clients-1)
			break
		}
		hist = append(hist, fmt.Sprintf("try %d: upstream was asked %d times", try, total))
		if try == 3 {
			c.Violate("herd", hist, "upstream was asked %d times by %d clients which all waited for the same resource", total, clients)
			return
		}
	}
	c.Eval(fmt.Sprint("herd", hist[0]))
}
