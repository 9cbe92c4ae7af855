//go:build go1.25

package srv

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/verifharness/core"
)

// TestC17Tunnel lets clients ask for a switch of protocols, which upstream grants, while others ask for the same
// resource. A granted tunnel never ends by itself: nobody may be made to wait for its end.
func TestC17Tunnel(t *testing.T) {
	c := core.New(t, "C17")
	var granted, plain atomic.Int64
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(120 * time.Millisecond)
		if !strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
			plain.Add(1)
			w.Header().Set("Cache-Control", r.URL.Query().Get("cc"))
			_, _ = io.WriteString(w, "no tunnel "+r.URL.Path)
			return
		}
		conn, rw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer conn.Close()
		granted.Add(1)
		_, _ = io.WriteString(rw, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nCache-Control: max-age=100\r\n\r\nhello")
		_ = rw.Flush()
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = io.Copy(io.Discard, rw) // until kache gives the tunnel up
	}))
	defer func() { up.CloseClientConnections(); up.Close() }()

	var all sync.WaitGroup
	for wi := range core.N(24, 200) {
		if c.Stopped() {
			break
		}
		r := c.Rand("tunnel", wi)
		strict := wi%2 == 0
		cc := core.Pick(r, "max-age=100", "no-cache", "no-store", "")
		hc := &cache.HttpCacheConfig{Strict: strict, XCache: r.P(.5)}
		if r.P(.3) {
			hc.DefaultCacheControl, hc.ForceCacheControl = "max-age=100", r.P(.5)
		}
		if r.P(.3) {
			hc.Exclude = &cache.Exclude{Content: []cache.Content{{Type: ".*", Size: 1000}}}
		}
		clients := r.Range(2, 6)
		upgrades := []bool{true}
		for len(upgrades) < clients {
			upgrades = append(upgrades, r.P(.4))
		}
		first := r.P(.7)
		all.Add(1)
		go func() {
			defer all.Done()
			n := mustNode(t, config.Upstreams{{Name: "u", Addr: up.URL, Path: "/"}}, hc, nil, nil)
			n.serve()
			defer n.close()
			url := fmt.Sprintf("/ws/%d?cc=%s", wi, cc)
			var mu sync.Mutex
			var hist []string
			one := func(i int, upgrade bool) {
				kind := "plain"
				extra := ""
				if upgrade {
					kind, extra = "upgrade", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: k\r\n"
				}
				start := time.Now()
				conn, err := net.Dial("tcp", n.front.Listener.Addr().String())
				if err != nil {
					return
				}
				defer conn.Close()
				_ = conn.SetDeadline(time.Now().Add(12 * time.Second))
				fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: x.test\r\n%s\r\n", url, extra)
				resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
				status, body := 0, ""
				if err == nil {
					status = resp.StatusCode
					if status != 101 {
						b, _ := io.ReadAll(resp.Body)
						body = string(b)
					}
				}
				line := fmt.Sprintf("client %d (%s): %d %.60q %v after %v", i, kind, status, body, err, time.Since(start).Round(time.Millisecond))
				mu.Lock()
				hist = append(hist, line)
				h := append([]string(nil), hist...)
				mu.Unlock()
				if err != nil {
					c.Violate("hangs-on-tunnel", h, "strict=%v %s: %s: no answer, one of the clients had upstream switch protocols", strict, url, line)
				} else if !upgrade && (status != 200 || body != fmt.Sprintf("no tunnel /ws/%d", wi)) {
					c.Violate("harmed-by-tunnel", h, "strict=%v %s: %s: one of the clients had upstream switch protocols", strict, url, line)
				} else if !upgrade {
					c.Count("plain_beside_tunnels", 1)
				} else {
					c.Count("upgrades_answered", 1)
				}
				c.Eval(fmt.Sprint("tunnel", strict, cc, hc.DefaultCacheControl != "", hc.Exclude != nil, clients, upgrade, status))
			}
			var wg sync.WaitGroup
			for i, u := range upgrades {
				wg.Add(1)
				go func() { defer wg.Done(); one(i, u) }()
				if i == 0 && first {
					time.Sleep(30 * time.Millisecond)
				}
			}
			wg.Wait()
			one(99, false)
		}()
	}
	all.Wait()
	c.Count("tunnels_granted", int(granted.Load()))
	c.Done("clients ask for a switch of protocols, and others for the same resource beside them, over sockets", "tunnels_granted", "plain_beside_tunnels", "upgrades_answered")
}
