//go:build go1.25

package srv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// peer is an instrumented peer: it records what reaches it and can be made to fail.
type peer struct {
	name string
	ln   net.Listener
	srv  *http.Server
	mu   sync.Mutex
	got  []seen
	// fail says how the next attempts fail: a status, 0: answer, -1: close, -2: stall.
	fail []int
	to   http.Handler // nil: plain 200
}

type seen struct {
	method, path, host, key, mark, xff, xri, body, ctype string
	failed                                               bool
	at                                                   time.Time
}

func newPeer(name, addr string, to http.Handler) (*peer, error) {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	p := &peer{name: name, ln: ln, to: to}
	p.srv = &http.Server{Handler: p}
	go func() { _ = p.srv.Serve(ln) }()
	return p, nil
}

func (p *peer) host() string { h, _, _ := net.SplitHostPort(p.ln.Addr().String()); return h }
func (p *peer) port() int    { return p.ln.Addr().(*net.TCPAddr).Port }
func (p *peer) close()       { _ = p.srv.Close() }

func (p *peer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	f := 0
	p.mu.Lock()
	if len(p.fail) > 0 {
		f = p.fail[0]
		if f != -2 || len(p.fail) > 1 {
			p.fail = p.fail[1:]
		}
	}
	p.got = append(p.got, seen{r.Method, r.RequestURI, r.Host, r.Header.Get("X-Purge-Key"), r.Header.Get("X-Kache-Cluster"),
		r.Header.Get("X-Forwarded-For"), r.Header.Get("X-Real-Ip"), string(b), r.Header.Get("Content-Type"), f != 0, time.Now()})
	p.mu.Unlock()
	switch {
	case f > 0:
		w.WriteHeader(f)
		return
	case f == -1:
		panic(http.ErrAbortHandler)
	case f == -2:
		select {
		case <-r.Context().Done():
		case <-time.After(120 * time.Second):
		}
		return
	}
	if p.to != nil {
		r.Body = io.NopCloser(bytes.NewReader(b))
		p.to.ServeHTTP(w, r)
	}
}

func (p *peer) log() (ok int, all []seen) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, s := range p.got {
		if !s.failed {
			ok++
		}
	}
	return ok, append([]seen(nil), p.got...)
}

// k8s is the cluster's API as far as the node uses it: the endpoints of one service.
type k8s struct {
	*httptest.Server
	mu      sync.Mutex
	subsets []map[string]any
	broken  bool
	asked   int
}

func newK8s() *k8s {
	k := &k8s{}
	k.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		k.mu.Lock()
		defer k.mu.Unlock()
		k.asked++
		if k.broken || r.URL.Path != "/api/v1/namespaces/prod/endpoints/kache" {
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(404)
			_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(map[string]any{"kind": "Endpoints", "apiVersion": "v1",
			"metadata": map[string]any{"name": "kache", "namespace": "prod"}, "subsets": k.subsets})
	}))
	return k
}

// use points the cluster client at this API.
func (k *k8s) use(t testing.TB) func() {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "home")
	if err != nil {
		t.Fatal(err)
	}
	_ = os.MkdirAll(filepath.Join(dir, ".kube"), 0o700)
	conf := fmt.Sprintf("apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster:\n    server: %s\ncontexts:\n- name: c\n  context:\n    cluster: c\n    user: u\ncurrent-context: c\nusers:\n- name: u\n  user: {}\n", k.URL)
	if err := os.WriteFile(filepath.Join(dir, ".kube", "config"), []byte(conf), 0o600); err != nil {
		t.Fatal(err)
	}
	old := os.Getenv("HOME")
	_ = os.Setenv("HOME", dir)
	_ = os.Unsetenv("KUBERNETES_SERVICE_HOST")
	return func() { _ = os.Setenv("HOME", old); _ = os.RemoveAll(dir) }
}

type dest struct {
	ip    string
	ports map[string]int
	ready bool
	name  string
}

func (k *k8s) set(ds []dest) {
	var subs []map[string]any
	for _, d := range ds {
		var ports []map[string]any
		for n, p := range d.ports {
			ports = append(ports, map[string]any{"name": n, "port": p, "protocol": "TCP"})
		}
		a := map[string]any{"ip": d.ip}
		if d.name != "" {
			a["targetRef"] = map[string]any{"kind": "Pod", "name": d.name}
		}
		s := map[string]any{"ports": ports}
		if d.ready {
			s["addresses"] = []any{a}
		} else {
			s["notReadyAddresses"] = []any{a}
		}
		// group equal port lists into one subset, as the cluster does
		merged := false
		for _, o := range subs {
			if fmt.Sprint(o["ports"]) == fmt.Sprint(ports) {
				for _, f := range []string{"addresses", "notReadyAddresses"} {
					if v, ok := s[f]; ok {
						prev, _ := o[f].([]any)
						o[f] = append(prev, v.([]any)...)
						merged = true
					}
				}
			}
			if merged {
				break
			}
		}
		if !merged {
			subs = append(subs, s)
		}
	}
	k.mu.Lock()
	k.subsets = subs
	k.mu.Unlock()
}

func TestC32(t *testing.T) {
	c := core.New(t, "C32")
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	k := newK8s()
	defer k.Close()
	undo := func() {}
	defer func() { undo() }()
	// every cluster client is made while HOME points at this API

	run(func() { queueCases(c) })
	run(func() { floodCases(c) })
	slow := core.N(1, 4)
	for i := 0; i < slow; i++ {
		stalledCase(t, c, i)
		transientCase(t, c, i)
		burstCase(t, c, i)
	}
	undo = k.use(t)
	clusterCases(t, c, k)
	slowWG.Wait()
	wg.Wait()

	c.Done("a case is a peer set with failure sequences and the broadcasts sent to it; distinct by both", "broadcasts", "peer_failures_injected",
		"peers_notified", "notified_despite_stalled_peers", "notified_after_failures", "effects_checked", "attempts", "burst_messages", "flood_messages")
}

var slowWG sync.WaitGroup

// queueCases drives the request queue with generated messages and failure sequences.
func queueCases(c *core.Check) {
	cases := core.N(200, 1500)
	for i := 0; i < cases && !c.Stopped(); i++ {
		r := c.Rand("queue", i)
		retries := r.Range(1, 6)
		q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: r.Range(1, 8), MaxWorkers: r.Range(1, 6), MaxRetries: retries, Backoff: time.Duration(r.Range(1, 12)) * time.Millisecond})
		np := r.Range(1, 6)
		var peers []*peer
		var log core.Log
		want := map[string]bool{} // peer/message that must arrive
		per := map[*peer]int{}
		shape := fmt.Sprint(retries)
		for j := 0; j < np; j++ {
			p, err := newPeer(fmt.Sprint("p", j), "127.0.0.1:0", nil)
			if err != nil {
				c.Count("listen_failed", 1)
				continue
			}
			defer p.close()
			nf := core.Pick(r, 0, 0, 1, retries-1, retries-1, retries, retries+3)
			for x := 0; x < nf; x++ {
				p.fail = append(p.fail, core.Pick(r, 500, 503, 404, 400, 599, -1, 429))
			}
			per[p] = nf
			peers = append(peers, p)
			shape += fmt.Sprint("/", p.fail)
			log.Add("peer %s fails %v (at most %d attempts per message)", p.name, p.fail, retries)
			c.Count("peer_failures_injected", nf)
		}
		// one message per peer, so that its failures hit that message
		for j, p := range peers {
			body := fmt.Sprintf("body-%d-%d", i, j) + strings.Repeat("x", core.Pick(r, 0, 0, 5000))
			if r.P(0.3) {
				body = ""
			}
			req, _ := http.NewRequest("DELETE", fmt.Sprintf("http://%s/api/cache/invalidate", p.ln.Addr()), strings.NewReader(body))
			req.Header.Set("X-Purge-Key", fmt.Sprint("key-", i, "-", j))
			req.Header.Set("X-Kache-Cluster", "Broadcast")
			sent := make(chan struct{})
			go func() { q.Queue <- cluster.Message{Request: req}; close(sent) }()
			select {
			case <-sent:
			case <-time.After(30 * time.Second):
				c.Violate("queue-stuck", log.Lines(), "the queue accepts nothing for 30 s though no peer stalls")
				return
			}
			want[p.name] = per[p] < retries
			// wait out the message's fate
			expect := per[p] + 1
			if expect > retries {
				expect = retries
			}
			pp := p
			key := fmt.Sprint("key-", i, "-", j)
			waitFor(8*time.Second, func() bool { _, all := pp.log(); return len(all) >= expect || c.Stopped() })
			if c.Stopped() {
				break
			}
			ok, all := p.log()
			log.Add("%s: %d attempts, %d answered 200", p.name, len(all), ok)
			if want[p.name] && ok == 0 {
				c.Violate("not-delivered", log.Lines(), "peer %s failed %d times, %d attempts are due, but it was never notified (%d attempts)", p.name, per[p], retries, len(all))
			}
			for _, s := range all {
				if s.method != "DELETE" || s.key != key || s.body != body || s.mark != "Broadcast" || s.path != "/api/cache/invalidate" {
					c.Violate("altered", log.Lines(), "peer %s received %s %s key=%q mark=%q body=%s, sent was key=%q body=%s", p.name, s.method, s.path, s.key, s.mark, short([]byte(s.body)), key, short([]byte(body)))
					break
				}
			}
			c.Count("peers_notified", ok)
			c.Count("attempts", len(all))
		}
		// attempts are bounded: nothing more arrives
		time.Sleep(time.Duration(r.Range(5, 20)) * time.Millisecond)
		for _, p := range peers {
			if _, all := p.log(); len(all) > retries {
				c.Violate("unbounded-retries", log.Lines(), "peer %s got %d attempts for one message, %d are configured", p.name, len(all), retries)
			}
		}
		stopped := make(chan struct{})
		go func() { q.Stop(); close(stopped) }()
		select {
		case <-stopped:
		case <-time.After(20 * time.Second):
			c.Violate("stop-hangs", log.Lines(), "the queue does not stop")
		}
		c.Count("queue_messages", np)
		c.Eval("q" + shape)
	}
}

// member is one node of a simulated cluster.
type member struct {
	n *node
	p *peer
}

// clusterCases runs clusters of real nodes: broadcasts, their effect on every node, loops, access lists.
func clusterCases(t *testing.T, c *core.Check, k *k8s) {
	cases := core.N(50, 400)
	for i := 0; i < cases && !c.Stopped(); i++ {
		r := c.Rand("cluster", i)
		up := newCounting("max-age=1000")
		mr, err := miniredis.Run()
		if err != nil {
			t.Fatal(err)
		}
		layered := !r.P(0.15)
		client := core.Pick(r, "10.1.2.3", "192.0.2.77", "2001:db8::7")
		acl := core.Pick(r, "", client, "10.0.0.0/8,192.0.2.0/24,2001:db8::/32")
		prefix := core.Pick(r, "", "/kc", "adm/", "/adm/", "adm", "/", "a/b", "x")
		pf := "/api"
		if prefix != "" {
			pf = strings.TrimSuffix("/"+strings.Trim(prefix, "/"), "/")
		}
		var log core.Log
		log.Add("layered=%v acl=%q prefix=%q client=%s", layered, acl, prefix, client)
		size := r.Range(2, 5)
		samePort := r.P(0.4)
		v6 := r.P(0.3)
		var ms []*member
		var ds []dest
		port := 0
		shape := fmt.Sprint(size, layered, samePort, v6, acl != "", prefix)
		for j := 0; j < size; j++ {
			pc := &provider.ProviderBackendConfig{Backend: "redis", Layered: layered, LayeredTTL: "500s",
				InMemory: provider.InMemoryCacheConfig{MaxSize: 64 << 20, MaxItemSize: 8 << 20, DefaultTTL: "500s"},
				Redis:    provider.RedisClientConfig{Endpoint: mr.Addr(), MaxItemSize: 1 << 20, MaxQueueConcurrency: 4, MaxQueueBufferSize: 1000}}
			m := &member{}
			n := mustNodeCluster(t, config.Upstreams{{Name: "u", Addr: up.URL, Path: "/"}}, &cache.HttpCacheConfig{Strict: true, XCache: true}, pc,
				&config.API{Prefix: prefix, ACL: acl}, &cluster.Config{Discovery: "kubernetes", Namespace: "prod", Service: "kache"})
			m.n = n
			addr := "127.0.0.1:0"
			switch {
			case samePort && j > 0:
				addr = fmt.Sprintf("127.0.0.%d:%d", j+1, port)
			case v6 && j > 0:
				addr = "[::1]:0"
			}
			p, err := newPeer(fmt.Sprint("n", j), addr, n.api)
			if err != nil {
				if p, err = newPeer(fmt.Sprint("n", j), "127.0.0.1:0", n.api); err != nil {
					t.Fatal(err)
				}
			}
			port = p.port()
			m.p = p
			ms = append(ms, m)
			ds = append(ds, dest{ip: p.host(), ports: map[string]int{"api": p.port(), "web": 1}, ready: true, name: core.Pick(r, "", fmt.Sprint("pod-", j))})
		}
		// odd endpoints: not ready, without an api port, refusing
		var silent *peer
		if silent, err = newPeer("not-ready", "127.0.0.1:0", nil); err != nil {
			t.Fatal(err)
		}
		if r.P(0.5) {
			ds = append(ds, dest{ip: silent.host(), ports: map[string]int{"api": silent.port()}, ready: false})
		}
		if r.P(0.5) {
			ds = append(ds, dest{ip: "127.0.0.1", ports: map[string]int{"web": silent.port()}, ready: true})
		}
		dead := r.P(0.4)
		if dead {
			ds = append(ds, dest{ip: "127.0.0.1", ports: map[string]int{"api": 1}, ready: true})
			c.Count("peer_failures_injected", 1)
		}
		r.Shuffle(len(ds), func(a, b int) { ds[a], ds[b] = ds[b], ds[a] })
		k.set(ds)
		k.mu.Lock()
		k.broken = false
		k.mu.Unlock()
		shape += fmt.Sprint(len(ds), dead)

		paths := []string{"/a", "/a/b", "/b", "/news/1", "/news/2"}
		gen := map[string]int{}
		steps := r.Range(2, 5)
		for s := 0; s < steps && !c.Stopped(); s++ {
			// fill every node
			for _, p := range paths {
				for _, m := range ms {
					code, _, body := m.n.get(p)
					g := up.count(p)
					if code != 200 || body != fmt.Sprintf("%s#%d", p, g) {
						c.Violate("wrong-content", log.Lines(), "node answers %d %q, newest is %d", code, body, g)
					}
					waitFor(5*time.Second, func() bool { return mr.Exists("kache-" + up.URL + p) })
				}
				gen[p] = up.count(p)
			}
			from := r.Intn(len(ms))
			before := make([]int, len(ms))
			for j, m := range ms {
				_, all := m.p.log()
				before[j] = len(all)
			}
			broken := r.P(0.12)
			k.mu.Lock()
			k.broken = broken
			k.mu.Unlock()
			h := http.Header{}
			fwd := client
			remote := net.JoinHostPort(client, "4711")
			if r.P(0.3) { // the node itself is behind a proxy
				h.Set("X-Forwarded-For", client)
				remote = "172.16.0.9:80"
			}
			if remote == "172.16.0.9:80" && r.P(.4) { // which says so in its own way
				h.Set("X-Real-Ip", client)
				h.Del("X-Forwarded-For")
				c.Count("named_by_real_ip", 1)
			}
			kind := core.Pick(r, "purge", "purge", "purge", "config", "invalidate", "config-broadcast", "purge-denied", "config-bad")
			if kind == "purge-denied" && acl == "" {
				kind = "purge"
			}
			pat := core.Pick(r, "kache-"+up.URL+"/a", "kache-"+up.URL+"/a*", "*news*", "*", "kache-*/b")
			y := fmt.Sprintf("x_header: true\nx_header_name: X-Gen-%d-%d\n", i, s)
			if r.P(.25) { // a large one
				y += "timeouts:\n"
				for j := r.Range(500, 6000); j > 0; j-- {
					y += fmt.Sprintf("  - path: \"^/zz/%d/\"\n    ttl: %ds\n", j, j)
				}
			}
			var rr *httptest.ResponseRecorder
			wantMethod, wantPath, expect := "DELETE", pf+"/cache/invalidate", layered && !broken
			purges := false
			status := 200
			sender := ms[from].n
			call := sender.call
			extra := ""
			if r.P(.5) { // over a connection, maybe with a body nobody asked for
				call = sender.callReal
				extra = core.Pick(r, "", "", "x", strings.Repeat("x", 300000))
				c.Count("calls_over_connections", 1)
			}
			switch kind {
			case "purge":
				h.Set("X-Purge-Key", pat)
				purges = true
				rr = call("PURGE", "/", remote, h, extra)
			case "invalidate":
				h.Set("X-Purge-Key", pat)
				rr = call("DELETE", pf+"/cache/invalidate", remote, h, extra)
				expect = false // documented: not broadcast
			case "purge-denied":
				h.Set("X-Purge-Key", pat)
				h.Del("X-Forwarded-For")
				h.Del("X-Real-Ip")
				rr = call("PURGE", "/", "203.0.113.9:1", h, "")
				expect, status = false, rr.Code
				if rr.Code == 200 {
					c.Violate("denied-accepted", log.Lines(), "a client that is not listed may purge")
				}
			case "config":
				rr = call("PUT", pf+"/cache/config/update", remote, h, y)
				wantMethod, wantPath, expect = "PUT", pf+"/cache/config/update", !broken
			case "config-broadcast":
				h.Set("X-Kache-Cluster", "Broadcast")
				rr = call("PUT", pf+"/cache/config/update", remote, h, y)
				expect = false
			case "config-bad":
				rr = call("PUT", pf+"/cache/config/update", remote, h, "x_header: [unclosed")
				expect, status = false, 400
			}
			log.Add("%s on n%d from %s pattern %q: %d (cluster API broken=%v)", kind, from, remote, pat, rr.Code, broken)
			if rr.Code != status {
				c.Violate("status", log.Lines(), "%s answered %d, due is %d", kind, rr.Code, status)
			}
			c.Count("broadcasts", 1)
			fresh := func(j int) []seen { _, all := ms[j].p.log(); return all[before[j]:] }
			if expect {
				for j := range ms {
					j := j
					if !waitFor(20*time.Second, func() bool { return len(fresh(j)) > 0 }) && j != from {
						c.Violate("not-delivered", log.Lines(), "%s from n%d never reached n%d (endpoints %v)", kind, from, j, ds)
					}
				}
				time.Sleep(15 * time.Millisecond) // the answers, and possible echoes
			} else {
				time.Sleep(25 * time.Millisecond)
			}
			for j := range ms {
				got := fresh(j)
				if !expect && len(got) > 0 {
					c.Violate("undue-broadcast", log.Lines(), "%s must not be broadcast, but n%d got %+v", kind, j, got[0])
				}
				if len(got) > 1 {
					c.Violate("loop", log.Lines(), "one %s reached n%d %d times", kind, j, len(got))
				}
				for _, g := range got {
					c.Count("peers_notified", 1)
					if g.method != wantMethod || g.path != wantPath || g.mark == "" {
						c.Violate("altered", log.Lines(), "n%d received %s %s mark %q, due is %s %s", j, g.method, g.path, g.mark, wantMethod, wantPath)
					}
					if kind == "purge" && g.key != pat {
						c.Violate("altered", log.Lines(), "n%d received the pattern %q instead of %q", j, g.key, pat)
					}
					if kind == "config" && len(y) > 64<<10 {
						c.Count("large_broadcasts", 1)
					}
					if kind == "config" && g.body != y {
						c.Violate("altered", log.Lines(), "n%d received the configuration %.200q (%d bytes) instead of %.200q (%d bytes)", j, g.body, len(g.body), y, len(y))
					}
					sees := g.xff
					if sees == "" {
						sees = g.xri
					}
					if sees != fwd {
						c.Violate("origin-lost", log.Lines(), "n%d sees the client %q, it is %q", j, sees, fwd)
					}
				}
			}
			if _, all := silent.log(); len(all) > 0 {
				c.Violate("not-ready-notified", log.Lines(), "an endpoint which is not ready or has no api port was sent %+v", all[0])
			}
			// effect
			switch {
			case purges && expect:
				for _, p := range paths {
					hit := glob(pat, "kache-"+up.URL+p)
					for j, m := range ms {
						_, hd, body := m.n.get(p)
						old := body == fmt.Sprintf("%s#%d", p, gen[p])
						if hit && old {
							c.Violate("stale-peer", log.Lines(), "n%d still answers %s with purged content %q", j, p, body)
						}
						if !hit && !old {
							c.Violate("lost-on-peer", log.Lines(), "n%d lost %s (now %q), which the pattern %q does not match", j, p, body, pat)
						}
						_ = hd
						c.Count("effects_checked", 1)
						if hit {
							waitFor(5*time.Second, func() bool { return mr.Exists("kache-" + up.URL + p) })
						}
					}
					gen[p] = up.count(p)
				}
			case kind == "config" || kind == "config-broadcast":
				name := fmt.Sprintf("X-Gen-%d-%d", i, s)
				for j, m := range ms {
					due := expect || j == from
					has := false
					waitFor(2*time.Second, func() bool { _, hd, _ := m.n.get("/a"); has = hd.Get(name) != ""; return has || !due })
					if has != due {
						c.Violate("config-effect", log.Lines(), "n%d uses the new configuration: %v, due: %v", j, has, due)
					}
					c.Count("effects_checked", 1)
				}
			}
			shape += kind + fmt.Sprint(from, broken)
			if kind != "purge" || !expect {
				// start over from the same state everywhere
				for _, m := range ms {
					_ = m.n.pdr.Flush(bg)
				}
			}
		}
		c.Eval(shape)
		if i < 3 {
			c.Sample(log.Lines())
		}
		// a cluster client never ends by itself; it is closed with its server, which needs no listeners
		for _, m := range ms {
			m.n.srv.Stop()
			m.p.close()
		}
		silent.close()
		up.Close()
		mr.Close()
	}
}

func mustNodeCluster(t testing.TB, ups config.Upstreams, hc *cache.HttpCacheConfig, pc *provider.ProviderBackendConfig, ac *config.API, cc *cluster.Config) *node {
	n, err := newNodeCluster(ups, hc, pc, ac, cc)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

// stalledCase: many peers accept connections but never answer; the healthy ones must be told.
func stalledCase(t *testing.T, c *core.Check, i int) {
	r := c.Rand("stalled", i)
	k := newK8s()
	undo := k.use(t)
	cl, err := cluster.NewKubernetesClient("prod", "kache")
	undo()
	if err != nil {
		t.Fatal(err)
	}
	var ds []dest
	var stalled, healthy []*peer
	ns, nh := r.Range(8, 12), r.Range(2, 4)
	for j := 0; j < ns; j++ {
		p, _ := newPeer(fmt.Sprint("stalled", j), "127.0.0.1:0", nil)
		p.fail = []int{-2}
		stalled = append(stalled, p)
		ds = append(ds, dest{ip: p.host(), ports: map[string]int{"api": p.port()}, ready: true})
	}
	for j := 0; j < nh; j++ {
		p, _ := newPeer(fmt.Sprint("healthy", j), "127.0.0.1:0", nil)
		healthy = append(healthy, p)
		ds = append(ds, dest{ip: p.host(), ports: map[string]int{"api": p.port()}, ready: true})
	}
	k.set(ds)
	slowWG.Add(1)
	go func() {
		defer slowWG.Done()
		req := httptest.NewRequest("PURGE", "/", nil)
		req.Header.Set("X-Purge-Key", "k*")
		done := make(chan struct{})
		go func() { cl.Broadcast(req, "api", "DELETE", "/api/cache/invalidate"); close(done) }()
		c.Count("peer_failures_injected", ns)
		for _, p := range healthy {
			if !waitFor(60*time.Second, func() bool { ok, _ := p.log(); return ok > 0 || c.Stopped() }) {
				c.Violate("blocked-by-stalled", nil, "%d stalled peers keep %s from being notified within 60 s", ns, p.name)
			} else {
				c.Count("peers_notified", 1)
				c.Count("notified_despite_stalled_peers", 1)
			}
		}
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			c.Violate("broadcast-hangs", nil, "the broadcast does not return")
		}
		c.Eval(fmt.Sprint("stalled", ns, nh))
		for _, p := range append(stalled, healthy...) {
			p.close()
		}
		cl.Close()
		k.Close()
	}()
}

// transientCase: peers fail their first attempts, through the real client and its own backoff.
func transientCase(t *testing.T, c *core.Check, i int) {
	r := c.Rand("transient", i)
	k := newK8s()
	undo := k.use(t)
	cl, err := cluster.NewKubernetesClient("prod", "kache")
	undo()
	if err != nil {
		t.Fatal(err)
	}
	var ds []dest
	var peers []*peer
	np := r.Range(3, 5)
	for j := 0; j < np; j++ {
		p, _ := newPeer(fmt.Sprint("flaky", j), "127.0.0.1:0", nil)
		for x := r.Range(0, core.N(1, 4)); x > 0; x-- {
			p.fail = append(p.fail, core.Pick(r, 500, 503, -1, 404))
			c.Count("peer_failures_injected", 1)
		}
		peers = append(peers, p)
		ds = append(ds, dest{ip: p.host(), ports: map[string]int{"api": p.port()}, ready: true})
	}
	k.set(ds)
	slowWG.Add(1)
	go func() {
		defer slowWG.Done()
		req := httptest.NewRequest("PUT", "/api/cache/config/update", strings.NewReader("x_header: true\n"))
		cl.Broadcast(req, "api", "PUT", "/api/cache/config/update")
		for _, p := range peers {
			if !waitFor(60*time.Second, func() bool { ok, _ := p.log(); return ok > 0 || c.Stopped() }) {
				c.Violate("not-delivered", nil, "%s was never notified after transient failures", p.name)
			}
			_, all := p.log()
			for _, s := range all {
				if s.body != "x_header: true\n" {
					c.Violate("altered", nil, "%s received %q", p.name, s.body)
				}
			}
			c.Count("peers_notified", 1)
			c.Count("notified_after_failures", 1)
		}
		c.Eval(fmt.Sprint("transient", np, i))
		for _, p := range peers {
			p.close()
		}
		cl.Close()
		k.Close()
	}()
}

// burstCase: more messages at once than any queue holds.
func burstCase(t *testing.T, c *core.Check, i int) {
	r := c.Rand("burst", i)
	k := newK8s()
	undo := k.use(t)
	cl, err := cluster.NewKubernetesClient("prod", "kache")
	undo()
	if err != nil {
		t.Fatal(err)
	}
	var ds []dest
	var peers []*peer
	np, nb := r.Range(50, 80), r.Range(2, 5)
	for j := 0; j < np; j++ {
		p, err := newPeer(fmt.Sprint("burst", j), "127.0.0.1:0", nil)
		if err != nil {
			t.Fatal(err)
		}
		peers = append(peers, p)
		ds = append(ds, dest{ip: p.host(), ports: map[string]int{"api": p.port()}, ready: true})
	}
	k.set(ds)
	var wg sync.WaitGroup
	for b := 0; b < nb; b++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			req := httptest.NewRequest("PURGE", "/", nil)
			req.Header.Set("X-Purge-Key", fmt.Sprint("k", b))
			cl.Broadcast(req, "api", "DELETE", "/api/cache/invalidate")
		}()
	}
	wg.Wait()
	for _, p := range peers {
		if !waitFor(20*time.Second, func() bool { ok, _ := p.log(); return ok >= nb }) {
			ok, _ := p.log()
			c.Violate("not-delivered", nil, "%d concurrent broadcasts to %d healthy peers: %s was notified %d times", nb, np, p.name, ok)
			break
		}
		c.Count("peers_notified", nb)
	}
	time.Sleep(20 * time.Millisecond)
	for _, p := range peers {
		_, all := p.log()
		seen := map[string]int{}
		for _, g := range all {
			seen[g.key]++
			if seen[g.key] > 1 {
				c.Violate("repeated", nil, "%s was notified of %s %d times though it answered", p.name, g.key, seen[g.key])
			}
		}
		p.close()
	}
	c.Count("burst_messages", np*nb)
	c.Eval(fmt.Sprint("burst", np, nb))
	cl.Close()
	k.Close()
}

// floodCases: messages that fail at first compete with new ones for a full queue.
func floodCases(c *core.Check) {
	for i := 0; i < core.N(12, 80) && !c.Stopped(); i++ {
		r := c.Rand("flood", i)
		retries := r.Range(2, 5)
		q := cluster.NewRequestQueue(cluster.RequestQueueOpts{Size: r.Range(1, 3), MaxWorkers: r.Range(1, 3), MaxRetries: retries, Backoff: time.Duration(r.Range(1, 4)) * time.Millisecond})
		var mu sync.Mutex
		failures, attempts, done := map[string]int{}, map[string]int{}, map[string]int{}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
			_, _ = io.Copy(io.Discard, rq.Body)
			key := rq.Header.Get("X-Purge-Key")
			mu.Lock()
			attempts[key]++
			bad := attempts[key] <= failures[key]
			if !bad {
				done[key]++
			}
			mu.Unlock()
			if bad {
				w.WriteHeader(503)
			}
		}))
		n := r.Range(30, 80)
		due := 0
		for j := 0; j < n; j++ {
			failures[fmt.Sprint("m", j)] = core.Pick(r, 0, 1, 1, retries-1, retries-1, retries)
			if failures[fmt.Sprint("m", j)] < retries {
				due++
			}
		}
		var wg sync.WaitGroup
		const senders = 4
		for w := 0; w < senders; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := w; j < n; j += senders {
					req, _ := http.NewRequest("DELETE", srv.URL+"/x", nil)
					req.Header.Set("X-Purge-Key", fmt.Sprint("m", j))
					q.Queue <- cluster.Message{Request: req}
				}
			}()
		}
		wg.Wait()
		count := func() int { mu.Lock(); defer mu.Unlock(); return len(done) }
		if !waitFor(20*time.Second, func() bool { return count() >= due }) {
			c.Violate("not-delivered", nil, "%d messages, each failing fewer than its %d attempts, compete for a small queue: %d are delivered", due, retries, count())
		}
		time.Sleep(10 * time.Millisecond)
		mu.Lock()
		for key, a := range attempts {
			if a > failures[key]+1 || a > retries {
				c.Violate("unbounded-retries", nil, "message %s was sent %d times, it failed %d times and %d attempts are configured", key, a, failures[key], retries)
			}
		}
		mu.Unlock()
		c.Count("flood_messages", n)
		c.Eval(fmt.Sprint("flood", n, retries, due))
		stopped := make(chan struct{})
		go func() { q.Stop(); close(stopped) }()
		select {
		case <-stopped:
		case <-time.After(20 * time.Second):
			c.Violate("stop-hangs", nil, "the queue does not stop")
		}
		srv.Close()
	}
}
