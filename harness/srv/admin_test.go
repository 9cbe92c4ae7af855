//go:build go1.25

package srv

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// glob is the reference matcher: '*' stands for any bytes, everything else for itself.
func glob(pattern, s string) bool {
	parts := strings.Split(pattern, "*")
	if len(parts) == 1 {
		return s == pattern
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, last)
}

// counting is an upstream with a distinct cacheable answer for each request.
type counting struct {
	*httptest.Server
	mu   sync.Mutex
	seen map[string]int
	cc   string
}

func newCounting(cc string) *counting {
	u := &counting{seen: map[string]int{}, cc: cc}
	u.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = io.Copy(io.Discard, r.Body)
		u.mu.Lock()
		u.seen[r.RequestURI]++
		k := u.seen[r.RequestURI]
		u.mu.Unlock()
		if u.cc != "" {
			w.Header().Set("Cache-Control", u.cc)
		}
		w.Header().Set("Content-Type", "text/plain")
		_, _ = fmt.Fprintf(w, "%s#%d", r.RequestURI, k)
	}))
	return u
}

func (u *counting) count(uri string) int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.seen[uri]
}

func (n *node) get(path string) (int, http.Header, string) {
	rr := httptest.NewRecorder()
	n.srv.ServeHTTP(rr, httptest.NewRequest("GET", path, nil))
	return rr.Code, rr.Header(), rr.Body.String()
}

func TestC29(t *testing.T) {
	c := core.New(t, "C29")
	seqs := core.N(150, 2000)
	for si := 0; si < seqs && !c.Stopped(); si++ {
		r := c.Rand("seq", si)
		up := newCounting("max-age=1000")
		backend := core.Pick(r, "inmemory", "inmemory", "redis", "layered")
		pc := memConfig()
		var mr *miniredis.Miniredis
		if backend != "inmemory" {
			var err error
			if mr, err = miniredis.Run(); err != nil {
				t.Fatal(err)
			}
			pc.Backend = "redis"
			pc.Layered = backend == "layered"
			pc.LayeredTTL = "60s"
			pc.Redis = provider.RedisClientConfig{Endpoint: mr.Addr(), MaxItemSize: 1 << 20, MaxQueueConcurrency: 4, MaxQueueBufferSize: 1000}
		}
		prefix := core.Pick(r, "", "/kc", "x/")
		pf := "/api"
		if prefix != "" {
			pf = "/" + strings.Trim(prefix, "/")
		}
		n := mustNode(t, config.Upstreams{{Name: "u", Addr: up.URL, Path: "/"}}, &cache.HttpCacheConfig{Strict: true, XCache: true}, pc, &config.API{Prefix: prefix})
		key := func(p string) string { return "kache-" + up.URL + p }
		paths := []string{"/long" + strings.Repeat("g", 2000), "/a", "/a/b", "/a/c", "/b", "/b.x", "/bax", "/p?q=1", "/p?q=2", "/c%20d", "/news/1", "/news/2"}

		model := map[string]string{} // path -> stored body
		cur := cache.HttpCacheConfig{Strict: true, XCache: true}
		excluded := ""
		var log core.Log
		log.Add("backend %s, prefix %q", backend, prefix)
		bad := func(sig, f string, args ...any) { c.Violate(sig, log.Lines(), f, args...) }
		check := func() {
			var want []string
			for p := range model {
				want = append(want, key(p))
			}
			rr := n.call("GET", pf+"/cache/keys", "1.2.3.4:5", nil, "")
			var got []string
			if err := json.Unmarshal(rr.Body.Bytes(), &got); err != nil || rr.Code != 200 {
				bad("list", "listing failed: %d %q", rr.Code, rr.Body.String())
			}
			if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
				bad("list", "listed %v, the cache should hold %v", sorted(got), sorted(want))
			}
			c.Count("listings", 1)
		}
		shape := ""
		steps := r.Range(8, 24)
		if si%10 == 3 { // a cache with many entries
			for j := r.Range(90, 400); j > 0; j-- {
				p := fmt.Sprintf("/many/%d", j)
				_, _, body := n.get(p)
				if mr != nil && !waitFor(5*time.Second, func() bool { return mr.Exists(key(p)) }) {
					bad("not-stored", "%s never reached the backend", p)
				}
				model[p] = body
			}
			if backend != "layered" { // thousands
				for j := r.Range(1001, 3000); j > 0; j-- {
					p := fmt.Sprintf("/thousands/%d", j)
					if mr != nil {
						_ = mr.Set(key(p), "x")
						mr.SetTTL(key(p), time.Hour)
					} else {
						n.pdr.Set(key(p), []byte("x"), time.Hour)
					}
					model[p] = "x"
				}
				c.Count("huge_caches", 1)
			}
			c.Count("large_caches", 1)
			check()
		}
		for k := 0; k < steps && !c.Stopped(); k++ {
			switch op := r.Intn(14); {
			case op < 6: // a client request
				p := core.Pick(r, paths...)
				before := up.count(p)
				code, h, body := n.get(p)
				stored, hit := model[p]
				byp := excluded != "" && strings.HasPrefix(p, excluded)
				asked := up.count(p) - before
				log.Add("GET %s -> %d %q, upstream asked %d times, %s", p, code, body, asked, headerString(h))
				c.Count("requests", 1)
				switch {
				case code != 200:
					bad("client-error", "client request answered %d", code)
				case byp:
					if asked != 1 {
						bad("config-not-effective", "%s is excluded from caching by the configuration in force, upstream was asked %d times", p, asked)
					}
				case hit && (asked != 0 || body != stored):
					bad("entry-lost", "%s is stored (nothing removed it), but upstream was asked %d times, body %q, stored %q", p, asked, body, stored)
				case !hit && (asked != 1 || body != fmt.Sprintf("%s#%d", p, before+1)):
					bad("entry-survived", "%s was removed (or never stored), but the answer is %q with upstream asked %d times", p, body, asked)
				}
				if !byp && cur.XCache {
					name := cur.XCacheName
					if name == "" {
						name = "X-Kache"
					}
					if (h.Get(name) == "HIT") != hit {
						bad("config-not-effective", "debug field %s is %q on a %v hit", name, h.Get(name), hit)
					}
				}
				if !cur.XCache && h.Get("X-Kache") != "" {
					bad("config-not-effective", "debug field sent though switched off")
				}
				if !byp && !hit {
					if mr != nil && !waitFor(5*time.Second, func() bool { return mr.Exists(key(p)) }) {
						bad("not-stored", "%s never reached the backend", p)
					}
					model[p] = body
				}
				shape += fmt.Sprint("g", hit)
			case op == 6:
				check()
			case op <= 9: // purge or invalidate
				pat := core.Pick(r, key(core.Pick(r, paths...)), key(core.Pick(r, paths...)), key("/a*"), key("/b*"), key("/news/*"), "*p?q=*", key("/nothing"), "*.x", "*", "", "kache-*/a/*", key("/long"+strings.Repeat("g", 2000)), key("/long"+strings.Repeat("g", r.Range(1, 3000))+"*"),
					strings.Repeat("*", r.Range(2, 400))+"p?q=1")
				method, target := "PURGE", "/"
				if r.P(0.4) {
					method, target = "DELETE", pf+"/cache/invalidate"
				}
				h := http.Header{"X-Purge-Key": {pat}}
				var rr *httptest.ResponseRecorder
				if gone := r.P(.15); gone { // the caller does not wait for the answer
					ctx, cancel := context.WithCancel(bg)
					cancel()
					rr = n.callCtx(ctx, method, target, "1.2.3.4:5", h, "")
					log.Add("the caller has gone away")
					c.Count("impatient_calls", 1)
				} else {
					rr = n.call(method, target, "1.2.3.4:5", h, "")
				}
				removed := 0
				for p := range model {
					if pat == "" || glob(pat, key(p)) {
						delete(model, p)
						removed++
					}
				}
				log.Add("%s %s %q -> %d (should remove %d)", method, target, pat, rr.Code, removed)
				if rr.Code != 200 {
					bad("purge-failed", "%s of %q answered %d", method, pat, rr.Code)
				}
				c.Count("purges", 1)
				c.Count("entries_purged", removed)
				shape += fmt.Sprint("p", removed)
				check()
			case op == 10:
				var rr *httptest.ResponseRecorder
				if r.P(.3) { // the caller does not wait for the answer
					ctx, cancel := context.WithCancel(bg)
					cancel()
					rr = n.callCtx(ctx, "DELETE", pf+"/cache/flush", "1.2.3.4:5", nil, "")
					log.Add("the caller has gone away")
					c.Count("impatient_calls", 1)
				} else {
					rr = n.call("DELETE", pf+"/cache/flush", "1.2.3.4:5", nil, "")
				}
				log.Add("flush -> %d (holds %d)", rr.Code, len(model))
				if rr.Code != 200 {
					bad("flush-failed", "flush answered %d", rr.Code)
				}
				model = map[string]string{}
				c.Count("flushes", 1)
				shape += "f"
				check()
			case op == 11: // config update
				y, next, ex := "", cache.HttpCacheConfig{Strict: true}, ""
				if r.P(0.7) {
					next.XCache = r.P(0.5)
					y += fmt.Sprintf("x_header: %v\n", next.XCache)
				}
				if r.P(0.3) { // left out the next time, it is back to its default
					next.Strict = false
					y += "strict: false\n"
				}
				if r.P(0.5) {
					next.XCacheName = core.Pick(r, "X-Dbg", "x-other")
					y += "x_header_name: " + next.XCacheName + "\n"
				}
				if r.P(0.5) {
					ex = core.Pick(r, "/a", "/news/", "/p")
					y += "exclude:\n  path:\n    - \"^" + ex + "\"\n"
					next.Exclude = &cache.Exclude{Path: []string{"^" + ex}}
				}
				if r.P(0.3) {
					next.DefaultTTL = "300s"
					y += "default_ttl: 300s\n"
				}
				if r.P(0.15) { // a large one
					for j := r.Range(50, 1500); j > 0; j-- {
						next.Timeouts = append(next.Timeouts, cache.Timeout{Path: fmt.Sprintf("^/zz/%d/", j), TTL: time.Duration(j) * time.Second})
					}
					y += "timeouts:\n"
					for _, t := range next.Timeouts {
						y += fmt.Sprintf("  - path: %q\n    ttl: %s\n", t.Path, t.TTL)
					}
					c.Count("large_config_updates", 1)
				} else if r.P(0.3) {
					next.Timeouts = []cache.Timeout{{Path: "^/zz", TTL: 7 * time.Second}}
					y += "timeouts:\n  - path: \"^/zz\"\n    ttl: 7s\n"
				}
				if y == "" {
					y = "strict: true\n"
				}
				rr := n.call("PUT", pf+"/cache/config/update", "1.2.3.4:5", nil, y)
				log.Add("config update %q -> %d", y, rr.Code)
				if rr.Code != 200 {
					bad("config-update-failed", "update answered %d: %s", rr.Code, rr.Body.String())
				}
				cur, excluded = next, ex
				want, _ := json.Marshal(&next)
				got := n.call("GET", pf+"/cache/config", "1.2.3.4:5", nil, "")
				if strings.TrimSpace(got.Body.String()) != string(want) {
					bad("config-shown", "configuration shown is %s, updated to %s", got.Body.String(), want)
				}
				c.Count("config_updates", 1)
				shape += "c"
			default: // malformed calls
				type mal struct{ method, target, body string }
				m := core.Pick(r, mal{"GET", "/", ""}, mal{"POST", "/", ""}, mal{"DELETE", "/", ""}, mal{"PURGE", pf + "/cache/flush", ""}, mal{"GET", pf + "/cache/flush", ""}, mal{"POST", pf + "/cache/flush", ""},
					mal{"PUT", pf + "/cache/invalidate", ""}, mal{"DELETE", pf + "/cache/keys", ""}, mal{"DELETE", pf + "/cache/config", ""}, mal{"POST", pf + "/cache/config/update", "x_header: false\n"},
					mal{"PUT", pf + "/cache/config/update", ""}, mal{"PUT", pf + "/cache/config/update", "x_header: [1\n"}, mal{"PUT", pf + "/cache/config/update", "x_header: maybe\n"},
					mal{"PUT", pf + "/cache/config/update", "x_header_name: Y\nx_header: 7\n"}, mal{"PUT", pf + "/cache/config/update", "just text"}, mal{"PUT", pf + "/cache/config/update", "- a\n- b\n"},
					mal{"PUT", pf + "/cache/config/update", "x_header_name: Y\ntimeouts:\n  - path: a\n    ttl: soon\n"}, mal{"PUT", pf + "/cache/config/update", "exclude: 5\nstrict: false\n"},
					mal{"PUT", pf + "/cache/config/update", "\x00\x01"}, mal{"DELETE", pf + "/cache", ""}, mal{"DELETE", pf + "/cache/flushx", ""}, mal{"PURGE", "/a", ""}, mal{"DELETE", "/cache/flush", ""})
				cfgBefore := n.call("GET", pf+"/cache/config", "1.2.3.4:5", nil, "").Body.String()
				h := http.Header{"X-Purge-Key": {"*"}}
				if pf == "" && m.target == "/cache/flush" {
					continue
				}
				rr := n.call(m.method, m.target, "1.2.3.4:5", h, m.body)
				log.Add("malformed %s %s %q -> %d", m.method, m.target, m.body, rr.Code)
				if rr.Code < 400 {
					bad("malformed-accepted", "malformed call %s %s %q answered %d", m.method, m.target, m.body, rr.Code)
				}
				if now := n.call("GET", pf+"/cache/config", "1.2.3.4:5", nil, "").Body.String(); now != cfgBefore {
					bad("malformed-effect", "malformed call %s %s %q changed the configuration to %s", m.method, m.target, m.body, now)
				}
				c.Count("malformed_calls", 1)
				shape += "m"
				check()
			}
		}
		check()
		c.Eval(backend + shape)
		if mr != nil && si%5 < 3 { // the backend does not remove (as a full or read-only one)
			_ = mr.Set(key("/kept"), "x")
			mr.SetTTL(key("/kept"), time.Hour)
			mr.Server().SetPreHook(func(p *server.Peer, cmd string, _ ...string) bool {
				switch cmd {
				case "DEL", "UNLINK", "FLUSHDB", "FLUSHALL", "EXPIRE", "EVAL", "EVALSHA", "GETDEL", "PEXPIRE":
					p.WriteError("READONLY You can't write against a read only replica.")
					return true
				}
				return false
			})
			for _, call := range [][3]string{{"PURGE", "/", key("/kept")}, {"PURGE", "/", key("/k*")}, {"DELETE", pf + "/cache/invalidate", key("/kept")}, {"DELETE", pf + "/cache/invalidate", "*"}, {"DELETE", pf + "/cache/flush", "*"}} {
				rr := n.call(call[0], call[1], "1.2.3.4:5", http.Header{"X-Purge-Key": {call[2]}}, "")
				log.Add("backend does not remove: %s %s %q -> %d", call[0], call[1], call[2], rr.Code)
				if rr.Code < 400 && mr.Exists(key("/kept")) {
					bad("failure-hidden", "%s %s answered %d though the backend refused to remove", call[0], call[1], rr.Code)
				}
				c.Count("refused_removals", 1)
			}
			mr.Server().SetPreHook(nil)
		}
		if mr != nil && si%5 == 0 { // the backend is gone: the caller must learn that nothing was purged
			mr.Close()
			for _, call := range [][2]string{{"PURGE", "/"}, {"DELETE", pf + "/cache/invalidate"}, {"DELETE", pf + "/cache/flush"}} {
				rr := n.call(call[0], call[1], "1.2.3.4:5", http.Header{"X-Purge-Key": {"*"}}, "")
				log.Add("backend gone: %s %s -> %d", call[0], call[1], rr.Code)
				if rr.Code < 400 {
					bad("failure-hidden", "%s %s answered %d though the backend is gone", call[0], call[1], rr.Code)
				}
				c.Count("failing_backend", 1)
			}
		} else if mr != nil {
			mr.Close()
		}
		if si < 3 {
			c.Sample(log.Lines())
		}
		up.Close()
	}
	c.Done("random sequences of client requests and admin calls (purge, invalidate, flush, list, configuration updates, malformed ones) against a reference model of the cache; a case counts always",
		"requests", "entries_purged", "flushes", "config_updates", "malformed_calls", "listings", "failing_backend", "refused_removals", "huge_caches", "large_config_updates", "large_caches", "impatient_calls")
}
