//go:build go1.25

package srv

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/kache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

// yamlDoc is a configuration text and what it stands for.
type yamlDoc struct {
	sections map[string]string
	order    []string
	want     config.Configuration
}

func (d *yamlDoc) text() string {
	var b strings.Builder
	for _, s := range d.order {
		b.WriteString(d.sections[s])
	}
	return b.String()
}

func scalar(r *core.R, s string) string {
	switch r.Intn(3) {
	case 0:
		b, _ := json.Marshal(s)
		return string(b)
	case 1:
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	b, _ := json.Marshal(s)
	return string(b) + " # remark"
}

// genConfig makes a usable configuration. redisAddr may be used as a backend.
func genConfig(r *core.R, id int, upURL, redisAddr, authAddr string) *yamlDoc {
	d := &yamlDoc{sections: map[string]string{}}
	ind := strings.Repeat(" ", r.Range(1, 4))
	var b strings.Builder
	flush := func(name string) {
		d.sections[name] = b.String()
		d.order = append(d.order, name)
		b.Reset()
	}
	opt := func(p float64, f func()) {
		if r.P(p) {
			f()
		}
	}
	line := func(depth int, k, v string) {
		if v != "" {
			v = " " + v
		}
		fmt.Fprintf(&b, "%s%s:%s\n", strings.Repeat(ind, depth), k, v)
		if r.P(0.1) {
			b.WriteString("# remark\n\n")
		}
	}
	boolean := func() (bool, string) {
		if r.P(0.5) {
			return true, core.Pick(r, "true", "True", "TRUE")
		}
		return false, core.Pick(r, "false", "False")
	}

	d.want.Listeners = config.Listeners{}
	line(0, "listeners", "")
	for i := core.Pick(r, 1, 1, 2, 3, 5); i > 0; i-- {
		// an address of its own, which nobody else on this machine uses
		name, addr := fmt.Sprint("web", i), fmt.Sprintf("127.%d.%d.%d:%d", 10+id>>8, id&255, 10+i, 20000+r.Intn(10000))
		if r.P(0.3) {
			line(1, name, "{addr: "+fmt.Sprintf("%q", addr)+"}")
		} else {
			line(1, name, "")
			line(2, "addr", scalar(r, addr))
		}
		d.want.Listeners[name] = &config.Listener{Addr: addr}
	}
	flush("listeners")

	line(0, "upstreams", "")
	for i := r.Range(1, 4); i > 0; i-- {
		u := &config.Upstream{Name: core.Pick(r, "svc", "my service", "x:y", ""), Addr: upURL + core.Pick(r, "", "/base"), Path: core.Pick(r, "/", "/a", "/a/b", "/news/{id:[0-9]+}")}
		fmt.Fprintf(&b, "%s- name: %s\n%s  addr: %s\n%s  path: %s\n", ind, scalar(r, u.Name), ind, scalar(r, u.Addr), ind, scalar(r, u.Path))
		d.want.Upstreams = append(d.want.Upstreams, u)
	}
	flush("upstreams")

	d.want.API = &config.API{}
	api := d.want.API
	line(0, "api", "")
	api.Port = r.Range(1, 65535)
	line(1, "port", fmt.Sprint(api.Port))
	opt(0.5, func() { api.Prefix = core.Pick(r, "/kc", "kc", "/a/b/"); line(1, "prefix", scalar(r, api.Prefix)) })
	opt(0.5, func() {
		api.ACL = core.Pick(r, "127.0.0.1", "10.0.0.0/8, 127.0.0.1", "::1,127.0.0.1")
		line(1, "acl", scalar(r, api.ACL))
	})
	opt(0.3, func() { v, s := boolean(); api.Debug = v; line(1, "debug", s) })
	flush("api")

	d.want.Provider = &provider.ProviderBackendConfig{}
	p := d.want.Provider
	line(0, "provider", "")
	p.Backend = "inmemory"
	if r.P(0.3) {
		p.Backend = "redis"
	}
	line(1, "backend", scalar(r, p.Backend))
	opt(0.5, func() { v, s := boolean(); p.Layered = v; line(1, "layered", s) })
	opt(0.4, func() {
		p.LayeredTTL = core.Pick(r, "30s", "2m", "150ms")
		line(1, "layered_ttl", scalar(r, p.LayeredTTL))
	})
	opt(0.6, func() {
		line(1, "inmemory", "")
		small := r.P(0.5)
		p.InMemory.MaxSize = uint64(core.Pick(r, 1<<28, 1_000_000_000, 5_000_000_000))
		if small {
			p.InMemory.MaxSize = uint64(r.Range(5000, 100000))
		}
		line(2, "max_size", fmt.Sprint(p.InMemory.MaxSize))
		opt(map[bool]float64{false: 0.7, true: 1}[small], func() {
			p.InMemory.MaxItemSize = uint64(r.Range(1, 1<<27))
			if small {
				p.InMemory.MaxItemSize = uint64(r.Range(1000, 5000))
			}
			line(2, "max_item_size", fmt.Sprint(p.InMemory.MaxItemSize))
		})
		opt(0.5, func() {
			p.InMemory.DefaultTTL = core.Pick(r, "120s", "-1", "1h")
			line(2, "default_ttl", scalar(r, p.InMemory.DefaultTTL))
		})
	})
	if p.Backend == "redis" {
		line(1, "redis", "")
		p.Redis.Endpoint = redisAddr
		auth := r.P(0.3)
		if auth {
			p.Redis.Endpoint = authAddr
			p.Redis.Username, p.Redis.Password = "kache user", "p: #w'\""
			line(2, "username", scalar(r, p.Redis.Username))
			line(2, "password", scalar(r, p.Redis.Password))
		} else {
			opt(0.3, func() { line(2, "username", "") })
			opt(0.3, func() { line(2, "password", "") })
		}
		line(2, "endpoint", scalar(r, p.Redis.Endpoint))
		opt(0.4, func() { p.Redis.DB = r.Range(0, 5); line(2, "db", fmt.Sprint(p.Redis.DB)) })
		opt(0.5, func() {
			p.Redis.MaxItemSize = r.Range(0, 1<<20)
			if r.P(0.5) {
				p.Redis.MaxItemSize = r.Range(3000, 20000)
			}
			line(2, "max_item_size", fmt.Sprint(p.Redis.MaxItemSize))
		})
		p.Redis.MaxQueueConcurrency = r.Range(1, 6)
		line(2, "max_queue_concurrency", fmt.Sprint(p.Redis.MaxQueueConcurrency))
		opt(0.6, func() {
			p.Redis.MaxQueueBufferSize = r.Range(0, 1000)
			line(2, "max_queue_buffer_size", fmt.Sprint(p.Redis.MaxQueueBufferSize))
		})
	}
	flush("provider")

	d.want.HttpCache = &cache.HttpCacheConfig{Strict: true}
	hc := d.want.HttpCache
	opt(0.7, func() {
		line(0, "cache", "")
		n := b.Len()
		opt(0.4, func() { v, s := boolean(); hc.Strict = v; line(1, "strict", s) })
		opt(0.4, func() { v, s := boolean(); hc.XCache = v; line(1, "x_header", s) })
		opt(0.4, func() {
			hc.XCacheName = core.Pick(r, "x-kache", "X-Dbg")
			line(1, "x_header_name", scalar(r, hc.XCacheName))
		})
		opt(0.4, func() { hc.DefaultTTL = core.Pick(r, "10s", "1200s"); line(1, "default_ttl", scalar(r, hc.DefaultTTL)) })
		opt(0.4, func() {
			hc.DefaultCacheControl = core.Pick(r, "max-age=120", "no-store")
			line(1, "default_cache_control", scalar(r, hc.DefaultCacheControl))
		})
		opt(0.3, func() { v, s := boolean(); hc.ForceCacheControl = v; line(1, "force_cache_control", s) })
		opt(0.4, func() {
			line(1, "timeouts", "")
			for i := r.Range(1, 3); i > 0; i-- {
				t := cache.Timeout{Path: core.Pick(r, "/news", "^/assets/([a-z0-9].*).css"), TTL: time.Duration(r.Range(1, 5000)) * time.Second}
				fmt.Fprintf(&b, "%s- path: %s\n%s  ttl: %s\n", ind+ind, scalar(r, t.Path), ind+ind, scalar(r, t.TTL.String()))
				hc.Timeouts = append(hc.Timeouts, t)
			}
		})
		opt(0.4, func() {
			hc.Exclude = &cache.Exclude{}
			line(1, "exclude", "")
			n := b.Len()
			opt(0.6, func() {
				hc.Exclude.Path = []string{"^/admin", "^/.well-known/(.*)"}[:r.Range(1, 2)]
				line(2, "path", "")
				for _, p := range hc.Exclude.Path {
					fmt.Fprintf(&b, "%s- %s\n", ind+ind+ind, scalar(r, p))
				}
			})
			opt(0.6, func() {
				hc.Exclude.Header = map[string]string{"x_requested_with": "XMLHttpRequest"}
				line(2, "header", "")
				line(3, "x_requested_with", scalar(r, "XMLHttpRequest"))
			})
			opt(0.6, func() {
				ct := cache.Content{Type: "text/javascript|text/css|image/.*"}
				fmt.Fprintf(&b, "%scontent:\n%s- type: %s\n", ind+ind, ind+ind+ind, scalar(r, ct.Type))
				if r.P(0.5) {
					ct.Size = r.Range(1, 1<<20)
					fmt.Fprintf(&b, "%s  size: %d\n", ind+ind+ind, ct.Size)
				}
				hc.Exclude.Content = []cache.Content{ct}
			})
			if b.Len() == n { // an empty section stands for none
				hc.Exclude = nil
			}
		})
		if b.Len() == n {
			d.want.HttpCache = nil // explicitly nothing; the cache must fall back to the defaults
			if r.P(0.5) {
				b.Reset()
				d.want.HttpCache = &cache.HttpCacheConfig{Strict: true}
				return
			}
		}
		flush("cache")
	})
	b.Reset()
	opt(0.4, func() {
		d.want.Log = &config.Log{Level: "error"}
		line(0, "logging", "")
		line(1, "level", scalar(r, "error"))
		opt(0.5, func() { v, s := boolean(); d.want.Log.Color = v; line(1, "color", s) })
		opt(0.5, func() { d.want.Log.Format = "json"; line(1, "format", scalar(r, "json")) })
		opt(0.5, func() { d.want.Log.MaxSize = 500; line(1, "max_size", "500 # megabytes") })
		flush("logging")
	})
	r.Shuffle(len(d.order), func(i, j int) { d.order[i], d.order[j] = d.order[j], d.order[i] })
	return d
}

// tryStart loads the file and sets up the node; it recovers panics of the code under test.
func tryStart(path string) (k *kache.Kache, ldr *config.Loader, stage string, err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			stage, err = "panic", fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	stage = "load"
	if ldr, err = config.NewLoader(path, false, time.Hour); err != nil {
		return
	}
	stage = "validate"
	if err = ldr.Config().Validate(); err != nil {
		return
	}
	stage = "init"
	k, err = kache.New(ldr, prometheus.NewRegistry())
	return
}

func stopNode(k *kache.Kache, started ...func()) {
	if k == nil || k.Server == nil {
		return
	}
	ctx, cancel := context.WithCancel(bg)
	k.Server.Start(ctx)
	for _, f := range started {
		f()
	}
	cancel()
	k.Server.Await()
}

func TestC31(t *testing.T) {
	c := core.New(t, "C31")
	mr, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	defer mr.Close()
	locked, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	defer locked.Close()
	locked.RequireUserAuth("kache user", "p: #w'\"")
	hits := map[string]int{}
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		hits[r.URL.Path]++
		w.Header().Set("Cache-Control", "no-store")
		_, _ = fmt.Fprint(w, "x")
	}))
	defer up.Close()
	busy, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer busy.Close()
	dir := t.TempDir()
	file := filepath.Join(dir, "kache.yml")
	js := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	_ = os.Unsetenv("KUBERNETES_SERVICE_HOST")
	t.Setenv("HOME", dir) // no kube config there

	cases := core.N(1800, 12000)
	for i := 0; i < cases && !c.Stopped(); i++ {
		r := c.Rand("cfg", i)
		d := genConfig(r, i, up.URL, mr.Addr(), locked.Addr())
		usable := r.P(0.45)
		what := ""
		txt := d.text()
		if !usable {
			del := func(name string) string {
				var b strings.Builder
				for _, s := range d.order {
					if s != name {
						b.WriteString(d.sections[s])
					}
				}
				return b.String()
			}
			with := func(name, s string) string { return del(name) + s }
			muts := []func() string{
				func() string { what = "no listeners"; return del("listeners") },
				func() string { what = "no upstreams"; return del("upstreams") },
				func() string { what = "no provider"; return del("provider") },
				func() string { what = "no api"; return del("api") },
				func() string { what = "empty listeners"; return with("listeners", "listeners:\n") },
				func() string { what = "empty map of listeners"; return with("listeners", "listeners: {}\n") },
				func() string { what = "empty upstreams"; return with("upstreams", "upstreams: []\n") },
				func() string { what = "null upstreams"; return with("upstreams", "upstreams: null\n") },
				func() string { what = "empty provider"; return with("provider", "provider:\n") },
				func() string { what = "empty api"; return with("api", "api: ~\n") },
				func() string { what = "null listener"; return with("listeners", "listeners:\n  web:\n") },
				func() string {
					what = "null upstream"
					return with("upstreams", "upstreams:\n  - name: a\n    addr: \""+up.URL+"\"\n    path: /a\n  -\n")
				},
				func() string {
					what = "bad listener address"
					return with("listeners", "listeners: {w: {addr: nonsense}}\n")
				},
				func() string {
					what = "port out of range"
					return with("listeners", "listeners: {w: {addr: \"127.0.0.1:70000\"}}\n")
				},
				func() string {
					what = "address in use"
					return with("listeners", "listeners: {w: {addr: \""+busy.Addr().String()+"\"}}\n")
				},
				func() string {
					what = "unparsable upstream address"
					return with("upstreams", "upstreams: [{name: a, addr: \"http://a b:x\", path: /}]\n")
				},
				func() string {
					what = "upstream address without scheme"
					return with("upstreams", "upstreams: [{name: a, addr: \"localhost:8000\", path: /}]\n")
				},
				func() string {
					what = "upstream without address"
					return with("upstreams", "upstreams: [{name: a, path: /}]\n")
				},
				func() string {
					what = "upstream path without slash"
					return with("upstreams", "upstreams: [{name: a, addr: \""+up.URL+"\", path: \"a\"}]\n")
				},
				func() string {
					what = "broken upstream path"
					return with("upstreams", "upstreams: [{name: a, addr: \""+up.URL+"\", path: \"/a/{x\"}]\n")
				},
				func() string { what = "unknown backend"; return with("provider", "provider: {backend: memcached}\n") },
				func() string { what = "no backend"; return with("provider", "provider: {layered: true}\n") },
				func() string {
					what = "redis without endpoint"
					return with("provider", "provider: {backend: redis, redis: {max_queue_concurrency: 3}}\n")
				},
				func() string {
					what = "redis unreachable"
					return with("provider", "provider: {backend: redis, redis: {endpoint: \"127.0.0.1:1\", max_queue_concurrency: 3}}\n")
				},
				func() string {
					what = "redis without workers"
					return with("provider", "provider: {backend: redis, redis: {endpoint: \""+mr.Addr()+"\"}}\n")
				},
				func() string {
					what = "redis with a negative queue"
					return with("provider", "provider: {backend: redis, redis: {endpoint: \""+mr.Addr()+"\", max_queue_concurrency: 3, max_queue_buffer_size: -1}}\n")
				},
				func() string {
					what = "item larger than cache"
					return with("provider", "provider: {backend: inmemory, inmemory: {max_size: 10, max_item_size: 11}}\n")
				},
				func() string {
					what = "negative size"
					return with("provider", "provider: {backend: inmemory, inmemory: {max_size: -10}}\n")
				},
				func() string {
					what = "upstream address without host"
					return with("upstreams", "upstreams: [{name: a, addr: \"http://\", path: /}]\n")
				},
				func() string {
					what = "upstream address with a path only"
					return with("upstreams", "upstreams: [{name: a, addr: \"http:///x\", path: /}]\n")
				},
				func() string {
					what = "upstream of another scheme"
					return with("upstreams", "upstreams: [{name: a, addr: \"ftp://localhost:8000\", path: /}]\n")
				},
				func() string {
					what = "second upstream unusable"
					return with("upstreams", "upstreams: [{name: a, addr: \""+up.URL+"\", path: /}, {name: b, addr: \"localhost\", path: /b}]\n")
				},
				func() string {
					what = "second listener unusable"
					return with("listeners", "listeners: {w: {addr: \"127.0.0.1:0\"}, z: {addr: \""+busy.Addr().String()+"\"}}\n")
				},
				func() string {
					what = "redis with a wrong password"
					return with("provider", "provider: {backend: redis, redis: {endpoint: \""+locked.Addr()+"\", username: \"kache user\", password: x, max_queue_concurrency: 3}}\n")
				},
				func() string {
					what = "layered with an item larger than cache"
					return with("provider", "provider: {backend: redis, layered: true, redis: {endpoint: \""+mr.Addr()+"\", max_queue_concurrency: 3}, inmemory: {max_size: 10, max_item_size: 11}}\n")
				},
				func() string { what = "bad access list"; return with("api", "api: {port: 1, acl: \"10.0.0\"}\n") },
				func() string { what = "unknown discovery"; return txt + "cluster: {discovery: zookeeper}\n" },
				func() string {
					what = "no kubernetes"
					return txt + "cluster: {discovery: kubernetes, namespace: n, service: s}\n"
				},
				func() string { what = "unknown section"; return txt + "extra: 1\n" },
				func() string {
					what = "unknown key in api"
					return strings.Replace(txt, "api:\n", "api:\n"+firstIndent(d.sections["api"])+"prot: 1\n", 1)
				},
				func() string {
					what = "unknown key in provider"
					return strings.Replace(txt, "provider:\n", "provider:\n"+firstIndent(d.sections["provider"])+"layred: true\n", 1)
				},
				func() string { what = "unknown key in cache"; return with("cache", "cache: {strikt: false}\n") },
				func() string {
					what = "unknown key in exclude"
					return with("cache", "cache: {exclude: {paths: [a]}}\n")
				},
				func() string { what = "duplicate section"; return txt + d.sections["listeners"] },
				func() string { what = "port not a number"; return with("api", "api: {port: http}\n") },
				func() string { what = "strict not a boolean"; return with("cache", "cache: {strict: sometimes}\n") },
				func() string {
					what = "bad duration"
					return with("cache", "cache: {timeouts: [{path: a, ttl: soon}]}\n")
				},
				func() string { what = "timeouts not a list"; return with("cache", "cache: {timeouts: 5s}\n") },
				func() string { what = "broken yaml"; return txt + "cache: [1\n" },
				func() string { what = "tab"; return txt + "\tx: 1\n" },
				func() string { what = "binary"; return "\x00\x01\x02" + txt },
				func() string { what = "empty file"; return "" },
				func() string { what = "only remarks"; return "# nothing\n" },
				func() string { what = "scalar"; return "kache\n" },
				func() string { what = "list"; return "- a\n- b\n" },
				func() string {
					what = "cut"
					last := len(txt) - len(d.sections[lastRequired(d)])
					for _, s := range d.order[indexOf(d.order, lastRequired(d))+1:] {
						last -= len(d.sections[s])
					}
					return txt[:r.Intn(last+1)]
				},
			}
			txt = core.Pick(r, muts...)()
		}
		if err := os.WriteFile(file, []byte(txt), 0o600); err != nil {
			t.Fatal(err)
		}
		k, ldr, stage, err := tryStart(file)
		hist := append([]string{"what: " + what, fmt.Sprintf("ended in %s with %v", stage, err)}, strings.Split(txt, "\n")...)
		if stage == "panic" {
			c.Violate("config-crash:"+what, hist, "configuration (%s) crashes the start: %.300v", what, err)
			continue
		}
		if !usable {
			c.Count("unusable", 1)
			c.Eval("unusable:" + what + fmt.Sprint(i%3))
			if err == nil {
				c.Violate("unusable-accepted:"+what, hist, "unusable configuration (%s) is accepted", what)
				stopNode(k)
			}
			continue
		}
		c.Count("usable", 1)
		c.Eval(txt)
		if err != nil {
			c.Violate("usable-refused", hist, "usable configuration is refused in %s: %v", stage, err)
			continue
		}
		got := ldr.Config()
		if js(got) != js(&d.want) {
			c.Violate("value-lost", append(hist, "loaded "+js(got), "wanted "+js(&d.want)), "the loaded configuration differs from the file")
		}
		for name, f := range map[string][2]any{"inmemory": {got.Provider.InMemory, d.want.Provider.InMemory}, "redis": {got.Provider.Redis, d.want.Provider.Redis}, "cluster": {got.Cluster, d.want.Cluster}} {
			if js(f[0]) != js(f[1]) {
				c.Violate("value-lost", hist, "section %s is %s, the file says %s", name, js(f[0]), js(f[1]))
			}
		}
		// what is in force
		wantHC := d.want.HttpCache
		if wantHC == nil {
			wantHC = &cache.HttpCacheConfig{Strict: true}
		}
		if js(k.Cache.Config()) != js(wantHC) {
			c.Violate("not-in-force", hist, "cache configuration in force is %s instead of %s", js(k.Cache.Config()), js(wantHC))
		}
		pf := "/api"
		if p := d.want.API.Prefix; p != "" {
			pf = "/" + strings.Trim(p, "/")
		}
		ask := func(remote string) int {
			req := httptest.NewRequest("GET", pf+"/cache/keys", nil)
			req.RemoteAddr = remote
			rr := httptest.NewRecorder()
			k.API.ServeHTTP(rr, req)
			return rr.Code
		}
		if code := ask("127.0.0.1:9"); code != 200 {
			c.Violate("api-prefix", hist, "API does not answer below %s: %d", pf, code)
		}
		if code := ask("198.51.100.1:9"); (code == 200) != (d.want.API.ACL == "") {
			c.Violate("api-acl", hist, "unlisted client got %d with access list %q", code, d.want.API.ACL)
		}
		// strict unless the file says otherwise: an unstorable answer is fetched every time
		forced := wantHC.DefaultCacheControl != "" && wantHC.ForceCacheControl
		if wantHC.Strict && !forced {
			p := fmt.Sprintf("/a/b/s%d", i)
			seen := 0
			for j := 0; j < 2; j++ {
				rr := httptest.NewRecorder()
				k.Server.ServeHTTP(rr, httptest.NewRequest("GET", p, nil))
				if rr.Code == 503 {
					seen = -1
					break
				}
			}
			if seen == 0 {
				if n := hits[p] + hits["/base"+p]; n != 2 {
					c.Violate("default-not-strict", hist, "strict mode is in force, yet a no-store answer was reused (upstream asked %d times)", n)
				}
				c.Count("strict_checked", 1)
			}
		}
		// the provider behaves as configured
		store := mr
		if d.want.Provider.Redis.Username != "" {
			store = locked
		}
		providerInForce(c, hist, *k.Provider, *d.want.Provider, store, i)
		if i < 12 {
			c.Sample(strings.Split(txt, "\n"))
		}
		stopNode(k, func() { // all listeners serve
			if i%3 != 0 {
				return
			}
			for name, l := range d.want.Listeners {
				a := rawDo(l.Addr, []byte("GET /a/b/listen HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"), "GET", 10*time.Second)
				if a.err != nil || a.status != 200 && a.status != 503 {
					c.Violate("listener-dead", hist, "listener %s at %s answers %d, %v", name, l.Addr, a.status, a.err)
				}
				c.Count("listeners_serving", 1)
			}
		})
	}
	// not a readable file
	for _, p := range []string{filepath.Join(dir, "missing.yml"), dir} {
		if _, _, stage, err := tryStart(p); err == nil || stage == "panic" {
			c.Violate("unreadable", nil, "start with the unreadable %s: %s %v", p, stage, err)
		}
	}
	_ = cluster.Config{}
	c.Done("random usable configurations in varying YAML style (all values compared, and what is in force observed) and about fifty kinds of unusable ones; a case counts always",
		"usable", "unusable", "strict_checked", "listeners_serving", "max_size_in_force", "max_item_size_in_force", "local_tier", "no_local_tier", "redis_db", "redis_max_item_size", "layered_ttl_in_force")
}

// providerInForce observes that the provider follows its configuration.
func providerInForce(c *core.Check, hist []string, p provider.Provider, cfg provider.ProviderBackendConfig, mr *miniredis.Miniredis, id int) {
	bad := func(sig, f string, a ...any) { c.Violate("provider-not-as-configured:"+sig, hist, f, a...) }
	key := fmt.Sprintf("kache-conf%d", id)
	mem := cfg.InMemory
	small := mem.MaxSize > 0 && mem.MaxSize < 1<<20
	if cfg.Backend == "inmemory" {
		p.Set(key, []byte("x"), time.Hour)
		if string(p.Get(bg, key)) != "x" {
			bad("memory", "an entry is not stored")
		}
		if small {
			p.Set(key, make([]byte, mem.MaxItemSize+1), time.Hour)
			if p.Get(bg, key) != nil {
				bad("max_item_size", "an entry above max_item_size %d is stored", mem.MaxItemSize)
			}
			p.Set(key, make([]byte, mem.MaxItemSize-100), time.Hour)
			if p.Get(bg, key) == nil {
				bad("max_item_size", "an entry below max_item_size %d is not stored", mem.MaxItemSize)
			}
			c.Count("max_item_size_in_force", 1)
			fill(c, bad, p, mem, key)
		}
		return
	}
	db := mr.DB(cfg.Redis.DB)
	defer db.FlushDB()
	// writes may be dropped while the queue is full
	stored := func(k string, v []byte, want func() bool) bool {
		p.Set(k, v, time.Hour)
		n := 0
		return waitFor(5*time.Second, func() bool {
			if want() {
				return true
			}
			if n++; n%20 == 0 {
				p.Set(k, v, time.Hour)
			}
			return false
		})
	}
	if !stored(key, []byte("x"), func() bool { return db.Exists(key) }) {
		bad("db", "an entry does not reach database %d", cfg.Redis.DB)
		return
	}
	c.Count("redis_db", 1)
	if n := cfg.Redis.MaxItemSize; n > 0 {
		_ = db.Set(key+"big", "old")
		if !stored(key+"fits", make([]byte, n), func() bool { return db.Exists(key + "fits") }) {
			bad("redis max_item_size", "an entry of exactly max_item_size %d is not stored", n)
		}
		if !stored(key+"big", make([]byte, n+1), func() bool { return !db.Exists(key + "big") }) {
			bad("redis max_item_size", "an entry above max_item_size %d is stored", n)
		}
		c.Count("redis_max_item_size", 1)
	}
	// with a local tier, an entry read once outlives its removal behind kache's back
	_ = db.Set(key+"t", "tier")
	if string(p.Get(bg, key+"t")) != "tier" {
		bad("remote", "an entry in redis is not found")
	}
	db.Del(key + "t")
	local := p.Get(bg, key+"t") != nil
	if cfg.Layered && !local && cfg.LayeredTTL != "150ms" {
		bad("layered", "the local tier is configured but does not hold an entry just read")
	}
	if !cfg.Layered && local {
		bad("layered", "there is a local tier, though not configured")
	}
	if !cfg.Layered {
		c.Count("no_local_tier", 1)
		return
	}
	c.Count("local_tier", 1)
	if cfg.LayeredTTL == "150ms" && mem.DefaultTTL != "-1" {
		time.Sleep(160 * time.Millisecond)
		if p.Get(bg, key+"t") != nil {
			bad("layered_ttl", "the local tier holds an entry for more than its layered_ttl of 150 ms")
		}
		c.Count("layered_ttl_in_force", 1)
	}
	if small {
		_ = db.Set(key+"l", strings.Repeat("l", int(mem.MaxItemSize)+1))
		_ = p.Get(bg, key+"l")
		db.Del(key + "l")
		if p.Get(bg, key+"l") != nil {
			bad("max_item_size", "an entry above max_item_size %d is held in the local tier", mem.MaxItemSize)
		}
		c.Count("max_item_size_in_force", 1)
	}
}

// fill stores more than fits and measures what is kept.
func fill(c *core.Check, bad func(sig, f string, a ...any), p provider.Provider, mem provider.InMemoryCacheConfig, key string) {
	each := int(mem.MaxItemSize) / 2
	n := 3*int(mem.MaxSize)/each + 1
	for i := 0; i < n; i++ {
		p.Set(fmt.Sprint(key, "-", i), make([]byte, each), time.Hour)
	}
	kept := 0
	for i := 0; i < n; i++ {
		if p.Get(bg, fmt.Sprint(key, "-", i)) != nil {
			kept++
		}
	}
	if kept*each > int(mem.MaxSize) {
		bad("max_size", "%d entries of %d bytes are kept, max_size is %d", kept, each, mem.MaxSize)
	}
	if (kept+3)*(each+200) < int(mem.MaxSize) {
		bad("max_size", "only %d entries of %d bytes are kept, max_size is %d", kept, each, mem.MaxSize)
	}
	c.Count("max_size_in_force", 1)
}

func firstIndent(s string) string {
	_, rest, _ := strings.Cut(s, "\n")
	for strings.HasPrefix(rest, "#") || strings.HasPrefix(rest, "\n") {
		_, rest, _ = strings.Cut(rest, "\n")
	}
	return rest[:len(rest)-len(strings.TrimLeft(rest, " "))]
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// lastRequired is the last section of the text that no configuration may lack.
func lastRequired(d *yamlDoc) string {
	for i := len(d.order) - 1; i >= 0; i-- {
		switch d.order[i] {
		case "listeners", "upstreams", "provider", "api":
			return d.order[i]
		}
	}
	return ""
}
