//go:build go1.25

package srv

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// TestC30 hammers the configuration in force while it is being replaced.
func TestC30(t *testing.T) {
	c := core.New(t, "C30")
	rounds := core.N(4, 40)
	for ri := 0; ri < rounds && !c.Stopped(); ri++ {
		r := c.Rand("round", ri)
		mk := func(g int) *cache.HttpCacheConfig {
			hc := &cache.HttpCacheConfig{Strict: true, XCache: true, XCacheName: fmt.Sprint("X-G-", g), DefaultTTL: fmt.Sprintf("%ds", 10+g),
				DefaultCacheControl: fmt.Sprintf("max-age=%d", 10+g), ForceCacheControl: true, Exclude: &cache.Exclude{Header: map[string]string{"x_skip": "1"}}}
			pad := r.Range(0, 60)
			for i := 0; i < pad; i++ {
				hc.Exclude.Path = append(hc.Exclude.Path, fmt.Sprintf("^/pad/%d/%d/([a-z0-9]{1,30})+x$", g, i))
				hc.Timeouts = append(hc.Timeouts, cache.Timeout{Path: fmt.Sprintf("^/pad/%d/%d/([a-z]{1,20})+", g, i), TTL: time.Second})
			}
			hc.Exclude.Path = append(hc.Exclude.Path, "^/never")
			hc.Timeouts = append(hc.Timeouts, cache.Timeout{Path: "^/t", TTL: 5 * time.Second})
			hc.Exclude.Content = append(hc.Exclude.Content, cache.Content{Type: "image/.*", Size: 100})
			return hc
		}
		cfgs := []*cache.HttpCacheConfig{mk(0), mk(1)}
		j0, _ := json.Marshal(cfgs[0])
		j1, _ := json.Marshal(cfgs[1])
		n := mustNode(t, config.Upstreams{{Name: "u", Addr: "http://127.0.0.1:1", Path: "/"}}, cfgs[0], nil, nil)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		seen := [2]int{}
		var mu sync.Mutex
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				local := [2]int{}
				for {
					select {
					case <-stop:
						mu.Lock()
						seen[0] += local[0]
						seen[1] += local[1]
						mu.Unlock()
						return
					default:
					}
					bad := ""
					h := n.cache.XCacheHeader()
					switch {
					case !n.cache.Strict():
						bad = "strict mode is off"
					case !n.cache.MarkCachedResponses():
						bad = "debug header is off"
					case h != "X-G-0" && h != "X-G-1":
						bad = "debug header is " + h
					case !n.cache.IsExcludedPath("/never/1"):
						bad = "an excluded path is not excluded"
					case n.cache.IsExcludedPath("/some"):
						bad = "a path is excluded that never is"
					case !n.cache.IsExcludedHeader(http.Header{"X-Skip": {"1"}}):
						bad = "an excluded field is not excluded"
					case !n.cache.IsExcludedContent("image/png", 101) || n.cache.IsExcludedContent("image/png", 100):
						bad = "content limit is not in force"
					case n.cache.PathTTL("/t/1") != 5*time.Second:
						bad = fmt.Sprint("ttl of /t is ", n.cache.PathTTL("/t/1"))
					case !n.cache.ForceCacheControl():
						bad = "force_cache_control is off"
					}
					if d := n.cache.PathTTL("/other"); d != 10*time.Second && d != 11*time.Second {
						bad = fmt.Sprint("default ttl is ", d)
					}
					if v := n.cache.DefaultCacheControl(); v != "max-age=10" && v != "max-age=11" {
						bad = "default cache control is " + v
					}
					if js, _ := json.Marshal(n.cache.Config()); string(js) != string(j0) && string(js) != string(j1) {
						bad = "configuration is neither the old nor the new one: " + string(js)
					} else if string(js) == string(j0) {
						local[0]++
					} else {
						local[1]++
					}
					if bad != "" {
						c.Violate("mixed-config", nil, "while replacing one configuration by another: %s", bad)
						return
					}
				}
			}()
		}
		updates := 0
		for end := time.Now().Add(time.Duration(core.N(250, 1000)) * time.Millisecond); time.Now().Before(end); updates++ {
			n.cache.UpdateConfig(cfgs[updates%2])
			if updates%16 == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
		close(stop)
		wg.Wait()
		c.Count("updates", updates)
		c.Count("samples_old_or_new", seen[0]+seen[1])
		if seen[0] > 0 && seen[1] > 0 {
			c.Count("rounds_with_both_seen", 1)
			c.Eval(fmt.Sprint("stress", ri))
		} else {
			c.Eval("")
		}
	}

	// the loader under concurrent loads of a changing file
	for ri := 0; ri < core.N(3, 20) && !c.Stopped(); ri++ {
		r := c.Rand("loader", ri)
		dir := t.TempDir()
		file := filepath.Join(dir, "k.yml")
		text := func(g int) string {
			return fmt.Sprintf("listeners:\n  w: {addr: \"127.0.0.1:0\"}\ncache:\n  strict: true\n  x_header_name: G%d\n  default_cache_control: V%d\n# %s\nupstreams:\n  - {name: n%d, addr: \"http://127.0.0.1:1\", path: /}\nprovider: {backend: inmemory}\napi: {port: 1}\n",
				g, g, strings.Repeat("x", r.Intn(5000)), g)
		}
		texts := []string{text(0), text(1), text(2)}
		_ = os.WriteFile(file, []byte(texts[0]), 0o600)
		ldr, err := config.NewLoader(file, false, time.Hour)
		if err != nil {
			t.Fatal(err)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					_, _ = ldr.Load(bg)
					cfg := ldr.Config()
					if cfg == nil || cfg.HttpCache == nil || len(cfg.Upstreams) != 1 || cfg.API == nil {
						c.Violate("partial-config", nil, "a partial configuration is in force")
						return
					}
					g := strings.TrimPrefix(cfg.HttpCache.XCacheName, "G")
					if cfg.HttpCache.DefaultCacheControl != "V"+g || cfg.Upstreams[0].Name != "n"+g {
						c.Violate("mixed-config", nil, "loaded configuration mixes generations: %s %s %s", cfg.HttpCache.XCacheName, cfg.HttpCache.DefaultCacheControl, cfg.Upstreams[0].Name)
						return
					}
				}
			}()
		}
		for k := 0; k < 60; k++ {
			g := r.Intn(3)
			switch r.Intn(4) {
			case 0:
				_ = os.WriteFile(file, []byte(texts[g][:strings.Index(texts[g], "provider")]), 0o600)
				c.Count("partial_files", 1)
			case 1:
				_ = os.Remove(file)
			}
			_ = os.WriteFile(file, []byte(texts[g]), 0o600) // not atomic, the loader may see a part of it
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			c.Count("file_changes", 1)
			if k%5 == 4 {
				if _, err := ldr.Load(bg); err != nil || ldr.Config().HttpCache.XCacheName != fmt.Sprint("G", g) {
					c.Violate("not-picked-up", nil, "after a load of the unchanged file the configuration is %s instead of G%d (%v)", ldr.Config().HttpCache.XCacheName, g, err)
				}
				c.Eval(fmt.Sprint("loader", ri, k, g))
			}
		}
		close(stop)
		wg.Wait()
	}
	// many configurations in one process: each change is picked up
	{
		dir := t.TempDir()
		file := filepath.Join(dir, "k.yml")
		text := func(g int) string {
			pad := 0 // long files which differ at their end
			if g/7%4 == 1 {
				pad = 1000
			} else if g/7%40 == 2 {
				pad = 20000
			}
			return strings.Repeat("# pad\n", pad) + fmt.Sprintf("cache: {strict: true, x_header_name: G%d}\nupstreams:\n  - {name: u, addr: \"http://127.0.0.1:1\", path: /}\nprovider: {backend: inmemory}\nlisteners:\n  w: {addr: \"127.0.0.1:0\"}\napi: {port: 1}\n", g)
		}
		_ = os.WriteFile(file, []byte(text(0)), 0o600)
		ldr, err := config.NewLoader(file, false, time.Hour)
		if err != nil {
			t.Fatal(err)
		}
		r := c.Rand("many", 0)
		cur := 0
		for k := 1; k <= core.N(4000, 40000) && !c.Stopped(); k++ {
			g := k
			if r.P(0.1) {
				g = r.Intn(k)
			}
			_ = os.WriteFile(file, []byte(text(g)), 0o600)
			changed, err := ldr.Load(bg)
			if got := ldr.Config().HttpCache.XCacheName; err != nil || got != fmt.Sprint("G", g) || changed != (g != cur) {
				c.Violate("not-picked-up", []string{fmt.Sprintf("configuration %d was in force, the file now holds %d", cur, g)}, "after a load %s is in force (changed=%v, err=%v)", got, changed, err)
				break
			}
			cur = g
			c.Count("loads", 1)
		}
		c.Eval("many")
	}
	leftovers(t, c)
	// a watcher with a slow consumer: the last change is always noticed in the end
	for ri := 0; ri < core.N(6, 40) && !c.Stopped(); ri++ {
		r := c.Rand("watch", ri)
		dir := t.TempDir()
		file := filepath.Join(dir, "k.yml")
		text := func(g int) string {
			return fmt.Sprintf("cache: {strict: true, x_header_name: G%d}\nupstreams:\n  - {name: u, addr: \"http://127.0.0.1:1\", path: /}\nprovider: {backend: inmemory}\nlisteners:\n  w: {addr: \"127.0.0.1:0\"}\napi: {port: 1}\n", g)
		}
		write := func(s string) {
			_ = os.WriteFile(file+".new", []byte(s), 0o600)
			_ = os.Rename(file+".new", file)
		}
		write(text(0))
		ldr, err := config.NewLoader(file, true, time.Duration(r.Range(1, 4))*time.Millisecond)
		if err != nil {
			t.Fatal(err)
		}
		ctx, cancel := context.WithCancel(bg)
		if err := ldr.Watch(ctx); err != nil {
			t.Fatal(err)
		}
		var mu sync.Mutex
		applied := "G0"
		done := make(chan struct{})
		go func() { // as the server does: take what is loaded when told
			defer close(done)
			rr := c.Rand("watch-consumer", ri)
			for {
				select {
				case <-ldr.Events:
					time.Sleep(time.Duration(rr.Intn(15)) * time.Millisecond)
					mu.Lock()
					applied = ldr.Config().HttpCache.XCacheName
					mu.Unlock()
					time.Sleep(time.Duration(rr.Intn(15)) * time.Millisecond)
				case <-ctx.Done():
					return
				}
			}
		}()
		g := 0
		for k := 0; k < 12 && !c.Stopped(); k++ {
			for n := r.Range(1, 3); n > 0; n-- {
				g++
				if r.P(0.3) {
					write(core.Pick(r, "cache: [", "", "oops: 1\n"))
					time.Sleep(time.Duration(r.Intn(6)) * time.Millisecond)
					c.Count("bad_files_watched", 1)
				}
				write(text(g))
				time.Sleep(time.Duration(r.Intn(9)) * time.Millisecond)
			}
			if !waitFor(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return applied == fmt.Sprint("G", g) }) {
				mu.Lock()
				c.Violate("not-picked-up", nil, "the watched file holds configuration %d, but %s stays in force", g, applied)
				mu.Unlock()
				break
			}
			c.Count("watched_changes", 1)
		}
		cancel()
		ldr.Close()
		<-done
		c.Eval(fmt.Sprint("watch", ri))
	}
	c.Done("configurations replaced in a loop while readers check that every decision and the whole configuration belong to the old or the new one; a round counts if both were seen",
		"updates", "rounds_with_both_seen", "loads", "watched_changes", "file_changes", "partial_files", "sections")
}

// sections is a configuration whose optional settings are each there or not.
func sections(r *core.R, port int) (cacheText, rest string) {
	var b, d strings.Builder
	opt := func(to *strings.Builder, format string, vals ...string) {
		if r.P(.5) {
			fmt.Fprintf(to, format+"\n", core.Pick(r, vals...))
		}
	}
	opt(&b, "strict: %s", "true", "false")
	opt(&b, "x_header: %s", "true", "false")
	opt(&b, "x_header_name: %s", "X-A", "X-B")
	opt(&b, "default_ttl: %s", "5s", "77s", "0s", "soon")
	opt(&b, "default_cache_control: %s", "max-age=5", "no-store")
	opt(&b, "force_cache_control: %s", "true", "false")
	opt(&b, "timeouts: %s", "[]", "[{path: ^/t, ttl: 3s}]", "[{path: ^/u, ttl: 4s}, {path: \"(\", ttl: 1s}, {path: /t, ttl: 9s}]", "[{path: ^/u}]")
	if r.P(.6) {
		e := []string{}
		for _, s := range []string{core.Pick(r, "path: [^/p]", "path: [^/q, \"[\"]"), core.Pick(r, "header: {x_skip: a}", "header: {X-Skip: b, x_other: c}"), core.Pick(r, "content: [{type: text/.*, size: 10}]", "content: [{type: image/.*}, {type: \"[\", size: 1}]")} {
			if r.P(.5) {
				e = append(e, s)
			}
		}
		fmt.Fprintf(&b, "exclude: {%s}\n", strings.Join(e, ", "))
	}
	opt(&d, "logging: {%s}", "level: debug", "level: error, format: json", "file: /nowhere/x, max_age: 3, compress: true", "color: true")
	opt(&d, "cluster: {%s}", "discovery: kubernetes, namespace: a, service: b", "discovery: \"\", service: c", "namespace: x")
	fmt.Fprintf(&d, "provider: {backend: inmemory%s}\n", core.Pick(r, "", ", layered: true", ", layered_ttl: 5s", ", inmemory: {max_size: 5000}", ", inmemory: {max_item_size: 100, default_ttl: 3s}", ", redis: {endpoint: x, db: 3, password: y}"))
	fmt.Fprintf(&d, "api: {port: %d%s}\n", port, core.Pick(r, "", ", debug: true", ", prefix: /x", ", acl: 1.2.3.4", ", prefix: /y, acl: \"10.0.0.0/8\""))
	d.WriteString("listeners:\n")
	for k, n := 0, r.Range(1, 3); k < n; k++ {
		fmt.Fprintf(&d, "  w%d: {addr: \"127.0.0.1:%d\"}\n", r.Intn(5)*3+k, r.Intn(5))
	}
	d.WriteString("upstreams:\n")
	for k, n := 0, r.Range(1, 3); k < n; k++ {
		fmt.Fprintf(&d, "  - {name: u%d, addr: \"http://127.0.0.1:%d\"%s}\n", k, r.Range(1, 5), core.Pick(r, "", ", path: /", ", path: /a"))
	}
	return b.String(), d.String()
}

// decisions is what an http cache decides about a fixed set of questions.
func decisions(h *cache.HttpCache) string {
	var b strings.Builder
	fmt.Fprint(&b, h.Strict(), h.MarkCachedResponses(), h.XCacheHeader(), h.DefaultTTL(), h.DefaultCacheControl(), h.ForceCacheControl())
	for _, p := range []string{"/", "/t", "/t/1", "/u", "/p/1", "/q", "/x/t", "(", "[", ""} {
		fmt.Fprint(&b, " ", p, h.PathTTL(p), h.IsExcludedPath(p))
	}
	for _, k := range []string{"X-Skip", "X-Other"} {
		for _, v := range []string{"a", "b", "c", ""} {
			fmt.Fprint(&b, " ", k, v, h.IsExcludedHeader(http.Header{k: {v}}))
		}
	}
	for _, ct := range []string{"text/html", "image/png", "a/b", ""} {
		for _, n := range []int64{0, 1, 10, 11} {
			fmt.Fprint(&b, " ", ct, n, h.IsExcludedContent(ct, n))
		}
	}
	js, err := json.Marshal(h.Config())
	fmt.Fprintf(&b, " %s %v", js, err)
	return b.String()
}

// leftovers: a configuration which replaces another is in force as if it had been the first one.
func leftovers(t *testing.T, c *core.Check) {
	dir := t.TempDir()
	file, other := filepath.Join(dir, "k.yml"), filepath.Join(dir, "fresh.yml")
	var ldr *config.Loader
	var live *cache.HttpCache
	mk := func(hc *cache.HttpCacheConfig) *cache.HttpCache {
		p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
		if err != nil {
			t.Fatal(err)
		}
		if hc != nil { // the cache keeps what it compiles in there
			js, _ := json.Marshal(hc)
			hc = &cache.HttpCacheConfig{}
			_ = json.Unmarshal(js, hc)
		}
		h, err := cache.NewHttpCache(hc, p)
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	prev := ""
	for k := 0; k < core.N(1500, 20000) && !c.Stopped(); k++ {
		r := c.Rand("sections", k)
		ct, rest := sections(r, k+1)
		text := rest
		if ct != "" && r.P(.9) {
			text += "cache:\n  " + strings.ReplaceAll(strings.TrimSpace(ct), "\n", "\n  ") + "\n"
		}
		_ = os.WriteFile(file, []byte(text), 0o600)
		_ = os.WriteFile(other, []byte(text), 0o600)
		hist := []string{"before:", prev, "now:", text}
		fresh, err := config.NewLoader(other, false, time.Hour)
		if err != nil {
			c.Violate("good-refused", hist, "a good configuration is refused: %v", err)
			return
		}
		if ldr == nil {
			if ldr, err = config.NewLoader(file, false, time.Hour); err != nil {
				c.Violate("good-refused", hist, "a good configuration is refused: %v", err)
				return
			}
			live = mk(ldr.Config().HttpCache)
		} else {
			changed, err := ldr.Load(bg)
			if err != nil || changed != (text != prev) {
				c.Violate("not-picked-up", hist, "loading: changed=%v, %v", changed, err)
				return
			}
			live.UpdateConfig(ldr.Config().HttpCache)
		}
		prev = text
		want := decisions(mk(fresh.Config().HttpCache))
		a, _ := json.Marshal(ldr.Config())
		b, _ := json.Marshal(fresh.Config())
		if string(a) != string(b) {
			c.Violate("leftover", hist, "loaded over the earlier one the configuration is %s, loaded afresh it is %s", a, b)
			return
		}
		if got := decisions(live); got != want {
			c.Violate("leftover", hist, "put in force over the earlier configuration the cache decides %s, afresh %s", got, want)
			return
		}
		c.Count("sections", 1)
		c.Eval(fmt.Sprint("sections", strings.Count(text, "\n"), len(text)))
	}
}

// TestC30Proc drives a running kache through good and bad configurations.
func TestC30Proc(t *testing.T) {
	c := core.New(t, "C30")
	up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Cache-Control", "no-store")
		_, _ = fmt.Fprint(w, "x")
	}))
	defer up.Close()
	var wg sync.WaitGroup
	for pi := 0; pi < core.N(6, 12); pi++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			reloadProc(t, c, pi, up.URL)
		}()
		if pi%4 == 3 {
			wg.Wait()
		}
	}
	for k := 0; k < core.N(8, 24); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			reloadStart(t, c, k)
		}()
	}
	wg.Wait()
	c.Done("a running kache is driven through good, bad, partial, missing and reverted configuration files (watched, by SIGHUP, by the API) while every sampled answer must stem from the old or the new one; a case counts per step",
		"good_files", "bad_files", "api_updates", "config_samples", "proxy_samples", "in_force_at_once", "reloads_again", "changed_while_starting", "defaults_again")
}

// reloadStart changes the file while kache starts (which takes a while since its redis answers late).
func reloadStart(t *testing.T, c *core.Check, k int) {
	r := c.Rand("start", k)
	mr, err := miniredis.Run()
	if err != nil {
		t.Error(err)
		return
	}
	defer mr.Close()
	asked := make(chan struct{})
	var once sync.Once
	mr.Server().SetPreHook(func(_ *server.Peer, cmd string, _ ...string) bool {
		once.Do(func() { close(asked) })
		if cmd == "PING" {
			time.Sleep(400 * time.Millisecond)
		}
		return false
	})
	var text func(g int) string
	p := newProc(t, func(w, w2 string, api int) string {
		text = func(g int) string {
			return fmt.Sprintf("listeners: {a: {addr: \"%s\"}}\ncache: {x_header_name: X-G-%d}\nupstreams: [{name: u, addr: \"http://127.0.0.1:1\", path: /}]\n"+
				"provider: {backend: redis, redis: {endpoint: \"%s\", max_queue_concurrency: 1, max_queue_buffer_size: 10}}\nlogging: {level: error}\napi: {port: %d}\n", w, g, mr.Addr(), api)
		}
		return text(0)
	})
	defer p.kill()
	bad := k%2 == 1
	hist := []string{fmt.Sprintf("bad file while starting: %v", bad)}
	write := func(s string) {
		_ = os.WriteFile(p.file+".new", []byte(s), 0o600)
		_ = os.Rename(p.file+".new", p.file)
	}
	go func() {
		select {
		case <-asked:
		case <-p.done:
			return
		}
		if bad {
			write(core.Pick(r, "cache: [", "oops: 1\n", "", text(1)+"listeners: {}\n"))
		} else {
			write(text(1))
		}
	}()
	watched := k%4 < 2
	args := []string{"-config.auto-reload", "-config.watch-interval", "40ms"}
	if !watched {
		args = nil
	}
	if err := p.start(t, args...); err != nil {
		c.Violate("reload-crash", append(hist, tail(p.err.String(), 30)...), "kache, whose configuration changes while it starts: %.300v", err)
		return
	}
	inForce := func() string {
		_, _, body, err := do("GET", "http://"+p.api+"/api/cache/config", "", nil)
		var v cache.HttpCacheConfig
		if err != nil || json.Unmarshal([]byte(body), &v) != nil {
			return fmt.Sprint(body, err)
		}
		return v.XCacheName
	}
	step := func(want string) bool {
		if !watched {
			_, _, _, _ = do("POST", "http://"+p.api+"/api/cache/config/reload", "", nil)
		}
		ok := waitFor(8*time.Second, func() bool { return inForce() == want })
		if !ok {
			c.Violate("not-picked-up", hist, "the file changed while kache started (watched: %v): %s is not in force, but %s", watched, want, inForce())
		}
		return ok
	}
	c.Count("changed_while_starting", 1)
	c.Eval(fmt.Sprint("start", watched, bad, k))
	if bad {
		if g := inForce(); g != "X-G-0" {
			c.Violate("bad-config-applied", hist, "after a bad configuration %s is in force instead of X-G-0", g)
			return
		}
	} else if !step("X-G-1") {
		return
	}
	write(text(2))
	if !step("X-G-2") {
		return
	}
	// a file which leaves the section out, or empty, stands for the defaults
	s := "cache: {x_header_name: X-G-2}\n"
	s = strings.Replace(text(2), s, []string{"", "cache:\n", "cache: {}\n", "cache: null\n"}[k&1|k>>1&2], 1)
	hist = append(hist, s)
	write(s)
	if step("") {
		c.Count("defaults_again", 1)
		write(text(3))
		step("X-G-3")
	}
}

func reloadProc(t *testing.T, c *core.Check, pi int, upURL string) {
	r := c.Rand("proc", pi)
	watch := pi%2 == 0
	var web, web2 string
	var port int
	pad := []int{0, 0, 150}[pi%3] // applying a large one takes a while
	text := func(g int) string {
		return fmt.Sprintf(`listeners:
  a: {addr: "%s"}
  b: {addr: "%s"}
cache:
  strict: true
  x_header: true
  x_header_name: X-G-%d
  default_cache_control: "max-age=0, g=%d"
  force_cache_control: true
  timeouts: [{path: "^/g", ttl: %ds}]
  exclude: {path: ["^/never"%s]}
upstreams:
  - {name: u, addr: "%s", path: /}
provider: {backend: inmemory}
logging: {level: error}
api: {port: %d}
`, web, web2, g, g, g+1, strings.Repeat(`, "^/pad/([a-z0-9]{1,50}x){1,9}"`, pad), upURL, port)
	}
	p := newProc(t, func(w, w2 string, api int) string { web, web2, port = w, w2, api; return text(0) })
	defer p.kill()
	var args []string
	if watch {
		args = []string{"-config.auto-reload", "-config.watch-interval", "30ms"}
	}
	if err := p.start(t, args...); err != nil {
		t.Errorf("kache: %v", err)
		return
	}
	genOf := func(js string) string { // the generation of a configuration, if it is complete
		var v cache.HttpCacheConfig
		if err := json.Unmarshal([]byte(js), &v); err != nil {
			return "unreadable " + js
		}
		g := strings.TrimPrefix(v.XCacheName, "X-G-")
		ok := v.Strict && v.XCache && v.ForceCacheControl && v.DefaultCacheControl == "max-age=0, g="+g && len(v.Timeouts) == 1 && fmt.Sprint(v.Timeouts[0].TTL.Seconds()) == fmt.Sprint(atoi(g)+1) &&
			v.Exclude != nil && (len(v.Exclude.Path) == 1 || len(v.Exclude.Path) == pad+1)
		if !ok {
			return "mixed " + js
		}
		return g
	}
	var log core.Log
	log.Add("watched %v", watch)
	var mu sync.Mutex
	allowed := [][]string{{"0"}} // what may be in force, over time
	now := func() int {
		mu.Lock()
		defer mu.Unlock()
		return len(allowed) - 1
	}
	since := func(k int) map[string]bool {
		mu.Lock()
		defer mu.Unlock()
		m := map[string]bool{}
		for ; k < len(allowed); k++ {
			for _, g := range allowed[k] {
				m[g] = true
			}
		}
		return m
	}
	setAllowed := func(gs ...string) {
		mu.Lock()
		defer mu.Unlock()
		allowed = append(allowed, gs)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				a := now()
				if k == 0 {
					code, _, body, err := do("GET", "http://"+p.api+"/api/cache/config", "", nil)
					b := since(a)
					if err != nil || code != 200 {
						c.Violate("reload-unavailable", log.Lines(), "configuration request answered %d, %v", code, err)
						return
					}
					if g := genOf(body); !b[g] {
						c.Violate("neither-old-nor-new", log.Lines(), "configuration in force is %s, expected one of %v", g, b)
						return
					}
					c.Count("config_samples", 1)
				} else {
					code, h, _, err := do("GET", "http://"+core.Pick(core.NewR(time.Now().UnixNano()), p.web, p.web2)+fmt.Sprintf("/x%d", time.Now().UnixNano()), "", nil)
					b := since(a)
					if err != nil || code != 200 {
						c.Violate("reload-unavailable", log.Lines(), "client request answered %d, %v", code, err)
						return
					}
					g, found := strings.CutPrefix(h.Get("Cache-Control"), "max-age=0, g=")
					if !found || !b[g] {
						c.Violate("neither-old-nor-new", log.Lines(), "response was made with %q, expected one of %v", h.Get("Cache-Control"), b)
						return
					}
					c.Count("proxy_samples", 1)
				}
			}
		}()
	}
	cur, loaded, next := 0, text(0), 1
	steps := core.N(40, 80)
	for s := 0; s < steps && !c.Stopped(); s++ {
		content := ""
		good, gen := false, cur
		switch r.Intn(10) {
		case 0, 1, 2:
			gen, next = next, next+1
			good, content = true, text(gen)
			log.Add("new configuration %d", gen)
		case 3:
			gen = r.Intn(next)
			good, content = true, text(gen)
			log.Add("back to configuration %d", gen)
		case 4: // via the API
			gen, next = next, next+1
			setAllowed(fmt.Sprint(cur), fmt.Sprint(gen))
			y := fmt.Sprintf("x_header: true\nx_header_name: X-G-%d\ndefault_cache_control: \"max-age=0, g=%d\"\nforce_cache_control: true\ntimeouts: [{path: \"^/g\", ttl: %ds}]\nexclude: {path: [\"^/never\"]}\n", gen, gen, gen+1)
			code, _, body, err := do("PUT", "http://"+p.api+"/api/cache/config/update", y, nil)
			log.Add("configuration %d by the API: %d", gen, code)
			if err != nil || code != 200 {
				c.Violate("api-update-failed", log.Lines(), "update by the API answered %d %s %v", code, body, err)
			}
			cur = gen
			setAllowed(fmt.Sprint(cur))
			c.Count("api_updates", 1)
			continue
		default:
			full := text(next)
			bad := []string{"", "# nothing\n", full + "oops: 1\n", strings.Replace(full, "strict: true", "strict: perhaps", 1), strings.Replace(full, "strict: true", "strickt: true", 1), full[:r.Intn(strings.Index(full, "api:"))],
				"\x00" + full, full + "cache: [", "kache\n", "listeners: {}\nupstreams: []\n", strings.Replace(full, "provider: {backend: inmemory}\n", "", 1), strings.Replace(full, "a: {addr", "c:\n  a: {addr", 1), "MISSING"}
			content = core.Pick(r, bad...)
			log.Add("bad configuration %q", content)
		}
		if good {
			if content == loaded {
				gen = cur // unchanged file: not loaded again
			}
			setAllowed(fmt.Sprint(cur), fmt.Sprint(gen))
		}
		switch {
		case content == "MISSING":
			_ = os.Remove(p.file)
		case r.P(0.5):
			_ = os.WriteFile(p.file+".new", []byte(content), 0o600)
			_ = os.Rename(p.file+".new", p.file)
		default:
			_ = os.WriteFile(p.file, []byte(content), 0o600)
		}
		how := "watch"
		if !watch {
			if r.P(0.5) {
				how = "signal"
				_ = p.cmd.Process.Signal(syscall.SIGHUP)
			} else {
				how = "api"
				code, _, body, err := do("POST", "http://"+p.api+"/api/cache/config/reload", "", nil)
				log.Add("reload by the API: %d %s", code, body)
				if err != nil || (code == 200) != good {
					c.Violate("reload-answer", log.Lines(), "reload answered %d, %v (configuration is good: %v)", code, err, good)
				}
				if good { // answered: what starts now follows the new one
					_, _, body, err := do("GET", "http://"+p.api+"/api/cache/config", "", nil)
					if err != nil || genOf(body) != fmt.Sprint(gen) {
						c.Violate("reload-not-in-force", log.Lines(), "the reload of configuration %d was confirmed, but %s, %v is in force", gen, genOf(body), err)
					}
					c.Count("in_force_at_once", 1)
				}
				if r.P(0.5) { // the same file again
					code, _, body, err := do("POST", "http://"+p.api+"/api/cache/config/reload", "", nil)
					log.Add("reload by the API again: %d %s", code, body)
					if err != nil || (code == 200) != good {
						c.Violate("reload-answer", log.Lines(), "reload of the same file again answered %d, %v (configuration is good: %v)", code, err, good)
					}
					c.Count("reloads_again", 1)
				}
			}
		}
		c.Eval(fmt.Sprint(pi, s, how, good, content))
		inForce := func() string {
			_, _, body, err := do("GET", "http://"+p.api+"/api/cache/config", "", nil)
			if err != nil {
				return err.Error()
			}
			return genOf(body)
		}
		if good {
			c.Count("good_files", 1)
			if !waitFor(8*time.Second, func() bool { return inForce() == fmt.Sprint(gen) }) {
				c.Violate("not-picked-up", log.Lines(), "configuration %d is not in force (%s): still %s", gen, how, inForce())
				break
			}
			cur, loaded = gen, content
			setAllowed(fmt.Sprint(cur))
		} else {
			c.Count("bad_files", 1)
			time.Sleep(time.Duration(core.N(100, 150)) * time.Millisecond)
			if g := inForce(); g != fmt.Sprint(cur) {
				c.Violate("bad-config-applied", log.Lines(), "after a bad configuration (%s) %s is in force instead of %d", how, g, cur)
			}
		}
		if s == 5 && pi < 2 {
			c.Sample(log.Lines())
		}
		select {
		case <-p.done:
			c.Violate("reload-crash", append(log.Lines(), strings.Split(p.err.String(), "\n")...), "kache ended with code %d during reloads", p.code)
			s = steps
		default:
		}
	}
	close(stop)
	wg.Wait()
	if strings.Contains(p.err.String(), "DATA RACE") {
		c.Violate("data-race-reload", strings.Split(p.err.String(), "\n"), "data race while reloading")
	}
}

func atoi(s string) int {
	n := -1000
	_, _ = fmt.Sscan(s, &n)
	return n
}
