//go:build go1.25

package srv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/verifharness/core"
)

func TestC41(t *testing.T) {
	c := core.New(t, "C41")
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for k := 0; k < core.N(16, 120); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if !c.Stopped() {
				nodesWorld(t, c, k)
			}
		}()
	}
	wg.Wait()
	c.Done("a case is a history of requests, writes, purges, flushes, listings, crashes and restarts over three running nodes which share a redis (plain or layered); distinct by the sequence of nodes, operations and outcomes",
		"hits_of_others", "own_hits", "misses", "purges", "writes", "flushes", "crashes", "restarts", "listings", "refreshed", "local_copies")
}

// nodeUp answers with the current version of each resource.
type nodeUp struct {
	*httptest.Server
	mu      sync.Mutex
	version map[string]int
	asked   map[string]int
	valid   int // validations which found the response unchanged
}

func (u *nodeUp) body(path, lang string, v int) string {
	n := 20
	if strings.Contains(path, "big") {
		n = 300000
	}
	return fmt.Sprintf("<%s %s v%d>", path, lang, v) + strings.Repeat(fmt.Sprintf("%s-%d.", path, v), n/8)
}

func newNodeUp() *nodeUp {
	u := &nodeUp{version: map[string]int{}, asked: map[string]int{}}
	u.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		u.mu.Lock()
		if r.Method != "GET" && r.Method != "HEAD" {
			u.version[r.URL.Path]++
		}
		v := u.version[r.URL.Path]
		u.asked[r.URL.Path]++
		lang := ""
		if strings.HasPrefix(r.URL.Path, "/vary") {
			lang = r.Header.Get("Accept-Language")
			w.Header().Set("Vary", "Accept-Language")
		}
		etag := fmt.Sprintf("\"%d-%s\"", v, lang)
		same := r.Header.Get("If-None-Match") == etag
		if same {
			u.valid++
		}
		u.mu.Unlock()
		if r.Method != "GET" && r.Method != "HEAD" {
			w.WriteHeader(204)
			return
		}
		w.Header().Set("X-Version", strconv.Itoa(v))
		w.Header()["X-Multi"] = []string{"a, b", "", "c"}
		if strings.HasPrefix(r.URL.Path, "/short") {
			w.Header().Set("Cache-Control", "max-age=2")
		} else {
			w.Header().Set("Cache-Control", "max-age=1000")
		}
		w.Header().Set("Etag", etag)
		if same {
			w.WriteHeader(304)
			return
		}
		_, _ = w.Write([]byte(u.body(r.URL.Path, lang, v)))
	}))
	return u
}

// held is what the shared cache holds for a resource.
type held struct {
	version int
	lang    string
	until   time.Time // the response becomes stale
	by      int       // node that stored it
}

func nodesWorld(t *testing.T, c *core.Check, wi int) {
	r := c.Rand("nodes", wi)
	layered := wi%3 == 2
	up := newNodeUp()
	defer up.Close()
	mr, err := miniredis.Run()
	if err != nil {
		t.Error(err)
		return
	}
	defer mr.Close()
	core.PageScan(mr, int64(wi))
	db := core.Pick(r, 0, 1, 2, 9, 14)
	mr.Select(db)
	auth := ""
	if r.P(0.5) {
		mr.RequireUserAuth("default", "s3cret")
		auth = "password: s3cret, "
	}
	// somebody else's data
	foreign := map[string]string{"kache-foreign": "1", "session:1": "x"}
	others := []int{db + 1, (db + 8) % 16}
	for k, v := range foreign {
		for _, d := range others {
			_ = mr.DB(d).Set(k, v)
		}
	}
	kind := "layered: false, "
	if layered {
		kind = "layered: true, layered_ttl: 1s, "
	}
	nodes := make([]*proc, 3)
	for i := range nodes {
		nodes[i] = newProc(t, func(a, b string, api int) string {
			return fmt.Sprintf(`listeners: {a: {addr: "%s"}, b: {addr: "%s"}}
cache: {x_header: true, default_ttl: 1h}
upstreams: [{name: u, addr: "%s", path: /}]
provider: {backend: redis, %sredis: {endpoint: "%s", db: %d, %smax_queue_concurrency: %d, max_queue_buffer_size: 1000}}
logging: {level: error}
api: {port: %d}
`, a, b, up.URL, kind, mr.Addr(), db, auth, r.Range(1, 4), api)
		})
	}
	defer func() {
		for _, p := range nodes {
			p.kill()
		}
	}()
	var wg sync.WaitGroup
	errs := make([]error, len(nodes))
	for i, p := range nodes {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = p.start(t) }()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			t.Errorf("kache: %v", err)
			return
		}
	}
	restart := func(i int) bool {
		p := nodes[i]
		<-p.done
		q := &proc{dir: p.dir, file: p.file, web: p.web, web2: p.web2, api: p.api, port: p.port, err: &syncBuf{}, done: make(chan struct{})}
		nodes[i] = q
		if err := q.start(t); err != nil {
			c.Violate("no-restart", []string{err.Error()}, "a node does not start again: %.300v", err)
			return false
		}
		return true
	}
	var log core.Log
	log.Add("layered %v", layered)
	paths := []string{"/long/1", "/long/2?q=[a]*", "/short/1", "/short/1", "/vary/1", "/big/1", "/long/a%2Fb"}
	stored := map[string]*held{}
	local := make([]map[string]map[string]bool, len(nodes)) // versions which a node may have a copy of (layered)
	for i := range local {
		local[i] = map[string]map[string]bool{}
	}
	var shape strings.Builder
	bare := func(path string) string {
		path, _, _ = strings.Cut(path, "?")
		return strings.ReplaceAll(path, "%2F", "/")
	}
	inRedis := func(path, lang string, v int) bool {
		want := []byte(up.body(bare(path), lang, v))
		for _, k := range mr.DB(db).Keys() {
			if s, err := mr.DB(db).Get(k); err == nil && bytes.Contains([]byte(s), want) {
				return true
			}
		}
		return false
	}
	fail := func(sig, f string, args ...any) { c.Violate(sig, log.Lines(), f, args...) }
	steps := core.N(100, 200)
	for s := 0; s < steps && !c.Stopped(); s++ {
		i := r.Intn(len(nodes))
		p := nodes[i]
		path := core.Pick(r, paths...)
		key := bare(path)
		switch op := r.Intn(30); {
		case op == 29:
			time.Sleep(time.Duration(r.Range(1000, 3000)) * time.Millisecond)
			log.Add("pause")
		case op < 19 || op == 28: // a request
			lang := ""
			h := http.Header{}
			if strings.HasPrefix(path, "/vary") {
				lang = core.Pick(r, "de", "en")
				h.Set("Accept-Language", lang)
			}
			up.mu.Lock()
			before, cur, valid := up.asked[key], up.version[key], up.valid
			up.mu.Unlock()
			code, rh, body, err := do("GET", "http://"+core.Pick(r, p.web, p.web2)+path, "", h)
			now := time.Now()
			up.mu.Lock()
			contacts, revalidated := up.asked[key]-before, up.valid > valid
			up.mu.Unlock()
			if err != nil || code != 200 {
				fail("no-answer", "node %d answers %s with %d, %v", i, path, code, err)
				return
			}
			v, _ := strconv.Atoi(rh.Get("X-Version"))
			log.Add("node %d: %s %s -> version %d, %d upstream requests, X-Kache %q, Age %q", i, path, lang, v, contacts, rh.Get("X-Kache"), rh.Get("Age"))
			if body != up.body(key, lang, v) || fmt.Sprint(rh["X-Multi"]) != "[a, b  c]" || len(rh["X-Multi"]) != 3 || rh.Get("Etag") != fmt.Sprintf("\"%d-%s\"", v, lang) {
				fail("not-identical", "node %d answers %s with something else than version %d of upstream: %.100q %s", i, path, v, body, headerString(rh))
				return
			}
			id := fmt.Sprintf("%s %d", lang, v)
			e := stored[path]
			mine := local[i][path][id]
			switch {
			case contacts == 0 && e != nil && e.version == v && e.lang == lang:
				// from the shared cache (or a copy of it)
				if now.After(e.until.Add(1500 * time.Millisecond)) {
					fail("stale", "node %d serves version %d of %s, which is stale, without asking", i, v, path)
				}
				if rh.Get("X-Kache") != "HIT" || rh.Get("Age") == "" {
					fail("unmarked", "node %d serves %s from the cache with %s", i, path, headerString(rh))
				}
				if e.by == i {
					c.Count("own_hits", 1)
				} else {
					c.Count("hits_of_others", 1)
				}
				shape.WriteString("h")
			case contacts == 0 && layered && mine:
				c.Count("local_copies", 1) // an older copy that the node keeps by itself
				shape.WriteString("l")
				continue
			case contacts == 0:
				fail("superseded", "node %d serves version %d (%q) of %s, but the shared cache holds %s", i, v, lang, path, describe(e))
				return
			case v != cur:
				fail("superseded", "node %d asked upstream, but serves version %d of %s instead of %d", i, v, path, cur)
				return
			case e != nil && e.lang == lang && now.Before(e.until.Add(-1500*time.Millisecond)) && !(layered && len(local[i][path]) > 0):
				fail("not-shared", "node %d asked upstream for %s although the shared cache holds %s", i, path, describe(e))
				return
			default:
				c.Count("misses", 1)
				shape.WriteString("m")
				if revalidated {
					c.Count("refreshed", 1)
				}
				life := 1000 * time.Second
				if strings.HasPrefix(path, "/short") {
					life = 2 * time.Second
				}
				stored[path] = &held{version: v, lang: lang, until: now.Add(life), by: i}
				if !waitFor(5*time.Second, func() bool { return inRedis(path, lang, v) }) {
					fail("not-stored", "version %d of %s, which node %d got from upstream, is not in redis", v, path, i)
					return
				}
				if revalidated {
					time.Sleep(50 * time.Millisecond) // the refreshed entry looks the same from here
				}
			}
			if layered {
				if local[i][path] == nil {
					local[i][path] = map[string]bool{}
				}
				local[i][path] = map[string]bool{id: true}
			}
		case op < 21: // upstream's content changes
			up.mu.Lock()
			up.version[key]++
			log.Add("upstream: %s has version %d", path, up.version[key])
			up.mu.Unlock()
		case op < 23: // a write through a node
			code, _, _, err := do(core.Pick(r, "POST", "PUT", "DELETE"), "http://"+p.web+path, "x", nil)
			log.Add("node %d: write to %s -> %d, %v", i, path, code, err)
			if err != nil || code != 204 {
				fail("no-answer", "node %d answers a write with %d, %v", i, code, err)
				return
			}
			delete(stored, path)
			delete(local[i], path)
			c.Count("writes", 1)
			shape.WriteString("w")
		case op < 25: // a purge through a node
			_, _, body, err := do("GET", "http://"+p.api+"/api/cache/keys", "", nil)
			var keys []string
			if err == nil {
				err = json.Unmarshal([]byte(body), &keys)
			}
			if err != nil {
				fail("listing", "node %d lists %.200q, %v", i, body, err)
				return
			}
			if got, want := len(keys), len(mr.DB(db).Keys()); got != want && !layered {
				fail("listing", "node %d lists %d keys, redis holds %d", i, got, want)
				return
			}
			for q := range stored {
				n := 0
				for _, k := range keys {
					if strings.HasSuffix(k, keyTail(q)) {
						n++
					}
				}
				if n != 1 {
					fail("listing", "node %d lists %q, which has %s %d times", i, keys, q, n)
					return
				}
			}
			c.Count("listings", 1)
			pattern := "*"
			hit := func(q string) bool { return true }
			switch r.Intn(3) {
			case 0:
				pattern, hit = "*/long/*", func(q string) bool { return strings.HasPrefix(q, "/long/") }
			case 1:
				if len(keys) > 0 {
					pattern = core.Pick(r, keys...)
					if strings.Contains(pattern, "*") {
						pattern = strings.ReplaceAll(pattern, "?q", "*q")
					}
					hit = func(q string) bool {
						return strings.HasSuffix(pattern, keyTail(q)) || strings.Contains(pattern, "*q=") && strings.HasPrefix(q, "/long/2")
					}
				}
			}
			code, _, _, err := do("PURGE", "http://"+p.api+"/", "", http.Header{"X-Purge-Key": {pattern}})
			log.Add("node %d: purge %q -> %d, %v", i, pattern, code, err)
			if err != nil || code != 200 {
				fail("no-answer", "node %d answers a purge with %d, %v", i, code, err)
				return
			}
			for _, q := range paths {
				if hit(q) {
					delete(stored, q)
					delete(local[i], q)
				}
			}
			c.Count("purges", 1)
			shape.WriteString("p")
		case op < 26:
			code, _, _, err := do("DELETE", "http://"+p.api+"/api/cache/flush", "", nil)
			log.Add("node %d: flush -> %d, %v", i, code, err)
			if err != nil || code != 200 || len(mr.DB(db).Keys()) > 0 {
				fail("flush", "node %d answers a flush with %d, %v; left: %q", i, code, err, mr.DB(db).Keys())
				return
			}
			stored = map[string]*held{}
			local[i] = map[string]map[string]bool{}
			c.Count("flushes", 1)
			shape.WriteString("f")
		case op < 27: // a crash while something is being fetched
			up.mu.Lock()
			cur := up.version["/big/crash"]
			up.mu.Unlock()
			gone := make(chan struct{})
			go func() { defer close(gone); _, _, _, _ = do("GET", "http://"+p.web+"/big/crash", "", nil) }()
			time.Sleep(time.Duration(r.Intn(6000)) * time.Microsecond)
			_ = p.cmd.Process.Signal(syscall.SIGKILL)
			<-gone
			log.Add("node %d: crash", i)
			if !restart(i) {
				return
			}
			local[i] = map[string]map[string]bool{}
			for k := range nodes {
				code, rh, body, err := do("GET", "http://"+nodes[k].web+"/big/crash", "", nil)
				if err != nil || code != 200 || body != up.body("/big/crash", "", cur) {
					fail("damaged", "after a crash of node %d node %d serves what it left in part: %d, %d bytes, %v %s", i, k, code, len(body), err, headerString(rh))
					return
				}
			}
			_, _, _, _ = do("PUT", "http://"+nodes[r.Intn(3)].web+"/big/crash", "x", nil) // next version
			for k := range nodes {
				_, _, _, _ = do("PURGE", "http://"+nodes[k].api+"/", "", http.Header{"X-Purge-Key": {"*/big/crash"}})
			}
			c.Count("crashes", 1)
			shape.WriteString("c")
		default:
			_ = p.cmd.Process.Signal(syscall.SIGTERM)
			log.Add("node %d: restart", i)
			if !p.exited(30 * time.Second) {
				fail("no-end", "node %d does not end", i)
				return
			}
			if !restart(i) {
				return
			}
			local[i] = map[string]map[string]bool{}
			c.Count("restarts", 1)
			shape.WriteString("r")
		}
		shape.WriteString(strconv.Itoa(i))
	}
	for k, v := range foreign {
		for _, d := range others {
			if s, err := mr.DB(d).Get(k); err != nil || s != v {
				fail("foreign", "a key of another database is gone: %s (%v)", k, err)
			}
		}
	}
	for _, d := range others {
		if got := len(mr.DB(d).Keys()); got != len(foreign) {
			fail("foreign", "database %d holds %d keys, it is not the one of the cache", d, got)
		}
	}
	c.Eval(shape.String())
	if wi < 3 {
		c.Sample(log.Lines())
	}
}

func describe(e *held) string {
	if e == nil {
		return "nothing"
	}
	return fmt.Sprintf("version %d (%q), stored by node %d", e.version, e.lang, e.by)
}

// keyTail is how the key of a resource ends.
func keyTail(path string) string {
	return strings.Replace(path, "?q=[a]*", "?q=%5Ba%5D%2A", 1)
}
