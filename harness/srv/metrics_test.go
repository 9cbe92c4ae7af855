//go:build go1.25

package srv

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

var sampleLine = regexp.MustCompile(`(?m)^kache_http_cache_requests_total\{result="(hit|miss)"\} (\S+)$`)

// scraped reads the counters as a monitoring system does.
func (n *node) scraped() (hits, misses int, err error) {
	rr := n.call("GET", "/metrics", "1.2.3.4:5", nil, "")
	if rr.Code != 200 {
		return 0, 0, fmt.Errorf("/metrics answers %d", rr.Code)
	}
	m := sampleLine.FindAllStringSubmatch(rr.Body.String(), -1)
	if len(m) != 2 {
		return 0, 0, fmt.Errorf("/metrics shows %d of the 2 counters", len(m))
	}
	for _, x := range m {
		v, err := strconv.ParseFloat(x[2], 64)
		if err != nil {
			return 0, 0, err
		}
		if x[1] == "hit" {
			hits = int(v)
		} else {
			misses = int(v)
		}
	}
	return
}

// gathered reads the counters of a node with a registry of its own.
func (n *node) gathered() (hits, misses int) {
	mf, err := n.reg.Gather()
	if err != nil {
		return -1, -1
	}
	for _, f := range mf {
		if f.GetName() != "kache_http_cache_requests_total" {
			continue
		}
		for _, m := range f.GetMetric() {
			var lbl string
			for _, l := range m.GetLabel() {
				lbl = l.GetValue()
			}
			v := int(m.GetCounter().GetValue())
			if lbl == "hit" {
				hits = v
			} else if lbl == "miss" {
				misses = v
			}
		}
	}
	return
}

// originRec is an upstream whose answers are told by the query, and which counts requests.
type originRec struct {
	*httptest.Server
	mu    sync.Mutex
	asked map[string]int
	total int
	delay time.Duration
}

func newOriginRec() *originRec {
	o := &originRec{asked: map[string]int{}}
	o.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = io.Copy(io.Discard, r.Body)
		q := r.URL.Query()
		o.mu.Lock()
		o.asked[r.URL.Path]++
		o.total++
		k := o.asked[r.URL.Path]
		o.mu.Unlock()
		if o.delay > 0 {
			time.Sleep(o.delay)
		}
		if q.Get("abort") != "" {
			panic(http.ErrAbortHandler)
		}
		if cc := q.Get("cc"); cc != "" {
			w.Header().Set("Cache-Control", cc)
		}
		if e := q.Get("etag"); e != "" {
			w.Header().Set("Etag", `"`+e+`"`)
			if r.Header.Get("If-None-Match") == `"`+e+`"` {
				w.WriteHeader(304)
				return
			}
		}
		st, _ := strconv.Atoi(q.Get("st"))
		if st == 0 {
			st = 200
		}
		w.WriteHeader(st)
		_, _ = fmt.Fprintf(w, "%s#%d", r.URL.Path, k)
	}))
	return o
}

func (o *originRec) count(p string) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.asked[p]
}

func TestC35(t *testing.T) {
	c := core.New(t, "C35")
	// One node is the process's own, its counters are read through the admin API.
	seqs := core.N(900, 9000)
	for si := 0; si < seqs && !c.Stopped(); si++ {
		r := c.Rand("seq", si)
		o := newOriginRec()
		hc := &cache.HttpCacheConfig{Strict: r.P(0.8), XCache: r.P(0.5)}
		if r.P(0.4) {
			hc.Exclude = &cache.Exclude{Path: []string{"^/ex"}, Header: map[string]string{"X-Skip": "1"}}
		}
		var n *node
		own := si == 0
		if own {
			n = mustNodeReg(t, config.Upstreams{{Name: "u", Addr: o.URL, Path: "/"}}, hc, prometheus.DefaultRegisterer)
		} else {
			n = mustNode(t, config.Upstreams{{Name: "u", Addr: o.URL, Path: "/"}}, hc, nil, nil)
		}
		read := func() (int, int) {
			if own {
				h, m, err := n.scraped()
				if err != nil {
					c.Violate("not-exported", nil, "%v", err)
				}
				return h, m
			}
			return n.gathered()
		}
		var log core.Log
		log.Add("strict=%v exclude=%v own=%v", hc.Strict, hc.Exclude != nil, own)
		h0, m0 := read()
		if h0 != 0 || m0 != 0 {
			c.Violate("initial", log.Lines(), "a new node starts with %d hits and %d misses", h0, m0)
		}
		stored := map[string]string{} // uri -> state: fresh
		shape := ""
		steps := r.Range(10, 40)
		if own {
			steps = 60
		}
		for k := 0; k < steps && !c.Stopped(); k++ {
			kind := core.Pick(r, "fresh", "fresh", "fresh", "fresh", "nostore", "validate", "post", "range", "auth", "excluded", "exheader", "abort", "damaged", "damaged", "error", "purge", "head", "inm", "reqnocache", "fields", "fields")
			id := r.Intn(4)
			path := fmt.Sprintf("/%s/%d", kind, id)
			uri := path + "?cc=max-age%3D1000"
			method := "GET"
			h := http.Header{}
			// expectation: counted is "", "hit" or "miss"; any: either
			want, asks := "", 1
			fresh := func() {
				if stored[uri] != "" {
					want, asks = "hit", 0
				} else {
					want = "miss"
				}
			}
			switch kind {
			case "fresh":
				fresh()
				if stored[uri] == "" {
					stored[uri] = "fresh"
				}
			case "nostore":
				uri = path + "?cc=no-store"
				want = "miss"
				if !hc.Strict {
					continue
				}
			case "validate": // stored, but to be validated each time
				if !hc.Strict {
					continue
				}
				uri = path + "?cc=no-cache&etag=v1"
				if id%2 == 1 { // or nothing to validate it with
					uri = path + "?cc=no-cache"
					c.Count("no_validator", 1)
				}
				want = ""
				if stored[uri] == "" {
					want = "miss"
					stored[uri] = "fresh"
				}
			case "post":
				method = "POST"
			case "range":
				h.Set("Range", "bytes=0-1")
			case "auth":
				h.Set("Authorization", "Basic x")
			case "inm":
				h.Set("If-None-Match", `"z"`)
			case "excluded":
				path = fmt.Sprintf("/ex/%d", id)
				uri = path + "?cc=max-age%3D1000"
				if hc.Exclude == nil {
					fresh()
					stored[uri] = "fresh"
				}
			case "exheader":
				h.Set("X-Skip", "1")
				if hc.Exclude == nil {
					fresh()
					stored[uri] = "fresh"
				}
			case "abort":
				uri = path + "?abort=1"
				want = "miss"
			case "error":
				if !hc.Strict {
					continue
				}
				uri = path + "?cc=max-age%3D1000&st=503"
				want = "miss"
			case "head":
				method = "HEAD"
				want = "miss" // and it is not stored
				path = fmt.Sprintf("/fresh/%d", id)
				uri = path + "?cc=max-age%3D1000"
				if stored[uri] != "" {
					want, asks = "hit", 0
				}
			case "fields": // which make no difference to a response as fresh as can be
				path = fmt.Sprintf("/fresh/%d", id)
				uri = path + "?cc=max-age%3D1000"
				f := core.Pick(r, [2]string{"Cache-Control", "max-age=1000"}, [2]string{"Cache-Control", "max-stale=5"}, [2]string{"Cache-Control", "max-stale"}, [2]string{"Cache-Control", "min-fresh=1"},
					[2]string{"Cache-Control", "no-transform"}, [2]string{"Accept-Language", "de"}, [2]string{"Cookie", "a=b"}, [2]string{"User-Agent", "x"}, [2]string{"X-Forwarded-For", "1.1.1.1"}, [2]string{"Accept-Encoding", "gzip"})
				h.Set(f[0], f[1])
				log.Add("%v", f)
				c.Count("plain_fields", 1)
				fresh()
				if stored[uri] == "" {
					stored[uri] = "fresh"
				}
			case "damaged": // what is stored cannot be used
				path = fmt.Sprintf("/fresh/%d", id)
				uri = path + "?cc=max-age%3D1000"
				want = "miss"
				key := "kache-" + o.URL + uri
				if b := n.pdr.Get(bg, key); b != nil {
					switch e, err := cache.DecodeEntry(b); {
					case err == nil && r.P(.6): // an entry whose contents are no response
						e.Body = core.Pick(r, []byte("garbage"), nil, []byte("HTTP/1.1 200 OK\r\nBad"), e.Body[:len(e.Body)/3])
						if eb, err := e.Encode(); err == nil {
							b = eb
						}
					case r.P(.5):
						b = b[:len(b)/2]
					default:
						b = []byte("x")
					}
					n.pdr.Set(key, b, time.Hour)
					log.Add("damage %s", key)
					c.Count("damaged", 1)
				}
				stored[uri] = "fresh"
			case "reqnocache":
				path = fmt.Sprintf("/fresh/%d", id)
				uri = path + "?cc=max-age%3D1000"
				h.Set("Cache-Control", "no-cache")
				if !hc.Strict {
					continue
				}
				want = "-"
				stored[uri] = "fresh"
			case "purge":
				key := ""
				for u := range stored {
					if key == "" || u < key {
						key = u
					}
				}
				if key == "" {
					continue
				}
				rr := n.call("PURGE", "/", "1.2.3.4:5", http.Header{"X-Purge-Key": {"kache-" + o.URL + key}}, "")
				delete(stored, key)
				h1, m1 := read()
				log.Add("purge %s: %d", key, rr.Code)
				if h1 != h0 || m1 != m0 {
					c.Violate("counted-admin", log.Lines(), "a purge changes the counters by %d, %d", h1-h0, m1-m0)
				}
				continue
			}
			before := o.count(path)
			rr := httptest.NewRecorder()
			req := httptest.NewRequest(method, uri, nil)
			for a, b := range h {
				req.Header[a] = b
			}
			n.srv.ServeHTTP(rr, req)
			asked := o.count(path) - before
			h1, m1 := read()
			dh, dm := h1-h0, m1-m0
			h0, m0 = h1, m1
			log.Add("%s %s %s: %d, upstream asked %d times, counted %d hits %d misses", method, uri, headerString(h), rr.Code, asked, dh, dm)
			c.Count("requests", 1)
			c.Count("expected_"+want, 1)
			shape += kind + want
			if want == "-" {
				// conservation still holds: at most one count, a hit only without asking upstream
				if dh+dm > 1 || (dh == 1 && asked != 0) || (dm == 1 && asked == 0) {
					c.Violate("miscounted", log.Lines(), "%s %s counted %d hits, %d misses with %d upstream requests", method, uri, dh, dm, asked)
				}
				continue
			}
			if kind != "abort" && asked != asks {
				// not what this history's model expects of the cache; other properties judge that
				c.Count("model_differs", 1)
				c.Count("md_"+kind, 1)
				stored = map[string]string{}
				_ = n.pdr.Flush(bg)
				if dh+dm > 1 || (dh == 1 && asked != 0) || (dm == 1 && asked == 0) {
					c.Violate("miscounted", log.Lines(), "%s %s counted %d hits, %d misses with %d upstream requests", method, uri, dh, dm, asked)
				}
				continue
			}
			wh, wm := 0, 0
			if want == "hit" {
				wh = 1
			} else if want == "miss" {
				wm = 1
			}
			if dh != wh || dm != wm {
				c.Violate("miscounted", log.Lines(), "%s %s is a %q, counted were %d hits and %d misses", method, uri, want, dh, dm)
			}
		}
		c.Eval(shape)
		if si < 2 {
			c.Sample(log.Lines())
		}
		o.Close()
	}
	// Concurrency: the sums are exact.
	rounds := core.N(12, 150)
	for ri := 0; ri < rounds && !c.Stopped(); ri++ {
		r := c.Rand("conc", ri)
		o := newOriginRec()
		o.delay = time.Duration(r.Intn(3)) * time.Millisecond
		n := mustNode(t, config.Upstreams{{Name: "u", Addr: o.URL, Path: "/"}}, &cache.HttpCacheConfig{Strict: true, XCache: true}, nil, nil)
		workers, per := r.Range(2, 16), r.Range(10, 60)
		keys := r.Range(1, 30)
		var wg sync.WaitGroup
		var mu sync.Mutex
		client, exempt := 0, 0
		for w := 0; w < workers; w++ {
			rw := c.Rand("conc-w", ri*100+w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					method := "GET"
					if rw.P(0.1) {
						method = "POST"
					}
					rr := httptest.NewRecorder()
					n.srv.ServeHTTP(rr, httptest.NewRequest(method, fmt.Sprintf("/k/%d/%s?cc=%s", rw.Intn(keys), method, core.Pick(rw, "max-age=1000", "max-age=1000", "no-store")), nil))
					mu.Lock()
					client++
					if method == "POST" {
						exempt++
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		hits, misses := n.gathered()
		o.mu.Lock()
		total := o.total
		o.mu.Unlock()
		hist := []string{fmt.Sprintf("%d workers, %d requests each, %d keys: %d requests (%d exempt), %d reached upstream, counted %d hits, %d misses", workers, per, keys, client, exempt, total, hits, misses)}
		c.Count("concurrent_requests", client)
		// each lookup is counted once; a miss asks upstream once, a hit never
		if misses != total-exempt {
			c.Violate("sum", hist, "%d requests were forwarded for want of a stored response, %d misses are counted", total-exempt, misses)
		}
		if hits+misses > client-exempt {
			c.Violate("sum", hist, "more is counted (%d) than was requested (%d)", hits+misses, client-exempt)
		}
		c.Eval(fmt.Sprint("conc", workers, per, keys, hits, misses))
		o.Close()
	}
	// Crowds: many ask for one thing at once, and share what one of them is sent. They all found
	// nothing stored, of which one asked upstream: one miss. Those too late to share come upon a
	// response that is to be validated, which counts as neither.
	herds := core.N(20, 200)
	for hi := 0; hi < herds && !c.Stopped(); hi++ {
		r := c.Rand("herd", hi)
		gate := make(chan struct{})
		var asked, full atomic.Int64
		up := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			asked.Add(1)
			<-gate
			w.Header().Set("Cache-Control", "max-age=0")
			w.Header().Set("Etag", `"1"`)
			if r.Header.Get("If-None-Match") != "" {
				w.WriteHeader(304)
				return
			}
			full.Add(1)
			_, _ = fmt.Fprint(w, "x")
		}))
		n := mustNode(t, config.Upstreams{{Name: "u", Addr: up.URL, Path: "/"}}, &cache.HttpCacheConfig{Strict: true, XCache: true}, nil, nil)
		k := r.Range(2, 40)
		var wg sync.WaitGroup
		for w := 0; w < k; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := httptest.NewRecorder()
				n.srv.ServeHTTP(rr, httptest.NewRequest("GET", "/herd", nil))
				if rr.Code != 200 {
					c.Count("md_herd", 1)
				}
			}()
		}
		waitFor(5*time.Second, func() bool { return asked.Load() > 0 })
		time.Sleep(30 * time.Millisecond)
		close(gate)
		wg.Wait()
		hits, misses := n.gathered()
		hist := []string{fmt.Sprintf("%d requests at once for what is not stored and stale when it comes: %d reached upstream, %d of them for the whole; counted %d hits, %d misses", k, asked.Load(), full.Load(), hits, misses)}
		c.Count("shared_requests", k-int(asked.Load()))
		c.Count("herd_requests", k)
		if hits != 0 || misses != int(full.Load()) {
			c.Violate("sum", hist, "%s", hist[0])
		}
		c.Eval(fmt.Sprint("herd", k, asked.Load()))
		up.Close()
	}
	c.Done("a case is a history of requests of all kinds, or a concurrent run; distinct by the sequence of kinds and outcomes",
		"requests", "expected_hit", "expected_miss", "expected_", "concurrent_requests", "shared_requests", "herd_requests", "plain_fields", "damaged")
}
