//go:build go1.25

package httpc

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/verifharness/core"
)

var patterns = []string{"^/a", "/a$", "^/a/.*", ".*", "^/assets/.*\\.css$", "b", "(?i)^/A", "^/(a|b)/[0-9]+$", "[", "^$", "/$", "^/a/b", "", "^", "x?", "^/+", "[^/]$"}
var paths = []string{"/", "/a", "/a/b", "/b", "/a/1", "/b/22", "/assets/x.css", "/assets/x.js", "/A/x", "/c", "/%61", "/a%2Fb"}

// oracleTTL is the first matching configured ttl, or the default.
func oracleTTL(ts []cache.Timeout, def string, p string) time.Duration {
	for _, t := range ts {
		if re, err := regexp.Compile(t.Path); err == nil && re.MatchString(p) {
			return t.TTL
		}
	}
	if d, err := time.ParseDuration(def); err == nil {
		return d
	}
	return 120 * time.Second
}

// C12: configured TTLs bound how long anything is served from cache.
func TestC12(t *testing.T) {
	c := core.New(t, "C12")
	p := baseProfile()
	p.pForbid = .03
	p.cfg = func(r *core.R, cfg *cache.HttpCacheConfig) {
		cfg.DefaultTTL = core.Pick(r, "", "bogus", "1500ms", "700ms", "2.6s", "5s", "30s", "10m")
		cfg.Strict = r.P(.6)
	}
	histories(t, c, "C12", p, core.N(2500, 20000))
	ttls := []time.Duration{0, -time.Second, 1, time.Second, 2500 * time.Millisecond, 30 * time.Second, time.Hour, 49 * time.Hour, 400 * 24 * time.Hour}
	for i := 0; i < core.N(4000, 50000) && !c.Stopped(); i++ {
		r := c.Rand("ttl", i)
		cfg := defaultConfig()
		cfg.DefaultTTL = core.Pick(r, "", "bogus", "7s", "2m", "0s", "36h", "25h", "720h", "10000h", "-1s", "1.4s", "2600ms", "400ms", "1m0.5s", "90m", "999us")
		cfg.Strict = r.P(.7)
		if r.P(.05) { // many which do not match
			for n := r.Range(5, 60); n > 0; n-- {
				cfg.Timeouts = append(cfg.Timeouts, cache.Timeout{Path: fmt.Sprintf("^/none/%d$", n), TTL: core.Pick(r, ttls...)})
			}
			c.Count("long_lists", 1)
		}
		for n := r.Intn(4); n > 0; n-- {
			cfg.Timeouts = append(cfg.Timeouts, cache.Timeout{Path: core.Pick(r, patterns...), TTL: core.Pick(r, ttls...)})
		}
		path := core.Pick(r, paths...)
		directed(t, c, cfg, fmt.Sprintf("timeouts %v default %q path %s strict=%v", cfg.Timeouts, cfg.DefaultTTL, path, cfg.Strict), func(s *script) {
			u := "http://up.test" + path
			up := strings.ReplaceAll(strings.ReplaceAll(path, "%61", "a"), "%2F", "/")
			s.answer(200, cacheable("Cache-Control", "max-age=100000000", "Etag", `"e"`), "b")
			id, ttl := 0, oracleTTL(cfg.Timeouts, cfg.DefaultTTL, up)
			if r.P(.3) { // stored under another configuration before
				s.H.UpdateConfig(&cache.HttpCacheConfig{Strict: cfg.Strict, DefaultTTL: "1000h"})
				s.get(u)
				s.H.UpdateConfig(cfg)
				id = s.get(u, "Cache-Control", "no-cache").ID() // renews it, except in non-strict mode
				if !cfg.Strict {
					return
				}
			} else {
				id = s.get(u).ID()
			}
			if ttl <= 0 {
				for k := 0; k < 2; k++ {
					if q := s.get(u, "Cache-Control", "max-stale"); q.Hit() {
						s.fail("ttl-zero-served", "a response was served from cache although its ttl is %v", ttl)
					}
				}
				s.c.Count("ttl_none", 1)
				return
			}
			for _, f := range []float64{.3, .6, .9} {
				stored := s.O.all[len(s.O.all)-1].End
				time.Sleep(time.Until(stored.Add(time.Duration(float64(ttl) * f))))
				if q := s.get(u); !q.Hit() || q.ID() != id {
					s.fail("ttl-too-short", "not served from cache %v after storing; ttl is %v", time.Since(stored), ttl)
					return
				}
			}
			stored := s.O.all[len(s.O.all)-1].End
			time.Sleep(time.Until(stored.Add(ttl)) + core.Pick(r, time.Nanosecond, time.Millisecond, time.Second, time.Hour))
			if q := s.get(u, "Cache-Control", "max-stale"); q.Hit() {
				s.fail("ttl-exceeded", "served from cache %v after storing; ttl is %v", time.Since(stored), ttl)
			}
			s.c.Count("ttl_expired", 1)
		})
	}
	c.Done(histRule+"Directed: random lists of up to 3 path timeouts (valid, invalid and overlapping patterns; zero, negative, short and long ttls), defaults, paths and modes; "+
		"served before, and refused after, the ttl of the first matching pattern.", "ttl_expired", "ttl_none", "hits")
}

// C13: exclusions.
func TestC13(t *testing.T) {
	c := core.New(t, "C13")
	types := []string{"", "text/html", "a/b[c", "text/x; p=\"[\"", "text/html; charset=utf-8", "image/png", "image/svg+xml", "application/json", "video/mp4"}
	ctPat := []string{"image/.*", "text/html", "^text/", "json$", ".*", "[", "video/mp4|image/png", "charset=utf-8", "^text/html$", "(?i)TEXT/", "; "}
	hdrs := [][2]string{{"X-Skip", "1"}, {"x_skip", "1"}, {"Cookie", "admin"}, {"X-Requested-With", "XMLHttpRequest"}, {"x_no_cache", "1"}, {"X_Internal_call", "yes"}, {"X-Any", "*"}, {"User-Agent", "bot/1.0 (x; y)"}, {"Accept", "*/*"}}
	for i := 0; i < core.N(8000, 150000) && !c.Stopped(); i++ {
		r := c.Rand("excl", i)
		cfg := defaultConfig()
		cfg.Strict = r.P(.7)
		ex := &cache.Exclude{}
		cfg.Exclude = ex
		if r.P(.05) { // many which do not match
			for n := r.Range(5, 60); n > 0; n-- {
				ex.Path = append(ex.Path, fmt.Sprintf("^/none/%d$", n))
				ex.Content = append(ex.Content, cache.Content{Type: fmt.Sprintf("^none/%d$", n), Size: core.Pick(r, 0, 10)})
				if ex.Header == nil {
					ex.Header = map[string]string{}
				}
				ex.Header[fmt.Sprintf("x_none_%d", n)] = "1"
			}
			c.Count("long_lists", 1)
		}
		for n := r.Intn(3); n > 0; n-- {
			ex.Path = append(ex.Path, core.Pick(r, patterns...))
		}
		for n := core.Pick(r, 0, 0, 1, 1, 2, 3); n > 0; n-- {
			kv := core.Pick(r, hdrs...)
			if ex.Header == nil {
				ex.Header = map[string]string{}
			}
			ex.Header[kv[0]] = kv[1]
		}
		for n := r.Intn(3); n > 0; n-- {
			ex.Content = append(ex.Content, cache.Content{Type: core.Pick(r, ctPat...), Size: core.Pick(r, 0, 0, 10, 100, 1000, -1)})
		}
		path := core.Pick(r, paths...)
		ct := core.Pick(r, types...)
		unknown := r.P(.3)
		unpacked := unknown && r.P(.3)
		size := core.Pick(r, 0, 9, 10, 11, 100, 101, 5000)
		if r.P(.03) || unknown && r.P(.15) {
			size = core.Pick(r, 65535, 65536, 65537, 70000, 300000)
		}
		if unknown && r.P(.015) {
			size = core.Pick(r, 5<<20, 9<<20, 1<<20+1, 17<<20)
			if len(ex.Content) > 0 && r.P(.6) {
				ex.Content[len(ex.Content)-1] = cache.Content{Type: ".*", Size: core.Pick(r, 1<<20, 32<<20, size, size-1)}
				ct = "text/plain"
				c.Count("megabytes_excluded_by_size", 1)
			}
		}
		body := r.Bytes(size)
		rh := http.Header{}
		for n := r.Intn(3); n > 0; n-- {
			kv := core.Pick(r, hdrs...)
			rh.Set(strings.ReplaceAll(kv[0], "_", "-"), core.Pick(r, kv[1], kv[1], kv[1], "other", strings.ToUpper(kv[1])+"", strings.ToLower(kv[1]), kv[1]+"x", " "+kv[1], "x"+kv[1], ""))
		}
		up := strings.ReplaceAll(strings.ReplaceAll(path, "%61", "a"), "%2F", "/")
		match := func(p, s string) bool { re, err := regexp.Compile(p); return err == nil && re.MatchString(s) }
		excl, how := false, ""
		for _, p := range ex.Path {
			if match(p, up) {
				excl, how = true, "path"
			}
		}
		for k, v := range ex.Header {
			if rh.Get(strings.ReplaceAll(k, "_", "-")) == v {
				excl, how = true, "header"
			}
		}
		method := core.Pick(r, "GET", "GET", "GET", "HEAD")
		excluded := excl
		content := false
		total := size
		for _, k := range ex.Content {
			if ct != "" && match(k.Type, ct) && (k.Size <= 0 || total > k.Size) {
				content = true
			}
		}
		if content && !excl {
			excl, how = true, "content"
		}
		pre := r.P(.4) // something was stored before the exclusion was configured
		name := fmt.Sprintf("exclude %+v path %s type %q size %d unknown=%v header %v method %s prior=%v strict=%v", *ex, path, ct, size, unknown, rh, method, pre, cfg.Strict)
		directed(t, c, cfg, name, func(s *script) {
			u := "http://up.test" + path
			s.next = func(x *Exchange, q *http.Request) *OResp {
				h := cacheable("Cache-Control", "max-age=100000", "Etag", `"e"`)
				if ct != "" {
					h.Set("Content-Type", ct)
				}
				o := s.full(200, h, nil)
				o.Body = body
				o.Unknown, o.Unpacked = unknown, unpacked
				return o
			}
			if pre {
				s.H.UpdateConfig(defaultConfig())
				s.get(u)
				s.H.UpdateConfig(cfg)
			}
			if method == "HEAD" {
				q := s.do("HEAD", u, rh)
				if excluded && q.Hit() {
					s.fail("excluded-served:"+how, "an excluded request (%s) was answered from cache", how)
				}
				return
			}
			first := s.do("GET", u, rh)
			if len(first.X) > 0 {
				if d := sentFields(rh, first.X[0].Header); d != "" {
					s.fail("request-changed", "the request reached upstream changed: %s", d)
					return
				}
			}
			if excluded && (first.Hit() || first.Header.Get("X-Kache") != "") {
				s.fail("excluded-served:"+how, "an excluded request (%s) was answered from cache", how)
				return
			}
			if first.BodyErr != nil || !bytes.Equal(first.Body, body) || first.Err != nil {
				s.fail("excluded-changed", "delivered %d bytes (%v, %v) which are not the %d upstream sent", len(first.Body), first.Err, first.BodyErr, size)
				return
			}
			if pre {
				if !excluded && !first.Hit() {
					s.fail("not-excluded-not-served", "a request which is not excluded was not served from what is stored")
				}
				// what was stored before must survive requests which are merely excluded
				s.H.UpdateConfig(defaultConfig())
				if q := s.do("GET", u, nil); !q.Hit() || q.ID() != 1 {
					s.fail("exclusion-dropped", "an excluded request changed what is stored (hit=%v id=%d)", q.Hit(), q.ID())
				}
				s.c.Count("excluded", 1)
				return
			}
			second := s.do("GET", u, rh)
			switch {
			case excl && second.Hit():
				s.fail("excluded-served:"+how, "an excluded response (%s) was stored and served from cache", how)
			case !excl && (!second.Hit() || second.ID() != first.ID()):
				s.fail("not-excluded-not-served", "a response which matches no exclusion was not served from cache")
			}
			if excl {
				// not stored at all
				s.H.UpdateConfig(defaultConfig())
				if q := s.do("GET", u, nil); q.Hit() {
					s.fail("excluded-stored:"+how, "an excluded response (%s) had been stored", how)
				}
				s.c.Count("excluded_"+how, 1)
			} else {
				s.c.Count("not_excluded", 1)
			}
		})
	}
	// A validation which makes the response an excluded one: it is not kept.
	for _, how := range []string{"type", "path", "header"} {
		for _, keep := range []bool{false, true} {
			directed(t, c, nil, fmt.Sprintf("validated into an exclusion by %s, keep=%v", how, keep), func(s *script) {
				s.next = func(x *Exchange, q *http.Request) *OResp {
					h := cacheable("Cache-Control", "max-age=10", "Etag", `"e"`, "Content-Type", "text/plain")
					if q.Header.Get("If-None-Match") != "" {
						if how == "type" && !keep {
							h.Set("Content-Type", "image/png")
						}
						return s.notModified(h)
					}
					return s.full(200, h, []byte("b"))
				}
				id := s.get(u0).ID()
				time.Sleep(20 * time.Second)
				cfg := defaultConfig()
				cfg.Exclude = &cache.Exclude{Content: []cache.Content{{Type: "^image/"}}}
				if !keep && how == "path" {
					cfg.Exclude.Path = []string{"^/x"}
				}
				if !keep && how == "header" {
					cfg.Exclude.Header = map[string]string{"X-Skip": "1"}
				}
				s.H.UpdateConfig(cfg)
				r := s.get(u0, "X-Skip", "1")
				excluded := !keep && how != "type"
				if excluded == (r.ID() == id) {
					s.fail("validated", "the response to a request (excluded=%v) is id=%d, stored is id=%d", excluded, r.ID(), id)
				}
				time.Sleep(time.Second)
				if r := s.get(u0); r.Hit() != keep {
					s.fail("excluded-served:validated", "after a validation (its result excluded=%v), served from cache=%v", !keep, r.Hit())
				}
				s.c.Count("validated_exclusion", 1)
			})
		}
	}
	// Excluded requests share nothing with others in flight.
	for i := 0; i < core.N(1500, 15000) && !c.Stopped(); i++ {
		r := c.Rand("exclconc", i)
		cfg := defaultConfig()
		cfg.Strict = r.P(.7)
		cfg.Exclude = &cache.Exclude{Header: map[string]string{"X-Skip": "1"}, Path: []string{"^/out", "^/a b$", "/ü/"}, Content: []cache.Content{{Type: "^image/"}}}
		directed(t, c, cfg, fmt.Sprintf("concurrent exclusions %d", i), func(s *script) {
			s.next = func(x *Exchange, q *http.Request) *OResp {
				o := s.full(200, cacheable("Cache-Control", "max-age=60", "Content-Type", "text/plain"), []byte("0123456789"))
				o.Delay = time.Duration(r.Intn(20)) * time.Millisecond
				return o
			}
			n := r.Range(2, 10)
			out, excl := make([]*CResp, n), make([]bool, n)
			var wg sync.WaitGroup
			for k := range out {
				u, h, at := u0, http.Header{}, time.Duration(r.Intn(20))*time.Millisecond
				switch r.Intn(3) {
				case 0:
					u, excl[k] = "http://up.test"+core.Pick(r, "/out", "/out", "/%6Fut", "/%6fut", "/a%20b", "/x/%C3%BC/y", "/out%2Fx"), true
				case 1:
					excl[k] = true
					h.Set("X-Skip", "1")
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(at)
					out[k] = s.Do(context.Background(), "GET", u, h, nil)
				}()
			}
			wg.Wait()
			users := map[int]int{}
			for _, q := range out {
				users[q.ID()]++
			}
			for k, q := range out {
				s.lines = append(s.lines, fmt.Sprintf("client %d: %s excluded=%v -> id=%d err=%v", k, q.URL, excl[k], q.ID(), q.Err))
				if q.Err != nil || q.ID() == 0 || len(q.Body) == 0 {
					s.fail("excluded-failed", "client %d failed: %v", k, q.Err)
				} else if excl[k] && (users[q.ID()] > 1 || s.O.all[q.ID()-1].Label != q.Label) {
					s.fail("excluded-shared", "client %d, whose request is excluded, got a response made for another (id=%d, %d users)", k, q.ID(), users[q.ID()])
				} else if x := s.O.all[q.ID()-1]; !excl[k] && (x.Header.Get("X-Skip") != "" || x.URL != u0) {
					s.fail("excluded-shared", "client %d got the response to an excluded request", k)
				}
				if excl[k] {
					s.c.Count("excluded_concurrent", 1)
				}
			}
		})
	}
	c.Done("a case is a random exclude configuration (0-2 path patterns, 0-3 headers, 0-2 content types with size limits, invalid patterns included) with one request and response "+
		"(path, header, type, size around the limits, known or unknown length), with or without a response stored before; distinct by all of these.",
		"excluded_path", "excluded_header", "excluded_content", "not_excluded", "excluded", "excluded_concurrent", "validated_exclusion")
}

// C14: default and forced Cache-Control.
func TestC14(t *testing.T) {
	c := core.New(t, "C14")
	defs := []string{"", "max-age=30", "no-store", "public, max-age=5", "private", "no-cache", "max-age=0", "s-maxage=20, max-age=1"}
	upCC := []string{"-", "", "max-age=100", "no-store", "private", "no-cache", "public", "max-age=3"}
	for _, def := range defs {
		for _, cc := range upCC {
			for _, force := range []bool{false, true} {
				for _, strict := range []bool{true, false} {
					for _, etag := range []string{"", `"e"`} {
						cfg := defaultConfig()
						cfg.Strict, cfg.DefaultCacheControl, cfg.ForceCacheControl = strict, def, force
						directed(t, c, cfg, fmt.Sprintf("default %q force=%v upstream %q strict=%v etag=%q", def, force, cc, strict, etag), func(s *script) {
							want := cc
							if def != "" && (force || cc == "-") {
								want = def
							}
							hd := cacheable()
							if cc != "-" {
								hd.Set("Cache-Control", cc)
							}
							if etag != "" {
								hd.Set("Etag", etag)
							}
							s.next = func(x *Exchange, q *http.Request) *OResp {
								h := hd.Clone()
								h.Set(date())
								if e := q.Header.Get("If-None-Match"); e != "" && e == etag {
									return s.notModified(h)
								}
								return s.full(200, h, []byte("b"))
							}
							eff := http.Header{}
							if want != "-" {
								eff.Set("Cache-Control", want)
							}
							for k, dt := range []time.Duration{0, 0, 2, 4, 10, 20, 40, 200} {
								time.Sleep(dt * time.Second)
								q := s.get(u0)
								_, present := q.Header["Cache-Control"]
								if got := strings.Join(q.Header["Cache-Control"], "|"); want == "-" && present || want != "-" && got != want {
									s.fail("cache-control", "request %d: delivered Cache-Control %q (present=%v), want %q", k, got, present, want)
									return
								}
								if strict && q.Hit() && !storable(200, eff, nil) {
									s.fail("stored-against-effective", "the effective Cache-Control %q forbids storing, but the response was served from cache", want)
								}
								if q.Hit() {
									s.c.Count("hits", 1)
								}
								s.c.Count("effective_checked", 1)
							}
							// freshness follows the effective value
							if strict {
								q1 := s.get(u0, "Cache-Control", "no-cache")
								last := s.O.all[len(s.O.all)-1]
								for _, dt := range []time.Duration{1, 1, 1, 1, 2, 15, 15, 60, 60} {
									time.Sleep(dt * time.Second)
									eff.Set("Date", httpDate(last.End))
									v, why := usable(eff, last.End, time.Now(), nil)
									if !storable(200, eff, nil) {
										v = mustValidate
									}
									q := s.get(u0)
									if v == mustValidate && q.Hit() {
										s.fail("effective-stale", "served from cache under effective Cache-Control %q: %s", want, why)
									}
									if v == mustServe && (!q.Hit() || q.ID() != q1.ID()) {
										s.fail("effective-not-served", "effective Cache-Control %q makes the response fresh, but upstream was contacted", want)
									}
									if !q.Hit() {
										break
									}
								}
							}
							// bypassed requests are not touched
							b := s.get(u0, "Authorization", "x")
							wantB := strings.TrimPrefix(cc, "-")
							if got := b.Header.Get("Cache-Control"); got != wantB {
								s.fail("bypass-changed", "a bypassed response has Cache-Control %q, upstream sent %q", got, wantB)
							}
						})
					}
				}
			}
		}
	}
	p := baseProfile()
	p.cfg = func(r *core.R, cfg *cache.HttpCacheConfig) {
		cfg.DefaultCacheControl = core.Pick(r, "max-age=20", "no-store", "private, max-age=9", "no-cache", "max-age=60, must-revalidate")
		cfg.ForceCacheControl = r.P(.5)
	}
	for _, q := range []string{"C01", "C02", "C03", "C07"} {
		for i := 0; i < core.N(800, 10000) && !c.Stopped(); i++ {
			runHistoryAs(t, c, q, p, i)
		}
	}
	c.Done(histRule+"All with a default or forced Cache-Control, judged by the fidelity, storage, staleness and effectiveness monitors on the effective header. Directed: 8 configured values x 8 upstream values x forced or not x both modes x with and without validator.", "effective_checked", "hits")
}
