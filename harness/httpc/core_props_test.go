//go:build go1.25

package httpc

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// C01: exactly what upstream sent is delivered.
func TestC01(t *testing.T) {
	c := core.New(t, "C01")
	p := baseProfile()
	p.pBig = .1
	p.pForbid = .1
	histories(t, c, "C01", p, core.N(2500, 30000))

	for _, size := range []int{1<<20 + 1, 5 << 20, 17 << 20, 33 << 20} {
		for _, unknown := range []bool{false, true} {
			directed(t, c, nil, fmt.Sprintf("body of %d bytes, unknown length=%v", size, unknown), func(s *script) {
				body := core.NewR(int64(size)).Bytes(size)
				h := cacheable("Cache-Control", "max-age=60", "Content-Type", "text/plain")
				s.next = func(x *Exchange, r *http.Request) *OResp {
					o := s.full(200, h, nil)
					o.Body, o.Unknown = body, unknown
					return o
				}
				for i := range 2 {
					r := s.get(u0)
					if r.Err != nil || r.BodyErr != nil || r.Status != 200 || !bytes.Equal(r.Body, body) {
						s.fail("body", "request %d: delivered %d with %d of %d bytes, %v %v", i, r.Status, len(r.Body), size, r.Err, r.BodyErr)
					}
					if i > 0 && !r.Hit() {
						s.fail("not-stored", "request %d was not served from cache", i)
					}
					s.c.Count("megabytes_checked", size>>20)
				}
			})
		}
	}
	bodies := map[string]string{
		"empty": "", "crlf": "\r\n\r\n", "status-line": "HTTP/1.1 500 X\r\nA: b\r\n\r\n", "nul": "\x00\x01\xff\xfe",
		"text": "line one\nline two\n", "spaces": " \t \r\n", "newlines": "\n\n\n",
		"chunky": "5\r\nhello\r\n0\r\n\r\n", "64k": strings.Repeat("0123456789abcdef", 4096), "1M": strings.Repeat("x", 1<<20),
	}
	for bn, b := range bodies {
		for _, status := range []int{200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 451, 501} {
			for _, framing := range []string{"length", "chunked", "close"} {
				unknown := framing != "length"
				directed(t, c, nil, fmt.Sprintf("body %s status %d framing %s", bn, status, framing), func(s *script) {
					h := cacheable("Cache-Control", "max-age=60", "X-A", "1", "X-A", "2", "Set-Cookie", "a=b; Path=/", "Set-Cookie", "c=d",
						"Location", "http://up.test/y?z=%20", "Content-Type", "x/y; charset=\"q\"", "Link", "<a>; rel=b", "X-Utf", "\u00e4\u00f6")
					s.next = func(x *Exchange, r *http.Request) *OResp {
						o := s.full(status, h, []byte(b))
						if bn == "empty" || status == 204 {
							o.Body = nil
						}
						o.Unknown, o.Delim = unknown, framing == "close"
						return o
					}
					for i := 0; i < 3; i++ {
						r := s.get(u0)
						if r.Err != nil || r.Panicked != nil || r.BodyErr != nil {
							s.fail("error", "request %d failed: %v %v %v", i, r.Err, r.BodyErr, r.Panicked)
							return
						}
						o := s.O.all[0].Resp
						if r.Status != status || !bytes.Equal(r.Body, o.Body) {
							s.fail("body", "request %d: delivered %d with %d bytes, want %d with %d bytes", i, r.Status, len(r.Body), status, len(o.Body))
						}
						if d := diffHeader(o.Header, r.Header, "X-Kache"); d != "" {
							s.fail("header", "request %d: %s", i, d)
						}
						if i > 0 && !r.Hit() {
							s.fail("not-stored", "request %d was not served from cache", i)
						}
						s.c.Count("fidelity_checked", 1)
						time.Sleep(time.Second)
					}
				})
			}
		}
	}
	// A response which breaks off is never delivered as complete, and never stored.
	for _, n := range []int{0, 1, 10, 5000} {
		for k := range 16 {
			unknown, strict, size := k&1 != 0, k&2 == 0, []int{0, 5, 6000, 20000}[k>>2] // exclusion limit
			cfg := defaultConfig()
			cfg.Strict = strict
			if size > 0 {
				cfg.Exclude = &cache.Exclude{Content: []cache.Content{{Type: "^text/", Size: size}}}
			}
			directed(t, c, cfg, fmt.Sprintf("cut after %d unknown=%v strict=%v, excluded from %d", n, unknown, strict, size), func(s *script) {
				h := cacheable("Cache-Control", "max-age=60", "Etag", `"a"`, "Content-Type", "text/plain")
				cut := true
				s.next = func(x *Exchange, r *http.Request) *OResp {
					o := s.full(200, h, bytes.Repeat([]byte("z"), 10000))
					o.Unknown = unknown
					if cut {
						o.Cut = n + 1
					}
					return o
				}
				r := s.get(u0)
				o := s.O.all[0].Resp
				if r.Err == nil && r.BodyErr == nil && r.Panicked == nil {
					s.fail("truncated-complete", "upstream broke off after %d bytes, but %d bytes were delivered as the complete body", n, len(r.Body))
				}
				if !bytes.HasPrefix(o.Body, r.Body) {
					s.fail("corrupt", "bytes delivered of a broken response are not a prefix of it")
				}
				cut = false
				r = s.get(u0)
				o = s.O.all[len(s.O.all)-1].Resp
				if r.Hit() || !bytes.Equal(r.Body, o.Body) {
					s.fail("truncated-stored", "after a broken response: hit=%v, %d bytes delivered, want a complete fetch of %d", r.Hit(), len(r.Body), len(o.Body))
				}
				s.c.Count("cut_checked", 1)
			})
		}
	}
	c.Done(histRule+"Directed: 10 body kinds x 13 statuses x 3 framings (declared length, chunked, ended by the connection), each delivered by fetch and twice from cache; bodies cut at 4 points, in both modes, with and without content exclusions of 3 sizes.",
		"fidelity_checked", "hits", "stored", "validated_refreshed", "cut_checked", "megabytes_checked")
}

// C02: what must not be stored is not stored.
func TestC02(t *testing.T) {
	c := core.New(t, "C02")
	p := baseProfile()
	p.pForbid = .5
	p.pReqCC = .4
	p.pUnsafe = .08
	p.pBypass = .1
	histories(t, c, "C02", p, core.N(2500, 30000))

	// Response and request combinations which must not be stored: neither served nor used to make
	// a later upstream request conditional, whatever staleness the later request accepts.
	type row struct {
		status int
		resp   []string
		req    []string
		why    string
	}
	var rows []row
	fresh := []string{"Cache-Control", "max-age=600"}
	for st := 200; st < 600; st++ {
		if st == 304 || cacheableStatus[st] || http.StatusText(st) == "" {
			continue
		}
		rows = append(rows, row{st, fresh, nil, "status"})
	}
	for _, d := range []string{"no-store", "private", "No-Store", "PRIVATE", `private="x"`, "no-store, max-age=600", "max-age=600, no-store",
		"max-age=600,private", "s-maxage=600, PRIVATE", "public, max-age=600, no-store", " no-store ", "max-age=600 ,\tno-store", "no-cache, no-store"} {
		rows = append(rows, row{200, []string{"Cache-Control", d, "Expires", "Fri, 01 Jan 2100 00:00:00 GMT"}, nil, "directive"})
		rows = append(rows, row{200, []string{"Cache-Control", "max-age=600", "Cache-Control", d}, nil, "directive second line"})
		rows = append(rows, row{404, []string{"Cache-Control", d, "Cache-Control", "max-age=600"}, nil, "directive first line"})
	}
	for _, d := range []string{"no-store", "No-Store", "max-age=4, no-store", "no-cache,no-store"} {
		rows = append(rows, row{200, fresh, []string{"Cache-Control", d}, "request no-store"})
		rows = append(rows, row{200, fresh, []string{"Cache-Control", "min-fresh=1", "Cache-Control", d}, "request no-store second line"})
	}
	for _, d := range [][]string{nil, {"Cache-Control", "public"}, {"Cache-Control", "max-age=abc"}, {"Cache-Control", "max-age="}, {"Cache-Control", "must-revalidate"},
		{"Cache-Control", "max-age=-5"}, {"Cache-Control", ""}, {"Last-Modified", "Fri, 01 Jan 1999 00:00:00 GMT"}} {
		rows = append(rows, row{200, d, nil, "no expiration"})
	}
	for _, rw := range rows {
		for _, prior := range []bool{false, true} {
			directed(t, c, nil, fmt.Sprintf("%s: %d %v request %v prior=%v", rw.why, rw.status, rw.resp, rw.req, prior), func(s *script) {
				if prior { // something is stored, which the unstorable response replaces
					s.answer(200, cacheable("Cache-Control", "max-age=1", "Etag", `"prior"`), "prior")
					s.get(u0)
					time.Sleep(5 * time.Second)
				}
				h := cacheable(rw.resp...)
				h.Set("Etag", `"forbidden"`)
				h.Set("Last-Modified", "Fri, 01 Jan 1999 00:00:00 GMT")
				s.answer(rw.status, h, "forbidden")
				r1 := s.get(u0, rw.req...)
				if len(r1.X) != 1 || r1.ID() != r1.X[0].Resp.ID {
					s.fail("not-delivered", "the unstorable response itself was not delivered")
					return
				}
				for i := 0; i < 2; i++ {
					r2 := s.get(u0, []string{"Cache-Control", "max-stale"}[:2*(1-i)]...)
					if r2.Hit() {
						s.fail("forbidden-served:"+rw.why, "a response that must not be stored (%s) was served from cache", rw.why)
						return
					}
					if v := r2.X[0].Header.Get("If-None-Match") + r2.X[0].Header.Get("If-Modified-Since"); v != "" {
						s.fail("forbidden-used:"+rw.why, "upstream was asked conditionally (%s) after an unstorable response (%s)", v, rw.why)
						return
					}
					if rw.why == "request no-store" || rw.why == "request no-store second line" {
						break // the second request may store
					}
				}
				s.c.Count("unstorable", 1)
			})
		}
	}
	c.Done(histRule+"Directed: every non-cacheable status code, 13 spellings of no-store/private in 3 positions, request no-store, and missing expirations, with and without a previously stored response.",
		"unstorable", "hits", "stored")
}

// C03: nothing stale is served without validation.
func TestC03(t *testing.T) {
	c := core.New(t, "C03")
	p := baseProfile()
	p.pReqCC = .5
	p.pBadDate = .15
	p.pAge = .25
	p.pForbid = .05
	p.pChange = .5
	histories(t, c, "C03", p, core.N(2500, 40000))

	// The grid of freshness information, age and request directives around every edge.
	resp := [][]string{
		{"Cache-Control", "max-age=10"}, {"Cache-Control", "max-age=10, must-revalidate"}, {"Cache-Control", "max-age=10, Proxy-Revalidate"},
		{"Cache-Control", "max-age=100, s-maxage=10"}, {"Cache-Control", "s-maxage=10, max-age=100"}, {"Cache-Control", "max-age=10, no-cache"},
		{"Cache-Control", "MAX-AGE=10"}, {"Cache-Control", "public", "Cache-Control", "max-age=10"}, {"Cache-Control", `max-age="10"`},
		{"Cache-Control", "no-cache"}, {"Cache-Control", "max-age=0"}, {"Cache-Control", "max-age=2147483648"},
		{"Expires", "+10"}, {"Expires", "+0"}, {"Expires", "-10"}, {"Expires", "0"}, {"Expires", "garbage"}, {"Expires", "+10", "Cache-Control", "max-age=3"},
		{"Expires", "+3", "Cache-Control", "max-age=10"}, {"Cache-Control", "max-age=10", "Age", "4"}, {"Cache-Control", "max-age=10", "Age", "11"},
		{"Cache-Control", "max-age=10", "Date", "-4"}, {"Cache-Control", "max-age=10", "Date", "-11"}, {"Cache-Control", "max-age=10", "Date", "+20"},
		{"Cache-Control", "max-age=10", "Date", ""}, {"Cache-Control", "max-age=10", "Date", "bad"}, {"Cache-Control", "max-age=10", "Date", "-4", "Age", "7"},
		{"Cache-Control", "max-age=10", "Date", "-7", "Age", "4"},
	}
	for _, bad := range []string{"1h5", "1h", "5m", "2h30m1", "10.5", "+10", "-10", "0x10", "1e3", "1_000", "ten", "not-a-number-at-all", "10 s", "10;20", "1h59m59", ""} {
		resp = append(resp, []string{"Cache-Control", "max-age=" + bad}, []string{"Cache-Control", "s-maxage=" + bad, "Expires", "+4"})
	}
	reqs := [][]string{nil, {"Cache-Control", "no-cache"}, {"Cache-Control", "No-Cache"}, {"Pragma", "no-cache"}, {"Cache-Control", "max-age=0"},
		{"Cache-Control", "max-age=5"}, {"Cache-Control", "min-fresh=5"}, {"Cache-Control", "MIN-FRESH=5"}, {"Cache-Control", "max-stale"}, {"Cache-Control", "max-stale=5"},
		{"Cache-Control", "max-stale=5, max-age=8"}, {"Cache-Control", "max-stale=5", "Cache-Control", "no-cache"}, {"Cache-Control", "max-age=100", "Pragma", "no-cache"},
		{"Cache-Control", "min-fresh=0"}, {"Cache-Control", "max-stale=0"}, {"Cache-Control", `max-age="5"`}, {"Cache-Control", `min-fresh="5"`},
		{"Cache-Control", `max-stale="5"`}}
	for _, rs := range resp {
		for _, rq := range reqs {
			directed(t, c, nil, fmt.Sprintf("grid resp %v req %v", rs, rq), func(s *script) {
				s.next = func(x *Exchange, r *http.Request) *OResp {
					h := http.Header{}
					h.Set(date())
					for i := 0; i < len(rs); i += 2 {
						v := rs[i+1]
						switch {
						case rs[i] == "Date" && v == "":
							h.Del("Date")
							continue
						case (rs[i] == "Date" || rs[i] == "Expires") && (v[0] == '+' || v[0] == '-'):
							n, _ := strconv.Atoi(v)
							v = httpDate(time.Now().Add(time.Duration(n) * time.Second))
							h.Set(rs[i], v)
							continue
						case rs[i] == "Date":
							h.Set("Date", v)
							continue
						}
						h.Add(rs[i], v)
					}
					return s.full(200, h, []byte("b"))
				}
				for _, wait := range []time.Duration{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 100} {
					s.get(u0, "Cache-Control", "no-cache") // renew
					o := s.O.all[len(s.O.all)-1]
					rt := o.End
					time.Sleep(wait * time.Second)
					before := len(s.O.all)
					r := s.get(u0, rq...)
					v, why := usable(o.Resp.Header, rt, time.Now(), r0(rq))
					if v == mustValidate && len(s.O.all) == before {
						s.fail("stale-served:"+why, "%d s after it was received, a response was served without validation: %s", wait, why)
						return
					}
					if v == mustServe && len(s.O.all) == before {
						s.c.Count("fresh_hits", 1)
					}
					if v == mustValidate {
						s.c.Count("grid_must_validate", 1)
					}
					if r.ID() == 0 {
						s.fail("lost", "no response was delivered")
						return
					}
				}
			})
		}
	}
	c.Done(histRule+"Directed: 60 response freshness forms (32 of them malformed) x 18 request directive forms x 17 ages, checked against an independent RFC 9111 oracle.",
		"hits", "fresh_hits", "max_stale_hits", "revalidations", "grid_must_validate")
}

func r0(kv []string) http.Header { return hdr(kv...) }

// C04: validation.
func TestC04(t *testing.T) {
	c := core.New(t, "C04")
	p := baseProfile()
	p.pForbid = .05
	p.pChange = .35
	p.pReqCC = .3
	p.pErr = .02
	histories(t, c, "C04", p, core.N(2500, 40000))

	etags := []string{"", `"a"`, `W/"a"`, `"q\\u00"`, "unquoted"}
	lms := []string{"", "Fri, 01 Jan 1999 00:00:00 GMT", "not a date", "the Date"}
	for _, etag := range etags {
		for _, lm := range lms {
			for _, status := range []int{200, 301, 404} {
				for _, outcome := range []string{"304", "304+headers", "200", "500", "err", "304-mismatch", "304-mismatch-weak", "304-strong", "304-nostore", "304-length", "404"} {
					if outcome == "304-strong" && !strings.HasPrefix(etag, "W/") {
						continue
					}
					directed(t, c, nil, fmt.Sprintf("etag=%q lm=%q status=%d outcome=%s", etag, lm, status, outcome), func(s *script) {
						h := cacheable("Cache-Control", "max-age=10", "X-Keep", "k", "X-Upd", "old")
						if etag != "" {
							h.Set("Etag", etag)
						}
						lm := lm
						if lm == "the Date" {
							_, lm = date()
						}
						if lm != "" {
							h.Set("Last-Modified", lm)
						}
						s.answer(status, h, "stored")
						r1 := s.get(u0)
						time.Sleep(20 * time.Second)
						s.next = func(x *Exchange, r *http.Request) *OResp {
							n := http.Header{}
							n.Set(date())
							switch outcome {
							case "200", "500", "404":
								n.Set("Cache-Control", "max-age=10")
								n.Set("Etag", `"new"`)
								st, _ := strconv.Atoi(outcome)
								return s.full(st, n, []byte("replacement"))
							case "err":
								return &OResp{Err: errUpstream}
							case "304+headers":
								n.Set("X-Upd", "new")
								n.Set("X-Added", "yes")
								n.Set("Cache-Control", "max-age=50")
							case "304-mismatch":
								n.Set("Etag", `"other"`)
							case "304-mismatch-weak":
								n.Set("Etag", `W/"other"`)
							case "304-strong": // the tag of another representation
								n.Set("Etag", strings.TrimPrefix(etag, "W/"))
							case "304-length":
								n.Set("Content-Length", "0")
								n.Set("Content-Range", "bytes 0-1/2")
							case "304-nostore":
								n.Set("Cache-Control", "no-store")
							}
							return s.notModified(n)
						}
						custom := []string{"X-Custom", "c", "Cache-Control", "max-age=5", "Cookie", "a=b", "X-Two", "1", "X-Two", "2"}
						r2 := s.get(u0, custom...)
						if len(r2.X) != 1 {
							s.fail("no-validation", "a stale response led to %d upstream contacts", len(r2.X))
							return
						}
						x := r2.X[0]
						if x.Header.Get("If-None-Match") != etag || x.Header.Get("If-Modified-Since") != lm {
							s.fail("validators", "conditional request carried If-None-Match %q If-Modified-Since %q, stored validators are %q %q",
								x.Header.Get("If-None-Match"), x.Header.Get("If-Modified-Since"), etag, lm)
							return
						}
						if d := sentFields(hdr(custom...), x.Header); d != "" || x.Method != "GET" || x.URL != u0 {
							s.fail("request-changed", "the validation request differs from the client's: %s %s %s", x.Method, x.URL, d)
							return
						}
						switch outcome {
						case "err":
							if r2.Err == nil {
								s.fail("error-hidden", "validation failed with an error but %d was delivered", r2.Status)
							}
							return
						case "200", "500", "404":
							if r2.ID() != x.Resp.ID {
								s.fail("not-replaced", "upstream replaced the response, id=%d was delivered instead of %d", r2.ID(), x.Resp.ID)
								return
							}
							s.c.Count("replaced", 1)
						default:
							if r2.ID() != r1.ID() || r2.Status != status || !bytes.Equal(r2.Body, r1.Body) {
								s.fail("not-the-stored", "after 304 id=%d status %d was delivered, stored is id=%d status %d", r2.ID(), r2.Status, r1.ID(), status)
								return
							}
							if d := lengthHeader(r2, r2.Body); d != "" {
								s.fail("length-header", "after 304: %s", d)
							}
							if r2.Header.Get("Content-Range") != "" {
								s.fail("range-header", "the Content-Range of a 304 was added to the response")
							}
							if r2.Header.Get("Age") != "" {
								s.fail("age", "a just validated response has Age %q", r2.Header.Get("Age"))
							}
							if r2.Header.Get("Etag") != etag {
								s.fail("wrong-etag", "the stored body was delivered with the entity tag %q instead of its own, %q", r2.Header.Get("Etag"), etag)
							}
							if r2.Header.Get("X-Keep") != "k" {
								s.fail("header-lost", "a stored header was lost by the 304")
							}
							if outcome == "304+headers" && (r2.Header.Get("X-Upd") != "new" || r2.Header.Get("X-Added") != "yes") {
								s.fail("header-not-merged", "headers of the 304 were not merged")
							}
							s.c.Count("validated", 1)
						}
						time.Sleep(5 * time.Second)
						want := map[string]bool{"304": true, "304+headers": true, "304-length": true, "200": true, "404": true}[outcome]
						r3 := s.get(u0)
						if want && (!r3.Hit() || r3.ID() != r2.ID()) {
							s.fail("not-refreshed", "after validation/replacement a new lifetime starts, but the next request was not served from cache (hit=%v id=%d)", r3.Hit(), r3.ID())
						}
						if !want && r3.Hit() {
							s.fail("refreshed", "outcome %s must not leave a servable response, but the next request was served from cache", outcome)
						}
						if outcome == "304+headers" && want {
							time.Sleep(40 * time.Second)
							r4 := s.get(u0)
							if !r4.Hit() || r4.Header.Get("X-Upd") != "new" || !bytes.Equal(r4.Body, r1.Body) {
								s.fail("update-not-stored", "the updated headers (new lifetime) were not stored: hit=%v", r4.Hit())
							}
						}
					})
				}
			}
		}
	}
	// The fields which tell the age, present or not on either side: a validated response is fresh again.
	for _, stored := range []string{"now", "-", "-5", "bad"} {
		for _, val := range []string{"now", "-", "bad"} {
			for _, life := range [][]string{{"Cache-Control", "max-age=10"}, {"Cache-Control", "s-maxage=10, max-age=1"}, {"Expires", "+10"}} {
				if life[0] == "Expires" && (stored == "bad" || stored == "-" || val != "now") {
					continue // no lifetime without a date
				}
				for _, etag := range []string{`"e"`, ""} {
					directed(t, c, nil, fmt.Sprintf("stored date %q, 304 date %q, %v etag %q", stored, val, life, etag), func(s *script) {
						mk := func(d string) http.Header {
							h := http.Header{}
							switch d {
							case "now":
								h.Set(date())
							case "-":
							case "bad":
								h.Set("Date", "bad")
							default:
								n, _ := strconv.Atoi(d)
								h.Set("Date", httpDate(time.Now().Add(time.Duration(n)*time.Second)))
							}
							h.Set(life[0], life[1])
							if life[0] == "Expires" {
								h.Set("Expires", httpDate(time.Now().Add(10*time.Second)))
							}
							return h
						}
						s.next = func(x *Exchange, r *http.Request) *OResp {
							if r.Header.Get("If-None-Match")+r.Header.Get("If-Modified-Since") != "" {
								return s.notModified(mk(val))
							}
							h := mk(stored)
							if etag != "" {
								h.Set("Etag", etag)
							} else {
								h.Set("Last-Modified", "Fri, 01 Jan 1999 00:00:00 GMT")
							}
							return s.full(200, h, []byte("b"))
						}
						id := s.get(u0).ID()
						for round := 0; round < 3; round++ {
							time.Sleep(20 * time.Second)
							r := s.get(u0)
							if len(r.X) != 1 || r.X[0].Resp.Status != 304 || r.ID() != id {
								s.fail("not-validated", "round %d: a stale response with a validator was not validated (id=%d, %d contacts)", round, r.ID(), len(r.X))
								return
							}
							if val == "-" && (stored == "-5" || stored == "now") {
								return // its age still counts from the old date
							}
							for i := 0; i < 2; i++ {
								time.Sleep(4 * time.Second)
								if r := s.get(u0); !r.Hit() || r.ID() != id {
									s.fail("not-refreshed", "round %d: %d s after its validation the response was not served from cache", round, 4*(i+1))
									return
								}
							}
							s.c.Count("validated", 1)
						}
					})
				}
			}
		}
	}
	c.Done(histRule+"Directed: with and without Date in either response; 5 entity tags x 3 modification dates x 3 stored statuses x 9 upstream answers to the validation.",
		"revalidations", "status_304", "validated_refreshed", "superseded", "replaced", "validated")
}

// C05: bypass.
func TestC05(t *testing.T) {
	c := core.New(t, "C05")
	p := baseProfile()
	p.pBypass = .4
	p.pUnsafe = .15
	p.pForbid = .05
	histories(t, c, "C05", p, core.N(2500, 30000))

	type bp struct {
		method string
		kv     []string
	}
	var cases []bp
	for _, kv := range bypassHeaders {
		for _, v := range []string{kv[1], "", "x, y", "*"} {
			for _, m := range []string{"GET", "HEAD"} {
				cases = append(cases, bp{m, []string{kv[0], v}})
			}
		}
	}
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "PROPFIND", "get", "PURGE", "CONNECT"} {
		cases = append(cases, bp{m, nil}, bp{m, []string{"Cache-Control", "max-stale"}})
	}
	for _, kv := range reqNoise { // none of it makes a bypassing request a different one
		cases = append(cases, bp{"POST", []string{kv[0], kv[1]}}, bp{"GET", []string{kv[0], kv[1], "Authorization", "Basic x"}},
			bp{"GET", []string{kv[0], kv[1], "Accept-Encoding", "br", "Accept", "a/b", "Accept-Language", "x", "Range", "bytes=1-", "Te", "trailers"}})
	}
	for _, b := range cases {
		for _, stored := range []bool{false, true} {
			directed(t, c, nil, fmt.Sprintf("%s %v stored=%v", b.method, b.kv, stored), func(s *script) {
				h := cacheable("Cache-Control", "max-age=600", "Etag", `"e"`)
				s.answer(200, h, "body")
				id := 0
				if stored {
					id = s.get(u0).ID()
				}
				kv := append([]string{"X-Req", "v1", "X-Req", "v2", "Cookie", "a=b"}, b.kv...)
				for i := 0; i < 2; i++ {
					st := 200
					if i == 1 {
						st = 405 // an error does not invalidate
					}
					s.answer(st, h, "direct")
					if b.method == "POST" && i == 0 {
						st = 200
					}
					r := s.do(b.method, u0, hdr(kv...))
					if len(r.X) != 1 || r.ID() != r.X[0].Resp.ID {
						s.fail("not-forwarded", "%s with %v led to %d upstream contacts, delivered id=%d", b.method, b.kv, len(r.X), r.ID())
						return
					}
					x := r.X[0]
					for k, vv := range hdr(kv...) {
						if strings.Join(x.Header[k], "|") != strings.Join(vv, "|") {
							s.fail("request-header", "request header %s reached upstream as %q, sent %q", k, x.Header[k], vv)
						}
					}
					for k := range x.Header {
						if _, ok := hdr(kv...)[k]; !ok {
							s.fail("request-header-added", "request header %s: %q was added", k, x.Header[k])
						}
					}
					if x.Method != b.method || x.URL != u0 || b.method != "GET" && b.method != "HEAD" && string(x.Body) != "payload" {
						s.fail("request-changed", "%s %s with body %q reached upstream", x.Method, x.URL, x.Body)
					}
					if r.Status != st || r.Header.Get("X-Kache") != "" || r.Header.Get("Age") != "" {
						s.fail("response-changed", "bypassed response was changed: %d %s", r.Status, fmtHeader(r.Header))
					}
					s.c.Count("bypass", 1)
				}
				// One which fails is not sent again on nobody's behalf.
				for _, body := range [][]byte{nil, []byte("payload")} {
					if body != nil && (b.method == "GET" || b.method == "HEAD") {
						continue
					}
					s.next = func(*Exchange, *http.Request) *OResp { return &OResp{Err: errUpstream} }
					if r := s.Do(context.Background(), b.method, u0, hdr(kv...), body); len(r.X) != 1 || r.Err == nil {
						s.fail("sent-again", "%s %v, which fails, led to %d upstream contacts and the error %v", b.method, b.kv, len(r.X), r.Err)
					}
					s.c.Count("bypass_failed", 1)
				}
				s.answer(200, h, "again")
				r := s.get(u0)
				unsafe := !map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true}[b.method]
				switch {
				case stored && !unsafe && r.ID() != id:
					s.fail("stored-affected", "a bypassing %s changed what is stored: id=%d is served, stored was id=%d", b.method, r.ID(), id)
				case !stored && r.Hit():
					s.fail("bypass-stored", "the response to a bypassing request was stored and served (id=%d)", r.ID())
				case stored && r.Hit() && r.ID() != id:
					s.fail("bypass-stored", "the response to a bypassing request was stored and served (id=%d)", r.ID())
				}
				s.c.Count("bypass_isolated", 1)
			})
		}
	}
	c.Done(histRule+"Directed: conditional, range and authorization headers x 4 values x GET/HEAD, and 10 other methods, with and without a stored response.",
		"bypass", "bypass_isolated", "bypass_failed", "hits")
}

// C07: what is fresh and storable is served from cache.
func TestC07(t *testing.T) {
	c := core.New(t, "C07")
	p := baseProfile()
	p.pForbid = .03
	p.pErr = 0
	p.pReqCC = .05
	p.pUnsafe = .02
	histories(t, c, "C07", p, core.N(2500, 30000))
	for _, st := range []int{200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 451, 501} {
		for _, h := range [][]string{{"Cache-Control", "max-age=100"}, {"Cache-Control", "S-MaxAge=100"}, {"Cache-Control", "public", "Cache-Control", "max-age=100, must-revalidate"},
			{"Expires", "+100"}, {"Cache-Control", "max-age=100", "Vary", "Accept"}, {"Cache-Control", "max-age=100", "Age", "2"}, {"Cache-Control", "max-age=100", "Date", "bad"}, {"Cache-Control", `max-age=100, x="y"`},
			{"Cache-Control", `max-age="100"`}, {"Cache-Control", `s-maxage="100", max-age=0`}, {"Cache-Control", "max-age=100", "Expires", "+0"}} {
			for _, rq := range [][]string{nil, {"Accept", "a/b"}, {"Cookie", "a=b"}, {"Cache-Control", "max-age=50"}, {"Cache-Control", "min-fresh=10"}, {"Cache-Control", "max-stale"}, {"Accept-Encoding", "gzip"}} {
				directed(t, c, nil, fmt.Sprintf("status %d %v request %v", st, h, rq), func(s *script) {
					hh := http.Header{}
					for i := 0; i < len(h); i += 2 {
						hh.Add(h[i], h[i+1])
					}
					if hh.Get("Date") == "" {
						hh.Set(date())
					}
					if hh.Get("Expires") != "" {
						n, _ := strconv.Atoi(hh.Get("Expires"))
						hh.Set("Expires", httpDate(time.Now().Add(time.Duration(n)*time.Second)))
					}
					s.answer(st, hh, strings.Repeat("b", st))
					r1 := s.get(u0, rq...)
					for i := 0; i < 4; i++ {
						time.Sleep(10 * time.Second)
						m := "GET"
						if i == 2 {
							m = "HEAD"
						}
						r := s.do(m, u0, hdr(rq...))
						if !r.Hit() || r.ID() != r1.ID() {
							s.fail("fresh-not-served", "a stored response is fresh, but %s contacted upstream (%d times)", m, len(r.X))
							return
						}
						s.c.Count("fresh_hits", 1)
					}
				})
			}
		}
	}
	// However large the response or long the request.
	for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} {
		for _, unknown := range []bool{false, true} {
			size, u := 10, u0
			switch k {
			case 0, 1, 2, 3:
				size = []int{1<<20 + 1, 5 << 20, 9 << 20, 20 << 20}[k]
			case 4, 5, 6:
				u = "http://up.test/" + strings.Repeat("p", []int{1020, 2100, 9000}[k-4])
			case 7, 8:
				u = "http://up.test/x?q=" + strings.Repeat("q", []int{1020, 9000}[k-7])
			case 9:
				u = "http://up.test" + strings.Repeat("/s", 700) + "?" + strings.Repeat("a=1&", 500)
			}
			if unknown && k > 3 {
				continue
			}
			pdr, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 200 << 20, MaxItemSize: 50 << 20})
			if err != nil {
				t.Fatal(err)
			}
			directedOn(t, c, nil, pdr, fmt.Sprintf("%d bytes at a URL of %d bytes, unknown length=%v", size, len(u), unknown), func(s *script) {
				s.next = func(x *Exchange, q *http.Request) *OResp {
					o := s.full(200, cacheable("Cache-Control", "max-age=100"), []byte(strings.Repeat("b", size)))
					o.Unknown = unknown
					return o
				}
				id := s.get(u).ID()
				for i := range 2 {
					time.Sleep(time.Duration(i) * 10 * time.Second)
					if r := s.get(u); !r.Hit() || r.ID() != id || len(r.Body) < size {
						s.fail("fresh-not-served:large", "a fresh response of %d bytes at a URL of %d bytes was not served from cache", size, len(u))
						return
					}
				}
				s.c.Count("large_hits", 1)
				s.c.Count("fresh_hits", 1)
			})
		}
	}
	// Right at the edge: an age equal to what the client accepts is acceptable.
	for age := 0; age <= 6; age++ {
		for _, rq := range []string{"max-age=%d", "Max-Age=%d", "max-age=%d, max-stale", "max-age=%d, min-fresh=1"} {
			directed(t, c, nil, fmt.Sprintf("age %d request %s", age, rq), func(s *script) {
				time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second)))
				s.answer(200, cacheable("Cache-Control", "max-age=100"), "b")
				id := s.get(u0).ID()
				time.Sleep(time.Duration(age) * time.Second)
				if r := s.get(u0, "Cache-Control", fmt.Sprintf("min-fresh=%d", 100-age)); !r.Hit() || r.ID() != id {
					s.fail("fresh-not-served:exact", "a response fresh for another %d s was not served from cache to a client which asks for that", 100-age)
				}
				if r := s.get(u0, "Cache-Control", fmt.Sprintf(rq, age)); !r.Hit() || r.ID() != id {
					s.fail("fresh-not-served:exact", "a response exactly %d s old was not served from cache to a client which accepts that age", age)
				}
				s.c.Count("fresh_hits", 1)
			})
		}
	}
	// What clients differ in besides: none of it matters without Vary.
	for _, kv := range append([][2]string{{"User-Agent", "Mozilla/5.0"}, {"Accept-Language", "de"}, {"Referer", "http://x.test/"}, {"Cookie", "sid=1; a=\"*\""}, {"X-Requested-With", "XMLHttpRequest"},
		{"Connection", "close"}, {"Upgrade-Insecure-Requests", "1"}, {"Via", "1.1 p"}, {"X-Forwarded-For", "1.2.3.4"}, {"Cache-Control", ""}, {"Cache-Control", "x-unknown=1, no-transform"},
		{"Cache-Control", "only-if-cached"}, {"Pragma", "x"}, {"Content-Type", "text/plain"}, {"Te", "trailers"}, {"Priority", "u=1"}, {"Sec-Fetch-Mode", "cors"}, {"Origin", "http://o.test"}, {"X-Kache", "MISS"}}, reqNoise...) {
		directed(t, c, nil, fmt.Sprintf("irrelevant %v", kv), func(s *script) {
			s.answer(200, cacheable("Cache-Control", "max-age=100"), "b")
			id := s.get(u0).ID()
			for i, m := range []string{"GET", "HEAD", "GET"} {
				if r := s.do(m, u0, http.Header{kv[0]: {kv[1]}}); !r.Hit() || r.ID() != id {
					s.fail("fresh-not-served:"+kv[0], "%s %d with %s: %s was not served from cache", m, i, kv[0], kv[1])
				}
			}
			s.c.Count("fresh_hits", 1)
		})
	}
	c.Done(histRule+"Directed: ages exactly at the limit the client accepts; 41 fields which do not matter; 13 statuses x 11 freshness forms x 7 requests, four later requests each.", "fresh_hits", "large_hits", "hits", "validated_refreshed")
}

// C08: supersession.
func TestC08(t *testing.T) {
	c := core.New(t, "C08")
	p := baseProfile()
	p.pChange = .6
	p.pUnsafe = .12
	p.pReqCC = .35
	p.pForbid = .25
	histories(t, c, "C08", p, core.N(2500, 40000))

	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "PROPPATCH"} {
		for _, st := range []int{200, 201, 204, 302, 303, 400, 404, 500} {
			for k := range 4 {
				strict, empty := k&1 == 0, k&2 != 0
				cfg := defaultConfig()
				cfg.Strict = strict
				directed(t, c, cfg, fmt.Sprintf("%s answered %d strict=%v empty=%v", m, st, strict, empty), func(s *script) {
					h := cacheable("Cache-Control", "max-age=600")
					s.answer(200, h, "old")
					old := s.get(u0).ID()
					other := s.get("http://up.test/other").ID()
					s.next = func(x *Exchange, q *http.Request) *OResp {
						o := s.full(st, h, []byte("changed"))
						if empty {
							o.Body = nil
						}
						return o
					}
					s.do(m, u0, nil)
					s.answer(200, h, "new")
					r := s.get(u0)
					if st < 400 && (r.Hit() || r.ID() == old) {
						s.fail("unsafe-not-invalidated", "after a successful %s (%d) the response stored before it was served", m, st)
					}
					if st >= 400 && r.ID() != old {
						s.fail("failed-unsafe-invalidated", "a failed %s (%d) made a stored response unusable", m, st)
					}
					if r := s.get("http://up.test/other"); r.ID() != other {
						s.fail("other-invalidated", "%s of another URL affected a stored response", m)
					}
					s.c.Count("unsafe_invalidations", 1)
				})
			}
		}
	}
	// So does an unsafe request which is exempt from caching.
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "LOCK", "PURGE"} {
		for _, kv := range append([][2]string{{"X-Skip", "1"}, {"Cookie", "admin"}, {"Cache-Control", "no-store"}, {"Cache-Control", "only-if-cached"}, {"Pragma", "no-cache"},
			{"Content-Range", "bytes 0-3/4"}, {"Expect", "100-continue"}}, bypassHeaders...) {
			for _, st := range []int{200, 202, 204, 206, 303, 304} {
				cfg := defaultConfig()
				cfg.Strict = st != 204
				cfg.Exclude = &cache.Exclude{Header: map[string]string{"X-Skip": "1", "Cookie": "admin"}}
				directed(t, c, cfg, fmt.Sprintf("%s with %s: %s answered %d", m, kv[0], kv[1], st), func(s *script) {
					h := cacheable("Cache-Control", "max-age=600")
					s.answer(200, h, "old")
					old := s.get(u0).ID()
					s.answer(st, h, "changed")
					s.do(m, u0, http.Header{kv[0]: {kv[1]}})
					s.answer(200, h, "new")
					if r := s.get(u0); r.Hit() || r.ID() == old {
						s.fail("unsafe-not-invalidated", "after a successful %s (%d) with %s: %s the response stored before it was served", m, st, kv[0], kv[1])
					}
					s.c.Count("unsafe_invalidations", 1)
				})
			}
		}
	}
	// What is stored while the unsafe request is under way is superseded by it as well.
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "LOCK"} {
		for k := range 8 {
			strict, body, prior := k&1 == 0, k&2 != 0, k&4 != 0
			cfg := defaultConfig()
			cfg.Strict = strict
			directed(t, c, cfg, fmt.Sprintf("%s under way while a response is stored, strict=%v body=%v prior=%v", m, strict, body, prior), func(s *script) {
				h := cacheable("Cache-Control", "max-age=600")
				s.answer(200, h, "old")
				if prior {
					s.get(u0)
				}
				s.next = func(x *Exchange, q *http.Request) *OResp {
					o := s.full(200, h, []byte("r"))
					if q.Method == m {
						o.Delay = 3 * time.Second
					}
					return o
				}
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					var b []byte
					if body {
						b = []byte("x=1")
					}
					s.Do(context.Background(), m, u0, nil, b)
				}()
				time.Sleep(time.Second)
				old := s.get(u0).ID()
				wg.Wait()
				s.answer(200, h, "new")
				if r := s.get(u0); r.Hit() || r.ID() == old {
					s.fail("unsafe-not-invalidated", "after a successful %s the response stored while it was under way was served", m)
				}
				s.c.Count("unsafe_invalidations", 1)
				s.c.Count("unsafe_overlapping", 1)
			})
		}
	}
	// A response which may not be stored supersedes what was stored while it was under way, too.
	for _, cc := range []string{"no-store", "private", "public"} {
		for _, st := range []int{200, 404, 500} {
			for _, prior := range []bool{false, true} {
				directed(t, c, nil, fmt.Sprintf("an unstorable response (%q, %d) under way while another one is stored, prior=%v", cc, st, prior), func(s *script) {
					h := cacheable("Cache-Control", "max-age=600")
					if prior {
						s.answer(200, h, "first")
						s.get(u0)
					}
					s.next = func(x *Exchange, q *http.Request) *OResp {
						o := s.full(200, h, []byte("r"))
						if q.Header.Get("Cache-Control") != "" && q.Header.Get("X-Slow") != "" {
							o.Header.Set("Cache-Control", cc)
							o.Status, o.Delay = st, 3*time.Second
						}
						return o
					}
					var wg sync.WaitGroup
					wg.Add(1)
					go func() {
						defer wg.Done()
						s.Do(context.Background(), "GET", u0, hdr("Cache-Control", "no-cache", "X-Slow", "1"), nil)
					}()
					time.Sleep(time.Second)
					old := s.get(u0).ID()
					wg.Wait()
					if r := s.get(u0); r.Hit() || r.ID() == old {
						s.fail("superseded-served", "the response stored while a newer unstorable one was under way was served after that")
					}
					s.c.Count("superseded", 1)
					s.c.Count("superseded_overlapping", 1)
				})
			}
		}
	}
	// Nor is what was stored served again when the resource changed while it was excluded from caching.
	for _, m := range []string{"POST", "PUT", "DELETE"} {
		for _, strict := range []bool{true, false} {
			cfg := defaultConfig()
			cfg.Strict = strict
			directed(t, c, cfg, fmt.Sprintf("%s while the path is excluded strict=%v", m, strict), func(s *script) {
				h := cacheable("Cache-Control", "max-age=600")
				s.answer(200, h, "old")
				old := s.get(u0).ID()
				cfg2 := *cfg
				cfg2.Exclude = &cache.Exclude{Path: []string{"^/x"}}
				s.H.UpdateConfig(&cfg2)
				s.answer(200, h, "changed")
				s.do(m, u0, nil)
				s.H.UpdateConfig(cfg)
				s.answer(200, h, "new")
				if r := s.get(u0); r.Hit() || r.ID() == old {
					s.fail("unsafe-not-invalidated", "after a successful %s of an excluded path the response stored before it was served", m)
				}
				s.c.Count("unsafe_invalidations", 1)
			})
		}
	}
	// Whatever the resource looks like, and whether or not several of its variants are stored, or its
	// response came with a query in another order.
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH"} {
		for _, u := range []string{"http://up.test/", "http://up.test", "http://up.test/a?b=2&a=1", "http://up.test/a?a=1&b=2", "http://up.test/a?b&a", "http://up.test/a?a=%20x&b=y+z", "http://up.test/a?x=1&x=0",
			"http://up.test/a%2Fb?c=%41", "http://up.test/a//b/", "http://up.test/a?", "http://up.test/%C3%A4?q=%c3%a4", "http://up.test:80/a", "http://UP.test/a", "https://up.test/a?b=2&a=1", "http://up.test/a;v=1?b=2;a=1"} {
			for _, strict := range []bool{true, false} {
				cfg := defaultConfig()
				cfg.Strict = strict
				directed(t, c, cfg, fmt.Sprintf("%s of %s strict=%v", m, u, strict), func(s *script) {
					h := cacheable("Cache-Control", "max-age=600")
					s.answer(200, h, "old")
					old := s.get(u).ID()
					s.answer(200, h, "changed")
					s.do(m, u, nil)
					s.answer(200, h, "new")
					if r := s.get(u); r.Hit() || r.ID() == old {
						s.fail("unsafe-not-invalidated", "after a successful %s of %s the response stored before it was served", m, u)
					}
					s.c.Count("unsafe_invalidations", 1)
					s.c.Count("unsafe_spellings", 1)
				})
			}
		}
	}
	// A reload (no-cache) supersedes what is stored, whatever the new response is.
	for _, st := range []int{200, 404, 500, 302, 206} {
		for _, cc := range []string{"max-age=600", "no-store", "private", "no-cache", "max-age=0", ""} {
			directed(t, c, nil, fmt.Sprintf("reload answered %d %q", st, cc), func(s *script) {
				s.answer(200, cacheable("Cache-Control", "max-age=600", "Etag", `"o"`), "old")
				old := s.get(u0).ID()
				h := cacheable("Etag", `"n"`)
				if cc != "" {
					h.Set("Cache-Control", cc)
				}
				s.answer(st, h, "new")
				r := s.get(u0, "Cache-Control", "no-cache")
				if r.ID() == old {
					s.fail("reload-old", "no-cache delivered the stored response although upstream sent a new one")
				}
				for i := 0; i < 2; i++ {
					if r := s.get(u0, []string{"Cache-Control", "max-stale"}[:2*i]...); r.ID() == old {
						s.fail("superseded-served", "the superseded response was served after a reload answered %d %q", st, cc)
					}
				}
				s.c.Count("superseded", 1)
			})
		}
	}
	// The client which causes the change goes away just as upstream has answered.
	for _, kind := range []string{"POST", "PUT", "DELETE", "PATCH", "reload", "stale", "validation"} {
		for _, strict := range []bool{true, false} {
			for _, cc := range []string{"no-store", "private", "max-age=600"} {
				if !strict && strings.ToUpper(kind) != kind {
					continue
				}
				cfg := defaultConfig()
				cfg.Strict = strict
				directedOn(t, c, cfg, picky{newProvider()}, fmt.Sprintf("%s answered %s strict=%v, its client leaves", kind, cc, strict), func(s *script) {
					unsafe := strings.ToUpper(kind) == kind
					s.answer(200, cacheable("Cache-Control", "max-age=5", "Etag", `"o"`), "old")
					old := s.get(u0).ID()
					method, rh := "GET", hdr()
					switch kind {
					case "reload":
						rh = hdr("Cache-Control", "no-cache")
					case "stale", "validation":
						time.Sleep(8 * time.Second)
					default:
						method = kind
					}
					ctx, cancel := context.WithCancel(context.Background())
					s.next = func(x *Exchange, q *http.Request) *OResp {
						h := cacheable("Cache-Control", cc, "Etag", `"n"`)
						o := s.full(200, h, []byte("new"))
						if kind == "validation" {
							h.Set("Etag", `"o"`)
							o = s.notModified(h)
						}
						o.After = cancel
						return o
					}
					s.doCtx(ctx, method, u0, rh)
					s.answer(200, cacheable("Cache-Control", "max-age=600", "Etag", `"n2"`), "newer")
					for i := 0; i < 2; i++ {
						r := s.get(u0, "Cache-Control", "max-stale")
						if r.ID() == old && (unsafe || cc != "max-age=600") {
							s.fail("superseded-served", "the superseded response was served after a %s whose client went away as it was answered with %s", kind, cc)
							return
						}
					}
					s.c.Count("superseded_client_gone", 1)
				})
			}
		}
	}
	// A replacement which is not stored for other reasons (its size or an exclusion) supersedes as well.
	for _, kind := range []string{"type", "type and size", "item size", "item size, unknown length", "ttl", "path ttl"} {
		for _, how := range []string{"reload", "stale"} {
			for _, strict := range []bool{true, false} {
				if !strict && how == "reload" { // a reload is served from cache
					continue
				}
				cfg := defaultConfig()
				cfg.Strict = strict
				if !strict {
					cfg.DefaultTTL = "10s"
				}
				ex := &cache.Exclude{}
				switch kind {
				case "type":
					ex.Content = []cache.Content{{Type: "image/.*"}}
				case "type and size":
					ex.Content = []cache.Content{{Type: "image/.*", Size: 10}}
				}
				cfg.Exclude = ex
				pdr, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 20000})
				if err != nil {
					t.Fatal(err)
				}
				directedOn(t, c, cfg, pdr, fmt.Sprintf("%s replaced by an uncacheable response: %s strict=%v", how, kind, strict), func(s *script) {
					s.answer(200, cacheable("Cache-Control", "max-age=5", "Etag", `"o"`, "Content-Type", "text/plain"), "old")
					old := s.get(u0).ID()
					if s.get(u0).ID() != old {
						s.fail("not-stored", "the first response was not served from cache")
						return
					}
					h := cacheable("Cache-Control", "max-age=600", "Etag", `"n"`, "Content-Type", "image/png")
					size := 30000
					if strings.HasSuffix(kind, "ttl") {
						size = 100
					}
					s.next = func(x *Exchange, r *http.Request) *OResp {
						o := s.full(200, h, []byte(strings.Repeat("n", size)))
						o.Unknown = strings.Contains(kind, "unknown")
						return o
					}
					rh := []string{}
					if strings.HasSuffix(kind, "ttl") { // nothing is to be stored from now on
						cfg2 := *cfg
						if cfg2.DefaultTTL = "0s"; kind == "path ttl" {
							cfg2.DefaultTTL, cfg2.Timeouts = "1h", []cache.Timeout{{Path: "^/x$", TTL: 0}}
						}
						s.H.UpdateConfig(&cfg2)
					}
					if how == "reload" {
						rh = []string{"Cache-Control", "no-cache"}
					} else {
						time.Sleep(12 * time.Second)
					}
					r := s.get(u0, rh...)
					if r.Hit() || r.ID() == old || len(r.Body) < size {
						s.fail("reload-old", "id=%d with %d bytes was delivered, stored was id=%d", r.ID(), len(r.Body), old)
						return
					}
					for i := 0; i < 3; i++ {
						if r := s.get(u0, []string{"Cache-Control", "max-stale"}[:2*(i%2)]...); r.ID() == old {
							s.fail("superseded-served", "the superseded response was served after it was replaced by one which is not stored (%s)", kind)
							return
						} else if !r.Hit() && r.X[0].Header.Get("If-None-Match") == `"o"` {
							s.fail("superseded-used", "the superseded response was used to validate after it was replaced by one which is not stored (%s)", kind)
							return
						}
					}
					s.c.Count("superseded", 1)
				})
			}
		}
	}
	c.Done(histRule+"Directed: replacements which are not stored because of their type, size, item size or lifetime; 5 unsafe methods x 8 statuses x both modes x with/without a body; reloads answered by 5 statuses x 6 Cache-Control forms.",
		"superseded", "superseded_client_gone", "superseded_overlapping", "unsafe_spellings", "unsafe_invalidations", "unsafe_overlapping", "hits")
}

// C09: Age.
func TestC09(t *testing.T) {
	c := core.New(t, "C09")
	p := baseProfile()
	p.pAge = .5
	p.pBadDate = .3
	p.pForbid = .02
	p.pReqCC = .4
	histories(t, c, "C09", p, core.N(2500, 30000))
	ages := []string{"", "0", "7", "2147483647", "-3", "x", "4.5"}
	dates := []string{"now", "-5", "-50000", "+30", "", "bad", "850", "asctime"}
	for _, a := range ages {
		for _, d := range dates {
			for _, strict := range []bool{true, false} {
				cfg := defaultConfig()
				cfg.Strict = strict
				directed(t, c, cfg, fmt.Sprintf("Age %q Date %q strict=%v", a, d, strict), func(s *script) {
					s.next = func(x *Exchange, r *http.Request) *OResp {
						h := hdr("Cache-Control", "max-age=4000000000")
						now := time.Now()
						switch d {
						case "now":
							h.Set("Date", httpDate(now))
						case "850":
							h.Set("Date", now.UTC().Format("Monday, 02-Jan-06 15:04:05 GMT"))
						case "asctime":
							h.Set("Date", now.UTC().Format(time.ANSIC))
						case "":
						case "bad":
							h.Set("Date", "bad")
						default:
							n, _ := strconv.Atoi(d)
							h.Set("Date", httpDate(now.Add(time.Duration(n)*time.Second)))
						}
						if a != "" {
							h.Set("Age", a)
						}
						return s.full(200, h, nil)
					}
					s.get(u0)
					x := s.O.all[0]
					for _, dt := range []time.Duration{0, 1500, 700, 3000, 100000, 86400000} {
						time.Sleep(dt * time.Millisecond)
						r := s.get(u0)
						if !r.Hit() {
							continue // not within this property
						}
						n, err := strconv.ParseInt(r.Header.Get("Age"), 10, 64)
						age := ageOf(x.Resp.Header, x.End, time.Now())
						lo, hi := int64(age/time.Second), int64((age+time.Second)/time.Second)
						if a == "4.5" {
							hi += 5
						}
						if err != nil || n < lo || n > hi || len(r.Header["Age"]) != 1 {
							s.fail("age-wrong", "Age is %q, but the response is between %d and %d seconds old", r.Header["Age"], lo, hi)
							return
						}
						s.c.Count("age_checked", 1)
					}
				})
			}
		}
	}
	c.Done(histRule+"Directed: 7 received Age forms x 8 Date forms x both modes x 6 points in time.", "age_checked")
}

// C10: HEAD.
func TestC10(t *testing.T) {
	c := core.New(t, "C10")
	p := baseProfile()
	p.pHead = .45
	p.pForbid = .05
	p.pChange = .2
	histories(t, c, "C10", p, core.N(2500, 30000))
	for _, st := range []int{200, 301, 404, 410} {
		for _, unknown := range []bool{false, true} {
			for _, strict := range []bool{true, false} {
				for k, first := range []string{"GET", "HEAD", "HEAD", "HEAD"} {
					headLen := []int{0, 0, -1, -2}[k]
					cfg := defaultConfig()
					cfg.Strict = strict
					directed(t, c, cfg, fmt.Sprintf("status %d unknown=%v strict=%v first=%s length %d", st, unknown, strict, first, headLen), func(s *script) {
						h := cacheable("Cache-Control", "max-age=60", "Etag", `"e"`, "X-A", "1")
						s.next = func(x *Exchange, r *http.Request) *OResp {
							o := s.full(st, h, []byte("0123456789"))
							o.Unknown, o.HeadLen = unknown, headLen
							return o
						}
						r1 := s.do(first, u0, nil)
						r2 := s.do("HEAD", u0, nil)
						for _, r := range []*CResp{r1, r2} {
							if r.Method == "HEAD" && (len(r.Body) != 0 || r.Status != st || r.Err != nil || r.BodyErr != nil) {
								s.fail("head-response", "HEAD delivered status %d, %d body bytes, err %v %v", r.Status, len(r.Body), r.Err, r.BodyErr)
							}
						}
						if first == "GET" && !r2.Hit() {
							s.fail("head-not-served", "HEAD was not answered from the stored, fresh GET response")
						}
						if first == "HEAD" && r2.Hit() {
							s.fail("head-stored", "the response to HEAD was stored")
						}
						if first == "GET" {
							if d := diffHeader(s.O.all[0].Resp.Header, r2.Header, "X-Kache"); d != "" {
								s.fail("head-header", "HEAD from cache: %s", d)
							}
							if !unknown && r2.Header.Get("Content-Length") != strconv.Itoa(len(s.O.all[0].Resp.Body)) {
								s.fail("head-length", "HEAD from cache declares length %q, GET has %d bytes", r2.Header.Get("Content-Length"), len(s.O.all[0].Resp.Body))
							}
						}
						r3 := s.get(u0)
						want := s.O.all[r3.ID()-1].Resp.Body
						if len(r3.Body) == 0 || !bytes.Equal(r3.Body, want) {
							s.fail("get-after-head", "GET after HEAD delivered %d bytes, want %d", len(r3.Body), len(want))
						}
						if first == "GET" && !r3.Hit() {
							s.fail("head-dropped", "a HEAD served from cache removed the stored response")
						}
						s.c.Count("head_hits", 1)
					})
				}
			}
		}
	}
	// HEAD and GET at the same time, in flight together in any order of arrival.
	for i := 0; i < core.N(1000, 10000) && !c.Stopped(); i++ {
		r := c.Rand("headget", i)
		cfg := defaultConfig()
		cfg.Strict = r.P(.7)
		directed(t, c, cfg, fmt.Sprintf("concurrent HEAD and GET %d", i), func(s *script) {
			s.next = func(x *Exchange, q *http.Request) *OResp {
				o := s.full(200, cacheable("Cache-Control", core.Pick(r, "max-age=60", "no-store", "public")), []byte("0123456789"))
				o.Delay = time.Duration(r.Intn(20)) * time.Millisecond
				o.Unknown, o.HeadLen = r.P(.3), core.Pick(r, 0, -1, -2)
				return o
			}
			n := r.Range(2, 8)
			out := make([]*CResp, n)
			var wg sync.WaitGroup
			for k := range out {
				m, at := core.Pick(r, "GET", "HEAD"), time.Duration(r.Intn(20))*time.Millisecond
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(at)
					out[k] = s.Do(context.Background(), m, u0, nil, nil)
				}()
			}
			wg.Wait()
			for k, q := range out {
				s.lines = append(s.lines, fmt.Sprintf("client %d: %s -> id=%d %d bytes err=%v %v", k, q.Method, q.ID(), len(q.Body), q.Err, q.BodyErr))
			}
			for k, q := range out {
				switch {
				case q.Err != nil || q.BodyErr != nil || q.ID() == 0 || q.Status != 200:
					s.fail("head-get-failed", "client %d (%s) failed: status %d err %v %v", k, q.Method, q.Status, q.Err, q.BodyErr)
				case q.Method == "HEAD" && len(q.Body) != 0:
					s.fail("head-response", "HEAD delivered %d body bytes", len(q.Body))
				case q.Method == "GET" && !bytes.Equal(q.Body, s.O.all[q.ID()-1].Resp.Body):
					s.fail("get-empty", "client %d: GET was answered with %d bytes of id=%d, which was made for %s", k, len(q.Body), q.ID(), s.O.all[q.ID()-1].Method)
				case q.Method == "GET" && s.O.all[q.ID()-1].Method != "GET":
					s.fail("get-from-head", "client %d: GET was answered with a response to HEAD", k)
				}
				s.c.Count("head_get_concurrent", 1)
			}
			q := s.get(u0)
			if !bytes.Equal(q.Body, s.O.all[q.ID()-1].Resp.Body) {
				s.fail("get-after-head", "GET afterwards delivered %d bytes", len(q.Body))
			}
		})
	}
	c.Done(histRule+"Directed: random schedules of 2-8 concurrent HEAD and GET; 4 statuses x known/unknown/zero length of the answer to HEAD x both modes x GET/HEAD first.", "head_hits", "head_misses", "fidelity_checked", "head_get_concurrent")
}

// C11: non-strict mode.
func TestC11(t *testing.T) {
	c := core.New(t, "C11")
	p := baseProfile()
	p.pForbid = .4
	p.pReqCC = .4
	p.pBadDate = .15
	p.cfg = func(r *core.R, cfg *cache.HttpCacheConfig) {
		cfg.Strict = false
		cfg.DefaultTTL = core.Pick(r, "", "5s", "30s", "100h")
	}
	histories(t, c, "C11", p, core.N(2500, 30000))
	for _, ttl := range []string{"", "1s", "10s", "1h"} {
		for _, cc := range []string{"", "max-age=0", "no-cache", "no-store", "private", "max-age=5, must-revalidate"} {
			for _, st := range []int{200, 201, 203, 206, 301, 302, 404, 403, 410} {
				cfg := defaultConfig()
				cfg.Strict = false
				cfg.DefaultTTL = ttl
				directed(t, c, cfg, fmt.Sprintf("ttl %q %q %d", ttl, cc, st), func(s *script) {
					d, err := time.ParseDuration(ttl)
					if err != nil {
						d = 120 * time.Second
					}
					h := cacheable()
					if cc != "" {
						h.Set("Cache-Control", cc)
					}
					s.answer(st, h, "b")
					r1 := s.get(u0)
					time.Sleep(d / 2)
					if r := s.get(u0); !r.Hit() || r.ID() != r1.ID() {
						s.fail("stored-not-served", "non-strict mode: upstream contacted %v after storing with ttl %v (Cache-Control %q)", d/2, d, cc)
					}
					for _, rq := range [][]string{{"Cache-Control", "no-cache"}, {"Cache-Control", "no-store"}, {"Cache-Control", "max-age=0"}, {"Pragma", "no-cache"},
						{"Cache-Control", "min-fresh=1000"}, {"Cache-Control", "max-stale=0, no-transform"}} {
						if r := s.get(u0, rq...); !r.Hit() || r.ID() != r1.ID() {
							s.fail("stored-not-served:request", "non-strict mode: a request with %v contacted upstream %v after storing with ttl %v (Cache-Control %q)", rq, d/2, d, cc)
						}
					}
					time.Sleep(d/2 + time.Millisecond)
					if r := s.get(u0, "Cache-Control", "max-stale"); r.Hit() {
						s.fail("ttl-exceeded", "served from cache after its ttl of %v", d)
					}
					s.c.Count("nonstrict_checked", 1)
				})
			}
		}
	}
	c.Done(histRule+"All with strict mode off. Directed: 4 ttls x 6 Cache-Control forms x 9 statuses.", "hits", "nonstrict_checked")
}

// C37: the debug header.
func TestC37(t *testing.T) {
	c := core.New(t, "C37")
	p := baseProfile()
	p.cfg = func(r *core.R, cfg *cache.HttpCacheConfig) {
		cfg.XCache = r.P(.7)
		cfg.XCacheName = core.Pick(r, "", "X-Kache", "X-Other", "x-lower-case")
	}
	histories(t, c, "C37", p, core.N(1500, 20000))
	names := []string{"", "X-Kache", "X-Other", "x-lower-case"}
	isDefault := func(n string) string {
		if n == "" {
			return "X-Kache"
		}
		return n
	}
	for _, strict := range []bool{true, false} {
		for _, name := range names {
			for _, next := range append(names, "-") {
				for _, how := range []string{"fetched", "validated", "head", "mismatch", "own", "own twice"} {
					cfg := defaultConfig()
					cfg.Strict, cfg.XCacheName = strict, name
					cfg2 := *cfg
					cfg2.XCacheName = next
					own := strings.HasPrefix(how, "own")
					if next == "-" {
						cfg2.XCacheName, cfg2.XCache = name, false
					}
					directed(t, c, cfg, fmt.Sprintf("strict=%v name %q then %q, stored by %s", strict, name, next, how), func(s *script) {
						s.next = func(x *Exchange, r *http.Request) *OResp {
							h := cacheable("Cache-Control", "max-age=10", "Etag", `"e"`)
							if own { // upstream is a cache that marks its responses, too
								h.Set(isDefault(name), "MISS")
								if how == "own twice" {
									h.Add(isDefault(name), "HIT")
								}
							}
							if r.Header.Get("If-None-Match") == `"e"` {
								if how == "mismatch" {
									h.Set("Etag", `"other"`) // not the stored response's
								}
								return s.notModified(h)
							}
							return s.full(200, h, []byte("b"))
						}
						old := isDefault(name)
						expect := func(what, name, want string, r *CResp) {
							if got := strings.Join(r.Header.Values(name), "|"); got != want {
								s.fail("marker:"+what, "%s: %s is %q, want %q", what, name, got, want)
							}
							s.c.Count("marker_checked", 1)
						}
						if r := s.get(u0); !own {
							expect("fetched", old, "", r)
						}
						if how == "mismatch" && strict {
							time.Sleep(20 * time.Second)
							r := s.get(u0)
							if r.Err != nil || len(r.X) != 1 || r.X[0].Resp.Status != 304 {
								s.fail("not-validated", "a stale response with a validator was not validated")
								return
							}
							expect("validated with a mismatching tag", old, "HIT", r)
							s.get(u0)
						}
						if how == "validated" && strict {
							time.Sleep(20 * time.Second)
							r := s.get(u0)
							if r.Err != nil || len(r.X) != 1 || r.X[0].Resp.Status != 304 {
								s.fail("not-validated", "a stale response with a validator was not validated")
								return
							}
							expect("validated", old, "HIT", r)
							s.c.Count("marked_validated", 1)
						}
						if how == "head" {
							expect("head", old, "HIT", s.do("HEAD", u0, nil))
						}
						expect("cached", old, "HIT", s.get(u0))
						s.H.UpdateConfig(&cfg2)
						cur := isDefault(cfg2.XCacheName)
						for i := 0; i < 2; i++ {
							r := s.get(u0)
							want := "HIT"
							if next == "-" {
								want = ""
							}
							if want == "" && own {
								continue
							}
							if !r.Hit() {
								s.fail("reload-dropped", "a fresh response was not served from cache after the debug header was changed")
							}
							expect("cached after change", cur, want, r)
							if !strings.EqualFold(cur, old) && !own {
								expect("old name after change", old, "", r)
							}
						}
					})
				}
			}
		}
	}
	c.Done(histRule+"Directed: both modes x 4 names x 5 later names (or disabled) x responses stored by a fetch, a validation, or read by HEAD, validated with a mismatching entity tag, or marked by upstream itself.", "marked_hits", "hits", "marked_validated", "marker_checked")
}

var _ = io.EOF
