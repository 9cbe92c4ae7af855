//go:build go1.25

package httpc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/verifharness/core"
)

// fault kinds of the schedule generator.
type schedule struct {
	clients     int
	urls        int
	errs        bool // upstream errors
	cuts        bool // bodies which break off
	panics      bool // upstream transport panics
	cancels     bool // clients which go away
	private     bool // responses for one client only
	vary        bool
	mixed       bool // authorization, other methods, directives
	slowBody    bool
	noise       bool // clients differ in fields which do not matter
	oddGone     bool // the transport reports a client's departure in its own words
	uncacheable bool
	heads       bool
}

type actor struct {
	n      int
	at     time.Duration
	cancel time.Duration // 0: never
	method string
	url    string
	h      http.Header
	res    *CResp
	own    bool // must have an exchange of its own
}

func ccKey(h http.Header) string { return fmt.Sprintf("%q %q", h["Cache-Control"], h["Pragma"]) }

// leaveKey carries the function which makes a client go away.
type leaveKey struct{}

// errGone is how a transport may report that the client of an exchange went away.
var errGone = errors.New("connection reset by peer")

// runSchedule executes one random concurrent schedule under virtual time and returns what was
// observed. judge is called with the bubble still running.
func runSchedule(t *testing.T, c *core.Check, i int, stream string, sc schedule, judge func(s *schedRun)) {
	bubble(t, func(t *testing.T) {
		r := c.Rand(stream, i)
		s := &schedRun{c: c, r: r, sc: sc}
		cfg := defaultConfig()
		cfg.Exclude = &cache.Exclude{Header: map[string]string{"X-Skip": "1"}, Path: []string{"^/skip"}}
		s.w = newWorld(cfg, nil, s.upstream)
		n := r.Range(2, sc.clients)
		urls := r.Range(1, sc.urls)
		span := core.Pick(r, 1, 20, 60)
		long := ""
		if r.P(.2) {
			long = "&l=" + strings.Repeat("x", core.Pick(r, 60, 300, 5000))
		}
		for k := 0; k < n; k++ {
			a := &actor{n: k, at: time.Duration(r.Intn(span)) * time.Millisecond, method: "GET", h: http.Header{}, // arrives then
				url: fmt.Sprintf("http://up.test/c%d?q=1", r.Intn(urls)) + long}
			if sc.mixed && r.P(.4) {
				switch r.Intn(10) {
				case 9: // paths which differ in an escape only
					a.url = strings.Replace(a.url, "/c", core.Pick(r, "/p/c", "/p%2Fc", "/p%2fc", "/p%25c", "/p%c3%bcc"), 1)
				case 8:
					a.url = strings.Replace(a.url, "http:", "https:", 1)
				case 7:
					if a.own = true; r.P(.5) {
						a.h.Set("X-Skip", "1")
					} else {
						a.url = strings.Replace(a.url, "/c", "/skip", 1)
					}
				case 6:
					if sc.heads {
						a.method = "HEAD"
					}
				case 0:
					a.h.Set("Authorization", fmt.Sprintf("Bearer %d", k))
					a.own = true
				case 1:
					a.method, a.own = core.Pick(r, "POST", "PUT", "OPTIONS"), true
				case 2:
					a.h.Set("If-None-Match", `"x"`)
					a.own = true
				case 3:
					a.h.Set("Cache-Control", core.Pick(r, "no-cache", "no-store", "max-age=0"))
					if r.P(.5) {
						a.h["Cache-Control"] = []string{core.Pick(r, "no-transform", "max-age=5"), a.h.Get("Cache-Control")}
					}
				case 4:
					a.h.Set("Range", "bytes=0-1")
					a.own = true
				case 5:
					a.h.Set("Host", core.Pick(r, "h1.test", "h2.test"))
				}
			}
			if sc.noise {
				for _, k := range []string{"User-Agent", "Accept", "Cookie", "Accept-Language", "X-Request-Id", "Referer", "Accept-Encoding", "X-Forwarded-For", "Content-Type"} {
					if r.P(.5) {
						a.h.Set(k, fmt.Sprint(core.Pick(r, "a", "b"), r.Intn(3)))
					}
				}
			}
			if sc.vary && r.P(.7) {
				a.h.Set("Accept-Language", core.Pick(r, "de", "en", "fr"))
			}
			if sc.cancels && r.P(.35) {
				a.cancel = time.Duration(r.Range(1, 40)) * time.Millisecond
			}
			s.actors = append(s.actors, a)
		}
		var wg sync.WaitGroup
		for _, a := range s.actors {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(a.at)
				ctx := context.Background()
				if a.cancel > 0 {
					var cancel context.CancelFunc
					if a.n%2 == 0 { // its time is up (as kache's own limit per request does it)
						ctx, cancel = context.WithTimeout(ctx, a.cancel)
						defer cancel()
					} else {
						ctx, cancel = context.WithCancel(ctx)
						defer cancel()
						time.AfterFunc(a.cancel, cancel)
					}
				}
				a.res = s.w.Do(ctx, a.method, a.url, a.h, nil)
			}()
		}
		wg.Wait()
		synctest.Wait()
		for _, a := range s.actors {
			s.lines = append(s.lines, fmt.Sprintf("client %d at %v cancel %v %s %s %s -> %d id=%d len=%d err=%v bodyerr=%v panic=%v end=%v", a.n, a.at, a.cancel, a.method, a.url, fmtHeader(a.h),
				a.res.Status, a.res.ID(), len(a.res.Body), a.res.Err, a.res.BodyErr, a.res.Panicked, a.res.End.Sub(s.w.start)))
		}
		for _, x := range s.w.O.all {
			s.lines = append(s.lines, fmt.Sprintf("upstream #%d for %s %s %s host=%s start=%v end=%v id=%d status=%d err=%v cut=%d panic=%v %s", x.Seq, x.Label, x.Method, x.URL, x.Host, x.Start.Sub(s.w.start),
				x.End.Sub(s.w.start), x.Resp.ID, x.Resp.Status, x.Resp.Err, x.Resp.Cut, x.Resp.Panic, fmtHeader(x.Resp.Header)))
		}
		s.byID = map[int]*Exchange{}
		for _, x := range s.w.O.all {
			if x.Resp.ID != 0 {
				s.byID[x.Resp.ID] = x
			}
		}
		judge(s)
		// shape: who shared with whom
		var b strings.Builder
		shared := 0
		for _, a := range s.actors {
			fmt.Fprintf(&b, "%s%s%d/%v;", a.method[:1], a.url[len("http://up.test/"):][:5], a.res.ID(), a.res.Err != nil)
			if id := a.res.ID(); id != 0 && s.byID[id] != nil && s.byID[id].Label != s.label(a) {
				shared++
			}
		}
		c.Count("clients", len(s.actors))
		c.Count("upstream_contacts", len(s.w.O.all))
		c.Count("shared_responses", shared)
		c.Max("max_clients_in_flight", len(s.actors))
		c.Eval(b.String())
		if i < 2 {
			c.Sample(map[string]any{"schedule": i, "log": s.lines[:min(10, len(s.lines))]})
		}
	})
}

type schedRun struct {
	c      *core.Check
	r      *core.R
	sc     schedule
	w      *World
	actors []*actor
	lines  []string
	byID   map[int]*Exchange
}

// label is the label of the request of a, as upstream saw it.
func (s *schedRun) label(a *actor) string { return a.res.reqLabel }

func (s *schedRun) fail(sig, format string, args ...any) { s.c.Violate(sig, s.lines, format, args...) }

func (s *schedRun) upstream(x *Exchange, req *http.Request) *OResp {
	r := s.r
	delay := time.Duration(core.Pick(r, 0, 1, 5, 10, 30, 50)) * time.Millisecond
	if s.sc.errs && r.P(.25) {
		return &OResp{Err: errUpstream, Delay: delay}
	}
	h := cacheable("Cache-Control", "max-age=1000", "X-Tag", "t")
	h.Set("Date", httpDate(time.Now().Add(delay)))
	switch {
	case s.sc.private && r.P(.5):
		h.Set("Cache-Control", core.Pick(r, "no-store", "private", "PRIVATE, max-age=10", "no-store, max-age=10", "public, private"))
		if r.P(.4) { // on a line of its own
			h["Cache-Control"] = []string{core.Pick(r, "max-age=10", "public", "x=1"), h.Get("Cache-Control")}
		}
		h.Set("Set-Cookie", "session="+x.Label)
	case s.sc.uncacheable && r.P(.5):
		h.Set("Cache-Control", core.Pick(r, "public", "max-age=0", "no-cache"))
	}
	if s.sc.noise && r.P(.4) { // a response is not less shareable for them
		h.Add("Set-Cookie", "a="+x.Label)
	}
	if s.sc.noise && r.P(.4) {
		kv := core.Pick(r, respNoise...)
		h.Set(kv[0], kv[1])
	}
	if s.sc.vary && r.P(.8) {
		h.Set("Vary", core.Pick(r, "Accept-Language", "accept-language", "X-Other, Accept-Language", "*"))
	}
	status := core.Pick(r, 200, 200, 200, 404, 301)
	o := s.w.full(status, h, r.Bytes(core.Pick(r, 0, 10, 5000, 70000)))
	o.Unknown, o.Delim = r.P(.3), r.P(.4)
	o.Delay = delay
	if s.sc.oddGone {
		o.GoneErr = core.Pick(r, nil, errGone, io.ErrUnexpectedEOF, fmt.Errorf("write: %w", errGone), http.ErrHandlerTimeout, net.ErrClosed)
	}
	if s.sc.cuts && r.P(.2) && len(o.Body) > 5 {
		o.Cut = r.Range(1, len(o.Body)-1)
	}
	if s.sc.panics && r.P(.2) {
		o.Panic = true
	}
	if s.sc.slowBody && r.P(.3) {
		g := make(chan struct{})
		o.BodyGate = g
		time.AfterFunc(delay+time.Duration(r.Range(1, 30))*time.Millisecond, func() { close(g) })
	}
	return o
}

// complete checks that a delivered response is exactly one upstream response.
func (s *schedRun) complete(a *actor) bool {
	id := a.res.ID()
	x := s.byID[id]
	if x == nil {
		s.fail("unknown-response", "client %d got a response no upstream response accounts for (status %d)", a.n, a.res.Status)
		return false
	}
	if a.res.BodyErr != nil {
		return true
	}
	if x.Resp.Cut > 0 && a.method == "GET" {
		s.fail("truncated-complete", "client %d got id=%d as complete, but upstream broke off", a.n, id)
		return false
	}
	if a.res.Status != x.Resp.Status || !bytes.Equal(a.res.Body, x.Resp.Body) {
		s.fail("body", "client %d got status %d and %d bytes, id=%d was status %d and %d bytes", a.n, a.res.Status, len(a.res.Body), id, x.Resp.Status, len(x.Resp.Body))
		return false
	}
	if d := diffHeader(x.Resp.Header, a.res.Header, "X-Kache"); d != "" {
		s.fail("header", "client %d: %s", a.n, d)
		return false
	}
	return true
}

// C15: single flight.
func TestC15(t *testing.T) {
	c := core.New(t, "C15")
	for i := 0; i < core.N(5000, 80000) && !c.Stopped(); i++ {
		sc := schedule{clients: 16, urls: 3, uncacheable: i%2 == 0, slowBody: i%3 == 0, noise: i%4 < 2}
		runSchedule(t, c, i, "single", sc, func(s *schedRun) {
			// upstream contacts per URL never overlap
			for k, x := range s.w.O.all {
				for _, y := range s.w.O.all[k+1:] {
					if x.URL == y.URL && y.Start.Before(x.End) {
						s.fail("not-single-flight", "upstream contacts #%d and #%d for %s overlap", x.Seq, y.Seq, x.URL)
						return
					}
				}
			}
			for _, a := range s.actors {
				if a.res.Err != nil || a.res.Panicked != nil || a.res.BodyErr != nil {
					s.fail("spurious-error", "client %d failed (%v %v %v) although upstream did not", a.n, a.res.Err, a.res.BodyErr, a.res.Panicked)
					return
				}
				if !s.complete(a) {
					return
				}
				if s.byID[a.res.ID()].URL != a.url {
					s.fail("wrong-url", "client %d got the response for %s", a.n, s.byID[a.res.ID()].URL)
				}
				// a client arriving while an exchange is in flight gets its response, when it is there
				for _, x := range s.w.O.all {
					if x.URL == a.url && x.Start.Before(a.res.Start) && a.res.Start.Before(x.End) {
						if a.res.ID() != x.Resp.ID {
							s.fail("not-shared", "client %d arrived while #%d was in flight but got id=%d", a.n, x.Seq, a.res.ID())
						} else {
							c.Count("joined", 1)
						}
						if !sc.slowBody && !a.res.End.Equal(x.End) {
							s.fail("late", "client %d waited for #%d until %v, it was there at %v", a.n, x.Seq, a.res.End, x.End)
						}
					}
				}
				// nobody waits for another URL
				if x := s.byID[a.res.ID()]; !sc.slowBody && a.res.End.After(x.End) && a.res.End.After(a.res.Start) {
					s.fail("blocked", "client %d for %s finished at %v, its response was there at %v", a.n, a.url, a.res.End, x.End)
				}
			}
		})
	}
	// many clients at once
	for _, n := range []int{2, 50, 400} {
		for _, unknown := range []bool{false, true} {
			for _, size := range []int{0, 100, 300000, 3 << 20} {
				if size > 1<<20 && n > 50 {
					continue
				}
				directed(t, c, nil, fmt.Sprintf("%d clients, %d bytes, unknown=%v", n, size, unknown), func(s *script) {
					gate := make(chan struct{})
					s.next = func(x *Exchange, r *http.Request) *OResp {
						o := s.full(200, cacheable("Cache-Control", "public"), bytes.Repeat([]byte("k"), size))
						o.Gate, o.Unknown = gate, unknown
						return o
					}
					out := make([]*CResp, n)
					var wg sync.WaitGroup
					for i := range out {
						wg.Add(1)
						go func() { defer wg.Done(); out[i] = s.Get(u0) }()
					}
					synctest.Wait()
					if k := len(s.O.all); k != 1 {
						s.fail("not-single-flight", "%d identical requests led to %d upstream contacts", n, k)
					}
					close(gate)
					wg.Wait()
					for i, r := range out {
						if r.Err != nil || !bytes.Equal(r.Body, s.O.all[0].Resp.Body) || r.ID() != 1 {
							s.fail("body", "client %d got id=%d %d bytes err=%v", i, r.ID(), len(r.Body), r.Err)
						}
					}
					s.c.Max("max_clients_in_flight", n)
					s.c.Count("joined", n-1)
					// afterwards, a new request is a new exchange
					if r := s.get(u0); r.Hit() || r.ID() != 2 {
						s.fail("stale-share", "a request after completion got id=%d", r.ID())
					}
				})
			}
		}
	}
	// many resources at once
	for _, n := range []int{20, 300, core.N(1200, 5000)} {
		directed(t, c, nil, fmt.Sprintf("3 clients for each of %d resources", n), func(s *script) {
			gate := make(chan struct{})
			s.next = func(x *Exchange, r *http.Request) *OResp {
				o := s.full(200, cacheable("Cache-Control", "public"), []byte("k"))
				o.Gate = gate
				return o
			}
			out := make([]*CResp, 3*n)
			var wg sync.WaitGroup
			for i := range out {
				wg.Add(1)
				go func() { defer wg.Done(); out[i] = s.Get(fmt.Sprintf("%s/%d", u0, i%n)) }()
			}
			synctest.Wait()
			if k := len(s.O.all); k != n {
				s.fail("not-single-flight", "identical requests for %d resources led to %d upstream contacts", n, k)
			}
			close(gate)
			wg.Wait()
			for i, r := range out {
				if r.Err != nil || r.ID() == 0 || r.ID() != out[i%n].ID() {
					s.fail("body", "client %d got id=%d, another for the same resource id=%d; err=%v", i, r.ID(), out[i%n].ID(), r.Err)
					break
				}
			}
			s.c.Max("max_resources_in_flight", n)
			s.c.Count("joined", 2*n)
		})
	}
	// When the client whose fetch the others wait for goes away, they continue with one fetch between them.
	for _, n := range []int{2, 3, 10, 60} {
		for _, at := range []string{"header", "body"} {
			for _, times := range []int{1, 2} {
				if times >= n {
					continue
				}
				directed(t, c, nil, fmt.Sprintf("leader of %d goes away while waiting for the %s, %d times", n, at, times), func(s *script) {
					gate := make(chan struct{})
					fetches, leader, leave := 0, "", context.CancelFunc(nil)
					s.next = func(x *Exchange, r *http.Request) *OResp {
						o := s.full(200, cacheable("Cache-Control", "max-age=60"), bytes.Repeat([]byte("k"), 5000))
						leader, leave = x.Label, r.Context().Value(leaveKey{}).(context.CancelFunc)
						if fetches++; fetches <= times {
							if at == "header" {
								o.Gate = gate
							} else {
								o.BodyGate = gate
							}
						} else {
							o.Delay = 10 * time.Millisecond
						}
						return o
					}
					out := make([]*CResp, n)
					var wg sync.WaitGroup
					for i := range out {
						ctx, cancel := context.WithCancel(context.Background())
						defer cancel()
						ctx = context.WithValue(ctx, leaveKey{}, cancel)
						wg.Add(1)
						go func() { defer wg.Done(); out[i] = s.Do(ctx, "GET", u0, nil, nil) }()
						if i == 0 {
							synctest.Wait()
						}
					}
					synctest.Wait()
					gone := map[string]bool{}
					for k := 0; k < times; k++ {
						s.O.mu.Lock()
						gone[leader] = true
						leave()
						s.O.mu.Unlock()
						synctest.Wait()
					}
					time.Sleep(time.Second)
					wg.Wait()
					if k := len(s.O.all); k != len(gone)+1 {
						s.fail("not-single-flight", "%d clients, %d of which went away while fetching: %d upstream contacts", n, len(gone), k)
					}
					for i, r := range out {
						if !gone[r.Label] && (r.Err != nil || r.BodyErr != nil || len(r.Body) < 5000) {
							s.fail("body", "client %d got %d bytes, err=%v %v", i, len(r.Body), r.Err, r.BodyErr)
						}
					}
					s.c.Count("taken_over", len(gone))
				})
			}
		}
	}
	c.Done("a case is a random schedule of 2-16 concurrent clients on 1-3 URLs under virtual time (arrival times, upstream delays, slow bodies, storable and unstorable responses); "+
		"distinct by which client got which response. Half of the schedules have clients which differ in fields that do not matter. Directed: up to 400 simultaneous clients, bodies up to 3 MB, and up to 60 clients whose fetching clients go away.", "joined", "shared_responses", "taken_over")
}

// C16: sharing respects who a response is for.
func TestC16(t *testing.T) {
	c := core.New(t, "C16")
	for i := 0; i < core.N(7000, 100000) && !c.Stopped(); i++ {
		sc := schedule{clients: 12, urls: 2, private: i%2 == 0, vary: i%3 == 0, mixed: i%4 != 0, slowBody: i%5 == 0, uncacheable: i%7 == 0, heads: i%3 != 1}
		runSchedule(t, c, i, "iso", sc, func(s *schedRun) {
			own := map[string]int{}
			for _, x := range s.w.O.all {
				own[x.Label]++
			}
			for _, a := range s.actors {
				if a.res.Err != nil || a.res.Panicked != nil || a.res.BodyErr != nil {
					s.fail("spurious-error", "client %d failed (%v %v %v) although upstream did not", a.n, a.res.Err, a.res.BodyErr, a.res.Panicked)
					return
				}
				if a.method == "GET" && !s.complete(a) {
					return
				}
				x := s.byID[a.res.ID()]
				host := "up.test"
				if v := a.h.Get("Host"); v != "" {
					host = v
				}
				if x == nil {
					s.fail("unknown-response", "client %d (%s) got a response no upstream response accounts for", a.n, a.method)
					return
				}
				if x.URL != a.url || x.Host != host {
					s.fail("wrong-url", "client %d (%s host %s) got the response for %s host %s", a.n, a.url, host, x.URL, x.Host)
					return
				}
				mine := x.Label == s.label(a)
				if a.own && (!mine || own[s.label(a)] != 1) {
					s.fail("bypass-shared", "client %d (%s %s) must have its own upstream contact, it made %d and got one made for %s", a.n, a.method, fmtHeader(a.h), own[s.label(a)], x.Label)
				}
				cc := ccOf(x.Resp.Header)
				if (has(cc, "no-store") || has(cc, "private")) && !mine {
					s.fail("private-shared", "client %d got a %s response which was made for another client", a.n, x.Resp.Header.Get("Cache-Control"))
				}
				if !mine {
					for _, name := range strings.Split(x.Resp.Header.Get("Vary"), ",") {
						name = http.CanonicalHeaderKey(strings.TrimSpace(name))
						if name == "*" || name != "" && strings.Join(a.h[name], ",") != strings.Join(x.Header[name], ",") {
							s.fail("variant-shared", "client %d got a response which varies by %s and was made for another variant", a.n, name)
						}
					}
					// an explicit demand for validation is not met by what was under way before
					if has(ccOf(a.h), "no-cache") && x.End.Before(a.res.Start) {
						s.fail("no-cache-shared", "client %d demanded no-cache and got a response from before its request", a.n)
					}
					if a.method == "GET" && has(ccOf(x.Header), "no-store") && !has(ccOf(a.h), "no-store") {
						s.fail("directives-shared", "client %d (%s) joined the exchange made for %s", a.n, fmtHeader(a.h), fmtHeader(x.Header))
					}
					if x.Method != "GET" || has(ccOf(x.Header), "no-store") && x.End.Before(a.res.Start) {
						s.fail("unstored-shared", "client %d got the response to %s %s", a.n, x.Method, fmtHeader(x.Header))
					}
					if x.Header.Get("Authorization") != "" || x.Header.Get("Range") != "" {
						s.fail("bypass-leaked", "client %d got the response to a bypassing request", a.n)
					}
				} else if has(cc, "private") || has(cc, "no-store") {
					c.Count("private_responses", 1)
				}
				if a.own {
					c.Count("bypassing", 1)
				}
				if x.Resp.Header.Get("Vary") != "" {
					c.Count("variants", 1)
				}
			}
		})
	}
	// Requests with differing directives, on one line or several, are not equivalent.
	ccs := [][]string{nil, {"no-cache"}, {"no-store"}, {"max-age=0"}, {"x", "no-cache"}, {"x", "no-store"}, {"x"}, {"no-store", "x"}, {"min-fresh=5"}, {"x, no-cache"}, {"max-stale"},
		{"x no-cache"}, {"x no-store"}, {"no-store x"}, {"x", "y no-cache"}, {"x y", "no-cache"}, {`"x" "no-cache"`}, {"x] [no-cache"}}
	for _, a := range ccs {
		for _, b := range ccs {
			if strings.Join(a, ",") == strings.Join(b, ",") {
				continue
			}
			directed(t, c, nil, fmt.Sprintf("%q while %q is in flight", b, a), func(s *script) {
				gate := make(chan struct{})
				s.next = func(x *Exchange, r *http.Request) *OResp {
					o := s.full(200, cacheable("Cache-Control", "max-age=100"), []byte("body"))
					if x.Seq == 1 {
						o.Gate = gate
					}
					return o
				}
				mk := func(cc []string) http.Header {
					if cc == nil {
						return nil
					}
					return http.Header{"Cache-Control": cc}
				}
				var wg sync.WaitGroup
				wg.Add(2)
				go func() { defer wg.Done(); s.Do(context.Background(), "GET", u0, mk(a), nil) }()
				synctest.Wait()
				var r *CResp
				go func() { defer wg.Done(); r = s.Do(context.Background(), "GET", u0, mk(b), nil) }()
				synctest.Wait()
				early := r != nil
				close(gate)
				wg.Wait()
				joined := !early && r.ID() == 1
				aj, bj := hdr("Cache-Control", strings.Join(a, ",")), hdr("Cache-Control", strings.Join(b, ","))
				for _, d := range []string{"no-cache", "no-store"} {
					if joined && has(ccOf(aj), d) != has(ccOf(bj), d) {
						s.fail("directives-shared", "a request with %q joined the one with %q", b, a)
					}
				}
				if r.Err != nil || len(r.Body) == 0 {
					s.fail("failed", "request failed: %v", r.Err)
				}
				s.c.Count("directive_pairs", 1)
			})
		}
	}
	// No shared mutable state between the responses of a group.
	for _, n := range []int{2, 8} {
		directed(t, c, nil, fmt.Sprintf("mutation, %d clients", n), func(s *script) {
			gate := make(chan struct{})
			s.next = func(x *Exchange, r *http.Request) *OResp {
				o := s.full(200, cacheable("Cache-Control", "max-age=100", "X-List", "a", "X-List", "b"), []byte("body"))
				o.Gate = gate
				return o
			}
			var wg sync.WaitGroup
			got := make([]*http.Response, n)
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					req, _ := http.NewRequest("GET", u0, nil)
					got[i], _ = s.RT.RoundTrip(req)
				}()
			}
			synctest.Wait()
			close(gate)
			wg.Wait()
			for i, r := range got {
				if r == nil || strings.Join(r.Header["X-List"], ",") != "a,b" || r.Header.Get("X-Client") != "" {
					s.fail("mutation", "client %d sees a response changed by another client", i)
					return
				}
				r.Header["X-List"][0] = "changed"
				r.Header.Set("X-Client", fmt.Sprint(i))
			}
			if r := s.get(u0); strings.Join(r.Header["X-List"], ",") != "a,b" || r.Header.Get("X-Client") != "" {
				s.fail("mutation", "a cached response was changed by a client")
			}
		})
	}
	c.Done("a case is a random schedule of 2-12 concurrent clients on 1-2 URLs under virtual time, with no-store/private responses, Vary, authorization, ranges, conditionals, other methods, "+
		"request directives and differing hosts; distinct by which client got which response.", "private_responses", "bypassing", "variants", "shared_responses")
}

// C17: failures of one client or exchange do not spread.
func TestC17(t *testing.T) {
	c := core.New(t, "C17")
	for i := 0; i < core.N(7000, 100000) && !c.Stopped(); i++ {
		sc := schedule{clients: 12, urls: 2, errs: i%2 == 0, cuts: i%3 == 0, panics: i%4 == 0, cancels: i%5 != 0, slowBody: i%2 == 1, uncacheable: i%3 == 1,
			private: i%6 == 0, mixed: i%5 == 0, oddGone: i%4 == 1}
		runSchedule(t, c, i, "fault", sc, func(s *schedRun) {
			panicked := map[string]bool{}
			for _, x := range s.w.O.all {
				if x.Resp.Panic && !x.Canceled {
					panicked[x.Label] = true
				}
			}
			for _, a := range s.actors {
				if a.res.Panicked != nil {
					if !panicked[s.label(a)] || fmt.Sprint(a.res.Panicked) != "upstream transport panic" {
						s.fail("panic-spread", "client %d panicked: %v", a.n, a.res.Panicked)
					}
					c.Count("panics", 1)
					continue
				}
				failed := a.res.Err
				if failed == nil {
					failed = a.res.BodyErr
				}
				if failed == nil {
					if a.method == "GET" && !s.complete(a) {
						return
					}
					if a.cancel == 0 {
						c.Count("undisturbed", 1)
					}
					continue
				}
				odd := false // the transport's words for a client which went away
				for _, x := range s.w.O.all {
					odd = odd || x.Label == s.label(a) && x.Resp.GoneErr != nil && errors.Is(failed, x.Resp.GoneErr)
				}
				if odd && a.cancel > 0 && !a.res.End.Before(a.res.Start.Add(a.cancel)) {
					c.Count("canceled", 1)
					continue
				}
				if errors.Is(failed, context.Canceled) || errors.Is(failed, context.DeadlineExceeded) {
					if a.cancel == 0 {
						s.fail("cancel-spread", "client %d never went away but got %v", a.n, failed)
					}
					c.Count("canceled", 1)
					continue
				}
				// an upstream failure of an exchange on this URL which this client was part of
				ok := false
				for _, x := range s.w.O.all {
					if x.URL == a.url && (x.Resp.Err != nil || x.Resp.Cut > 0) && (!x.End.Before(a.res.Start) || !x.BodyEnd.Before(a.res.Start)) && !x.Start.After(a.res.End) {
						ok = true
					}
				}
				if !ok {
					s.fail("error-spread", "client %d failed with %v, but no upstream contact it could depend on failed", a.n, failed)
				}
				c.Count("failed", 1)
			}
			// everything is released: the next request for each URL works at once
			s.sc = schedule{}
			seen := map[string]bool{}
			for _, a := range s.actors {
				if seen[a.url] {
					continue
				}
				seen[a.url] = true
				t0 := time.Now()
				r := s.w.Get(a.url)
				if r.Err != nil || r.BodyErr != nil || r.ID() == 0 || len(r.X) > 1 {
					s.fail("not-recovered", "after the schedule, %s fails: %v %v", a.url, r.Err, r.BodyErr)
				}
				if len(r.X) == 1 && !r.End.Equal(r.X[0].End) || r.End.Sub(t0) > time.Second {
					s.fail("stuck", "after the schedule, %s took %v", a.url, r.End.Sub(t0))
				}
				c.Count("recovered", 1)
			}
		})
	}
	c.Done("a case is a random schedule of 2-12 concurrent clients on 1-2 URLs under virtual time, with upstream errors, bodies which break off, transport panics, clients which go away at any point, "+
		"slow bodies; distinct by which client got which response or error. A client that never terminates deadlocks the bubble and is reported.",
		"panics", "canceled", "failed", "undisturbed", "recovered", "shared_responses")
}
