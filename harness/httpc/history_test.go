//go:build go1.25

package httpc

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// profile biases the generated histories towards one property.
type profile struct {
	steps      int
	urls       int
	pHead      float64
	pReqCC     float64 // request carries cache directives
	pForbid    float64 // response must not be stored
	pBadDate   float64
	pAge       float64
	pBypass    float64
	pUnsafe    float64
	pChange    float64 // resource changes between contacts
	p304       float64 // unchanged resource answers conditional requests with 304
	pErr       float64
	pBig       float64
	cfg        func(r *core.R, c *cache.HttpCacheConfig)
	strictOnly bool
}

func baseProfile() profile {
	return profile{steps: 30, urls: 2, pHead: .06, pReqCC: .2, pForbid: .2, pBadDate: .05, pAge: .1,
		pBypass: .05, pUnsafe: .02, pChange: .3, p304: .85, pErr: .03, pBig: .03}
}

// version is the current state of a resource.
type version struct {
	n      int
	status int
	h      http.Header // without Date and Age
	body   []byte
	etag   string
	lm     string
}

// stored is the monitor's record of a response which may be in the cache.
type stored struct {
	id   int
	x    *OResp
	h    http.Header // effective headers, including 304 updates
	rt   time.Time   // received or validated
	vary bool
	n304 int
}

type history struct {
	c     *core.Check
	w     *World
	r     *core.R
	p     profile
	prop  string
	lines []string
	shape strings.Builder
	bad   bool
	byp   bool // the current request bypasses the cache

	res map[string]*version
	cur map[string]*stored // latest full upstream response per URL, if it may be reused
	// must tells if cur is known to be in the cache.
	must      map[string]bool
	by        map[int]*OResp
	forbidden map[int]string // ids which must never be served again, and why
	ttl       time.Duration
	storedAt  map[string]time.Time
}

func (h *history) viol(prop, sig, format string, args ...any) {
	if prop != h.prop || h.bad {
		return
	}
	h.bad = true
	h.c.Violate(sig, h.lines, format, args...)
}

func (h *history) mkVersion(n int) *version {
	r := h.r
	v := &version{n: n, h: http.Header{}, status: 200}
	if r.P(.2) {
		v.status = core.Pick(r, 203, 204, 300, 301, 308, 404, 405, 410, 414, 451, 501)
	}
	forbid := r.P(h.p.pForbid)
	why := -1
	if forbid {
		why = r.Intn(5)
	}
	if why == 3 {
		v.status = core.Pick(r, 201, 202, 302, 303, 307, 400, 401, 403, 408, 409, 429, 500, 502, 503, 504)
	}
	var ds []string
	life := core.Pick(r, 0, 1, 2, 3, 5, 10, 30, 60, 300, 3600)
	useExpires := false
	switch r.Intn(6) {
	case 0:
		ds = append(ds, fmt.Sprintf("s-maxage=%d", life), fmt.Sprintf("max-age=%d", core.Pick(r, 0, 1, 7, 5000)))
	case 1:
		ds = append(ds, fmt.Sprintf("s-maxage=%d", life))
	case 2:
		useExpires = true
		v.h.Set("X-Expires-In", strconv.Itoa(core.Pick(r, -5, 0, 1, 5, 60, 3600)))
		if r.P(.1) {
			v.h.Set("X-Expires-Raw", core.Pick(r, "0", "-1", "garbage", "Thu, 99 Foo 2000 00:00:00 GMT"))
		}
	default:
		ds = append(ds, fmt.Sprintf("max-age=%d", life))
	}
	if r.P(.15) {
		ds = append(ds, core.Pick(r, "must-revalidate", "proxy-revalidate"))
	}
	if r.P(.15) {
		ds = append(ds, core.Pick(r, "public", "no-transform", "immutable", "x-ext=1", `x-q="a"`, "stale-if-error=60", "stale-while-revalidate=600", "must-understand"))
	}
	if r.P(.07) {
		ds = append(ds, core.Pick(r, "no-cache", `no-cache="set-cookie"`))
	}
	switch why {
	case 0:
		ds = append(ds, "no-store")
	case 1:
		ds = append(ds, core.Pick(r, "private", `private="set-cookie"`))
	case 2: // no explicit expiration
		ds = nil
		useExpires = false
		v.h.Del("X-Expires-In")
		v.h.Del("X-Expires-Raw")
		if r.P(.4) {
			ds = append(ds, "public")
		}
	case 4:
		ds = append(ds, "no-store", "private")
	}
	_ = useExpires
	r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	for i := range ds {
		k, val, ok := strings.Cut(ds[i], "=")
		if strings.HasSuffix(k, "max-age") || k == "s-maxage" {
			if r.P(.1) {
				val = `"` + val + `"`
			}
		}
		k = r.Case(k)
		if ok {
			ds[i] = k + "=" + val
		} else {
			ds[i] = k
		}
	}
	if len(ds) > 0 {
		if len(ds) > 1 && r.P(.3) {
			k := r.Range(1, len(ds)-1)
			v.h.Add("Cache-Control", strings.Join(ds[:k], core.Pick(r, ",", ", ", " , ")))
			v.h.Add("Cache-Control", strings.Join(ds[k:], ", "))
		} else {
			v.h.Add("Cache-Control", strings.Join(ds, core.Pick(r, ",", ", ", " ,", ",,")))
		}
	}
	if r.P(.6) {
		v.etag = fmt.Sprintf(core.Pick(r, `"e%d"`, `W/"e%d"`), n)
		v.h.Set("Etag", v.etag)
	}
	if r.P(.5) {
		v.lm = httpDate(h.w.start.Add(-time.Duration(100-n%90) * time.Hour))
		v.h.Set("Last-Modified", v.lm)
	}
	v.h.Set("Content-Type", core.Pick(r, "text/plain", "text/html; charset=utf-8", "application/json", "image/png"))
	if r.P(.3) {
		v.h.Add("Set-Cookie", "a=1; Path=/")
		v.h.Add("Set-Cookie", fmt.Sprintf("b=%d", n))
	}
	if r.P(.3) {
		v.h.Add("X-Multi", core.Pick(r, "one", fmt.Sprintf("two, %d", n)))
		v.h.Add("X-Multi", fmt.Sprintf("two, %d", n))
	}
	if r.P(.1) {
		v.h["X-Same"] = []string{"a", "a", "", "", "b", "a"}[r.Intn(3):]
	}
	if r.P(.2) {
		v.h.Set("Content-Encoding", "x-custom")
	}
	if r.P(.1) {
		v.h.Set("X-Empty", "")
	}
	if r.P(.25) { // fields which say nothing about storing, age or validation
		for k := r.Range(1, 2); k > 0; k-- {
			kv := respNoise[r.Intn(len(respNoise))]
			v.h.Set(kv[0], kv[1])
		}
	}
	v.h.Set("X-Version", strconv.Itoa(n))
	size := core.Pick(r, 0, 1, 10, 100, 1000, 4096)
	if r.P(h.p.pBig) {
		size = core.Pick(r, 32<<10, 65536+1, 200000)
	}
	v.body = r.Bytes(size)
	if r.P(.1) { // looks like a message itself
		v.body = append([]byte(core.Pick(r, "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 3\r\n\r\nabc", "\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n",
			"\r\n\r\nHTTP/1.1 404 Not Found\r\nConnection: close\r\nX-Kache: HIT\r\nAge: 5\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n")), v.body...)
	}
	if r.P(.15) { // ends like a text file, or like a message
		v.body = append(v.body, core.Pick(r, "\n", "\r\n", "\r\n\r\n", "\n\n", "0\r\n\r\n", " ")...)
	}
	return v
}

// stamp adds the per-response headers.
func (h *history) stamp(hd http.Header, d time.Duration) http.Header {
	r := h.r
	hd = hd.Clone()
	now := time.Now().Add(d)
	if r.P(h.p.pBadDate) {
		switch r.Intn(7) {
		case 0:
		case 1:
			hd.Set("Date", core.Pick(r, "yesterday", "0", "Mon, 32 Jan 2000 00:00:00 GMT"))
		case 2:
			hd.Set("Date", httpDate(now.Add(-time.Duration(r.Range(1, 400))*time.Second)))
		case 3:
			hd.Set("Date", httpDate(now.Add(time.Duration(r.Range(1, 400))*time.Second)))
		case 4:
			hd.Set("Date", now.UTC().Format("Monday, 02-Jan-06 15:04:05 GMT"))
		case 5:
			hd.Set("Date", now.UTC().Format(time.ANSIC))
		case 6:
			hd.Set("Date", "Mon, 01 Jan 0001 00:00:01 GMT")
		}
	} else {
		hd.Set("Date", httpDate(now))
	}
	if s := hd.Get("X-Expires-In"); s != "" {
		n, _ := strconv.Atoi(s)
		hd.Set("Expires", httpDate(now.Add(time.Duration(n)*time.Second)))
		hd.Del("X-Expires-In")
	}
	if s := hd.Get("X-Expires-Raw"); s != "" {
		hd.Set("Expires", s)
		hd.Del("X-Expires-Raw")
	}
	if r.P(h.p.pAge) {
		hd.Set("Age", strconv.Itoa(core.Pick(r, 0, 1, 2, 5, 29, 100, 4000)))
	}
	return hd
}

// upstream is the origin's handler.
func (h *history) upstream(x *Exchange, req *http.Request) *OResp {
	r := h.r
	if r.P(h.p.pErr) {
		return &OResp{Err: errUpstream}
	}
	delay := time.Duration(0)
	if r.P(.1) {
		delay = time.Duration(r.Range(1, 1500)) * time.Millisecond
	}
	u := req.URL.String()
	v := h.res[u]
	if v == nil {
		v = h.mkVersion(1)
		h.res[u] = v
	} else if r.P(h.p.pChange) {
		v = h.mkVersion(v.n + 1)
		h.res[u] = v
	}
	hd := h.stamp(v.h, delay)
	inm, ims := req.Header.Get("If-None-Match"), req.Header.Get("If-Modified-Since")
	match := v.etag != "" && inm == v.etag || inm == "" && v.lm != "" && ims == v.lm
	if match && (req.Method == "GET" || req.Method == "HEAD") && r.P(h.p.p304) {
		nh := http.Header{}
		if r.P(.9) {
			nh["Date"] = hd["Date"]
		}
		for _, k := range []string{"Cache-Control", "Expires", "Etag", "X-Version", "Age"} {
			if vv, ok := hd[k]; ok && r.P(.7) {
				nh[k] = vv
			}
		}
		if v.etag != "" {
			nh.Set("Etag", v.etag)
		}
		if r.P(.2) {
			nh.Set("X-Refreshed", strconv.Itoa(h.w.O.ids))
		}
		if r.P(.15) {
			nh.Set("Content-Length", core.Pick(r, "0", "5", "123456"))
		}
		for r.P(.25) { // other values of fields the stored response may have
			kv := core.Pick(r, respNoise...)
			if r.P(.4) {
				kv = core.Pick(r, [2]string{"Link", "</b>; rel=next"}, [2]string{"Warning", `299 - "x"`}, [2]string{"Set-Cookie", "c=3"}, [2]string{"X-Multi", "three"},
					[2]string{"Server", "y/2"}, [2]string{"Content-Type", "text/x-new"}, [2]string{"Content-Encoding", "x-other"}, [2]string{"X-Empty", ""}, [2]string{"X-Same", "a"})
			}
			if nh.Set(kv[0], kv[1]); r.P(.3) {
				nh.Add(kv[0], "second")
			}
		}
		if r.P(.05) {
			nh.Set("Content-Range", "bytes 0-1/2")
		}
		if r.P(.1) {
			nh.Set("Cache-Control", core.Pick(r, "max-age=20", "no-store", "max-age=0", "private, max-age=60", "no-cache"))
		}
		for k, vv := range nh {
			if len(vv) == 0 {
				delete(nh, k)
			}
		}
		o := h.w.notModified(nh)
		o.Delay = delay
		return o
	}
	o := h.w.full(v.status, hd, v.body)
	if v.status == 204 {
		o.Body = nil
	}
	if m := req.Method; m != "GET" && m != "HEAD" && r.P(.3) {
		o.Body = nil
	}
	o.Unknown = r.P(.2)
	o.Delim = r.P(.4)
	o.HeadLen = core.Pick(r, 0, 0, 0, -1, -2)
	o.Delay = delay
	h.by[o.ID] = o
	return o
}

var notUpdated = map[string]bool{"Content-Range": true, "Content-Length": true, "Etag": true, "Vary": true}

// runHistory executes one generated history and lets the monitors of prop judge it.
func runHistory(t *testing.T, c *core.Check, prop string, p profile, i int) {
	runHistoryAs(t, c, prop, p, i)
}

// runHistoryAs lets the monitors of prop judge, whatever the property being checked.
func runHistoryAs(t *testing.T, c *core.Check, prop string, p profile, i int) {
	bubble(t, func(t *testing.T) {
		r := c.Rand("hist"+prop, i)
		h := &history{c: c, r: r, p: p, prop: prop, res: map[string]*version{}, cur: map[string]*stored{},
			must: map[string]bool{}, by: map[int]*OResp{}, forbidden: map[int]string{}, storedAt: map[string]time.Time{}}
		cfg := defaultConfig()
		cfg.XCache = r.P(.7)
		if p.cfg != nil {
			p.cfg(r, cfg)
		}
		var pdr provider.Provider
		h.w = newWorld(cfg, pdr, h.upstream)
		h.ttl = h.w.H.DefaultTTL()
		if !r.P(.5) { // start off a second's boundary
			time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
		}
		urls := make([]string, p.urls)
		for k := range urls {
			urls[k] = fmt.Sprintf("http://up.test/r%d?v=%d", k, k)
		}
		for s := 0; s < p.steps && !h.bad; s++ {
			u := urls[r.Intn(len(urls))]
			h.advance(u)
			h.request(u)
		}
		if h.shape.Len() > 0 {
			c.Eval(h.shape.String())
		} else {
			c.Eval("")
		}
		if i < 2 {
			k := h.lines
			if len(k) > 8 {
				k = k[:8]
			}
			c.Sample(map[string]any{"case": fmt.Sprintf("history %d", i), "log": k})
		}
	})
}

// advance moves time, often right to the edge of the freshness of u.
func (h *history) advance(u string) {
	r := h.r
	switch r.Intn(5) {
	case 0:
	case 1, 2:
		if e := h.cur[u]; e != nil {
			if life, ok := lifetime(e.h); ok {
				left := life - ageOf(e.h, e.rt, time.Now())
				d := left + time.Duration(core.Pick(r, -2000, -1000, -500, 0, 1, 500, 1000, 1500, 2000, 61000))*time.Millisecond
				if d > 0 && d < 10000*time.Hour {
					time.Sleep(d)
				}
				return
			}
		}
		time.Sleep(time.Duration(r.Range(1, 10)) * time.Second)
	case 3:
		time.Sleep(time.Duration(r.Range(1, 3000)) * time.Millisecond)
	case 4:
		time.Sleep(time.Duration(r.Range(1, 90)) * time.Second)
	}
}

func (h *history) reqHeader(u string) http.Header {
	r := h.r
	rh := http.Header{}
	if r.P(.3) {
		rh.Set("Accept", "*/*")
		rh.Set("User-Agent", "verif")
	}
	if r.P(.25) {
		kv := reqNoise[r.Intn(len(reqNoise))]
		rh.Set(kv[0], kv[1])
	}
	if !r.P(h.p.pReqCC) {
		return rh
	}
	num := func() int {
		if e := h.cur[u]; e != nil && r.P(.7) {
			a := int(ageOf(e.h, e.rt, time.Now()) / time.Second)
			life, _ := lifetime(e.h)
			l := int(life / time.Second)
			return min(1<<31, max(0, core.Pick(r, a, l-a, a-l)+r.Range(-2, 2)))
		}
		return core.Pick(r, 0, 1, 5, 60, 3600)
	}
	var ds []string
	seen := map[int]bool{}
	for n := r.Range(1, 2); n > 0; n-- {
		k := core.Pick(r, 0, 1, 2, 3, 4, 4, 5, 7)
		if seen[min(k, 6)] {
			continue
		}
		seen[min(k, 6)] = true
		if k == 4 || k == 5 {
			seen[4], seen[5] = true, true
		}
		switch k {
		case 0:
			ds = append(ds, "no-cache")
		case 1:
			ds = append(ds, "no-store")
		case 2:
			ds = append(ds, fmt.Sprintf("max-age=%d", num()))
		case 3:
			ds = append(ds, fmt.Sprintf("min-fresh=%d", num()))
		case 4:
			ds = append(ds, fmt.Sprintf("max-stale=%d", num()))
		case 5:
			ds = append(ds, "max-stale")
		case 7:
			if r.P(.5) {
				rh.Set("Pragma", core.Pick(r, "no-cache", "No-Cache", "x, no-cache"))
				return rh
			}
			ds = append(ds, "no-transform")
		}
	}
	for i := range ds {
		k, v, ok := strings.Cut(ds[i], "=")
		ds[i] = r.Case(k)
		if ok {
			ds[i] += "=" + v
		}
	}
	if len(ds) > 1 && r.P(.3) {
		rh.Add("Cache-Control", ds[0])
		rh.Add("Cache-Control", ds[1])
	} else {
		rh.Add("Cache-Control", strings.Join(ds, ", "))
	}
	if r.P(.1) {
		rh.Set("Pragma", "no-cache")
	}
	return rh
}

// respNoise are response fields without a meaning for a shared cache (or one it must not heed).
var respNoise = [][2]string{{"Surrogate-Control", "max-age=86400"}, {"Surrogate-Control", "no-store"}, {"X-Accel-Expires", "86400"}, {"X-Accel-Expires", "0"},
	{"Cdn-Cache-Control", "no-store"}, {"Cloudflare-Cdn-Cache-Control", "max-age=1000"}, {"Warning", `110 - "Response is Stale"`}, {"Via", "1.1 p"}, {"Pragma", "x"},
	{"X-Cache", "HIT"}, {"Accept-Ranges", "bytes"}, {"Retry-After", "100"}, {"Allow", "GET"}, {"Server", "x/1"}, {"Link", "</a>; rel=preload"}, {"Content-Md5", "Q2hlY2s="},
	{"Server-Timing", "a;dur=1"}, {"Location", "/r0?v=0"}, {"Content-Location", "/r1?v=1"}, {"Clear-Site-Data", `"cache"`}, {"Age-Max", "1"}, {"Www-Authenticate", "Basic"}}

// reqNoise are request fields which do not matter to caching.
var reqNoise = [][2]string{{"Date", "Mon, 02 Jan 2006 15:04:05 GMT"}, {"Date", "Fri, 31 Dec 2100 23:59:59 GMT"}, {"Date", "Sat, 01 Jan 2000 00:00:00 GMT"}, {"Age", "100000"}, {"Expires", "0"},
	{"X-Http-Method-Override", "POST"}, {"X-Http-Method-Override", "GET"}, {"X-Http-Method", "DELETE"}, {"Cookie", "sid=1"}, {"Via", "1.1 p"}, {"X-Forwarded-For", "1.2.3.4"},
	{"Etag", `"e1"`}, {"Vary", "Accept"}, {"Dnt", "1"}, {"Surrogate-Capability", "a"}, {"X-No-Cache", "1"}, {"Accept-Encoding", "gzip"},
	{"X-Original-Url", "/other"}, {"Prefer", "respond-async"}, {"Expect-Ct", "x"}, {"Content-Type", "a/b"},
	{"Te", "trailers"}, {"Origin", "http://o.test"}, {"Referer", "http://up.test/r1"}, {"Sec-Fetch-Mode", "no-cors"}, {"Max-Forwards", "0"}, {"Accept-Encoding", "gzip, identity;q=0"}}

var bypassHeaders = [][2]string{
	{"Authorization", "Basic Zm9v"}, {"If-None-Match", `"zzz"`}, {"If-Match", `"zzz"`}, {"If-Range", `"zzz"`},
	{"If-Modified-Since", "Sat, 01 Jan 2000 00:00:00 GMT"}, {"If-Unmodified-Since", "Sat, 01 Jan 2000 00:00:00 GMT"},
	{"Range", "bytes=0-3"},
}

// request sends one request and judges the outcome.
func (h *history) request(u string) {
	r, w := h.r, h.w
	method := "GET"
	rh := h.reqHeader(u)
	bypass := false
	var body []byte
	switch {
	case r.P(h.p.pUnsafe):
		method = core.Pick(r, "POST", "PUT", "DELETE", "PATCH", "OPTIONS")
		body = []byte("payload")
		bypass = true
	case r.P(h.p.pHead):
		method = "HEAD"
	case r.P(h.p.pBypass):
		kv := bypassHeaders[r.Intn(len(bypassHeaders))]
		rh.Set(kv[0], kv[1])
		bypass = true
	}
	h.byp = bypass
	before := h.cur[u]
	known := h.must[u]
	res := w.Do(context.Background(), method, u, rh, body)
	now := res.Start
	h.lines = append(h.lines, "request "+fmtHeader(rh)+" "+w.describe(res))
	h.c.Count("requests", 1)

	if res.Panicked != nil {
		h.viol(h.prop, "panic", "request panicked: %v", res.Panicked)
		h.bad = true
		return
	}
	if bypass {
		h.c.Count("bypass", 1)
		if len(res.X) != 1 {
			h.viol("C05", "bypass-not-forwarded", "%s %s with %s made %d upstream contacts, want exactly 1", method, u, fmtHeader(rh), len(res.X))
			h.bad = true
			return
		}
		h.unsafeEffects(u, method, res)
		h.fidelity(res, nil)
		if method == "GET" || method == "HEAD" {
			// the response of a bypassing request must not be stored
			if id := res.ID(); id != 0 {
				h.forbidden[id] = "response to a request which bypasses the cache"
			}
		}
		h.shape.WriteByte('b')
		return
	}

	id := res.ID()
	switch {
	case len(res.X) > 1:
		h.viol("C03", "extra-upstream", "%d upstream contacts for one request", len(res.X))
		h.bad = true
		return
	case res.Err != nil:
		if len(res.X) == 0 || res.X[0].Resp.Err == nil {
			h.viol("C01", "spurious-error", "request failed (%v) although upstream did not fail", res.Err)
			h.bad = true
		}
		h.shape.WriteByte('e')
		h.c.Count("upstream_errors", 1)
		return // nothing changes in the cache
	case len(res.X) == 0:
		h.hit(u, method, rh, res, before, now)
	default:
		h.contact(u, method, rh, res, before, known, now)
	}
	_ = id
}

func (h *history) unsafeEffects(u, method string, res *CResp) {
	if method == "GET" || method == "HEAD" || method == "OPTIONS" || len(res.X) == 0 || res.X[0].Resp.Err != nil {
		return
	}
	if id := res.ID(); id != 0 {
		h.forbidden[id] = "response to " + method
	}
	if st := res.X[0].Resp.Status; st >= 200 && st < 400 {
		if e := h.cur[u]; e != nil {
			h.forbidden[e.id] = "superseded by a successful " + method
			h.c.Count("unsafe_invalidations", 1)
		}
		delete(h.cur, u)
		delete(h.must, u)
	}
}

// hit judges a response served without upstream contact.
func (h *history) hit(u, method string, rh http.Header, res *CResp, e *stored, now time.Time) {
	h.c.Count("hits", 1)
	id := res.ID()
	if why, bad := h.forbidden[id]; bad {
		for _, p := range []string{"C02", "C05", "C08"} {
			h.viol(p, "forbidden-served", "response id=%d served from cache, but it must not be: %s", id, why)
		}
		h.bad = true
		return
	}
	if id == 0 {
		h.viol("C01", "unknown-response", "a response was served that no upstream response accounts for")
		h.bad = true
		return
	}
	if e == nil || e.id != id {
		want := 0
		if e != nil {
			want = e.id
		}
		for _, p := range []string{"C08", "C01"} {
			h.viol(p, "superseded-served", "served id=%d from cache; the latest reusable response for this URL is id=%d", id, want)
		}
		h.bad = true
		return
	}
	strict := h.w.H.Strict()
	if strict {
		v, why := usable(e.h, e.rt, now, rh)
		fmt.Fprintf(&h.shape, "h%d", v)
		if v == mustValidate {
			h.viol("C03", "stale-served:"+why, "id=%d served without validation: %s (age %v)", id, why, ageOf(e.h, e.rt, now))
		}
		if v == mustServe {
			h.c.Count("fresh_hits", 1)
		}
		if strings.HasPrefix(why, "stale within") {
			h.c.Count("max_stale_hits", 1)
		}
	} else {
		h.shape.WriteByte('n')
	}
	if at, ok := h.storedAt[u]; ok && now.After(at.Add(h.ttl)) {
		h.viol("C12", "ttl-exceeded", "served from cache %v after it was stored, ttl is %v", now.Sub(at), h.ttl)
	}
	if method == "HEAD" {
		h.c.Count("head_hits", 1)
	}
	h.ageHeader(res, e, now)
	h.marker(res, true)
	h.fidelity(res, e)
}

// contact judges a request that reached upstream.
func (h *history) contact(u, method string, rh http.Header, res *CResp, e *stored, known bool, now time.Time) {
	x := res.X[0]
	rcc := ccOf(rh)
	strict := h.w.H.Strict()
	end := x.End
	inTTL := false
	if at, ok := h.storedAt[u]; ok {
		inTTL = !now.After(at.Add(h.ttl))
	}
	if e != nil && known && inTTL {
		v := mustServe
		why := ""
		if strict {
			v, why = usable(e.h, e.rt, now, rh)
		}
		if !strict {
			h.viol("C11", "stored-not-served", "non-strict mode contacted upstream although id=%d is stored", e.id)
		}
		if v == mustServe && !has(rcc, "no-store") {
			h.viol("C07", "fresh-not-served", "upstream contacted although id=%d is stored and usable: %s", e.id, why)
		}
		if strict && v == mustValidate {
			h.c.Count("revalidations", 1)
			// the request must carry the stored validators
			etag, lm := e.h.Get("Etag"), e.h.Get("Last-Modified")
			if etag != "" && x.Header.Get("If-None-Match") != etag {
				h.viol("C04", "no-etag-validator", "stale id=%d has Etag %s, upstream got If-None-Match %q", e.id, etag, x.Header.Get("If-None-Match"))
			}
			if lm != "" && x.Header.Get("If-Modified-Since") != lm {
				h.viol("C04", "no-lm-validator", "stale id=%d has Last-Modified %s, upstream got If-Modified-Since %q", e.id, lm, x.Header.Get("If-Modified-Since"))
			}
		}
	}
	if d := sentFields(rh, x.Header); d != "" {
		h.viol("C04", "request-fields", "the request reached upstream changed: %s", d)
		h.viol("C01", "request-fields", "the request reached upstream changed: %s", d)
	}
	if x.Resp.Status == 304 {
		h.c.Count("status_304", 1)
		h.shape.WriteByte('v')
		if e == nil {
			h.viol("C04", "unconditional-304", "upstream was asked conditionally although nothing is stored for the URL")
			h.bad = true
			return
		}
		if res.ID() != e.id {
			h.viol("C04", "validated-wrong-response", "304 validated id=%d but id=%d was delivered with status %d", e.id, res.ID(), res.Status)
			h.bad = true
			return
		}
		// merge the headers
		nh := e.h.Clone()
		nh.Del("Age")
		for k, vv := range x.Resp.Header {
			if !notUpdated[k] {
				nh[k] = vv
			}
		}
		nh = effective(h.w.H, nh)
		ne := &stored{id: e.id, x: e.x, h: nh, rt: end, n304: e.n304 + 1}
		ageMid := ""
		if a := x.Resp.Header.Get("Age"); a != "" {
			ageMid = a
		}
		if got := res.Header.Get("Age"); got != ageMid {
			h.viol("C04", "age-on-validated", "validated response delivered with Age %q, want %q", got, ageMid)
			h.viol("C09", "age-on-validated", "validated response delivered with Age %q, want %q", got, ageMid)
		}
		h.fidelity(res, ne)
		h.marker(res, true)
		ok := !strict || storable(e.x.Status, nh, rcc)
		if ok && method == "GET" {
			h.cur[u] = ne
			h.must[u] = true
			h.storedAt[u] = end
			h.c.Count("validated_refreshed", 1)
		} else {
			if method == "GET" {
				h.forbidden[e.id] = "its validation response made it unstorable"
				if !storable(e.x.Status, nh, nil) {
					h.c.Count("validated_unstorable", 1)
				}
			}
			if method == "HEAD" {
				h.must[u] = false // may be kept or dropped
			} else {
				delete(h.cur, u)
				delete(h.must, u)
			}
		}
		return
	}
	// a full response
	if res.ID() != x.Resp.ID {
		h.viol("C01", "not-the-upstream-response", "upstream answered id=%d but id=%d was delivered", x.Resp.ID, res.ID())
		h.viol("C08", "not-the-upstream-response", "upstream answered id=%d but id=%d was delivered", x.Resp.ID, res.ID())
		h.viol("C04", "replacement-not-delivered", "upstream answered id=%d but id=%d was delivered", x.Resp.ID, res.ID())
		h.bad = true
		return
	}
	h.fidelity(res, nil)
	h.marker(res, false)
	if a := x.Resp.Header.Get("Age"); res.Header.Get("Age") != a {
		h.viol("C09", "age-on-fetched", "fetched response delivered with Age %q, upstream sent %q", res.Header.Get("Age"), a)
	}
	if e != nil && e.id != x.Resp.ID && method == "GET" {
		h.forbidden[e.id] = fmt.Sprintf("superseded by id=%d", x.Resp.ID)
		h.c.Count("superseded", 1)
	}
	if method == "HEAD" {
		h.shape.WriteByte('H')
		h.forbidden[x.Resp.ID] = "response to HEAD"
		h.c.Count("head_misses", 1)
		h.must[u] = false
		return
	}
	eff := effective(h.w.H, x.Resp.Header)
	if !strict || storable(x.Resp.Status, eff, rcc) {
		h.shape.WriteByte('s')
		h.cur[u] = &stored{id: x.Resp.ID, x: x.Resp, h: eff, rt: end}
		h.must[u] = true
		h.storedAt[u] = end
		h.c.Count("stored", 1)
	} else {
		h.shape.WriteByte('f')
		h.forbidden[x.Resp.ID] = "not storable"
		h.c.Count("unstorable", 1)
		delete(h.cur, u)
		delete(h.must, u)
	}
}

// sentFields compares the fields of a request with those which reached upstream, where
// validators may have been added.
func sentFields(rh, got http.Header) string {
	for k, vv := range rh {
		if k != "Host" && !reflect.DeepEqual(vv, got[k]) {
			return fmt.Sprintf("%s was %q and is %q", k, vv, got[k])
		}
	}
	for k, vv := range got {
		switch k {
		case "If-None-Match", "If-Modified-Since", "Last-Modified":
			continue
		}
		if _, ok := rh[k]; !ok {
			return fmt.Sprintf("%s %q was added", k, vv)
		}
	}
	return ""
}

// effective applies the configured default/forced Cache-Control.
func effective(hc *cache.HttpCache, h http.Header) http.Header {
	h = h.Clone()
	if d := hc.DefaultCacheControl(); d != "" {
		if _, ok := h["Cache-Control"]; !ok || hc.ForceCacheControl() {
			h["Cache-Control"] = []string{d}
		}
	}
	return h
}

// ageHeader checks Age of a response served from cache.
func (h *history) ageHeader(res *CResp, e *stored, now time.Time) {
	age := ageOf(e.h, e.rt, now)
	vals := res.Header.Values("Age")
	if len(vals) != 1 {
		h.viol("C09", "age-missing", "response served from cache has Age %q", vals)
		return
	}
	n, err := strconv.ParseInt(vals[0], 10, 64)
	if err != nil || n < 0 {
		h.viol("C09", "age-invalid", "response served from cache has Age %q", vals[0])
		return
	}
	h.c.Count("age_checked", 1)
	lo := int64(age / time.Second)
	hi := lo + 1
	if n < lo || n > hi {
		h.viol("C09", "age-wrong", "Age is %d, but the response is between %d and %d seconds old", n, lo, hi)
	}
}

// marker checks the debug header.
func (h *history) marker(res *CResp, hit bool) {
	name := h.w.H.XCacheHeader()
	got := res.Header.Get(name)
	want := ""
	if hit && h.w.H.MarkCachedResponses() {
		want = "HIT"
	}
	if got != want {
		h.viol("C37", "marker", "debug header %s is %q, want %q (hit=%v enabled=%v)", name, got, want, hit, h.w.H.MarkCachedResponses())
	}
	if want != "" {
		h.c.Count("marked_hits", 1)
	}
}

// fidelity checks that exactly what upstream sent is delivered. e is the stored response, if served
// from there; otherwise the direct exchange counts.
func (h *history) fidelity(res *CResp, e *stored) {
	validated := e != nil && len(res.X) > 0
	if h.prop != "C01" && h.prop != "C10" && !(h.prop == "C04" && validated) || res.Err != nil {
		return
	}
	var status int
	var want http.Header
	var body []byte
	if e != nil {
		status, want, body = e.x.Status, e.h, e.x.Body
	} else {
		x := res.X[0]
		if x.Resp.Err != nil {
			return
		}
		status, want, body = x.Resp.Status, x.Resp.Header, x.Resp.Body
		if !h.byp {
			want = effective(h.w.H, want)
		}
	}
	if res.Method == "HEAD" {
		if len(res.Body) != 0 {
			h.viol(h.prop, "head-body", "HEAD delivered %d body bytes", len(res.Body))
		}
		body = nil
	}
	h.c.Count("fidelity_checked", 1)
	if res.BodyErr != nil {
		h.viol(h.prop, "body-error", "reading the body failed: %v", res.BodyErr)
		return
	}
	if res.Status != status {
		h.viol(h.prop, "status", "delivered status %d, upstream sent %d", res.Status, status)
		return
	}
	if !bytes.Equal(res.Body, body) {
		h.viol(h.prop, "body", "delivered %d body bytes which differ from the %d bytes upstream sent", len(res.Body), len(body))
		return
	}
	if d := diffHeader(want, res.Header, h.w.H.XCacheHeader()); d != "" {
		h.viol(h.prop, "header", "delivered headers differ from what upstream sent: %s", d)
	}
	if res.Method == "GET" && res.Status == 200 && res.Length >= 0 && res.Length != int64(len(body)) {
		h.viol(h.prop, "length", "declared length %d, body has %d bytes", res.Length, len(body))
	}
	if d := lengthHeader(res, body); d != "" {
		h.viol(h.prop, "length-header", "%s", d)
	}
}

// diffHeader compares end-to-end headers. Connection-level and message framing headers, Age and
// the debug header are not part of the comparison.
func diffHeader(want, got http.Header, marker string) string {
	skip := map[string]bool{"Age": true, "Content-Length": true, "Connection": true, "Transfer-Encoding": true,
		http.CanonicalHeaderKey(marker): true}
	var out []string
	for k, vv := range want {
		if !skip[k] && !reflect.DeepEqual(trimAll(vv), trimAll(got[k])) {
			out = append(out, fmt.Sprintf("%s: want %q got %q", k, vv, got[k]))
		}
	}
	for k, vv := range got {
		if _, ok := want[k]; !ok && !skip[k] {
			out = append(out, fmt.Sprintf("%s: unexpected %q", k, vv))
		}
	}
	return strings.Join(out, "; ")
}

// lengthHeader checks the declared length of a complete GET response.
func lengthHeader(res *CResp, body []byte) string {
	vv, ok := res.Header["Content-Length"]
	if !ok || res.Method != "GET" || res.Status == 204 {
		return ""
	}
	if len(vv) != 1 || vv[0] != strconv.Itoa(len(body)) {
		return fmt.Sprintf("delivered with Content-Length %q, the body has %d bytes", vv, len(body))
	}
	return ""
}

func trimAll(vv []string) []string {
	out := make([]string, len(vv))
	for i, v := range vv {
		out[i] = strings.TrimSpace(v)
	}
	return out
}
