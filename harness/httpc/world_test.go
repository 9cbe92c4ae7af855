//go:build go1.25

package httpc

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

func TestMain(m *testing.M) {
	// Evaluate log statements, but keep them quiet.
	log.Logger = zerolog.New(io.Discard)
	os.Exit(m.Run())
}

// bubble runs f under fake time. A deadlock of all goroutines crashes the process, which the
// runner reports as a hang.
func bubble(t *testing.T, f func(t *testing.T)) {
	t.Helper()
	synctest.Test(t, f)
}

// OResp is a response of the scripted upstream.
type OResp struct {
	ID       int
	Status   int
	Header   http.Header
	Body     []byte
	Unknown  bool          // unknown length (chunked)
	Unpacked bool          // with Unknown: the transport has removed a compression
	Delim    bool          // with Unknown: ends with the connection instead of chunked
	HeadLen  int           // length a HEAD response declares: 0 as GET, -1 none, -2 zero
	GoneErr  error         // what the transport reports when the client goes away (nil: the context error)
	Err      error         // transport failure instead of a response
	Cut      int           // if > 0, the body fails after Cut-1 bytes
	Delay    time.Duration // time until the response header arrives
	Gate     chan struct{} // if set, the response waits until closed (or the request is canceled)
	BodyGate chan struct{} // if set, the second half of the body waits until closed
	Panic    bool
	After    func() // called when the response header has arrived
}

// Exchange is one observed upstream contact.
type Exchange struct {
	Seq      int
	Method   string
	URL      string
	Host     string
	Header   http.Header
	Body     []byte
	Start    time.Time
	End      time.Time // response time
	BodyEnd  time.Time // the body was read to its end or failed
	Resp     *OResp
	Label    string // label of the client request which caused it
	Canceled bool
}

type labelKey struct{}

// Origin is the scripted upstream.
type Origin struct {
	mu     sync.Mutex
	seq    int
	ids    int
	all    []*Exchange
	inUse  int
	maxUse int
	handle func(x *Exchange, r *http.Request) *OResp
	tick   time.Duration // minimal virtual duration of each exchange
}

var errUpstream = errors.New("upstream failure")

// gatedBody delivers data, then fails or ends.
type gatedBody struct {
	r    *bytes.Reader
	cut  int // remaining bytes until failure; <0: none
	gate chan struct{}
	half int
	ctx  context.Context
	gone error
	end  func()
}

func (g *gatedBody) Read(p []byte) (int, error) {
	n, err := g.read(p)
	if err != nil && g.end != nil {
		g.end()
	}
	return n, err
}

func (g *gatedBody) read(p []byte) (int, error) {
	if g.ctx.Err() != nil {
		return 0, g.err()
	}
	if g.gate != nil && g.half <= 0 {
		select {
		case <-g.gate:
		case <-g.ctx.Done():
			return 0, g.err()
		}
		g.gate = nil
	}
	if g.cut == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	if g.cut > 0 && len(p) > g.cut {
		p = p[:g.cut]
	}
	if g.gate != nil && len(p) > g.half {
		p = p[:g.half]
	}
	n, err := g.r.Read(p)
	if g.cut > 0 {
		g.cut -= n
	}
	if g.gate != nil {
		g.half -= n
	}
	return n, err
}

// err is how reading fails once the client has gone.
func (g *gatedBody) err() error {
	if g.gone != nil {
		return g.gone
	}
	return g.ctx.Err()
}

func (g *gatedBody) Close() error { return nil }

func (o *Origin) RoundTrip(req *http.Request) (*http.Response, error) {
	o.mu.Lock()
	o.seq++
	x := &Exchange{Seq: o.seq, Method: req.Method, URL: req.URL.String(), Host: req.Host,
		Header: req.Header.Clone(), Start: time.Now()}
	if l, ok := req.Context().Value(labelKey{}).(string); ok {
		x.Label = l
	}
	if req.Body != nil {
		x.Body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	o.all = append(o.all, x)
	o.inUse++
	if o.inUse > o.maxUse {
		o.maxUse = o.inUse
	}
	spec := o.handle(x, req)
	if spec.ID == 0 && spec.Err == nil {
		o.ids++
		spec.ID = o.ids
	}
	x.Resp = spec
	o.mu.Unlock()
	defer func() {
		o.mu.Lock()
		o.inUse--
		x.End = time.Now()
		o.mu.Unlock()
	}()

	if d := max(spec.Delay, o.tick); d > 0 {
		select {
		case <-time.After(d):
		case <-req.Context().Done():
			x.Canceled = true
			return nil, gone(spec, req)
		}
	}
	if spec.Gate != nil {
		select {
		case <-spec.Gate:
		case <-req.Context().Done():
			x.Canceled = true
			return nil, gone(spec, req)
		}
	}
	if spec.Panic {
		panic("upstream transport panic")
	}
	if spec.Err != nil {
		return nil, spec.Err
	}
	if req.Context().Err() != nil {
		x.Canceled = true
		return nil, gone(spec, req)
	}
	res := build(spec, req)
	if g, ok := res.Body.(*gatedBody); ok {
		g.end = func() {
			o.mu.Lock()
			x.BodyEnd = time.Now()
			o.mu.Unlock()
		}
	}
	if spec.After != nil {
		spec.After()
	}
	return res, nil
}

// gone is the error of an exchange whose client went away.
func gone(s *OResp, req *http.Request) error {
	if s.GoneErr != nil {
		return s.GoneErr
	}
	return req.Context().Err()
}

// build makes a response look as if read from a connection.
func build(s *OResp, req *http.Request) *http.Response {
	h := s.Header.Clone()
	if h == nil {
		h = http.Header{}
	}
	res := &http.Response{
		Status:     fmt.Sprintf("%d %s", s.Status, http.StatusText(s.Status)),
		StatusCode: s.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Request: req,
	}
	noBody := req.Method == http.MethodHead || s.Status == 204 || s.Status == 304
	switch {
	case s.Status == 204 || s.Status == 304:
		res.ContentLength = 0
	case s.Unknown:
		res.ContentLength = -1
		res.Uncompressed = s.Unpacked
		if s.Delim {
			res.Close = true
		} else if req.Method != http.MethodHead {
			res.TransferEncoding = []string{"chunked"}
		}
	case req.Method == http.MethodHead && s.HeadLen == -1:
		res.ContentLength = -1
	case req.Method == http.MethodHead && s.HeadLen == -2:
		res.ContentLength = 0
		h.Set("Content-Length", "0")
	default:
		res.ContentLength = int64(len(s.Body))
		h.Set("Content-Length", strconv.Itoa(len(s.Body)))
	}
	if noBody {
		res.Body = http.NoBody
	} else {
		cut := -1
		if s.Cut > 0 {
			cut = s.Cut - 1
		}
		res.Body = &gatedBody{r: bytes.NewReader(s.Body), cut: cut, gate: s.BodyGate,
			half: len(s.Body) / 2, ctx: req.Context(), gone: s.GoneErr}
	}
	return res
}

// World is the data plane: coalescer, http cache and provider in front of a scripted upstream.
type World struct {
	H      *cache.HttpCache
	P      provider.Provider
	RT     http.RoundTripper // coalesced
	T      *middleware.Transport
	O      *Origin
	Reg    *prometheus.Registry
	Log    *core.Log
	seq    int
	start  time.Time
	client int
}

func defaultConfig() *cache.HttpCacheConfig {
	return &cache.HttpCacheConfig{Strict: true, XCache: true, XCacheName: "X-Kache", DefaultTTL: "1000h"}
}

func newProvider() provider.Provider {
	p, err := provider.NewInMemoryCache(provider.InMemoryCacheConfig{})
	if err != nil {
		panic(err)
	}
	return p
}

func newWorld(cfg *cache.HttpCacheConfig, p provider.Provider, handle func(x *Exchange, r *http.Request) *OResp) *World {
	if p == nil {
		p = newProvider()
	}
	h, err := cache.NewHttpCache(cfg, p)
	if err != nil {
		panic(err)
	}
	w := &World{H: h, P: p, O: &Origin{handle: handle}, Reg: prometheus.NewRegistry(), Log: &core.Log{}, start: time.Now()}
	w.T = middleware.NewCachedTransport(h, w.Reg)
	w.T.Transport = w.O
	w.RT = middleware.NewCoalesced(w.T)
	return w
}

// CResp is what a client observed.
type CResp struct {
	Label    string
	reqLabel string
	Method   string
	URL      string
	Status   int
	Header   http.Header
	Body     []byte
	BodyErr  error
	Err      error
	Panicked any
	Length   int64
	Start    time.Time
	End      time.Time
	// X are the upstream contacts made during this (sequential) request.
	X []*Exchange
}

// ID is the identity of the upstream response that was delivered; 0 if none.
func (r *CResp) ID() int {
	if r.Header == nil {
		return 0
	}
	n, _ := strconv.Atoi(r.Header.Get("X-Oid"))
	return n
}

// Hit reports whether a response was delivered without contacting upstream.
func (r *CResp) Hit() bool { return r.Err == nil && r.Panicked == nil && len(r.X) == 0 }

// Do sends one request.
func (w *World) Do(ctx context.Context, method, url string, h http.Header, body []byte) *CResp {
	w.O.mu.Lock()
	w.client++
	label := fmt.Sprintf("q%d", w.client)
	first := len(w.O.all)
	w.O.mu.Unlock()
	res := &CResp{Label: label, reqLabel: label, Method: method, URL: url, Start: time.Now()}
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequestWithContext(context.WithValue(ctx, labelKey{}, label), method, url, rd)
	if err != nil {
		panic(err)
	}
	for k, vv := range h {
		req.Header[k] = append([]string(nil), vv...)
	}
	if hv := req.Header.Get("Host"); hv != "" {
		req.Host = hv
		req.Header.Del("Host")
	}
	// what kind of connection the client has makes no difference
	num := 0
	_, _ = fmt.Sscanf(label, "q%d", &num)
	req.RemoteAddr = fmt.Sprintf("192.0.2.%d:%d", num%7, 1000+num)
	switch num % 5 {
	case 1:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.0", 1, 0
	case 3:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
	}
	req.Close = num%4 == 2
	if num%3 == 1 {
		req.TLS = &tls.ConnectionState{}
	}
	w.roundTrip(req, res)
	w.O.mu.Lock()
	res.X = append(res.X, w.O.all[first:]...)
	w.O.mu.Unlock()
	res.End = time.Now()
	return res
}

func (w *World) roundTrip(req *http.Request, res *CResp) {
	defer func() {
		if p := recover(); p != nil {
			res.Panicked = p
		}
	}()
	r, err := w.RT.RoundTrip(req)
	if err != nil {
		res.Err = err
		return
	}
	res.Status, res.Header, res.Length = r.StatusCode, r.Header, r.ContentLength
	if r.Body != nil {
		res.Body, res.BodyErr = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	res.Header = res.Header.Clone()
}

// Get is a plain GET.
func (w *World) Get(url string, kv ...string) *CResp {
	return w.Do(context.Background(), "GET", url, hdr(kv...), nil)
}

// describe renders an observation for histories.
func (w *World) describe(r *CResp) string {
	var b strings.Builder
	fmt.Fprintf(&b, "t=%v %s %s -> ", r.Start.Sub(w.start), r.Method, r.URL)
	switch {
	case r.Panicked != nil:
		fmt.Fprintf(&b, "PANIC %v", r.Panicked)
	case r.Err != nil:
		fmt.Fprintf(&b, "error %v", r.Err)
	default:
		fmt.Fprintf(&b, "%d %s len=%d err=%v", r.Status, fmtHeader(r.Header), len(r.Body), r.BodyErr)
	}
	for _, x := range r.X {
		fmt.Fprintf(&b, "\n      upstream %s %s %s", x.Method, x.URL, fmtHeader(x.Header))
		if x.Resp != nil {
			fmt.Fprintf(&b, " => id=%d %d %s len=%d err=%v", x.Resp.ID, x.Resp.Status, fmtHeader(x.Resp.Header), len(x.Resp.Body), x.Resp.Err)
		}
	}
	return b.String()
}

func fmtHeader(h http.Header) string {
	keys := make([]string, 0, len(h))
	for k := range h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	b.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%s: %q", k, h[k])
	}
	b.WriteByte('}')
	return b.String()
}

func hdr(kv ...string) http.Header {
	h := http.Header{}
	for i := 0; i+1 < len(kv); i += 2 {
		h.Add(kv[i], kv[i+1])
	}
	return h
}

func httpDate(t time.Time) string { return t.UTC().Format(http.TimeFormat) }

// mark gives a response body an identity.
func mark(id int, body []byte) []byte {
	return append([]byte(fmt.Sprintf("[oid=%d]", id)), body...)
}

// full makes a full response with an identity. Caller holds the origin lock (i.e. is a handler).
func (w *World) full(status int, h http.Header, body []byte) *OResp {
	w.O.ids++
	id := w.O.ids
	h = h.Clone()
	if h == nil {
		h = http.Header{}
	}
	h.Set("X-Oid", strconv.Itoa(id))
	return &OResp{ID: id, Status: status, Header: h, Body: mark(id, body)}
}

// notModified makes a 304.
func (w *World) notModified(h http.Header) *OResp {
	w.O.ids++
	h = h.Clone()
	h.Set("X-Vid", strconv.Itoa(w.O.ids))
	return &OResp{ID: w.O.ids, Status: 304, Header: h}
}
