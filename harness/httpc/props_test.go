//go:build go1.25

package httpc

import (
	"context"
	"fmt"
	"net/http"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

func histories(t *testing.T, c *core.Check, prop string, p profile, n int) {
	for i := 0; i < n && !c.Stopped(); i++ {
		runHistory(t, c, prop, p, i)
	}
}

const histRule = "a case is a generated request history over 1-4 URLs (method, request directives, time steps biased to the " +
	"freshness edges, upstream versions, dates, ages, errors, 304s); it is distinct by the sequence of hit/miss/validate/store " +
	"outcomes the monitor saw, and non-trivial if the monitor judged at least one outcome. "

// script is a directed case: every upstream contact is answered by next.
type script struct {
	*World
	c     *core.Check
	name  string
	lines []string
	next  func(x *Exchange, r *http.Request) *OResp
	bad   bool
}

// directed runs one directed case in its own bubble.
func directed(t *testing.T, c *core.Check, cfg *cache.HttpCacheConfig, name string, f func(s *script)) {
	directedOn(t, c, cfg, nil, name, f)
}

// directedOn uses the given provider.
func directedOn(t *testing.T, c *core.Check, cfg *cache.HttpCacheConfig, pdr provider.Provider, name string, f func(s *script)) {
	if c.Stopped() {
		return
	}
	bubble(t, func(t *testing.T) {
		s := &script{c: c, name: name}
		if cfg == nil {
			cfg = defaultConfig()
		}
		s.World = newWorld(cfg, pdr, func(x *Exchange, r *http.Request) *OResp { return s.next(x, r) })
		f(s)
		synctest.Wait()
	})
	c.Eval(name)
	c.Count("directed", 1)
}

// answer makes upstream answer with a fresh identity each time.
func (s *script) answer(status int, h http.Header, body string) {
	s.next = func(x *Exchange, r *http.Request) *OResp { return s.full(status, h, []byte(body)) }
}

func (s *script) do(method, url string, h http.Header) *CResp {
	return s.doCtx(context.Background(), method, url, h)
}

func (s *script) doCtx(ctx context.Context, method, url string, h http.Header) *CResp {
	var body []byte
	if method != "GET" && method != "HEAD" {
		body = []byte("payload")
	}
	r := s.Do(ctx, method, url, h, body)
	s.lines = append(s.lines, "request "+fmtHeader(h)+" "+s.describe(r))
	s.c.Count("requests", 1)
	return r
}

func (s *script) get(url string, kv ...string) *CResp { return s.do("GET", url, hdr(kv...)) }

func (s *script) fail(sig, format string, args ...any) {
	if s.bad {
		return
	}
	s.bad = true
	s.c.Violate(sig, append([]string{"case: " + s.name}, s.lines...), format, args...)
}

// date stamps the current time.
func date() (string, string) { return "Date", httpDate(time.Now()) }

const u0 = "http://up.test/x?q=1"

func cacheable(kv ...string) http.Header {
	h := hdr(kv...)
	h.Set(date())
	return h
}

// picky is a provider which does nothing for those who have gone, as a remote cache's client.
type picky struct{ provider.Provider }

func (p picky) Get(ctx context.Context, key string) []byte {
	if ctx.Err() != nil {
		return nil
	}
	return p.Provider.Get(ctx, key)
}

func (p picky) Delete(ctx context.Context, key string) bool {
	return ctx.Err() == nil && p.Provider.Delete(ctx, key)
}

func (p picky) Purge(ctx context.Context, pattern string) error {
	if ctx.Err() != nil {
		return ctx.Err()
	}
	return p.Provider.Purge(ctx, pattern)
}

var _ = fmt.Sprint

func nil2default() *cache.HttpCacheConfig { return defaultConfig() }
