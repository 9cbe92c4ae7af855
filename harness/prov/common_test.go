//go:build go1.25

// Package prov monitors the storage providers: in-memory, redis (against a miniature server) and layered.
package prov

import (
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

func TestMain(m *testing.M) {
	log.Logger = zerolog.New(io.Discard)
	os.Exit(m.Run())
}

var bg = context.Background()

// overhead is the accounted size of an item in addition to its bytes.
const overhead = 24

func newMem(cfg provider.InMemoryCacheConfig) provider.Provider {
	p, err := provider.NewInMemoryCache(cfg)
	if err != nil {
		panic(err)
	}
	return p
}

func keysOf[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

// glob is the reference matcher: '*' stands for any bytes, everything else for itself.
func glob(pattern, s string) bool {
	parts := strings.Split(pattern, "*")
	if len(parts) == 1 {
		return s == pattern
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, last)
}

// tier is an instrumented remote tier with expiry, used below the layered cache.
type tier struct {
	mu    sync.Mutex
	m     map[string]item
	gets  []string
	ops   []string
	err   error
	yield func()
}

type item struct {
	v   []byte
	exp time.Time
}

func newTier() *tier { return &tier{m: map[string]item{}, yield: func() {}} }

func (t *tier) Get(_ context.Context, key string) []byte {
	t.yield()
	t.mu.Lock()
	t.gets = append(t.gets, key)
	it, ok := t.m[key]
	t.mu.Unlock()
	t.yield()
	if !ok || time.Now().After(it.exp) {
		return nil
	}
	return it.v
}

func (t *tier) Set(key string, v []byte, ttl time.Duration) {
	t.yield()
	t.mu.Lock()
	t.ops = append(t.ops, "set "+key)
	t.m[key] = item{v, time.Now().Add(ttl)}
	t.mu.Unlock()
	t.yield()
}

func (t *tier) Delete(_ context.Context, key string) bool {
	t.yield()
	t.mu.Lock()
	t.ops = append(t.ops, "delete "+key)
	if t.err != nil {
		defer t.mu.Unlock()
		return false
	}
	_, ok := t.m[key]
	delete(t.m, key)
	t.mu.Unlock()
	t.yield()
	return ok
}

func (t *tier) Keys(_ context.Context, prefix string) []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	var ks []string
	for k := range t.m {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	return ks
}

func (t *tier) Purge(ctx context.Context, pattern string) error {
	t.mu.Lock()
	t.ops = append(t.ops, "purge "+pattern)
	t.mu.Unlock()
	if pattern == "" {
		return t.Flush(ctx)
	}
	t.yield()
	t.mu.Lock()
	if t.err != nil {
		defer t.mu.Unlock()
		return t.err
	}
	for _, k := range keysOf(t.m) {
		if glob(pattern, k) {
			delete(t.m, k)
			t.mu.Unlock()
			t.yield()
			t.mu.Lock()
		}
	}
	t.mu.Unlock()
	t.yield()
	return nil
}

func (t *tier) Flush(context.Context) error {
	t.yield()
	t.mu.Lock()
	t.ops = append(t.ops, "flush")
	if t.err != nil {
		defer t.mu.Unlock()
		return t.err
	}
	t.m = map[string]item{}
	t.mu.Unlock()
	t.yield()
	return nil
}

func (t *tier) Size() int { return len(t.Keys(bg, "")) }

func trace(l *[]string, format string, args ...any) {
	*l = append(*l, fmt.Sprintf(format, args...))
}

func short(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}
