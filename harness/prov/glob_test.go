//go:build go1.25

package prov

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

func TestC21(t *testing.T) {
	c := core.New(t, "C21")
	for _, x := range []struct {
		p, s string
		ok   bool
	}{{"a*", "a", true}, {"a*b", "ab", true}, {"a*a", "a", false}, {"*", "", true}, {"a?", "ab", false}, {"*a*b", "xayb", true}, {"a*b*b", "ab", false}} {
		if glob(x.p, x.s) != x.ok {
			t.Fatalf("the reference matcher is broken: %v", x)
		}
	}
	for i := 0; i < core.N(4000, 60000) && !c.Stopped(); i++ {
		globCase(c, "inmemory", i, newMem(provider.InMemoryCacheConfig{}), nil, nil)
	}
	srv := startRedis()
	defer srv.Close()
	core.PageScan(srv, 1)
	p, cl := newRedis(srv.Addr(), provider.RedisClientConfig{})
	defer cl.Stop()
	has := func(k string) bool { return srv.Exists(k) }
	for i := 0; i < core.N(1500, 15000) && !c.Stopped(); i++ {
		srv.FlushAll()
		globCase(c, "redis", i, p, has, nil)
		srv.FlushAll()
		l, err := provider.NewCached(p, "t", time.Hour, provider.InMemoryCacheConfig{})
		if err != nil {
			t.Fatal(err)
		}
		globCase(c, "layered", i, l, has, p)
	}
	for i := 0; i < core.N(60, 400) && !c.Stopped(); i++ {
		srv.FlushAll()
		var q provider.Provider = p
		kind := []string{"redis", "inmemory", "layered"}[i%3]
		if kind == "inmemory" {
			q = newMem(provider.InMemoryCacheConfig{})
		} else if kind == "layered" {
			q, _ = provider.NewCached(p, "t", time.Hour, provider.InMemoryCacheConfig{})
		}
		crowd(c, kind, i, q, srv, kind != "inmemory")
	}
	c.Done("a case is a random key set and a sequence of purges, flushes and prefix listings on it (in-memory, redis, layered over redis), with keys and patterns over an alphabet "+
		"of separators, wildcards and the metacharacters of both backends, patterns mostly derived from stored keys; the outcome must equal the reference matcher's. Distinct by keys and "+
		"pattern; trivial if a pattern matched nothing. Besides, purges of thousands of keys, "+
		"half of the time while other clients read and delete keys",
		"purges_inmemory", "purges_redis", "purges_layered", "removed", "kept", "listings", "flushes", "literal_metas", "non_ascii", "crowds", "crowd_removed", "crowd_concurrent")
}

const alphabet = "abAB01/-_.:%?[]{}()^$+|\\!*&=~"

// extras are pieces of keys besides the alphabet: for the redis backends only well-formed text
// (miniredis matches with regular expressions over text).
var extras = map[bool][]string{true: {"\xff", "\n", "\xc3", "é", "\x00", "\u2028", "\r"}, false: {"é", "ü", "日"}}

func globKey(r *core.R, raw bool) string {
	if r.P(0.15) {
		e := extras[raw]
		return globKey(r, raw) + core.Pick(r, e...) + globKey(r, raw)
	}
	n := r.Range(1, 10)
	b := make([]byte, n)
	for i := range b {
		if r.P(0.6) {
			b[i] = "ab/."[r.Intn(4)]
		} else {
			b[i] = alphabet[r.Intn(len(alphabet))]
		}
	}
	if r.P(0.02) {
		return string(b) + strings.Repeat("/long", r.Range(60, 4000)) + string(b)
	}
	if r.P(0.2) {
		return "kache-http://h.test/" + string(b)
	}
	return string(b)
}

// globPattern derives a pattern from a key by cutting pieces out.
func globPattern(r *core.R, keys []string, raw bool) string {
	if p := globPattern1(r, keys, raw); raw || utf8.ValidString(p) {
		return p
	}
	return globPattern(r, keys, raw)
}

func globPattern1(r *core.R, keys []string, raw bool) string {
	k := core.Pick(r, keys...)
	switch r.Intn(9) {
	case 8: // many wildcards, for one byte, several or none
		var b strings.Builder
		for i := 0; i < len(k); i++ {
			if r.P(0.7) {
				b.WriteByte(k[i])
				if r.P(0.6) {
					continue
				}
			}
			if b.Len() < 60 || !strings.HasSuffix(b.String(), "*") {
				b.WriteByte('*')
			}
		}
		return b.String()
	case 0:
		return k // a literal, except for contained wildcards
	case 1:
		return globKey(r, raw)
	case 2:
		return "*" + k[r.Intn(len(k)):]
	case 3:
		return k[:r.Intn(len(k))+1] + "*"
	case 4:
		i := r.Intn(len(k))
		return k[:i] + "*" + k[i:] // matches zero bytes
	case 5:
		i := r.Intn(len(k))
		return k[:i] + "?" + k[i+1:]
	case 6:
		i := r.Intn(len(k))
		return k[:i] + "[" + k[i:i+1] + "-z]" + k[i+1:]
	}
	i := r.Intn(len(k))
	j := i + r.Intn(len(k)-i)
	return k[:i] + "*" + k[j:] + core.Pick(r, "", "*", "**")
}

func globCase(c *core.Check, kind string, i int, p provider.Provider, written func(string) bool, remote provider.Provider) {
	r := c.Rand("glob-"+kind, i)
	m := map[string]string{}
	for n := r.Range(3, 14); len(m) < n; {
		m[globKey(r, kind == "inmemory")] = fmt.Sprint("v", len(m))
	}
	var log []string
	for _, k := range keysOf(m) {
		p.Set(k, []byte(m[k]), time.Hour)
		trace(&log, "set %q", k)
	}
	for _, k := range keysOf(m) {
		if written != nil && !eventually(10*time.Second, func() bool { return written(k) }) {
			c.Violate("not-stored", log, "%q was not written", k)
			return
		}
	}
	var shape strings.Builder
	compare := func(what string) bool {
		for k, v := range m {
			if got := p.Get(bg, k); string(got) != v {
				c.Violate("overmatch:"+kind, log, "after %s: %q does not match but is gone (%s)", what, k, short(got))
				return false
			}
		}
		if got := sorted(p.Keys(bg, "")); !slices.Equal(got, keysOf(m)) {
			c.Violate("keys:"+kind, log, "after %s the cache lists %q, want %q", what, got, keysOf(m))
			return false
		}
		return true
	}
	nontrivial := false
	all := keysOf(m)
	for s, n := 0, r.Range(1, 5); s < n && len(m) > 0; s++ {
		pat := globPattern(r, keysOf(m), kind == "inmemory")
		if r.P(0.04) {
			pat = ""
		}
		flush := r.P(0.03)
		if flush {
			trace(&log, "flush")
			if err := p.Flush(bg); err != nil {
				c.Violate("error:"+kind, log, "flush failed: %v", err)
				return
			}
			c.Count("flushes", 1)
			pat = ""
		} else {
			trace(&log, "purge %q", pat)
			if err := p.Purge(bg, pat); err != nil {
				c.Violate("error:"+kind, log, "purge %q failed: %v", pat, err)
				return
			}
			c.Count("purges_"+kind, 1)
		}
		if strings.ContainsFunc(pat, func(x rune) bool { return x > 126 || x < 32 }) {
			c.Count("non_ascii", 1)
		}
		if strings.ContainsAny(pat, `?[]\^$+.|(){}`) {
			c.Count("literal_metas", 1)
		}
		removed := 0
		for _, k := range keysOf(m) {
			if pat == "" || glob(pat, k) {
				delete(m, k)
				removed++
				if got := p.Get(bg, k); got != nil {
					c.Violate("undermatch:"+kind, log, "purge %q left the matching key %q (%s)", pat, k, short(got))
					return
				}
				if remote != nil {
					if got := remote.Get(bg, k); got != nil {
						c.Violate("undermatch-remote:"+kind, log, "purge %q left the matching key %q in the remote tier", pat, k)
						return
					}
				}
			}
		}
		c.Count("removed", removed)
		c.Count("kept", len(m))
		if removed > 0 {
			nontrivial = true
		}
		fmt.Fprintf(&shape, "%q-%d ", pat, removed)
		if !compare(fmt.Sprintf("purge %q", pat)) {
			return
		}
		// listing
		pre := ""
		if ks := keysOf(m); len(ks) > 0 && r.P(0.7) {
			k := core.Pick(r, ks...)
			pre = k[:r.Intn(len(k)+1)]
			if strings.Contains(pre, "*") {
				pre = "" // a wildcard in a prefix is not specified
			}
			if kind != "inmemory" && !utf8.ValidString(pre) {
				pre = ""
			}
		}
		var want []string
		for _, k := range keysOf(m) {
			if strings.HasPrefix(k, pre) {
				want = append(want, k)
			}
		}
		c.Count("listings", 1)
		if got := sorted(p.Keys(bg, pre)); !slices.Equal(got, want) {
			c.Violate("prefix:"+kind, log, "keys with prefix %q: %q, want %q", pre, got, want)
			return
		}
	}
	if nontrivial {
		c.Eval(kind + fmt.Sprint(all) + shape.String())
	} else {
		c.Eval("")
	}
	if i < 2 {
		c.Sample(log)
	}
}

// crowd purges and lists thousands of keys, alone or while other clients delete and read some of them.
func crowd(c *core.Check, kind string, i int, p provider.Provider, srv *miniredis.Miniredis, redis bool) {
	r := c.Rand("crowd-"+kind, i)
	n := r.Range(300, 2500)
	as, bs := 1, 2
	if i/3%3 == 1 {
		n, as, bs = r.Range(2000, 9000), 1, 30 // a purge of thousands of keys
	}
	want := map[string]bool{}
	var match []string
	for k := 0; k < n; k++ {
		key := fmt.Sprintf("%s/%d/%s", map[bool]string{true: "a", false: "b"}[r.Intn(as+bs) < as], k, core.Pick(r, "x", "y"))
		if redis {
			_ = srv.Set(key, "v") // stored by another node
		} else {
			p.Set(key, []byte("v"), time.Hour)
		}
		want[key] = true
		if glob("b/*x", key) {
			match = append(match, key)
		}
	}
	if redis && kind == "layered" {
		for k := 0; k < 200; k++ {
			p.Get(bg, core.Pick(r, match...)) // known to the local tier
		}
	}
	log := []string{fmt.Sprintf("%d keys, %d match", n, len(match))}
	var wg sync.WaitGroup
	var stop atomic.Bool
	concurrent := r.P(0.6)
	if concurrent {
		log = append(log, "while other clients delete and read keys")
		c.Count("crowd_concurrent", 1)
		for w := 0; w < 3; w++ {
			wg.Add(1)
			seed := r.Int63()
			go func() {
				defer wg.Done()
				r := core.NewR(seed)
				for !stop.Load() {
					k := core.Pick(r, match...)
					if r.P(0.5) {
						p.Delete(bg, k)
					} else {
						p.Get(bg, k)
					}
				}
			}()
		}
		time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
	}
	err := p.Purge(bg, "b/*x")
	stop.Store(true)
	wg.Wait()
	if err != nil {
		c.Violate("error:"+kind, log, "purge failed: %v", err)
		return
	}
	left := 0
	for _, k := range match {
		delete(want, k)
		if p.Get(bg, k) != nil {
			left++
		}
	}
	if left > 0 {
		c.Violate("undermatch:"+kind, log, "%d of %d matching keys are left", left, len(match))
		return
	}
	got := sorted(p.Keys(bg, ""))
	if !slices.Equal(got, keysOf(want)) {
		c.Violate("keys:"+kind, log, "after the purge the cache lists %d keys, want %d", len(got), len(want))
		return
	}
	if got := p.Keys(bg, "a/"); len(slices.DeleteFunc(keysOf(want), func(k string) bool { return k[0] != 'a' })) != len(got) {
		c.Violate("prefix:"+kind, log, "%d keys are listed by prefix", len(got))
	}
	if err := p.Flush(bg); err != nil || len(p.Keys(bg, "")) != 0 {
		c.Violate("error:"+kind, log, "flush leaves %d keys (%v)", len(p.Keys(bg, "")), err)
	}
	c.Count("crowds", 1)
	c.Count("crowd_removed", len(match))
	c.Eval(fmt.Sprint("crowd", kind, n, concurrent))
}
