//go:build go1.25

package prov

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

func TestC23(t *testing.T) {
	c := core.New(t, "C23")
	for i := 0; i < core.N(30000, 300000) && !c.Stopped(); i++ {
		bubble(t, func() { layeredHistory(c, i) })
	}
	c.Done("a case is a random sequence of operations through the layered cache and directly on its (instrumented, expiring, sometimes failing) remote tier with clock advances "+
		"under virtual time, mirrored by a reference of both tiers: results, the contents of both tiers and whether the remote tier was consulted must agree. Distinct by the sequence of "+
		"outcomes; trivial without a local and a remote hit",
		"operations", "local_hits", "remote_hits", "misses", "remote_changed", "remote_failures", "local_evictions", "both_tiers_checked")
}

func layeredHistory(c *core.Check, i int) {
	r := c.Rand("coherence", i)
	local := core.Pick(r, 250*time.Millisecond, 2*time.Second, time.Minute, time.Hour, 5*time.Hour, 48*time.Hour)
	tr := newTier()
	// A small local tier evicts, which must not matter.
	small := r.P(0.3)
	cfg := provider.InMemoryCacheConfig{}
	if small {
		cfg.MaxSize, cfg.MaxItemSize = 120, 60
	}
	p, err := provider.NewCached(tr, "t", local, cfg)
	if err != nil {
		panic(err)
	}
	var log []string
	var shape strings.Builder
	trace(&log, "local ttl %v, small %v", local, small)
	l1, l2 := map[string]ttlEntry{}, map[string]ttlEntry{}
	bad := false
	fail := func(sig, f string, a ...any) {
		if !bad {
			c.Violate(sig, log, f, a...)
		}
		bad = true
	}
	live := func(m map[string]ttlEntry, k string) ([]byte, bool, bool) {
		e, ok := m[k]
		if !ok || time.Now().After(e.exp) {
			return nil, false, false
		}
		return e.v, true, time.Now().Equal(e.exp)
	}
	failing := func() {
		tr.err = nil
		if r.P(0.15) {
			tr.err = errors.New("remote failure")
			c.Count("remote_failures", 1)
		}
	}
	// both tiers must not hold what matches
	gone := func(what string, match func(string) bool) {
		c.Count("both_tiers_checked", 1)
		for _, k := range tr.Keys(bg, "") {
			if match(k) && tr.err == nil {
				fail("remote-left", "%s left %s in the remote tier", what, k)
			}
		}
		for _, k := range []string{"a/1", "a/2", "b/1", "b/2"} {
			if !match(k) {
				continue
			}
			// With the remote tier emptied of it, only the local tier could still answer.
			saved, had := tr.m[k]
			delete(tr.m, k)
			if v := p.Get(bg, k); v != nil {
				fail("local-left", "%s left %s in the local tier: %s", what, k, short(v))
			}
			if had {
				tr.m[k] = saved
			}
		}
	}
	nl, nr := 0, 0
	for s, n := 0, r.Range(15, 60); s < n && !bad; s++ {
		c.Count("operations", 1)
		k := core.Pick(r, "a/1", "a/2", "b/1", "b/2")
		switch x := r.Intn(100); {
		case x < 22:
			v, ttl := r.Bytes(r.Range(0, 40)), lifetime(r)
			p.Set(k, v, ttl)
			trace(&log, "set %s %s ttl=%v", k, short(v), ttl)
			l1[k], l2[k] = ttlEntry{v, time.Now().Add(ttl)}, ttlEntry{v, time.Now().Add(ttl)}
			if len(v)+overhead > 60 && small {
				delete(l1, k)
			}
			if it, ok := tr.m[k]; !ok || !bytes.Equal(it.v, v) {
				fail("set-remote", "set %s did not reach the remote tier", k)
			} else if !it.exp.Equal(l2[k].exp) {
				fail("set-ttl", "set %s with lifetime %v reached the remote tier with %v", k, ttl, time.Until(it.exp))
			}
		case x < 30:
			v, ttl := r.Bytes(r.Range(1, 20)), lifetime(r)
			tr.m[k] = item{v, time.Now().Add(ttl)}
			l2[k] = ttlEntry{v, time.Now().Add(ttl)}
			trace(&log, "remote set %s %s ttl=%v", k, short(v), ttl)
			c.Count("remote_changed", 1)
		case x < 34:
			delete(tr.m, k)
			delete(l2, k)
			trace(&log, "remote delete %s", k)
			c.Count("remote_changed", 1)
		case x < 46:
			both := map[string]ttlEntry{}
			for k, v := range l1 {
				both["1"+k] = v
			}
			for k, v := range l2 {
				both["2"+k] = v
			}
			d := advance(r, both)
			time.Sleep(d)
			trace(&log, "advance %v", d)
		case x < 80:
			before := len(tr.gets)
			got := p.Get(bg, k)
			consulted := len(tr.gets) > before
			v1, ok1, edge1 := live(l1, k)
			v2, ok2, edge2 := live(l2, k)
			trace(&log, "get %s -> %s (remote consulted: %v)", k, short(got), consulted)
			if edge1 || edge2 {
				// exactly at the expiry either is right
				delete(l1, k)
				p.Delete(bg, k)
				delete(l2, k)
				break
			}
			if small && ok1 && consulted {
				ok1 = false // evicted
				c.Count("local_evictions", 1)
			}
			switch {
			case ok1:
				nl++
				c.Count("local_hits", 1)
				fmt.Fprint(&shape, "L")
				if consulted {
					fail("local-not-used", "%s is in the local tier, but the remote one was consulted", k)
				}
				if got == nil || !bytes.Equal(got, v1) {
					fail("local-value", "get %s returned %s, the local tier holds %s", k, short(got), short(v1))
				}
			case ok2:
				nr++
				c.Count("remote_hits", 1)
				fmt.Fprint(&shape, "R")
				if got == nil || !bytes.Equal(got, v2) {
					fail("remote-value", "get %s returned %s, the remote tier holds %s (local tier: nothing alive)", k, short(got), short(v2))
				}
				l1[k] = ttlEntry{v2, time.Now().Add(local)}
			default:
				c.Count("misses", 1)
				fmt.Fprint(&shape, "M")
				if got != nil {
					fail("stale", "get %s returned %s, neither tier holds anything alive", k, short(got))
				}
			}
		case x < 87:
			failing()
			ctx, cancel := context.WithCancel(bg)
			if r.P(0.15) && tr.err == nil {
				cancel() // the client is gone; a remote tier would refuse
				tr.err = context.Canceled
			}
			ok := p.Delete(ctx, k)
			cancel()
			_, had := l2[k]
			trace(&log, "delete %s -> %v (remote tier: %v)", k, ok, tr.err)
			delete(l1, k)
			if tr.err == nil {
				delete(l2, k)
			}
			if ok != (had && tr.err == nil) {
				fail("delete-result", "delete %s returned %v, the remote tier had it: %v (%v)", k, ok, had, tr.err)
			}
			gone("delete", func(s string) bool { return s == k })
			tr.err = nil
		case x < 94:
			pat := core.Pick(r, "a/*", "*1", "b/2", "*", "c*")
			failing()
			err := p.Purge(bg, pat)
			trace(&log, "purge %s -> %v", pat, err)
			if (err != nil) != (tr.err != nil) {
				fail("purge-error", "purge %s: the remote tier says %v, the result is %v", pat, tr.err, err)
			}
			for _, k := range keysOf(l2) {
				if glob(pat, k) && tr.err == nil {
					delete(l2, k)
				}
			}
			for _, k := range keysOf(l1) {
				if glob(pat, k) {
					delete(l1, k)
				}
			}
			gone("purge "+pat, func(s string) bool { return glob(pat, s) })
			tr.err = nil
		case x < 96:
			failing()
			err := p.Flush(bg)
			trace(&log, "flush -> %v", err)
			if (err != nil) != (tr.err != nil) {
				fail("flush-error", "flush: the remote tier says %v, the result is %v", tr.err, err)
			}
			clear(l1)
			if tr.err == nil {
				clear(l2)
			}
			gone("flush", func(string) bool { return true })
			tr.err = nil
		default:
			if got := sorted(p.Keys(bg, "a/")); !slices.Equal(got, sorted(tr.Keys(bg, "a/"))) {
				fail("keys", "keys: %v, the remote tier holds %v", got, tr.Keys(bg, "a/"))
			}
			if p.Size() != tr.Size() {
				fail("size", "size %d, the remote tier holds %d", p.Size(), tr.Size())
			}
		}
	}
	if nl == 0 || nr == 0 {
		c.Eval("")
		return
	}
	c.Eval(fmt.Sprint(local, small, shape.String()))
	if i < 3 {
		c.Sample(log)
	}
}
