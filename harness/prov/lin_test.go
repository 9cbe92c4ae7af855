//go:build go1.25

package prov

import (
	"fmt"
	"math/bits"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

type opKind int

const (
	opSet opKind = iota
	opGet
	opDelete // known outcome
	opClear  // unknown outcome: purge, flush, delete through tiers
)

// op is one completed operation on one key; call and ret are logical times.
type op struct {
	kind      opKind
	val       int // set: the value; get: the value seen (0: none)
	ok        bool
	short     bool // set: expires soon
	call, ret int64
	who       int
	name      string
}

func (o op) String() string {
	switch o.kind {
	case opSet:
		return fmt.Sprintf("[%d-%d] w%d set %d short=%v", o.call, o.ret, o.who, o.val, o.short)
	case opGet:
		return fmt.Sprintf("[%d-%d] w%d get -> %d", o.call, o.ret, o.who, o.val)
	case opDelete:
		return fmt.Sprintf("[%d-%d] w%d delete -> %v", o.call, o.ret, o.who, o.ok)
	}
	return fmt.Sprintf("[%d-%d] w%d %s", o.call, o.ret, o.who, o.name)
}

// linearizable decides whether the history of one key has a legal sequential order.
func linearizable(h []op) bool {
	if len(h) > 64 {
		panic("history too long")
	}
	type node struct {
		rest uint64
		val  int
	}
	seen := map[node]struct{}{}
	var rec func(rest uint64, val int) bool
	rec = func(rest uint64, val int) bool {
		if rest == 0 {
			return true
		}
		n := node{rest, val}
		if _, ok := seen[n]; ok {
			return false
		}
		seen[n] = struct{}{}
		minRet := int64(1 << 62)
		for x := rest; x != 0; x &= x - 1 {
			if o := &h[bits.TrailingZeros64(x)]; o.ret < minRet {
				minRet = o.ret
			}
		}
		for x := rest; x != 0; x &= x - 1 {
			i := bits.TrailingZeros64(x)
			o := &h[i]
			if o.call > minRet {
				continue
			}
			next := val
			switch o.kind {
			case opSet:
				next = o.val
				if o.short {
					next = -o.val // it may be gone at any time
				}
			case opGet:
				switch {
				case o.val == val, o.val != 0 && o.val == -val:
				case o.val == 0 && val < 0:
					next = 0
				default:
					continue
				}
			case opDelete:
				if val >= 0 && o.ok != (val != 0) {
					continue
				}
				next = 0
			case opClear:
				next = 0
			}
			if rec(rest&^(1<<i), next) {
				return true
			}
		}
		return false
	}
	return rec(^uint64(0)>>(64-len(h)), 0)
}

func TestC19(t *testing.T) {
	c := core.New(t, "C19")
	// The checker itself must tell histories apart.
	if linearizable([]op{{kind: opSet, val: 1, call: 1, ret: 2}, {kind: opGet, val: 0, call: 3, ret: 4}}) ||
		linearizable([]op{{kind: opSet, val: 1, short: true, call: 1, ret: 2}, {kind: opGet, val: 0, call: 3, ret: 4}, {kind: opGet, val: 1, call: 5, ret: 6}}) ||
		!linearizable([]op{{kind: opSet, val: 1, short: true, call: 1, ret: 2}, {kind: opGet, val: 1, call: 3, ret: 4}, {kind: opGet, val: 0, call: 5, ret: 6}}) ||
		!linearizable([]op{{kind: opSet, val: 1, call: 1, ret: 4}, {kind: opGet, val: 0, call: 2, ret: 3}}) ||
		linearizable([]op{{kind: opSet, val: 1, call: 1, ret: 9}, {kind: opGet, val: 1, call: 2, ret: 3}, {kind: opGet, val: 0, call: 4, ret: 5}}) {
		t.Fatal("the linearizability checker is broken")
	}
	n := core.N(20000, 240000)
	for i := 0; i < n && !c.Stopped(); i++ {
		linRound(c, i, []string{"inmemory", "simple", "layered", "layered"}[i%4])
	}
	for i := 0; i < core.N(40, 400) && !c.Stopped(); i++ {
		duels(c, i, []string{"simple", "inmemory", "layered"}[i%3])
	}
	c.Done("a case is one round of 4 concurrent clients with ~10 operations each (in a third of the rounds of in-memory and simple some items expire meanwhile) on two keys of a fresh cache (in-memory, simple, layered over an "+
		"instrumented remote tier with yields); its recorded history, per key, must have a legal sequential order consistent with real time. Distinct by "+
		"the recorded order of calls and returns; trivial if no two operations overlapped. Besides, duels: three workers released at the same "+
		"instant, one operation each on a single key, again checked for a legal order",
		"duels", "duels_overlapping", "operations", "overlapping", "rounds_inmemory", "rounds_simple", "rounds_layered", "hits", "deletes_found", "short_lived")
}

func linRound(c *core.Check, i int, kind string) {
	r := c.Rand("lin", i)
	var p provider.Provider
	clears := true
	switch kind {
	case "inmemory":
		p = newMem(provider.InMemoryCacheConfig{DefaultTTL: core.Pick(r, "", "-1")})
	case "simple":
		var err error
		if p, err = provider.NewSimpleCache(nil); err != nil {
			panic(err)
		}
		clears = false
	case "layered":
		t := newTier()
		var x atomic.Uint32
		x.Store(r.Uint32() | 1)
		t.yield = func() {
			v := x.Load()
			v ^= v << 13
			v ^= v >> 17
			v ^= v << 5
			x.Store(v)
			for j := uint32(0); j < v%4; j++ {
				runtime.Gosched()
			}
		}
		var err error
		if p, err = provider.NewCached(t, "t", time.Hour, core.Pick(r, provider.InMemoryCacheConfig{}, provider.InMemoryCacheConfig{MaxSize: 90, MaxItemSize: 44})); err != nil {
			panic(err)
		}
	}
	c.Count("rounds_"+kind, 1)
	keys := []string{"/a/1", "/b/2"}
	var clock, vals atomic.Int64
	const workers = 4
	expiring := i%3 == 1 // some items expire during the round
	hist := make([][2][]op, workers)
	var wg, gate sync.WaitGroup
	gate.Add(1)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		seed := r.Int63()
		nops := r.Range(4, 10)
		go func() {
			defer wg.Done()
			r := core.NewR(seed)
			gate.Wait()
			for s := 0; s < nops; s++ {
				for j := r.Intn(3); j > 0; j-- {
					runtime.Gosched()
				}
				k := r.Intn(2)
				o := op{who: w}
				both := false
				switch x := r.Intn(20); {
				case x < 7:
					o.kind, o.val = opSet, int(vals.Add(1))
					v := []byte(strconv.Itoa(o.val) + strings.Repeat("x", r.Intn(40)))
					ttl := time.Hour
					if expiring && kind != "layered" && r.P(.6) {
						o.short, ttl = true, time.Duration(core.Pick(r, -1, 1, 1000, 20000, 100000))
						c.Count("short_lived", 1)
					}
					o.call = clock.Add(1)
					p.Set(keys[k], v, ttl)
					o.ret = clock.Add(1)
				case x < 15 || (!clears && x >= 18):
					o.kind = opGet
					o.call = clock.Add(1)
					v := p.Get(bg, keys[k])
					o.ret = clock.Add(1)
					if v != nil {
						o.val, _ = strconv.Atoi(strings.TrimRight(string(v), "x"))
						if o.val == 0 {
							o.val = 1 << 40 // never stored
						}
						c.Count("hits", 1)
					}
				case x < 18:
					o.kind = opDelete
					o.call = clock.Add(1)
					o.ok = p.Delete(bg, keys[k])
					o.ret = clock.Add(1)
					if o.ok {
						c.Count("deletes_found", 1)
					}
					if kind == "layered" {
						o.kind, o.name = opClear, "delete" // tells about the remote tier only
					}
				case x < 19:
					o.kind, o.name = opClear, "purge"
					pat := "/a/*"
					k = 0
					if r.P(0.5) {
						pat, both = "*", true
					}
					o.call = clock.Add(1)
					_ = p.Purge(bg, pat)
					o.ret = clock.Add(1)
				default:
					o.kind, o.name, both = opClear, "flush", true
					o.call = clock.Add(1)
					_ = p.Flush(bg)
					o.ret = clock.Add(1)
				}
				hist[w][k] = append(hist[w][k], o)
				if both {
					hist[w][1-k] = append(hist[w][1-k], o)
				}
			}
		}()
	}
	gate.Done()
	wg.Wait()
	var shape strings.Builder
	overlap := false
	for k := range keys {
		var h []op
		for w := range hist {
			h = append(h, hist[w][k]...)
		}
		// What is left at the end belongs to the history.
		o := op{kind: opGet, who: 9, call: clock.Add(1)}
		if v := p.Get(bg, keys[k]); v != nil {
			if o.val, _ = strconv.Atoi(strings.TrimRight(string(v), "x")); o.val == 0 {
				o.val = 1 << 40
			}
		}
		o.ret = clock.Add(1)
		h = append(h, o)
		c.Count("operations", len(h))
		for a := range h {
			for b := range h[:a] {
				if h[a].call < h[b].ret && h[b].call < h[a].ret {
					overlap = true
					c.Count("overlapping", 1)
				}
			}
			fmt.Fprintf(&shape, "%d %d-%d;", h[a].kind, h[a].call, h[a].ret)
		}
		if !linearizable(h) {
			lines := []string{kind + " key " + keys[k]}
			for _, o := range h {
				lines = append(lines, o.String())
			}
			c.Violate("not-linearizable:"+kind, lines, "no sequential order explains the concurrent history of %s", keys[k])
		}
		if i < 4 && k == 0 {
			c.Sample(fmt.Sprint(kind, " ", h))
		}
	}
	if overlap {
		c.Eval(kind + shape.String())
	} else {
		c.Eval("")
	}
}

// duels lets three workers collide on one key again and again, with one operation each.
func duels(c *core.Check, i int, kind string) {
	r := c.Rand("duel", i)
	var p provider.Provider
	var err error
	switch kind {
	case "inmemory":
		p = newMem(provider.InMemoryCacheConfig{})
	case "simple":
		p, err = provider.NewSimpleCache(nil)
	case "layered":
		p, err = provider.NewCached(newTier(), "t", time.Hour, provider.InMemoryCacheConfig{})
	}
	if err != nil {
		panic(err)
	}
	const workers, rounds = 3, 6000
	type plan struct {
		kind opKind
		size int
		wait int
	}
	plans := make([][workers]plan, rounds)
	for k := range plans {
		for w := range plans[k] {
			plans[k][w] = plan{core.Pick(r, opSet, opSet, opDelete, opDelete, opGet), r.Intn(20), r.Intn(60)}
		}
	}
	var clock atomic.Int64
	var phase, done atomic.Int32
	var result [workers]op
	parse := func(v []byte) int {
		if v == nil {
			return 0
		}
		n, _ := strconv.Atoi(strings.TrimRight(string(v), "x"))
		if n == 0 {
			return 1 << 40
		}
		return n
	}
	const key = "/k"
	spin := func(ok func() bool) {
		for n := 0; !ok(); n++ {
			if n > 2000 {
				runtime.Gosched()
			}
		}
	}
	var wg sync.WaitGroup
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range rounds {
				pl := plans[k][w]
				spin(func() bool { return phase.Load() > int32(k) || phase.Load() < 0 })
				if phase.Load() < 0 {
					return
				}
				for x := 0; x < pl.wait; x++ {
					_ = phase.Load()
				}
				o := op{who: w, kind: pl.kind}
				switch pl.kind {
				case opSet:
					o.val = (k+1)*10 + w
					v := []byte(strconv.Itoa(o.val) + strings.Repeat("x", pl.size))
					o.call = clock.Add(1)
					p.Set(key, v, time.Hour)
				case opDelete:
					o.call = clock.Add(1)
					o.ok = p.Delete(bg, key)
					if kind == "layered" {
						o.kind, o.name = opClear, "delete"
					}
				default:
					o.call = clock.Add(1)
					o.val = parse(p.Get(bg, key))
				}
				o.ret = clock.Add(1)
				result[w] = o
				done.Add(1)
			}
		}()
	}
	last, overlapping := 0, 0
	for k := range rounds {
		begin := clock.Add(1)
		phase.Add(1)
		spin(func() bool { return done.Load() >= int32((k+1)*workers) })
		h := append([]op{}, result[:]...)
		for a := range h {
			for b := range h[:a] {
				if h[a].call < h[b].ret && h[b].call < h[a].ret {
					overlapping++
				}
			}
		}
		if last != 0 {
			h = append(h, op{kind: opSet, who: 8, val: last, call: begin - 1, ret: begin})
		}
		o := op{kind: opGet, who: 9, call: clock.Add(1)}
		o.val = parse(p.Get(bg, key))
		o.ret = clock.Add(1)
		h = append(h, o)
		last = o.val
		if !linearizable(h) {
			lines := []string{kind}
			for _, o := range h {
				lines = append(lines, o.String())
			}
			c.Violate("not-linearizable:"+kind, lines, "no sequential order explains three concurrent operations on one key")
			phase.Store(-1 << 20)
			break
		}
	}
	wg.Wait()
	c.Count("duels", rounds)
	c.Count("duels_overlapping", overlapping)
	c.Eval(fmt.Sprint("duel", i, overlapping))
}
