//go:build go1.25

package prov

import (
	"bytes"
	"fmt"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

// lruModel is the reference: items from oldest to newest use.
type lruModel struct {
	max, maxItem int
	keys         []string
	val          map[string][]byte
}

func (m *lruModel) size() (n int) {
	for _, v := range m.val {
		n += overhead + len(v)
	}
	return n
}

func (m *lruModel) drop(k string) bool {
	_, ok := m.val[k]
	delete(m.val, k)
	if i := slices.Index(m.keys, k); i >= 0 {
		m.keys = slices.Delete(m.keys, i, i+1)
	}
	return ok
}

func (m *lruModel) get(k string) []byte {
	v, ok := m.val[k]
	if !ok {
		return nil
	}
	i := slices.Index(m.keys, k)
	m.keys = append(slices.Delete(m.keys, i, i+1), k)
	return v
}

// set returns the number of items that had to go.
func (m *lruModel) set(k string, v []byte) (evicted int) {
	m.drop(k)
	if overhead+len(v) > m.maxItem {
		return 0
	}
	for m.size()+overhead+len(v) > m.max {
		m.drop(m.keys[0])
		evicted++
	}
	m.keys = append(m.keys, k)
	m.val[k] = v
	return evicted
}

func TestC18(t *testing.T) {
	c := core.New(t, "C18")
	n := core.N(6000, 60000)
	for i := 0; i < n && !c.Stopped(); i++ {
		lruHistory(c, i)
	}
	for i := 0; i < core.N(3, 30) && !c.Stopped(); i++ {
		lruMany(c, i)
	}
	for i := 0; i < core.N(60, 600) && !c.Stopped(); i++ {
		lruStress(c, i)
	}
	c.Done("a case is a random operation sequence on an in-memory cache of random capacity, mirrored by a reference LRU of the same "+
		"capacity and compared after every operation (contents, order, size); or a concurrent stress run after which the accounting is "+
		"probed by filling the cache to its exact capacity. Distinct by capacities and the sequence of evictions; trivial if nothing was evicted",
		"operations", "evictions", "oversized", "updates", "expired", "stress_operations", "capacity_probes", "emptied")
}

func lruHistory(c *core.Check, i int) {
	r := c.Rand("lru", i)
	m := &lruModel{max: r.Range(60, 1500), val: map[string][]byte{}}
	m.maxItem = core.Pick(r, m.max, m.max/2, m.max/4+26, r.Range(overhead+1, m.max))
	p := newMem(provider.InMemoryCacheConfig{MaxSize: uint64(m.max), MaxItemSize: uint64(m.maxItem), DefaultTTL: core.Pick(r, "-1", "-1", "", "1h")})
	var log []string
	trace(&log, "max=%d maxItem=%d", m.max, m.maxItem)
	var shape strings.Builder
	fmt.Fprintf(&shape, "%d/%d:", m.max, m.maxItem)
	bad := false
	fail := func(sig, f string, a ...any) {
		if !bad {
			c.Violate(sig, log, f, a...)
		}
		bad = true
	}
	evictions := 0
	nk := r.Range(2, 14)
	key := func() string { return fmt.Sprintf("k%d", r.Intn(nk)) }
	steps := r.Range(20, 120)
	for s := 0; s < steps && !bad; s++ {
		c.Count("operations", 1)
		switch x := r.Intn(100); {
		case x < 50:
			k := key()
			old := m.val[k]
			size := r.Intn(m.max/3 + 2)
			switch r.Intn(8) {
			case 0:
				size = max(0, m.maxItem-overhead) // the largest allowed
			case 1:
				size = max(0, m.maxItem-overhead+1) // just too large
			case 2:
				size = len(old)
			case 3:
				size = len(old) + 1
			case 4:
				size = max(0, len(old)-1)
			case 5:
				size = max(0, min(m.maxItem, m.max-m.size())-overhead) // fills the cache exactly
			}
			v := r.Bytes(size)
			if old != nil {
				c.Count("updates", 1)
			}
			if overhead+size > m.maxItem {
				c.Count("oversized", 1)
			}
			p.Set(k, v, time.Hour)
			ev := m.set(k, v)
			evictions += ev
			c.Count("evictions", ev)
			fmt.Fprintf(&shape, "%d,", ev)
			trace(&log, "set %s len=%d", k, size)
		case x < 75:
			k := key()
			got, want := p.Get(bg, k), m.get(k)
			trace(&log, "get %s -> %s", k, short(got))
			if (got == nil) != (want == nil) || !bytes.Equal(got, want) {
				fail("content", "get %s: got %s, the reference holds %s", k, short(got), short(want))
			}
		case x < 87:
			k := key()
			got, want := p.Delete(bg, k), m.drop(k)
			trace(&log, "delete %s -> %v", k, got)
			if got != want {
				fail("delete", "delete %s: got %v, want %v", k, got, want)
			}
		case x < 90:
			pat := core.Pick(r, "k1*", "k*1", "k2", "*3*")
			_ = p.Purge(bg, pat)
			for _, k := range keysOf(m.val) {
				if glob(pat, k) {
					m.drop(k)
				}
			}
			trace(&log, "purge %s", pat)
		case x < 91:
			_ = p.Flush(bg)
			m.keys, m.val = nil, map[string][]byte{}
			trace(&log, "flush")
		case x < 93:
			// An item that is expired at once takes up room until it is noticed by a read.
			k := "gone"
			p.Set(k, r.Bytes(1), -time.Second)
			ev := m.set(k, []byte{1})
			trace(&log, "set %s, expired; evicts %d", k, ev)
			if p.Get(bg, k) == nil {
				m.drop(k)
				c.Count("expired", 1)
			} else {
				m.get(k) // expiry is off
				p.Delete(bg, k)
				m.drop(k)
			}
		case x < 96:
			// Looking at the keys is no use of the items.
			pre := core.Pick(r, "k", "k1", "k3", "zz")
			var want []string
			for _, k := range m.keys {
				if strings.HasPrefix(k, pre) {
					want = append(want, k)
				}
			}
			got := p.Keys(bg, pre)
			trace(&log, "keys %s -> %v", pre, got)
			if !slices.Equal(got, want) {
				fail("listing", "keys with prefix %s: %v, the reference lists %v", pre, got, want)
			}
		default:
			if got := p.Size(); got != len(m.keys) {
				fail("count", "Size() = %d, the reference holds %d", got, len(m.keys))
			}
		}
		got := p.Keys(bg, "")
		sum := 0
		if !slices.Equal(got, m.keys) {
			if slices.Equal(sorted(got), sorted(m.keys)) {
				fail("order", "keys by use %v, the reference %v", got, m.keys)
			} else {
				fail("eviction", "the cache holds %v, an LRU cache of that capacity holds %v (sizes %d of %d)", got, m.keys, m.size(), m.max)
			}
		}
		for _, k := range got {
			sum += overhead + len(m.val[k])
		}
		if sum > m.max {
			fail("capacity", "the items take %d bytes of %d allowed", sum, m.max)
		}
	}
	if bad {
		return
	}
	for _, k := range slices.Clone(m.keys) {
		if got := p.Get(bg, k); !bytes.Equal(got, m.get(k)) {
			fail("content", "get %s: got %s, the reference holds %s", k, short(got), short(m.val[k]))
		}
	}
	empty(c, r, p)
	probe(c, p, m.max, m.maxItem, fail)
	if evictions == 0 {
		c.Eval("")
	} else {
		c.Eval(shape.String())
	}
	if i < 2 {
		c.Sample(log)
	}
}

// lruMany has room for thousands of items.
func lruMany(c *core.Check, i int) {
	r := c.Rand("many", i)
	const item = overhead + 10
	room := core.Pick(r, 1100, 5000, 20000)
	p := newMem(provider.InMemoryCacheConfig{MaxSize: uint64(room * item), MaxItemSize: uint64(100 * item), DefaultTTL: core.Pick(r, "-1", "1h")})
	log := []string{fmt.Sprintf("room for %d items", room)}
	// the youngest items, oldest first
	var want []string
	for k := 0; k < room+room/3; k++ {
		key := fmt.Sprint("k", k)
		p.Set(key, make([]byte, 10), time.Hour)
		want = append(want, key)
		c.Count("operations", 1)
	}
	c.Count("evictions", room/3)
	want = want[len(want)-room:]
	used := map[string]bool{}
	var tail []string
	for k := 0; k < room/5; k++ { // some are used
		if key := core.Pick(r, want...); !used[key] {
			used[key] = true
			if p.Get(bg, key) == nil {
				c.Violate("content", log, "%s is gone", key)
				return
			}
			tail = append(tail, key)
		}
	}
	want = append(slices.DeleteFunc(want, func(k string) bool { return used[k] }), tail...)
	for k := 0; k < room/5; k++ { // and more come
		key := fmt.Sprint("n", k)
		p.Set(key, make([]byte, 10), time.Hour)
		want = append(want[1:], key)
	}
	if got := p.Keys(bg, ""); !slices.Equal(got, want) {
		at := 0
		for at < len(got) && at < len(want) && got[at] == want[at] {
			at++
		}
		c.Violate("eviction", log, "the cache holds %d items, an LRU cache %d; they differ from item %d on", len(got), len(want), at)
		return
	}
	// one large item makes as many old ones go as it needs
	p.Set("large", make([]byte, 99*item-overhead), time.Hour)
	if got := p.Keys(bg, ""); !slices.Equal(got, append(want[99:], "large")) {
		c.Violate("eviction", log, "after adding an item as large as 99 others: %d items, want %d", len(got), len(want)-98)
		return
	}
	c.Count("evictions", 99+room/5)
	c.Max("items_at_once", room)
	c.Eval(fmt.Sprint("many", room, i))
}

// empty removes everything in one of the possible ways.
func empty(c *core.Check, r *core.R, p provider.Provider) {
	c.Count("emptied", 1)
	switch r.Intn(5) {
	case 0:
		_ = p.Flush(bg)
	case 1:
		_ = p.Purge(bg, "*")
	case 2:
		_ = p.Purge(bg, "")
	case 3:
		for _, k := range p.Keys(bg, "") {
			p.Delete(bg, k)
		}
	case 4:
		ks := p.Keys(bg, "")
		for _, k := range ks {
			p.Set(k, nil, time.Hour)
			p.Delete(bg, k)
		}
	}
}

// probe fills the empty cache to exactly its capacity: nothing may go, one more makes the oldest go.
func probe(c *core.Check, p provider.Provider, max, maxItem int, fail func(string, string, ...any)) {
	c.Count("capacity_probes", 1)
	if n := p.Size(); n != 0 {
		fail("emptied", "the emptied cache holds %d items: %v", n, p.Keys(bg, ""))
		return
	}
	room := max
	n := 0
	for room >= overhead {
		sz := min(room, maxItem, overhead+max/9)
		p.Set(fmt.Sprintf("p%03d", n), make([]byte, sz-overhead), time.Hour)
		room -= sz
		n++
	}
	if got := p.Size(); got != n {
		fail("accounting", "%d items of a total size of %d fit into a cache of %d, but it kept %d", n, max-room, max, got)
		return
	}
	p.Set("extra", nil, time.Hour)
	want := n // +1 -1
	if got := p.Keys(bg, ""); len(got) != want || slices.Contains(got, "p000") {
		fail("accounting", "adding an item to the full cache must evict the oldest one only: %d items before, now %v", n, got)
	}
}

// lruStress runs operations concurrently; afterwards content and accounting must agree.
func lruStress(c *core.Check, i int) {
	r := c.Rand("stress", i)
	max := r.Range(400, 3000)
	maxItem := max / core.Pick(r, 1, 2, 4)
	p := newMem(provider.InMemoryCacheConfig{MaxSize: uint64(max), MaxItemSize: uint64(maxItem)})
	var wg sync.WaitGroup
	const workers, ops = 8, 300
	seeds := make([]int64, workers)
	for w := range seeds {
		seeds[w] = r.Int63()
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := core.NewR(seeds[w])
			for s := 0; s < ops; s++ {
				k := fmt.Sprintf("k%d", r.Intn(10))
				switch x := r.Intn(20); {
				case x < 9:
					p.Set(k, bytes.Repeat([]byte(k), r.Intn(maxItem/2)), core.Pick(r, time.Hour, -time.Second))
				case x < 15:
					if v := p.Get(bg, k); len(v) > 0 && !strings.HasPrefix(string(v), k) {
						c.Violate("content", nil, "get %s returned another key's value %s", k, short(v))
					}
				case x < 18:
					p.Delete(bg, k)
				case x < 19:
					_ = p.Purge(bg, "k1*")
				default:
					_ = p.Flush(bg)
				}
			}
		}()
	}
	wg.Wait()
	c.Count("stress_operations", workers*ops)
	bad := false
	fail := func(sig, f string, a ...any) {
		if !bad {
			c.Violate(sig, []string{fmt.Sprintf("stress run %d max=%d maxItem=%d", i, max, maxItem)}, f, a...)
		}
		bad = true
	}
	keys := p.Keys(bg, "")
	if p.Size() != len(keys) {
		fail("count", "Size() = %d, but the keys are %v", p.Size(), keys)
	}
	sum := 0
	for _, k := range keys {
		v := p.Get(bg, k)
		if v != nil {
			sum += overhead + len(v)
		}
	}
	if sum > max {
		fail("capacity", "the items take %d bytes of %d allowed", sum, max)
	}
	empty(c, r, p)
	probe(c, p, max, maxItem, fail)
	c.Eval(fmt.Sprintf("stress %d %d %d %v", max, maxItem, sum, keys))
}
