//go:build go1.25

package prov

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/verifharness/core"
)

func bubble(t *testing.T, f func()) {
	t.Helper()
	synctest.Test(t, func(*testing.T) { f(); synctest.Wait() })
}

func TestC20(t *testing.T) {
	c := core.New(t, "C20")
	n := core.N(12000, 100000)
	for i := 0; i < n && !c.Stopped(); i++ {
		bubble(t, func() { ttlMemory(c, i) })
		bubble(t, func() { ttlLayered(c, i) })
	}
	for i := 0; i < core.N(4, 40) && !c.Stopped(); i++ {
		bubble(t, func() { ttlMany(c, i) })
	}
	for i := 0; i < core.N(40, 800) && !c.Stopped(); i++ {
		ttlRedis(c, i)
	}
	c.Done("a case is a random sequence of stores (growing, shrinking, equal, oversized), reads, deletes and clock advances (virtual time; for redis the clock "+
		"of the miniature server), with lifetimes from milliseconds to days and all spellings of the default lifetime; a read must return the last value until its lifetime "+
		"and nothing after it. Distinct by the outcomes; trivial if nothing expired",
		"reads_alive", "reads_expired", "renewed", "expiry_off", "redis_expired", "redis_submillisecond", "layered_expired", "layered_local_hits")
}

type ttlEntry struct {
	v   []byte
	exp time.Time
}

// lifetime returns a lifetime that is never hit exactly by steps of other cases.
func lifetime(r *core.R) time.Duration {
	return core.Pick(r, time.Millisecond, 10*time.Millisecond, time.Second, 1500*time.Millisecond, 90*time.Second, 2*time.Minute, time.Hour, 1000*time.Hour, 10*365*24*time.Hour)
}

// advance sleeps for a random time biased to just before and just after the next expiries.
func advance(r *core.R, m map[string]ttlEntry) time.Duration {
	d := core.Pick(r, time.Millisecond, 700*time.Millisecond, 3*time.Second, time.Minute+time.Microsecond, 50*time.Minute, 30*time.Hour)
	if ks := keysOf(m); len(ks) > 0 && r.P(0.6) {
		if left := time.Until(m[core.Pick(r, ks...)].exp); left > 0 {
			d = left + core.Pick(r, -time.Microsecond, time.Microsecond, -left/2, time.Millisecond)
		}
	}
	if d <= 0 {
		d = time.Nanosecond
	}
	return d
}

func ttlMemory(c *core.Check, i int) {
	r := c.Rand("mem", i)
	spelling := core.Pick(r, "", "120s", "5m", "-1", "1ms", "nonsense", "-1s", "0")
	p := newMem(provider.InMemoryCacheConfig{MaxSize: 1 << 20, MaxItemSize: 4096, DefaultTTL: spelling})
	off := spelling == "-1"
	m := map[string]ttlEntry{}
	var log []string
	var shape strings.Builder
	trace(&log, "default ttl %q", spelling)
	expired := false
	for s, n := 0, r.Range(12, 60); s < n; s++ {
		k := fmt.Sprintf("k%d", r.Intn(4))
		switch x := r.Intn(10); {
		case x < 3:
			v := r.Bytes(core.Pick(r, 0, 1, 10, len(m[k].v), len(m[k].v)+1, 4072, 4073))
			ttl := lifetime(r)
			if _, ok := m[k]; ok {
				c.Count("renewed", 1)
			}
			p.Set(k, v, ttl)
			trace(&log, "t=%v set %s len=%d ttl=%v", time.Now().Unix(), k, len(v), ttl)
			if len(v)+overhead > 4096 {
				delete(m, k)
			} else {
				m[k] = ttlEntry{v, time.Now().Add(ttl)}
			}
		case x < 4:
			p.Delete(bg, k)
			delete(m, k)
			trace(&log, "delete %s", k)
		case x < 7:
			d := advance(r, m)
			time.Sleep(d)
			trace(&log, "advance %v", d)
		default:
			got := p.Get(bg, k)
			e, ok := m[k]
			alive := ok && (off || !time.Now().After(e.exp))
			edge := ok && !off && time.Now().Equal(e.exp)
			trace(&log, "get %s -> %s", k, short(got))
			switch {
			case edge:
			case alive && (got == nil || !bytes.Equal(got, e.v)):
				c.Violate("lost", log, "%s is within its lifetime (%v left), got %s", k, time.Until(e.exp), short(got))
				return
			case !alive && got != nil:
				c.Violate("expired-served", log, "%s expired (%v ago) or is gone, got %s", k, -time.Until(e.exp), short(got))
				return
			}
			if alive {
				c.Count("reads_alive", 1)
				if time.Now().After(e.exp) {
					c.Count("expiry_off", 1)
				}
			} else if ok {
				c.Count("reads_expired", 1)
				expired = true
				delete(m, k)
			}
			fmt.Fprintf(&shape, "%v%v%d ", alive, ok, len(got))
		}
	}
	if !expired {
		c.Eval("")
		return
	}
	c.Eval(spelling + shape.String())
	if i < 3 {
		c.Sample(log)
	}
}

// ttlMany stores many items: each has its own lifetime.
func ttlMany(c *core.Check, i int) {
	r := c.Rand("many", i)
	p := newMem(provider.InMemoryCacheConfig{MaxSize: 1 << 30, MaxItemSize: 1 << 20})
	n := core.Pick(r, 1500, 12000, 30000)
	exp := make([]time.Time, n)
	for k := range exp {
		ttl := core.Pick(r, time.Second, time.Minute, time.Hour)
		p.Set(fmt.Sprint("k", k), []byte(fmt.Sprint(k)), ttl)
		exp[k] = time.Now().Add(ttl)
	}
	for _, d := range []time.Duration{500 * time.Millisecond, 10 * time.Second, 2 * time.Minute, 2 * time.Hour} {
		time.Sleep(d)
		for k, e := range exp {
			got, alive := p.Get(bg, fmt.Sprint("k", k)), time.Now().Before(e)
			if alive && string(got) != fmt.Sprint(k) {
				c.Violate("lost", []string{fmt.Sprintf("%d items stored", n)}, "item %d is within its lifetime (%v left), got %s", k, time.Until(e), short(got))
				return
			}
			if !alive && got != nil {
				c.Violate("expired-served", []string{fmt.Sprintf("%d items stored", n)}, "item %d expired %v ago, got %s", k, -time.Until(e), short(got))
				return
			}
			if alive {
				c.Count("reads_alive", 1)
			} else {
				c.Count("reads_expired", 1)
			}
		}
	}
	c.Max("items_at_once", n)
	c.Eval(fmt.Sprint("many", n, i))
}

// ttlLayered bounds what the two tiers may return: the remote lifetime plus the local one.
func ttlLayered(c *core.Check, i int) {
	r := c.Rand("layered", i)
	local := core.Pick(r, time.Second, 20*time.Second, 2*time.Minute)
	tr := newTier()
	p, err := provider.NewCached(tr, "t", local, provider.InMemoryCacheConfig{DefaultTTL: core.Pick(r, "", "120s", "1h")})
	if err != nil {
		panic(err)
	}
	m := map[string]ttlEntry{}
	var log []string
	var shape strings.Builder
	trace(&log, "local ttl %v", local)
	expired := false
	for s, n := 0, r.Range(12, 60); s < n; s++ {
		k := fmt.Sprintf("k%d", r.Intn(3))
		switch x := r.Intn(10); {
		case x < 3:
			v, ttl := r.Bytes(core.Pick(r, r.Range(1, 30), r.Range(1, 30), 1000, 70000)), lifetime(r)
			if r.P(0.3) {
				// another node stores it, unknown to this node's local tier
				if e, ok := m[k]; ok && time.Now().Before(e.exp.Add(local)) {
					continue
				}
				tr.Set(k, v, ttl)
				trace(&log, "t=%v remote set %s ttl=%v", time.Now().UnixNano(), k, ttl)
			} else {
				p.Set(k, v, ttl)
				trace(&log, "t=%v set %s ttl=%v", time.Now().UnixNano(), k, ttl)
			}
			m[k] = ttlEntry{v, time.Now().Add(ttl)}
		case x < 6:
			d := advance(r, m)
			if r.P(0.3) {
				d = core.Pick(r, local-time.Microsecond, local+time.Microsecond, local/2)
			}
			time.Sleep(d)
			trace(&log, "advance %v", d)
		default:
			before := len(tr.gets)
			got := p.Get(bg, k)
			e, ok := m[k]
			trace(&log, "t=%v get %s -> %s", time.Now().UnixNano(), k, short(got))
			alive := ok && time.Now().Before(e.exp)
			dead := !ok || time.Now().After(e.exp.Add(local))
			if alive && !bytes.Equal(got, e.v) {
				c.Violate("layered-lost", log, "%s is within its lifetime (%v left), got %s", k, time.Until(e.exp), short(got))
				return
			}
			if dead && got != nil {
				c.Violate("layered-expired-served", log, "%s expired %v ago, more than the local lifetime %v, got %s", k, -time.Until(e.exp), local, short(got))
				return
			}
			if got != nil && len(tr.gets) == before {
				c.Count("layered_local_hits", 1)
			}
			if dead && ok {
				c.Count("layered_expired", 1)
				expired = true
				delete(m, k)
			}
			fmt.Fprintf(&shape, "%v%v ", alive, dead)
		}
	}
	if !expired {
		c.Eval("")
		return
	}
	c.Eval("layered" + local.String() + shape.String())
}

func newRedis(addr string, cfg provider.RedisClientConfig) (provider.Provider, provider.RemoteCacheClient) {
	cfg.Endpoint = addr
	if cfg.MaxQueueConcurrency == 0 {
		cfg.MaxQueueConcurrency = 1
	}
	if cfg.MaxQueueBufferSize == 0 {
		cfg.MaxQueueBufferSize = 1000
	}
	if cfg.MaxQueueBufferSize < 0 {
		cfg.MaxQueueBufferSize = 0 // no buffer
	}
	cl, err := provider.NewRedisClient("t", cfg)
	if err != nil {
		panic(err)
	}
	return provider.NewRedisCache("t", cl), cl
}

// eventually polls until f holds; false if it never does.
func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

func startRedis() *miniredis.Miniredis {
	s := miniredis.NewMiniRedis()
	if err := s.StartAddr("127.0.0.1:0"); err != nil {
		panic(err)
	}
	return s
}

func ttlRedis(c *core.Check, i int) {
	r := c.Rand("redis", i)
	srv := startRedis()
	defer srv.Close()
	p, cl := newRedis(srv.Addr(), provider.RedisClientConfig{})
	defer cl.Stop()
	var log []string
	var shape strings.Builder
	now := time.Duration(0)
	type re struct {
		v   []byte
		exp time.Duration
	}
	m := map[string]re{}
	for s, n := 0, r.Range(8, 30); s < n; s++ {
		k := fmt.Sprintf("k%d", r.Intn(3))
		switch r.Intn(3) {
		case 0:
			v, ttl := r.Bytes(r.Range(1, 30)), lifetime(r)
			if r.P(0.1) {
				// Below what redis can tell apart: gone a moment later, not kept for ever.
				p.Set(k, v, core.Pick(r, time.Nanosecond, 300*time.Microsecond, 999999*time.Nanosecond))
				trace(&log, "t=%v set %s for less than a millisecond", now, k)
				if !eventually(10*time.Second, func() bool { s, err := srv.Get(k); return err == nil && s == string(v) }) {
					c.Violate("redis-not-stored", log, "%s was not written to redis", k)
					return
				}
				srv.FastForward(5 * time.Millisecond)
				now += 5 * time.Millisecond
				c.Count("redis_submillisecond", 1)
				m[k] = re{v, now - time.Millisecond}
				continue
			}
			p.Set(k, v, ttl)
			trace(&log, "t=%v set %s ttl=%v", now, k, ttl)
			if !eventually(10*time.Second, func() bool { s, err := srv.Get(k); return err == nil && s == string(v) }) {
				c.Violate("redis-not-stored", log, "%s was not written to redis", k)
				return
			}
			m[k] = re{v, now + ttl}
		case 1:
			d := core.Pick(r, time.Millisecond*7, time.Second*3, time.Minute+time.Millisecond, time.Hour*5, 2000*time.Hour)
			if ks := keysOf(m); len(ks) > 0 && r.P(0.7) {
				if left := m[core.Pick(r, ks...)].exp - now; left > 2*time.Millisecond {
					d = left + core.Pick(r, -time.Millisecond, time.Millisecond)
				}
			}
			srv.FastForward(d)
			now += d
			trace(&log, "advance %v", d)
		case 2:
			got := p.Get(bg, k)
			e, ok := m[k]
			trace(&log, "t=%v get %s -> %s", now, k, short(got))
			if ok && now < e.exp && !bytes.Equal(got, e.v) {
				c.Violate("redis-lost", log, "%s is within its lifetime, got %s", k, short(got))
				return
			}
			if (!ok || now > e.exp) && got != nil {
				c.Violate("redis-expired-served", log, "%s expired, got %s", k, short(got))
				return
			}
			if ok && now > e.exp {
				c.Count("redis_expired", 1)
				delete(m, k)
			}
			fmt.Fprintf(&shape, "%v%d ", ok, len(got))
		}
	}
	c.Eval("redis" + shape.String())
}
