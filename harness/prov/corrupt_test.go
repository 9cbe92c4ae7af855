//go:build go1.25

package prov

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server/middleware"
	"github.com/kacheio/kache/verifharness/core"
	"github.com/prometheus/client_golang/prometheus"
)

// tampered is a storage whose contents can be altered behind the cache's back.
type tampered struct {
	provider.Provider
	m    map[string][]byte
	sets int
}

func (t *tampered) Get(_ context.Context, key string) []byte { return t.m[key] }
func (t *tampered) Set(key string, v []byte, _ time.Duration) {
	t.m[key] = append([]byte(nil), v...)
	t.sets++
}
func (t *tampered) Delete(_ context.Context, key string) bool {
	_, ok := t.m[key]
	delete(t.m, key)
	return ok
}

// resource answers every request for a path with the same response (plus a counter field).
type resource struct {
	n    int
	body map[string][]byte
	hdr  map[string]http.Header
}

func (o *resource) RoundTrip(req *http.Request) (*http.Response, error) {
	o.n++
	b := o.body[req.URL.Path]
	h := o.hdr[req.URL.Path].Clone()
	h.Set("Date", time.Now().UTC().Format(http.TimeFormat))
	h.Set("Content-Length", strconv.Itoa(len(b)))
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewReader(b)), Request: req}, nil
}

type damaged struct {
	c    *core.Check
	st   *tampered
	up   *resource
	rt   http.RoundTripper
	log  []string
	fail bool
}

func (d *damaged) violate(sig, f string, a ...any) {
	if !d.fail {
		d.c.Violate(sig, d.log, f, a...)
	}
	d.fail = true
}

// get fetches the path; exact demands exactly what upstream sends for it.
func (d *damaged) get(path string, exact bool) (upstream bool) {
	before := d.up.n
	req, _ := http.NewRequest("GET", "http://h.test"+path, nil)
	var res *http.Response
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
				d.violate("crash", "the request crashed: %v", p)
			}
		}()
		res, err = d.rt.RoundTrip(req)
	}()
	if err != nil {
		trace(&d.log, "GET %s -> error %v", path, err)
		d.violate("error", "the request failed because of damaged storage contents: %v", err)
		return
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	upstream = d.up.n > before
	trace(&d.log, "GET %s -> %d %d bytes err=%v upstream=%v", path, res.StatusCode, len(b), err, upstream)
	if !exact {
		return
	}
	if err != nil {
		d.violate("broken-body", "the body delivered from damaged contents is broken: %v", err)
	}
	if res.StatusCode != 200 || !bytes.Equal(b, d.up.body[path]) {
		d.violate("altered", "delivered %d %s, upstream sends %s (%d bytes)", res.StatusCode, short(b), short(d.up.body[path]), len(d.up.body[path]))
	}
	for k, v := range d.up.hdr[path] {
		if got := res.Header[k]; fmt.Sprint(got) != fmt.Sprint(v) {
			d.violate("altered-header", "delivered %s: %q, upstream sends %q", k, got, v)
		}
	}
	return
}

func TestC25(t *testing.T) {
	c := core.New(t, "C25")
	for i := 0; i < core.N(300, 3000) && !c.Stopped(); i++ {
		corruptCase(c, i)
	}
	c.Done("a case is one stored entry (generated fields, body and Vary) and one way its stored bytes are damaged: cut at a byte (every position for small entries), emptied, replaced by garbage, by other encodings or by "+
		"text that looks like a response, bytes appended, prefix lost, or bits flipped at every kind of position; the next requests must be answered completely without a crash and, except for flipped bits, exactly as upstream "+
		"answers, and the entry must be repaired. Distinct by entry and damage; every damage is non-trivial",
		"truncated", "replaced", "flipped", "repaired", "missed", "served")
}

func corruptCase(c *core.Check, i int) {
	r := c.Rand("corrupt", i)
	d := &damaged{c: c, st: &tampered{m: map[string][]byte{}}}
	body := r.Bytes(core.Pick(r, 0, 1, 20, 200, 3000))
	h := http.Header{"Cache-Control": {"max-age=3600"}, "X-A": {"1", "2"}, "Etag": {`"v1"`}}
	if r.P(0.3) {
		h.Set("Vary", "X-Lang, Accept")
	}
	if r.P(0.3) {
		body = []byte("HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc")
	}
	d.up = &resource{body: map[string][]byte{"/p": body, "/other": []byte("other resource")},
		hdr: map[string]http.Header{"/p": h, "/other": {"Cache-Control": {"max-age=3600"}}}}
	hc, err := cache.NewHttpCache(&cache.HttpCacheConfig{Strict: r.P(0.8), DefaultTTL: "1h"}, d.st)
	if err != nil {
		panic(err)
	}
	tr := middleware.NewCachedTransport(hc, prometheus.NewRegistry())
	tr.Transport = d.up
	d.rt = middleware.NewCoalesced(tr)
	d.get("/p", true)
	d.get("/other", true)
	const key = "kache-http://h.test/p"
	good := append([]byte(nil), d.st.m[key]...)
	if len(good) == 0 {
		d.violate("not-stored", "the response was not stored under %s (keys %v)", key, keysOf(d.st.m))
		return
	}
	if d.get("/p", true) {
		d.violate("no-hit", "the intact entry was not used")
	}
	pristine := len(d.log)
	try := func(what string, contents []byte, exact bool) {
		if d.fail || c.Stopped() {
			return
		}
		d.log = append(d.log[:pristine:pristine], "storage now holds: "+what)
		d.st.m[key] = contents
		up := d.get("/p", exact)
		if up {
			c.Count("missed", 1)
		} else {
			c.Count("served", 1)
		}
		if exact && !up && !bytes.Equal(contents, good) && !bytes.HasPrefix(contents, good) {
			d.violate("used", "damaged contents (%s) were used", what)
		}
		if exact && !d.fail {
			if d.get("/p", true) && !strings.HasPrefix(what, "appended") {
				d.violate("not-repaired", "after the damage (%s) the entry is not repaired by the upstream response", what)
			}
			c.Count("repaired", 1)
		}
		d.get("/other", true)
		c.Eval(fmt.Sprint(i, what))
	}
	cuts := map[int]bool{0: true, 1: true, len(good) - 1: true, len(good) / 2: true}
	if len(good) < 700 {
		for n := range good {
			cuts[n] = true
		}
	}
	for n := 0; n < 60; n++ {
		cuts[r.Intn(len(good))] = true
	}
	for n := range cuts {
		try(fmt.Sprintf("cut after %d of %d bytes", n, len(good)), append([]byte{}, good[:n]...), true)
		c.Count("truncated", 1)
	}
	for n := 0; n < 10; n++ {
		k := r.Intn(len(good)-1) + 1
		try(fmt.Sprintf("prefix of %d bytes lost", k), append([]byte(nil), good[k:]...), true)
		c.Count("replaced", 1)
	}
	for n, g := range [][]byte{
		{0}, []byte("garbage"), []byte("HTTP/1.1 200 OK\r\nContent-Length: 2\r\nCache-Control: max-age=9999\r\n\r\nhi"), []byte("{}"), []byte("null"),
		bytes.Repeat([]byte{0xff}, 64), make([]byte, 300), binary.BigEndian.AppendUint64(nil, 1<<62), r.Bytes(200), []byte("\xf8\x7f\xff\xff\xff\xff\xff\xff\xff"),
		d.enc(&entry{}), d.enc(&entry{Body: []byte("not a response"), Timestamp: time.Now().Unix()}),
		d.enc(&entry{Body: []byte("HTTP/1.1 200 OK\r\nContent-Le"), Timestamp: time.Now().Unix()}),
	} {
		try(fmt.Sprintf("replaced by garbage %d %s", n, short(g)), g, true)
		c.Count("replaced", 1)
	}
	for k := 1; k <= 12; k++ { // the end is lost, its length is not
		try(fmt.Sprintf("last %d bytes overwritten", k), append(append([]byte(nil), good[:len(good)-k]...), bytes.Repeat([]byte{0xff}, k)...), true)
		c.Count("replaced", 1)
	}
	try("appended garbage", append(append([]byte(nil), good...), r.Bytes(50)...), true)
	// Flipped bits cannot be noticed in general (the storage is trusted for that), but must not crash or hang.
	for n := 0; n < core.N(150, 600); n++ {
		b := append([]byte(nil), good...)
		for k := r.Range(1, 3); k > 0; k-- {
			pos := r.Intn(len(b))
			if r.P(0.6) {
				pos = r.Intn(min(len(b), 160))
			}
			b[pos] ^= 1 << r.Intn(8)
		}
		try("flipped bits "+strconv.Itoa(n), b, false)
		c.Count("flipped", 1)
	}
	if i < 3 {
		c.Sample(d.log)
	}
}

// entry mirrors the stored encoding.
type entry struct {
	Body      []byte
	Timestamp int64
	Vary      http.Header
}

func (d *damaged) enc(e *entry) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(e); err != nil {
		panic(err)
	}
	return b.Bytes()
}
