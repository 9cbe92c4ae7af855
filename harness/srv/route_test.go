//go:build go1.25

package srv

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/verifharness/core"
)

// arrival is a request as it reached an upstream.
type arrival struct {
	target int
	method string
	uri    string
	host   string
	header http.Header
	body   []byte
}

// scripted is what the upstream answers to the request with the given tag.
type scripted struct {
	status  int
	header  http.Header
	body    []byte
	interim []int
	chunked bool
}

type recorder struct {
	mu   sync.Mutex
	got  map[string][]arrival
	plan map[string]scripted
}

func (rc *recorder) handler(target int) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		tag := r.Header.Get("X-Tag")
		rc.mu.Lock()
		rc.got[tag] = append(rc.got[tag], arrival{target, r.Method, r.RequestURI, r.Host, r.Header.Clone(), body})
		p := rc.plan[tag]
		rc.mu.Unlock()
		for _, code := range p.interim {
			w.Header().Set("Link", "</early>; rel=preload")
			w.WriteHeader(code)
			w.Header().Del("Link")
		}
		for k, vv := range p.header {
			w.Header()[k] = vv
		}
		if p.status == 0 {
			p.status = 200
		}
		if !p.chunked && p.status != 204 && p.status != 304 {
			w.Header().Set("Content-Length", fmt.Sprint(len(p.body)))
		}
		w.WriteHeader(p.status)
		if r.Method != "HEAD" && p.status != 204 && p.status != 304 {
			if p.chunked {
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
				}
			}
			_, _ = w.Write(p.body)
		}
	})
}

// joinPath joins with exactly one slash between the parts.
func joinPath(a, b string) string {
	as, bs := strings.HasSuffix(a, "/"), strings.HasPrefix(b, "/")
	switch {
	case as && bs:
		return a + b[1:]
	case !as && !bs:
		return a + "/" + b
	}
	return a + b
}

// looseKey is equal for any two targets a cache may take to be the same
// resource: escapes, dot segments, doubled slashes and the order or emptiness
// of query parameters make no difference to it.
func looseKey(p, query string) string {
	if d, err := url.PathUnescape(p); err == nil {
		p = d
	}
	params := strings.FieldsFunc(query, func(c rune) bool { return strings.ContainsRune("?&;=", c) })
	sort.Strings(params)
	return path.Clean("/"+p) + "?" + strings.Join(params, "&")
}

var hopByHop = map[string]bool{"Connection": true, "Proxy-Connection": true, "Keep-Alive": true, "Te": true,
	"Trailer": true, "Transfer-Encoding": true, "Upgrade": true, "Proxy-Authenticate": true, "Proxy-Authorization": true}

func TestC26(t *testing.T) {
	c := core.New(t, "C26")
	rc := &recorder{got: map[string][]arrival{}, plan: map[string]scripted{}}
	const nups = 4
	ups := make([]*httptest.Server, nups)
	for i := range ups {
		if i == nups-1 {
			ups[i] = httptest.NewTLSServer(rc.handler(i))
		} else {
			ups[i] = httptest.NewServer(rc.handler(i))
		}
		defer ups[i].Close()
	}

	worlds := core.N(160, 2500)
	perWorld := core.N(60, 120)
	prefixes := []string{"/", "/a", "/a/", "/a/b", "/api", "/a.b", "/A", "/a%20x", "/ü", "", "/news/{id:[0-9]+}", "/a+b", "/x/y/z"}
	bases := []string{"", "/", "/base", "/base/", "/b/c", "/b%2Fc", "/q%20r/"}
	for wi := 0; wi < worlds && !c.Stopped(); wi++ {
		r := c.Rand("world", wi)
		var cfg config.Upstreams
		type tgt struct {
			idx  int
			pref string
			base *url.URL
		}
		var tgts []tgt
		k := r.Range(1, 4)
		many := 0
		if wi%16 == 5 { // most of which match nothing
			many = r.Range(8, 80)
			c.Count("worlds_with_many_targets", 1)
		}
		for i := 0; i < k+many; i++ {
			idx := r.Intn(nups)
			base := core.Pick(r, bases...)
			addr := "http://" + hostOf(ups[idx]) + base
			if idx == nups-1 {
				addr = "https://" + hostOf(ups[idx]) + base
			}
			pref := core.Pick(r, prefixes...)
			if r.P(0.5) {
				pref = core.Pick(r, "/a", "/a/b", "/")
			}
			if i < many {
				pref = fmt.Sprintf("/none/%d/", i)
			}
			u, err := url.Parse(addr)
			if err != nil {
				t.Fatal(err)
			}
			cfg = append(cfg, &config.Upstream{Name: core.Pick(r, "", "t", "zz-upstream", "a-rather-long-name") + fmt.Sprint(99-i), Addr: addr, Path: pref})
			tgts = append(tgts, tgt{idx, pref, u})
		}
		n := mustNode(t, cfg, &cache.HttpCacheConfig{Strict: true, XCache: r.P(.5), XCacheName: core.Pick(r, "", "X-Tag", "Content-Type", "x-kache")}, nil, nil)
		n.serve()
		match := func(path string) int {
			for i, tg := range tgts {
				if strings.Contains(tg.pref, "{") {
					rest, ok := strings.CutPrefix(path, "/news/")
					if ok && len(rest) > 0 && rest[0] >= '0' && rest[0] <= '9' {
						return i
					}
					continue
				}
				if strings.HasPrefix(path, tg.pref) {
					return i
				}
			}
			return -1
		}

		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		used := map[string]bool{}
		for qi := 0; qi < perWorld; qi++ {
			r := c.Rand("req", wi*100000+qi)
			tag := fmt.Sprintf("w%dq%d", wi, qi)
			path := core.Pick(r, "/", "/a", "/a/", "/a/b", "/a/b/c", "/api/v1", "/a.b/x", "/acb", "/A/x", "/a%20x/1", "/%C3%BC/1", "/a%2Fb", "/news/12", "/news/x", "/a+b",
				"/x/y/z", "/%7Ef", "/a;v=1", "/a//b", "/zzz", "/a/%2e%2e/b", "/a/b%2f", "/a=b&c", "/a@b:c", "/%41", "/a/b/%E2%82%AC", "/a*", "/a,b", "/a'(x)!$", "/a%3Fq", "/a%23f", "/a%25")
			query := core.Pick(r, "", "", "?", "?q=1", "?b=2&a=1&a=0", "?x=%zz", "?a;b", "?q=%20+", "?%C3%BC=ü"[:9], "?=&&", "?a=b=c", "?u=http://x/y?z")
			if used[looseKey(path, query)] {
				path += fmt.Sprintf("/u%d", qi) // never answered from the cache
			}
			used[looseKey(path, query)] = true
			method := core.Pick(r, "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE", "FOO")
			var body []byte
			hasBody := method == "POST" || method == "PUT" || method == "PATCH" || (method == "DELETE" && r.P(0.3)) || method == "FOO"
			if hasBody {
				body = r.Bytes(core.Pick(r, 0, 1, 17, 4096, 70000))
			}
			sent := http.Header{"X-Tag": {tag}}
			if r.P(0.5) {
				sent["X-Multi"] = []string{"b", "a", ""}[:r.Range(1, 3)]
			}
			if r.P(0.3) {
				sent["User-Agent"] = []string{core.Pick(r, "curl/8", "")}
			}
			if r.P(0.3) {
				sent["Accept-Encoding"] = []string{core.Pick(r, "gzip", "identity", "br, gzip")}
			}
			if r.P(0.3) {
				sent["Cookie"] = []string{"a=b; c=\"d\""}
			}
			if r.P(0.3) {
				sent["Content-Type"] = []string{"application/x-www-form-urlencoded"}
			}
			if r.P(0.2) {
				sent["X-Forwarded-For"] = []string{"198.51.100.7"}
			}
			if r.P(0.2) {
				sent["X-Strange"] = []string{"\xe4\xf6, \"q\\\" ;=" + strings.Repeat("z", r.Intn(core.Pick(r, 3000, 3000, 3000, 100000)))}
			}
			var raw bytes.Buffer
			uri := path + query
			host := core.Pick(r, "www.example.com", "example.com:81", hostOf(n.front))
			reqline := uri
			if r.P(0.1) {
				reqline = "http://" + host + uri
			}
			fmt.Fprintf(&raw, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, reqline, host)
			for k, vv := range sent {
				for _, v := range vv {
					fmt.Fprintf(&raw, "%s: %s\r\n", k, v)
				}
			}
			if r.P(0.25) {
				raw.WriteString("Connection: close, X-Hop\r\nX-Hop: secret\r\nKeep-Alive: timeout=5\r\nProxy-Authorization: Basic xyz\r\n")
			}
			expect := false
			if hasBody {
				if r.P(0.5) {
					if len(body) > 0 && r.P(0.4) {
						expect = true
						raw.WriteString("Expect: 100-continue\r\n")
					}
					fmt.Fprintf(&raw, "Content-Length: %d\r\n\r\n", len(body))
					raw.Write(body)
				} else {
					raw.WriteString("Transfer-Encoding: chunked\r\n\r\n")
					for rest := body; len(rest) > 0; {
						m := 1 + r.Intn(len(rest))
						fmt.Fprintf(&raw, "%x\r\n%s\r\n", m, rest[:m])
						rest = rest[m:]
					}
					raw.WriteString("0\r\n\r\n")
				}
			} else {
				raw.WriteString("\r\n")
			}
			p := scripted{status: core.Pick(r, 200, 200, 200, 201, 202, 203, 204, 205, 206, 301, 302, 304, 307, 400, 401, 403, 404, 405, 409, 410, 418, 429, 451, 500, 502, 503, 504, 599),
				header: http.Header{"X-Back": {tag}, "X-Multi-Back": {"1", "2", ""}, "Date": {time.Now().UTC().Format(http.TimeFormat)}},
				body:   r.Bytes(core.Pick(r, 0, 1, 100, 3000, 50000, 300000)), chunked: r.P(0.3)}
			p.header["Content-Type"] = []string{core.Pick(r, "text/plain", "application/octet-stream", "x/y; q=\"z\"")}
			if r.P(0.5) {
				p.header["Cache-Control"] = []string{core.Pick(r, "max-age=60", "no-store", "private")}
			}
			if r.P(0.3) {
				p.header["Set-Cookie"] = []string{"a=1; Path=/", "b=2"}
			}
			if r.P(0.3) {
				p.header["Location"] = []string{"/else where?x=%zz"}
			}
			if r.P(0.3) {
				p.header["Etag"] = []string{"\"x\""}
			}
			if r.P(0.2) {
				p.header["Content-Encoding"] = []string{"zz"}
			}
			if r.P(0.05) {
				for j := r.Range(1, 100); j > 0; j-- {
					p.header[fmt.Sprintf("X-Large-%d", j)] = []string{strings.Repeat("l", r.Intn(4000))}
				}
			}
			if p.status == 205 {
				p.body = nil
			}
			if r.P(0.25) {
				p.interim = []int{103, 103, 102}[:r.Range(1, 3)]
			}
			rc.mu.Lock()
			rc.plan[tag] = p
			rc.mu.Unlock()

			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				a := rawDo(hostOf(n.front), raw.Bytes(), method, 20*time.Second)
				rc.mu.Lock()
				got := rc.got[tag]
				delete(rc.got, tag)
				delete(rc.plan, tag)
				rc.mu.Unlock()
				head, _, _ := strings.Cut(raw.String(), "\r\n\r\n")
				var tl []string
				for _, tg := range cfg {
					tl = append(tl, fmt.Sprintf("target %q -> %s", tg.Path, tg.Addr))
				}
				hist := append(tl, strings.Split(head, "\r\n")...)
				hist = append(hist, fmt.Sprintf("upstream answers interim %v, status %d, %s body %s chunked %v", p.interim, p.status, headerString(p.header), short(p.body), p.chunked),
					fmt.Sprintf("client saw status %d (interim %d) %s body %s err %v", a.status, a.infos, headerString(a.header), short(a.body), a.err))
				bad := func(sig, f string, args ...any) { c.Violate(sig, hist, f, args...) }

				decoded, err := url.PathUnescape(path)
				if err != nil {
					decoded = path
				}
				want := match(decoded)
				c.Count("requests", 1)
				shape := fmt.Sprint(wi, method, path, query, want, p.status, len(p.interim), expect, p.chunked)
				if want < 0 {
					c.Count("unmatched", 1)
					c.Eval("unmatched" + path + fmt.Sprint(tl))
					if a.err != nil || a.status != 503 {
						bad("unmatched-not-503", "no target matches %s, but the client got %d, %v", path, a.status, a.err)
					}
					if len(got) > 0 {
						bad("unmatched-reached-upstream", "no target matches %s, yet upstream %d got it", path, got[0].target)
					}
					return
				}
				c.Eval(shape)
				if len(got) != 1 {
					bad("forwarded-not-once", "forwarded %d times instead of once", len(got))
					return
				}
				g := got[0]
				if g.target != tgts[want].idx {
					bad("wrong-target", "first matching target is %d (upstream %d), but upstream %d got the request", want, tgts[want].idx, g.target)
					return
				}
				wantURI := joinPath(tgts[want].base.EscapedPath(), path) + query
				if g.uri != wantURI {
					bad("uri-changed", "upstream should see %q, saw %q", wantURI, g.uri)
				}
				if g.method != method {
					bad("method-changed", "method %s became %s", method, g.method)
				}
				if g.host != tgts[want].base.Host {
					bad("host", "upstream saw Host %q instead of its own %q", g.host, tgts[want].base.Host)
				}
				if !bytes.Equal(g.body, body) {
					bad("request-body-changed", "request body %s became %s", short(body), short(g.body))
				}
				for k, vv := range sent {
					if k == "X-Forwarded-For" || k == "User-Agent" && vv[0] == "" {
						continue
					}
					if fmt.Sprintf("%q", g.header[k]) != fmt.Sprintf("%q", vv) {
						bad("request-field-changed", "request field %s: %q became %q", k, vv, g.header[k])
					}
				}
				for k := range g.header {
					if _, ok := sent[k]; ok {
						continue
					}
					switch k {
					case "X-Forwarded-For", "User-Agent", "Accept-Encoding", "Content-Length", "Expect":
						continue
					}
					bad("request-field-added", "upstream got the field %s: %q, which the client did not send end to end", k, g.header[k])
				}
				if ua := sent["User-Agent"]; ua != nil && ua[0] == "" && g.header.Get("User-Agent") != "" {
					bad("request-field-changed", "the empty User-Agent became %q", g.header["User-Agent"])
				}
				if xff := strings.Join(g.header["X-Forwarded-For"], ", "); !strings.HasSuffix(xff, "127.0.0.1") || len(sent["X-Forwarded-For"]) > 0 && !strings.HasPrefix(xff, "198.51.100.7, ") {
					bad("forwarded-for", "X-Forwarded-For is %q", xff)
				}

				// and back
				if a.err != nil {
					bad("response-broken", "complete upstream response arrived broken: %v", a.err)
					return
				}
				if a.status != p.status {
					bad("status-changed", "status %d became %d", p.status, a.status)
					return
				}
				wantBody := p.body
				if method == "HEAD" || p.status == 204 || p.status == 304 {
					wantBody = nil
				}
				if !bytes.Equal(a.body, wantBody) {
					bad("response-body-changed", "response body %s became %s", short(wantBody), short(a.body))
				}
				if method == "HEAD" && !p.chunked && p.status != 204 && p.status != 304 && a.header.Get("Content-Length") != fmt.Sprint(len(p.body)) {
					bad("head-length", "Content-Length of the HEAD response: %d became %q", len(p.body), a.header.Get("Content-Length"))
				}
				for k, vv := range p.header {
					if k == "Content-Type" && p.status == 304 {
						continue // not sent by the upstream's own server
					}
					if fmt.Sprintf("%q", a.header[k]) != fmt.Sprintf("%q", vv) {
						bad("response-field-changed", "response field %s: %q became %q", k, vv, a.header[k])
					}
				}
				for k := range a.header {
					if _, ok := p.header[k]; ok || hopByHop[k] {
						continue
					}
					if k == "Content-Length" {
						continue
					}
					bad("response-field-added", "client got the field %s: %q, which upstream did not send", k, a.header[k])
				}
				c.Count("forwarded", 1)
				if tgts[want].base.Scheme == "https" {
					c.Count("forwarded_over_tls", 1)
				}
				if len(headerString(p.header)) > 20000 {
					c.Count("large_header_sections", 1)
				}
				c.Count("bytes_compared", len(body)+len(wantBody))
				if len(p.interim) > 0 {
					c.Count("with_interim_responses", 1)
				}
				if expect {
					c.Count("with_expect_continue", 1)
				}
				if query == "?" || strings.Contains(path, "%") {
					c.Count("escaped", 1)
				}
				if qi < 2 {
					c.Sample(map[string]any{"targets": tl, "request": method + " " + uri, "upstream_saw": g.uri, "status": a.status})
				}
			}()
		}
		wg.Wait()
		n.close()
	}
	c.Done("random upstream lists (overlapping prefixes, base paths) and raw requests over real sockets; a case counts if a target matches (request and response are compared field by field) or none does",
		"forwarded", "unmatched", "with_interim_responses", "with_expect_continue", "escaped", "forwarded_over_tls", "large_header_sections")
}
