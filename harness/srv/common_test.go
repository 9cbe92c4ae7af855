//go:build go1.25

// Package srv monitors the whole node over real sockets: proxy, upstreams, admin API, reload,
// cluster, shutdown and the running binary.
package srv

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	stdlog "log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/kacheio/kache/pkg/api"
	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/cluster"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/pkg/provider"
	"github.com/kacheio/kache/pkg/server"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

func TestMain(m *testing.M) {
	log.Logger = zerolog.New(io.Discard)
	zerolog.DefaultContextLogger = &log.Logger
	stdlog.SetOutput(io.Discard)
	if os.Getenv("VERIF_MINIREDIS") != "" { // a redis of its own process, see newRemoteRedis
		mr, err := miniredis.Run()
		if err != nil {
			os.Exit(3)
		}
		fmt.Println(mr.Addr())
		_, _ = io.Copy(io.Discard, os.Stdin)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

var bg = context.Background()

// node is one kache node: server, admin API and cache.
type node struct {
	srv   *server.Server
	api   *api.API
	pdr   provider.Provider
	cache *cache.HttpCache
	reg   *prometheus.Registry
	cfg   *config.Configuration
	front *httptest.Server
	admin *httptest.Server
}

func memConfig() *provider.ProviderBackendConfig {
	return &provider.ProviderBackendConfig{Backend: "inmemory",
		InMemory: provider.InMemoryCacheConfig{MaxSize: 64 << 20, MaxItemSize: 8 << 20, DefaultTTL: "120s"}}
}

// newNode builds a node without listeners of its own; front and admin serve its handlers.
func newNode(ups config.Upstreams, hc *cache.HttpCacheConfig, pc *provider.ProviderBackendConfig, ac *config.API) (*node, error) {
	return newNodeCluster(ups, hc, pc, ac, nil)
}

// mustNodeReg builds a node whose counters go to the given registry.
func mustNodeReg(t testing.TB, ups config.Upstreams, hc *cache.HttpCacheConfig, reg prometheus.Registerer) *node {
	n, err := newNodeFull(ups, hc, nil, nil, nil, reg)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

func newNodeCluster(ups config.Upstreams, hc *cache.HttpCacheConfig, pc *provider.ProviderBackendConfig, ac *config.API, cc *cluster.Config) (*node, error) {
	return newNodeFull(ups, hc, pc, ac, cc, nil)
}

func newNodeFull(ups config.Upstreams, hc *cache.HttpCacheConfig, pc *provider.ProviderBackendConfig, ac *config.API, cc *cluster.Config, reg prometheus.Registerer) (*node, error) {
	if pc == nil {
		pc = memConfig()
	}
	if ac == nil {
		ac = &config.API{}
	}
	n := &node{reg: prometheus.NewRegistry()}
	if reg == nil {
		reg = n.reg
	}
	n.cfg = &config.Configuration{Upstreams: ups, HttpCache: hc, Provider: pc, API: ac, Listeners: config.Listeners{}, Cluster: cc}
	var err error
	if n.pdr, err = provider.CreateCacheProvider("kache", *pc); err != nil {
		return nil, err
	}
	if n.cache, err = cache.NewHttpCache(hc, n.pdr); err != nil {
		return nil, err
	}
	if n.srv, err = server.NewServer(n.cfg, n.pdr, n.cache, reg); err != nil {
		return nil, err
	}
	if n.api, err = api.New(*ac, n.srv); err != nil {
		return nil, err
	}
	return n, nil
}

func (n *node) serve() *node {
	n.front = httptest.NewServer(n.srv)
	n.admin = httptest.NewServer(n.api)
	return n
}

func (n *node) close() {
	if n.front != nil {
		n.front.CloseClientConnections()
		n.front.Close()
	}
	if n.admin != nil {
		n.admin.CloseClientConnections()
		n.admin.Close()
	}
}

func mustNode(t testing.TB, ups config.Upstreams, hc *cache.HttpCacheConfig, pc *provider.ProviderBackendConfig, ac *config.API) *node {
	n, err := newNode(ups, hc, pc, ac)
	if err != nil {
		t.Fatal(err)
	}
	return n
}

// call invokes an admin handler directly.
func (n *node) call(method, target, remote string, h http.Header, body string) *httptest.ResponseRecorder {
	return n.callCtx(bg, method, target, remote, h, body)
}

func (n *node) callCtx(ctx context.Context, method, target, remote string, h http.Header, body string) *httptest.ResponseRecorder {
	req := httptest.NewRequest(method, target, strings.NewReader(body)).WithContext(ctx)
	req.RemoteAddr = remote
	for k, vv := range h {
		req.Header[k] = append([]string(nil), vv...)
	}
	rr := httptest.NewRecorder()
	n.api.ServeHTTP(rr, req)
	return rr
}

// callReal does what call does, over a connection.
func (n *node) callReal(method, target, remote string, h http.Header, body string) *httptest.ResponseRecorder {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		r.RemoteAddr = remote
		r.Host = "example.com"
		n.api.ServeHTTP(w, r)
	}))
	defer srv.Close()
	rr := httptest.NewRecorder()
	req, err := http.NewRequest(method, srv.URL+target, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	for k, vv := range h {
		req.Header[k] = append([]string(nil), vv...)
	}
	res, err := srv.Client().Do(req)
	if err != nil {
		rr.Code = 0
		rr.Body.WriteString(err.Error())
		return rr
	}
	defer res.Body.Close()
	rr.Code = res.StatusCode
	_, _ = io.Copy(rr.Body, res.Body)
	return rr
}

func hostOf(s *httptest.Server) string { return s.Listener.Addr().String() }

// answer is what a raw client saw.
type answer struct {
	status int
	header http.Header
	body   []byte
	err    error // the transfer was visibly broken
	cl     int64
	infos  int // interim responses seen
}

// rawDo sends bytes and reads one response, skipping interim ones.
func rawDo(addr string, raw []byte, method string, limit time.Duration) (a answer) {
	conn, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		a.err = err
		return
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(limit))
	if _, err := conn.Write(raw); err != nil {
		a.err = err
		return
	}
	return readAnswer(bufio.NewReader(conn), method)
}

func readAnswer(br *bufio.Reader, method string) (a answer) {
	for {
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			a.err = err
			return
		}
		if resp.StatusCode < 200 && resp.StatusCode != 101 && a.infos < 5 {
			a.infos++
			continue
		}
		a.status, a.header, a.cl = resp.StatusCode, resp.Header, resp.ContentLength
		a.body, a.err = io.ReadAll(resp.Body)
		_ = resp.Body.Close()
		return
	}
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

func headerString(h http.Header) string {
	var b strings.Builder
	ks := make([]string, 0, len(h))
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, h[k])
	}
	return b.String()
}

func waitFor(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

// kacheGoroutines counts goroutines that run or were started by the code under test.
func kacheGoroutines() (int, string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	n, sample := 0, ""
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if bytes.Contains(g, []byte("kache/pkg/")) {
			n++
			if len(sample) < 3000 {
				sample += string(g) + "\n\n"
			}
		}
	}
	return n, sample
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q…(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// newRemoteRedis runs miniredis in a process of its own, so that its memory is not counted here.
func newRemoteRedis(t testing.TB) (addr string, stop func()) {
	cmd := exec.Command(os.Args[0], "-test.run", "^$")
	cmd.Env = append(os.Environ(), "VERIF_MINIREDIS=1")
	in, err := cmd.StdinPipe()
	if err != nil {
		t.Fatal(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		t.Fatal(err)
	}
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	line, err := bufio.NewReader(out).ReadString('\n')
	if err != nil {
		t.Fatal(err)
	}
	return strings.TrimSpace(line), func() { _ = in.Close(); _ = cmd.Wait() }
}

// dbSize asks a redis for its number of keys.
func dbSize(addr string) int {
	conn, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return -1
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(5 * time.Second))
	_, _ = io.WriteString(conn, "*1\r\n$6\r\nDBSIZE\r\n")
	var n int
	if _, err := fmt.Fscanf(conn, ":%d\r\n", &n); err != nil {
		return -1
	}
	return n
}

func apiNew(cfg config.API, s *server.Server) (*api.API, error) { return api.New(cfg, s) }
