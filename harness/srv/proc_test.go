//go:build go1.25

package srv

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
)

// proc is a running kache process.
type proc struct {
	cmd  *exec.Cmd
	dir  string
	file string
	web  string // address of the proxy
	web2 string
	api  string
	port int // of the api
	err  *syncBuf
	done chan struct{}
	code int
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 4<<20 {
		return len(p), nil
	}
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

var (
	portMu   sync.Mutex
	portUsed = map[int]bool{}
	portRand = rand.New(rand.NewSource(time.Now().UnixNano()))
)

// freePort finds a free port outside the range from which outgoing connections get theirs.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for k := 0; ; k++ {
		port := 15000 + portRand.Intn(17000)
		if portUsed[port] && k < 1000 {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			if k > 5000 {
				panic(err)
			}
			continue
		}
		_ = l.Close()
		portUsed[port] = true
		return port
	}
}

// newProc prepares a process: config gets the addresses of the proxy listeners and the API port.
func newProc(t testing.TB, config func(web, web2 string, api int) string) *proc {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "kache")
	if err != nil {
		t.Fatal(err)
	}
	p := &proc{dir: dir, file: filepath.Join(dir, "kache.yml"), err: &syncBuf{}, done: make(chan struct{})}
	p.web, p.web2 = fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())
	port := freePort()
	p.port = port
	p.api = fmt.Sprintf("127.0.0.1:%d", port)
	if err := os.WriteFile(p.file, []byte(config(p.web, p.web2, port)), 0o600); err != nil {
		t.Fatal(err)
	}
	return p
}

// start runs the program and waits until it answers.
func (p *proc) start(t testing.TB, args ...string) error {
	if err := p.begin(append([]string{"-config.file", p.file}, args...)...); err != nil {
		return err
	}
	up := waitFor(20*time.Second, func() bool {
		select {
		case <-p.done:
			return true
		default:
		}
		resp, err := http.Get("http://" + p.api + "/version")
		if err != nil {
			return false
		}
		_ = resp.Body.Close()
		c, err := net.Dial("tcp", p.web)
		if err != nil {
			return false
		}
		_ = c.Close()
		return true
	})
	select {
	case <-p.done:
		return fmt.Errorf("ended with code %d: %s", p.code, p.err.String())
	default:
	}
	if !up {
		p.kill()
		return fmt.Errorf("did not start: %s", p.err.String())
	}
	return nil
}

// begin runs the program.
func (p *proc) begin(args ...string) error {
	bin := os.Getenv("VERIF_KACHE")
	if bin == "" {
		panic("VERIF_KACHE is not set")
	}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Dir = p.dir
	p.cmd.Stdout, p.cmd.Stderr = p.err, p.err
	p.cmd.Env = append(os.Environ(), "HOME="+p.dir)
	if err := p.cmd.Start(); err != nil {
		return err
	}
	go func() {
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return nil
}

func (p *proc) kill() {
	if p.cmd != nil && p.cmd.Process != nil {
		_ = p.cmd.Process.Kill()
		<-p.done
	}
	_ = os.RemoveAll(p.dir)
}

func (p *proc) exited(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// do sends a request on a connection of its own.
func do(method, url, body string, h http.Header) (int, http.Header, string, error) {
	req, err := http.NewRequest(method, url, strings.NewReader(body))
	if err != nil {
		return 0, nil, "", err
	}
	for k, v := range h {
		req.Header[k] = v
	}
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr, Timeout: 60 * time.Second}).Do(req)
	if err != nil {
		return 0, nil, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, resp.Header, string(b), err
}
