//go:build go1.25

// Package core is the common part of the runtime monitors: seeded randomness, bookkeeping of what
// was executed and observed, and reporting of violations.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
)

// Violation is one observed breach of the property.
type Violation struct {
	// Sig identifies the class of the failing input/call site; matched against known findings.
	Sig string `json:"sig"`
	// Detail says what was expected and what was observed.
	Detail string `json:"detail"`
	// History is the recorded event log which leads to the violation.
	History []string `json:"history"`
}

type result struct {
	Property    string         `json:"property"`
	Seed        int64          `json:"seed"`
	Tier        string         `json:"tier"`
	Complete    bool           `json:"complete"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []any          `json:"samples"`
	Counters    map[string]int `json:"counters"`
	Violations  []Violation    `json:"violations"`
	NViolations int            `json:"n_violations"`
	Probes      []string       `json:"findings_probed"`
}

// Check collects what one run of a property's monitors observed.
type Check struct {
	mu       sync.Mutex
	tb       testing.TB
	res      result
	distinct map[uint64]struct{}
	out      string
	sigs     map[string]int
	first    int64 // real time of the first violation
	confirm  map[string]bool
	enough   bool
}

// realTime is not subject to virtual time.
func realTime() int64 {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return tv.Nano()
}

// Thorough reports whether the thorough tier was requested.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed returns the base seed.
func Seed() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

// N scales a case count with the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// New starts the bookkeeping for a property.
func New(tb testing.TB, prop string) *Check {
	tier := "quick"
	if Thorough() {
		tier = "thorough"
	}
	confirm := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("VERIF_CONFIRM"), "\n") {
		confirm[s] = s != ""
	}
	return &Check{
		confirm:  confirm,
		tb:       tb,
		distinct: map[uint64]struct{}{},
		sigs:     map[string]int{},
		out:      os.Getenv("VERIF_OUT"),
		res:      result{Property: prop, Seed: Seed(), Tier: tier, Counters: map[string]int{}},
	}
}

// Rand returns a generator for the i-th case of the named stream; independent of all others.
func (c *Check) Rand(stream string, i int) *R {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", c.res.Property, stream, i, c.res.Seed)
	return NewR(int64(h.Sum64()))
}

// Count adds to a named counter of observed events.
func (c *Check) Count(name string, n int) {
	c.mu.Lock()
	c.res.Counters[name] += n
	c.mu.Unlock()
}

// Max raises a named counter to n.
func (c *Check) Max(name string, n int) {
	c.mu.Lock()
	if n > c.res.Counters[name] {
		c.res.Counters[name] = n
	}
	c.mu.Unlock()
}

// Counter returns a counter.
func (c *Check) Counter(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.Counters[name]
}

// Eval records one executed case. shape identifies what the monitors saw; an empty shape marks
// a trivial case (one on which no monitor had anything to decide).
func (c *Check) Eval(shape string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations++
	if shape == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(shape))
	c.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps up to six written-out cases.
func (c *Check) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 6 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

// Violate records a violation. Only a few per signature keep their history.
func (c *Check) Violate(sig string, history []string, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.NViolations++
	c.sigs[sig]++
	c.enough = c.enough || c.confirm[sig] // a run that is to confirm this has done so
	if c.first == 0 {
		c.first = realTime()
	}
	if c.sigs[sig] > 2 || len(c.res.Violations) > 40 {
		return
	}
	if len(history) > 400 {
		history = history[len(history)-400:]
	}
	v := Violation{Sig: sig, Detail: fmt.Sprintf(format, args...), History: append([]string(nil), history...)}
	c.res.Violations = append(c.res.Violations, v)
	c.flush()
}

// Stopped reports whether enough violations were recorded to stop exploring.
func (c *Check) Stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.enough || c.res.NViolations > 12 || c.first > 0 && realTime()-c.first > int64(N(25, 120))*1e9
}

// Done writes the result. rule says how cases are made and what makes one non-trivial. The
// named counters must all be positive: otherwise the run observed nothing and is inconclusive.
func (c *Check) Done(rule string, required ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Rule = rule
	c.res.Complete = true
	var missing []string
	for _, r := range required {
		if c.res.Counters[r] <= 0 {
			missing = append(missing, r)
		}
	}
	if len(missing) > 0 && c.res.NViolations == 0 {
		c.res.Complete = false
		sort.Strings(missing)
		c.res.Counters["MISSING:"+strings.Join(missing, ",")] = 1
		c.tb.Errorf("inconclusive: nothing observed for %v", missing)
	}
	c.flush()
	for _, v := range c.res.Violations {
		c.tb.Errorf("VIOLATED %s [%s] %s\n  %s", c.res.Property, v.Sig, v.Detail, strings.Join(v.History, "\n  "))
	}
}

func (c *Check) flush() {
	c.res.Distinct = len(c.distinct)
	if c.out == "" {
		return
	}
	b, err := json.Marshal(&c.res)
	if err == nil {
		_ = os.WriteFile(c.out+".tmp", b, 0o644)
		_ = os.Rename(c.out+".tmp", c.out)
	}
}

// R is a seeded generator.
type R struct{ *rand.Rand }

// NewR returns a generator.
func NewR(seed int64) *R { return &R{rand.New(rand.NewSource(seed))} }

// P is true with probability p.
func (r *R) P(p float64) bool { return r.Float64() < p }

// Range returns an int in [a, b].
func (r *R) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Pick returns one of the options.
func Pick[T any](r *R, opts ...T) T { return opts[r.Intn(len(opts))] }

// Bytes returns n arbitrary bytes.
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	_, _ = r.Read(b)
	return b
}

// Case applies random letter case.
func (r *R) Case(s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

// Log is a concurrency-safe event log.
type Log struct {
	mu sync.Mutex
	l  []string
}

// Add appends an event.
func (l *Log) Add(format string, args ...any) {
	l.mu.Lock()
	l.l = append(l.l, fmt.Sprintf(format, args...))
	l.mu.Unlock()
}

// Lines returns a copy of the events.
func (l *Log) Lines() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.l...)
}
