//go:build go1.25

package httpc

import (
	"math"
	"net/http"
	"strconv"
	"strings"
	"time"
)

// The oracle's own reading of the HTTP caching rules (RFC 9111). Deliberately independent of the
// code under test.

// ccOf parses all Cache-Control lines into lower-case directives. First occurrence wins.
func ccOf(h http.Header) map[string]string {
	m := map[string]string{}
	for _, line := range h.Values("Cache-Control") {
		for _, d := range splitList(line) {
			k, v, _ := strings.Cut(d, "=")
			k = strings.ToLower(strings.TrimSpace(k))
			if k == "" {
				continue
			}
			if _, dup := m[k]; !dup {
				m[k] = strings.Trim(strings.TrimSpace(v), `"'`)
			}
		}
	}
	return m
}

func splitList(s string) []string {
	var out []string
	quoted, start := false, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			quoted = !quoted
		case ',':
			if !quoted {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

// seconds parses delta-seconds; ok is false if absent or invalid.
func seconds(m map[string]string, k string) (time.Duration, bool) {
	v, ok := m[k]
	if !ok {
		return 0, false
	}
	n, err := strconv.ParseUint(v, 10, 33)
	if err != nil {
		return 0, false
	}
	return time.Duration(n) * time.Second, true
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

// dateOf parses an HTTP date in any of the three formats.
func dateOf(s string) (time.Time, bool) {
	for _, f := range []string{http.TimeFormat, "Monday, 02-Jan-06 15:04:05 GMT", time.ANSIC} {
		if t, err := time.Parse(f, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

var cacheableStatus = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 308: true,
	404: true, 405: true, 410: true, 414: true, 451: true, 501: true}

// storable decides whether a response may be stored, from the response and request alone.
func storable(status int, h http.Header, reqCC map[string]string) bool {
	cc := ccOf(h)
	if has(cc, "no-store") || has(cc, "private") || has(reqCC, "no-store") || !cacheableStatus[status] {
		return false
	}
	_, ma := seconds(cc, "max-age")
	_, sm := seconds(cc, "s-maxage")
	return ma || sm || has(cc, "no-cache") || (h.Get("Expires") != "" && h.Get("Date") != "")
}

// lifetime is the freshness lifetime; ok is false if there is no valid explicit expiration.
func lifetime(h http.Header) (time.Duration, bool) {
	cc := ccOf(h)
	if d, ok := seconds(cc, "s-maxage"); ok {
		return d, true
	}
	if d, ok := seconds(cc, "max-age"); ok {
		return d, true
	}
	e, ok1 := dateOf(h.Get("Expires"))
	d, ok2 := dateOf(h.Get("Date"))
	if !ok1 || !ok2 {
		return 0, false
	}
	return e.Sub(d), true
}

// ageOf is the current age of a response received at rt, exactly.
func ageOf(h http.Header, rt, now time.Time) time.Duration {
	var apparent time.Duration
	if d, ok := dateOf(h.Get("Date")); ok {
		apparent = max(0, rt.Sub(d))
	}
	if n, err := strconv.ParseUint(h.Get("Age"), 10, 31); err == nil {
		apparent = max(apparent, time.Duration(n)*time.Second)
	}
	if s := apparent + now.Sub(rt); s >= 0 {
		return s
	}
	return math.MaxInt64 // saturated
}

// verdict on using a stored response without validation.
type verdict int

const (
	mustValidate verdict = iota // serving it without validation is a violation
	either                      // within the one second resolution of the clock
	mustServe                   // it is usable as is
)

// usable decides if a stored response (headers h, received or validated at rt) may be served at
// now to a request with header rh, without contacting upstream. Ages count in whole seconds.
func usable(h http.Header, rt, now time.Time, rh http.Header) (verdict, string) {
	cc := ccOf(h)
	rcc := ccOf(rh)
	if has(cc, "no-cache") {
		return mustValidate, "response no-cache"
	}
	if has(rcc, "no-cache") {
		return mustValidate, "request no-cache"
	}
	if len(rh.Values("Cache-Control")) == 0 {
		for _, p := range rh.Values("Pragma") {
			for _, d := range splitList(p) {
				if strings.EqualFold(strings.TrimSpace(d), "no-cache") {
					return mustValidate, "request pragma no-cache"
				}
			}
		}
	}
	life, ok := lifetime(h)
	if !ok {
		return mustValidate, "no valid expiration"
	}
	age := ageOf(h, rt, now)
	lo := age.Truncate(time.Second) // the age is at least this
	hi := lo                        // and seen as at most this
	if age < math.MaxInt64-time.Second {
		hi += time.Second
	}
	judge := func(a time.Duration, atMost bool) (bool, string) {
		if d, ok := seconds(rcc, "max-age"); ok && d < a {
			return false, "request max-age exceeded"
		}
		if a >= life { // fresh means: the lifetime exceeds the age
			if has(cc, "must-revalidate") || has(cc, "proxy-revalidate") {
				return false, "stale, must-revalidate"
			}
			if _, ok := seconds(cc, "s-maxage"); ok {
				return false, "stale, s-maxage implies proxy-revalidate"
			}
			v, present := rcc["max-stale"]
			if !present {
				return false, "stale"
			}
			if v == "" {
				return true, "stale within max-stale"
			}
			d, ok := seconds(rcc, "max-stale")
			if !ok || d < a-life || d == a-life && !atMost { // a client which accepts exactly this may get it
				return false, "stale beyond max-stale"
			}
			return true, "stale within max-stale"
		}
		if d, ok := seconds(rcc, "min-fresh"); ok && d > life-a {
			return false, "min-fresh not satisfied"
		}
		return true, "fresh"
	}
	okLo, why := judge(lo, true)
	okHi, _ := judge(hi, false)
	switch {
	case okLo && okHi:
		return mustServe, why
	case okLo || okHi:
		return either, why
	}
	return mustValidate, why
}
