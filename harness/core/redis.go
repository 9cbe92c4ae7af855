//go:build go1.25

package core

import (
	"strconv"
	"strings"
	"sync"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
)

// PageScan makes the redis stand-in answer SCAN the way redis does: with a cursor and in small, sometimes
// empty pages.
func PageScan(m *miniredis.Miniredis, seed int64) {
	var mu sync.Mutex
	r := NewR(seed)
	rest := map[string][]string{}
	next := 0
	m.Server().SetPreHook(func(c *server.Peer, cmd string, args ...string) bool {
		if cmd != "SCAN" || len(args) == 0 {
			return false
		}
		match, count := "*", 10
		for k := 1; k+1 < len(args); k += 2 {
			switch strings.ToLower(args[k]) {
			case "match":
				match = args[k+1]
			case "count":
				if n, err := strconv.Atoi(args[k+1]); err == nil && n > 0 {
					count = n
				}
			default:
				return false
			}
		}
		var keys []string
		if args[0] == "0" {
			keys = m.Keys()
		}
		mu.Lock()
		defer mu.Unlock()
		if args[0] != "0" {
			keys = rest[args[0]]
			delete(rest, args[0])
		}
		n := min(len(keys), 1+r.Intn(2*count))
		page, keys := keys[:n], keys[n:]
		cursor := "0"
		if len(keys) > 0 {
			next++
			cursor = strconv.Itoa(next)
			rest[cursor] = keys
		}
		// as redis does, the pattern applies to the page
		var out []string
		for _, k := range page {
			if RedisGlob(match, k) {
				out = append(out, k)
			}
		}
		c.WriteLen(2)
		c.WriteBulk(cursor)
		c.WriteLen(len(out))
		for _, k := range out {
			c.WriteBulk(k)
		}
		return true
	})
}

// RedisGlob is the pattern syntax of redis.
func RedisGlob(p, s string) bool {
	star, from := "", ""
	starred := false
	for {
		for p != "" && p[0] == '*' {
			p = p[1:]
			star, from, starred = p, s, true
		}
		if s == "" && p == "" {
			return true
		}
		if rest, ok := globOne(p, s); ok {
			p, s = rest, s[1:]
			continue
		}
		if !starred || from == "" {
			return false
		}
		from = from[1:]
		p, s = star, from
	}
}

// globOne matches the first element of a pattern against the first byte.
func globOne(p, s string) (string, bool) {
	if p == "" || s == "" {
		return p, false
	}
	switch p[0] {
	case '?':
		return p[1:], true
	case '[':
		p = p[1:]
		not := p != "" && p[0] == '^'
		if not {
			p = p[1:]
		}
		hit := false
		for p != "" && p[0] != ']' {
			if p[0] == '\\' && len(p) > 1 {
				p = p[1:]
				hit = hit || p[0] == s[0]
			} else if len(p) >= 3 && p[1] == '-' {
				lo, hi := p[0], p[2]
				if lo > hi {
					lo, hi = hi, lo
				}
				hit = hit || (lo <= s[0] && s[0] <= hi)
				p = p[2:]
			} else {
				hit = hit || p[0] == s[0]
			}
			p = p[1:]
		}
		if p != "" {
			p = p[1:]
		}
		return p, hit != not
	case '\\':
		if len(p) > 1 {
			p = p[1:]
		}
	}
	return p[1:], p[0] == s[0]
}
