//go:build go1.25

package srv

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/netip"
	"strings"
	"testing"
	"time"

	"github.com/kacheio/kache/pkg/cache"
	"github.com/kacheio/kache/pkg/config"
	"github.com/kacheio/kache/verifharness/core"
)

// aclRef is the reference for access lists.
type aclRef struct {
	addrs []netip.Addr
	nets  []netip.Prefix
}

func (a aclRef) allows(ip netip.Addr) bool {
	for _, x := range a.addrs {
		if x == ip {
			return true
		}
	}
	for _, p := range a.nets {
		if p.Contains(ip) {
			return true
		}
	}
	return false
}

func TestC28(t *testing.T) {
	c := core.New(t, "C28")
	randAddr := func(r *core.R) netip.Addr {
		if r.P(.03) {
			return netip.MustParseAddr(core.Pick(r, "0.0.0.0", "255.255.255.255", "::", "::1", "127.0.0.1", "fe80::1", "169.254.1.1", "224.0.0.1", "ff02::1"))
		}
		if r.P(0.3) {
			var b [16]byte
			copy(b[:], []byte{0x20, 0x01, 0x0d, 0xb8})
			for i := 4; i < 16; i++ {
				b[i] = core.Pick(r, byte(0), 0, 1, 0x80, 0xff)
			}
			return netip.AddrFrom16(b)
		}
		return netip.AddrFrom4([4]byte{core.Pick(r, byte(10), 127, 192, 203), core.Pick(r, byte(0), 1, 2, 128, 255), core.Pick(r, byte(0), 1, 2, 255), byte(r.Intn(6))})
	}
	flip := func(r *core.R, ip netip.Addr, bit int) netip.Addr {
		b := ip.AsSlice()
		if bit < 0 {
			bit = 0
		}
		if bit >= len(b)*8 {
			bit = len(b)*8 - 1
		}
		b[bit/8] ^= 0x80 >> (bit % 8)
		out, _ := netip.AddrFromSlice(b)
		return out
	}

	lists := core.N(3000, 30000)
	for li := 0; li < lists && !c.Stopped(); li++ {
		r := c.Rand("list", li)
		var ref aclRef
		var entries []string
		entriesN := r.Range(1, 5)
		if r.P(0.03) {
			entriesN = r.Range(10, 120)
			c.Count("long_lists", 1)
		}
		for k := entriesN; k > 0; k-- {
			ip := randAddr(r)
			if r.P(0.5) {
				bits := core.Pick(r, 0, 1, 7, 8, 9, 15, 16, 23, 24, 25, 30, 31, 32)
				if ip.Is6() {
					bits = core.Pick(r, 16, 32, 33, 48, 63, 64, 65, 127, 128)
				}
				if bits == 0 && r.P(0.8) {
					bits = 12
				}
				p := netip.PrefixFrom(ip, bits)
				txt := p.String()
				if r.P(0.6) {
					txt = p.Masked().String()
				}
				entries = append(entries, txt)
				ref.nets = append(ref.nets, p.Masked())
			} else {
				txt := ip.String()
				if ip.Is6() && r.P(0.3) {
					txt = strings.ToUpper(ip.StringExpanded())
				}
				entries = append(entries, txt)
				ref.addrs = append(ref.addrs, ip)
			}
		}
		unusable := ""
		if r.P(0.2) {
			unusable = core.Pick(r, "1.2.3", "1.2.3.4/33", "localhost", "10.0.0.1:80", "::1/129", "10.0.0.0/8/8", "10.0.0.1 10.0.0.2", "10.0.0.256", "*", "10.0.0.0/-1", "10.0.0.0/", "/8", "::g", "10.0.0.1;10.0.0.2", "[::1]", "10.0.0.*")
			at := r.Intn(len(entries) + 1)
			entries = append(entries[:at:at], append([]string{unusable}, entries[at:]...)...)
		}
		acl := strings.Join(entries, core.Pick(r, ",", ", ", " , "))
		if r.P(0.1) {
			acl += ","
		}
		noACL := unusable == "" && r.P(0.05)
		if noACL {
			acl = ""
		}
		prefix := core.Pick(r, "", "", "/kc", "kc/", "/a/b")
		debug := r.P(0.5)
		n, err := newNode(config.Upstreams{{Name: "u", Addr: "http://127.0.0.1:1", Path: "/"}}, &cache.HttpCacheConfig{Strict: true}, nil,
			&config.API{ACL: acl, Prefix: prefix, Debug: debug})
		c.Count("lists", 1)
		if unusable != "" {
			c.Eval("unusable" + acl)
			c.Count("unusable_lists", 1)
			if err == nil {
				c.Violate("unusable-accepted", nil, "access list %q has the unusable entry %q, yet the API starts", acl, unusable)
			}
			continue
		}
		if err != nil {
			c.Violate("usable-refused", nil, "access list %q is usable, yet the API does not start: %v", acl, err)
			continue
		}
		pf := "/api"
		if prefix != "" {
			pf = "/" + strings.Trim(prefix, "/")
		}
		registered := 0
		n.api.RegisterRoute("POST", "/extra", func(w http.ResponseWriter, r *http.Request) { registered++; w.WriteHeader(200) })

		for qi := 0; qi < 14; qi++ {
			// who asks
			var ip netip.Addr
			switch r.Intn(5) {
			case 0:
				ip = randAddr(r)
			case 1:
				if len(ref.addrs) > 0 {
					ip = ref.addrs[r.Intn(len(ref.addrs))]
				} else {
					ip = randAddr(r)
				}
			case 2:
				if len(ref.addrs) > 0 {
					ip = ref.addrs[r.Intn(len(ref.addrs))]
					ip = flip(r, ip, r.Intn(ip.BitLen()))
				} else {
					ip = randAddr(r)
				}
			default:
				if len(ref.nets) > 0 {
					p := ref.nets[r.Intn(len(ref.nets))]
					ip = p.Addr()
					for k := 0; k < 3; k++ { // somewhere inside
						if p.Bits() < ip.BitLen() {
							ip = flip(r, ip, p.Bits()+r.Intn(ip.BitLen()-p.Bits()))
						}
					}
					if r.P(0.4) && p.Bits() > 0 { // just outside
						ip = flip(r, ip, p.Bits()-1-r.Intn(min(3, p.Bits())))
					}
				} else {
					ip = randAddr(r)
				}
			}
			h := http.Header{}
			remote := netip.AddrPortFrom(ip, uint16(1024+r.Intn(60000))).String()
			other := func() string { return randAddr(r).String() }
			want := noACL || ref.allows(ip)
			how := "peer"
			switch r.Intn(8) {
			case 0: // behind a proxy: the last hop is the client
				how = "x-forwarded-for"
				remote = other2(r, randAddr)
				h["X-Forwarded-For"] = []string{ip.String()}
			case 1:
				how = "x-forwarded-for chain"
				remote = other2(r, randAddr)
				chain := ""
				for k := core.Pick(r, 1, 1, 1, 2, 5, 12, 60); k > 0; k-- {
					chain += other() + ", "
				}
				h["X-Forwarded-For"] = []string{chain + ip.String()}
			case 2:
				how = "x-forwarded-for lines"
				remote = other2(r, randAddr)
				h["X-Forwarded-For"] = []string{other(), other() + "," + ip.String()}
			case 3:
				how = "x-real-ip"
				remote = other2(r, randAddr)
				h["X-Real-Ip"] = []string{ip.String()}
			case 4:
				how = "unreadable address"
				want = noACL
				if r.P(0.5) {
					remote = core.Pick(r, "", "@", "nonsense", "10.0.0.1", ":80", "[::1]")
				} else {
					h["X-Forwarded-For"] = []string{core.Pick(r, "unknown", "10.0.0", ip.String()+":80x", "_hidden", ip.String()+", unknown")}
				}
			}
			// fields which must not matter
			for _, kv := range [][2]string{{"X-Kache-Cluster", "Broadcast"}, {"Forwarded", "for=" + ip.String()}, {"X-Client-Ip", "127.0.0.1"}, {"Authorization", "Basic YTpi"},
				{"X-Forwarded-Host", "localhost"}, {"Via", "1.1 kache"}, {"X-Original-Url", "/version"}, {"X-Http-Method-Override", "GET"}, {"User-Agent", "kache"},
				{"Origin", "http://localhost"}, {"Upgrade", "websocket"}, {"Host", "localhost"}} {
				if r.P(0.12) {
					h.Set(kv[0], kv[1])
					how += "+" + kv[0]
				}
			}
			// what is asked
			route := r.Intn(11)
			for k := 0; k < 3; k++ {
				n.pdr.Set(fmt.Sprintf("secret-key-%d", k), []byte("x"), time.Minute)
			}
			before := sorted(n.pdr.Keys(bg, ""))
			cfgBefore, _ := json.Marshal(n.cache.Config())
			regBefore := registered
			var method, target, body string
			odd := false
			expectKeys, expectCfg, expectReg := before, string(cfgBefore), regBefore
			switch route {
			case 0:
				method, target = "PURGE", "/"
				h.Set("X-Purge-Key", "secret-key-1")
				expectKeys = []string{"secret-key-0", "secret-key-2"}
			case 1:
				method, target = "GET", pf+"/cache/keys"
			case 2:
				method, target = "GET", pf+"/cache/config"
			case 3:
				method, target = "PUT", pf+"/cache/config/update"
				name := fmt.Sprintf("X-C-%d-%d", li, qi)
				body = "strict: true\nx_header_name: " + name + "\n"
				expectCfg = ""
			case 4:
				method, target = "DELETE", pf+"/cache/invalidate"
				h.Set("X-Purge-Key", "secret-key-*")
				expectKeys = nil
			case 5:
				method, target = "DELETE", pf+"/cache/flush"
				expectKeys = nil
				if r.P(0.2) { // other spellings must not get around the list
					target = core.Pick(r, "/"+target, pf+"//cache/flush", pf+"/cache/./flush", pf+"/x/../cache/flush", pf+"/cache%2fflush", pf+"/cache/flush/", strings.ToUpper(target))
					odd = true
				}
			case 6:
				method, target = "GET", "/version"
			case 7:
				method, target = "GET", "/metrics"
			case 8:
				method, target = "POST", pf+"/extra"
				expectReg++
			case 9:
				method, target = "GET", "/debug/vars"
			case 10:
				method, target = "GET", "/debug/pprof/cmdline"
			}
			if target == "" || (route >= 9 && !debug) {
				continue
			}
			rr := n.call(method, target, remote, h, body)
			keys := sorted(n.pdr.Keys(bg, ""))
			cfgNow, _ := json.Marshal(n.cache.Config())
			hist := []string{fmt.Sprintf("access list %q (prefix %q)", acl, prefix), fmt.Sprintf("%s %s from %q (%s) %s", method, target, remote, how, headerString(h)),
				fmt.Sprintf("answer %d %.80q; keys %v; config changed %v", rr.Code, rr.Body.String(), keys, string(cfgNow) != string(cfgBefore))}
			c.Eval(fmt.Sprint(acl, ip, how, route))
			if odd {
				c.Count("odd_spellings", 1)
				if want {
					continue // what it means is not this property's concern
				}
				if rr.Code < 300 {
					c.Violate("unlisted-answered", hist, "%s (%s) is not listed but got %d", ip, how, rr.Code)
				}
				if fmt.Sprint(keys) != fmt.Sprint(before) {
					c.Violate("refused-with-effect", hist, "refused request had an effect: keys %v -> %v", before, keys)
				}
				continue
			}
			if want {
				c.Count("allowed", 1)
				if rr.Code != 200 {
					c.Violate("allowed-refused", hist, "%s is listed but got %d", ip, rr.Code)
					continue
				}
				okCfg := string(cfgNow) == expectCfg
				if expectCfg == "" {
					okCfg = strings.Contains(string(cfgNow), fmt.Sprintf("X-C-%d-%d\"", li, qi))
				}
				if fmt.Sprint(keys) != fmt.Sprint(sorted(expectKeys)) || !okCfg || registered != expectReg {
					c.Violate("allowed-not-executed", hist, "allowed request was not executed: keys %v, wanted %v", keys, expectKeys)
				}
				if route == 1 {
					var got []string
					if err := json.Unmarshal(rr.Body.Bytes(), &got); err != nil || fmt.Sprint(sorted(got)) != fmt.Sprint(before) {
						c.Violate("allowed-not-executed", hist, "key list is %q, the cache holds %v", rr.Body.String(), before)
					}
				}
				continue
			}
			c.Count("refused", 1)
			if rr.Code != http.StatusUnauthorized {
				c.Violate("unlisted-answered", hist, "%s (%s) is not listed but got %d", ip, how, rr.Code)
			}
			if fmt.Sprint(keys) != fmt.Sprint(before) || string(cfgNow) != string(cfgBefore) || registered != regBefore {
				c.Violate("refused-with-effect", hist, "refused request had an effect: keys %v -> %v", before, keys)
			}
			if b := rr.Body.String(); strings.Contains(b, "secret-key") || strings.Contains(b, "strict") || strings.Contains(b, "go_goroutines") || len(b) > 200 {
				c.Violate("refused-leaks", hist, "refused request got content: %.100q", b)
			}
			if qi == 0 && li < 6 {
				c.Sample(map[string]any{"acl": acl, "client": ip.String(), "how": how, "route": method + " " + target, "status": rr.Code})
			}
		}
	}
	c.Done("random access lists (addresses and networks, both families; usable and not) and clients inside, outside and at the edges of them, on every route; a case counts if access was decided or a list judged",
		"allowed", "refused", "unusable_lists")
}

func other2(r *core.R, f func(*core.R) netip.Addr) string {
	return netip.AddrPortFrom(f(r), uint16(1024+r.Intn(60000))).String()
}
