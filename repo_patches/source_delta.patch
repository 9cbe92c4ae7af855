From f924eb7ee3b677de44bab100a80f35d9809c57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 01/62] fix: treat Cache-Control directive names as
 case-insensitive

---
 pkg/cache/cache_control.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 8f92c7d..5ad5ab5 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -185,7 +185,8 @@ func splitDirective(s string) (dir string, arg string) {
 	} else {
 		dir = strings.TrimSpace(s)
 	}
-	return dir, arg
+	// Directive names are case-insensitive.
+	return strings.ToLower(dir), arg
 }
 
 // parseDuration parses a directive argument and returns a valid duration in
-- 
2.43.0


From 36cb2c92af08371302438af2fb01775a4d5967cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 02/62] fix: consider every Cache-Control header line, not only
 the first

---
 pkg/cache/cache_control.go | 6 ++++++
 pkg/cache/cacheable.go     | 2 +-
 pkg/cache/httpcache.go     | 4 ++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 5ad5ab5..4a9b3d7 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -173,6 +173,12 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	return cc
 }
 
+// cacheControlOf returns the value of the cache-control header. Repeated
+// header lines are equivalent to a single comma-separated list.
+func cacheControlOf(header http.Header) string {
+	return strings.Join(header.Values(HeaderCacheControl), ",")
+}
+
 // splitDirective splits the cache control directive into its token and optional argument.
 // Grammar (https://httpwg.org/specs/rfc7234.html#header.cache-control):
 //
diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index e2f6a90..625a341 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -116,7 +116,7 @@ func IsCacheableRequest(req *http.Request) bool {
 // then its response is also not cacheable. Hence, CanServeRequestFromCache and
 // `IsCacheableResponse` together should cover the cacheability of the response.
 func IsCacheableResponse(res *http.Response) bool {
-	cacheControl := res.Header.Get(HeaderCacheControl)
+	cacheControl := cacheControlOf(res.Header)
 	resCacheControl := ParseResponseCacheControl(cacheControl)
 
 	// Only cache responses with enough data to calculate freshness lifetime:
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 3e86cbd..162f6c1 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -360,7 +360,7 @@ type LookupRequest struct {
 func NewLookupRequest(req *http.Request, timestamp time.Time, strict bool) *LookupRequest {
 	var requestCacheControl RequestCacheControl
 	requestCacheControl.SetDefaults()
-	cacheControl := req.Header.Get(HeaderCacheControl)
+	cacheControl := cacheControlOf(req.Header)
 
 	if cacheControl != "" {
 		requestCacheControl = ParseRequestCacheControl(cacheControl)
@@ -404,7 +404,7 @@ func (l *LookupRequest) makeResult(res *http.Response, resTime time.Time) *Looku
 
 // requiresValidation checks if the cached response needs to be validated by the origin.
 func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duration) bool {
-	resCacheControl := ParseResponseCacheControl(header.Get(HeaderCacheControl))
+	resCacheControl := ParseResponseCacheControl(cacheControlOf(*header))
 	reqCacheControl := l.ReqCacheControl
 
 	maxAgeExceeded := reqCacheControl.MaxAge >= 0 && reqCacheControl.MaxAge < age
-- 
2.43.0


From 671373c5551a2f6a3b3173fb8b078ad9275d409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 03/62] fix: do not treat responses with a missing or invalid
 Date or Expires as fresh forever

---
 pkg/cache/cache_control.go | 7 +++++++
 pkg/cache/httpcache.go     | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 4a9b3d7..7a8fb59 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -239,6 +239,10 @@ func parseHttpTime(s string) time.Time {
 func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) time.Duration {
 	// Calculate apparent age.
 	date := parseHttpTime(headers.Get(HeaderDate))
+	if date.IsZero() {
+		// Without a valid Date header, the time of receipt is used instead.
+		date = responseTime
+	}
 	apparentAge := max(0, int64(responseTime.Sub(date)))
 
 	// Set corrected age to the value Age header,
@@ -254,6 +258,9 @@ func CalculateAge(headers *http.Header, responseTime time.Time, now time.Time) t
 	// since the response was last validated by the origin server.
 	residentTime := now.Sub(responseTime)
 	currentAge := correctedInitialAge + int64(residentTime)
+	if residentTime > 0 && currentAge < correctedInitialAge {
+		currentAge = math.MaxInt64 // overflow
+	}
 
 	return time.Duration(currentAge).Truncate(time.Second)
 }
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 162f6c1..56cbc16 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -421,14 +421,18 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 	} else {
 		expires := parseHttpTime(header.Get(HeaderExpires))
 		date := parseHttpTime(header.Get(HeaderDate))
+		if expires.IsZero() || date.IsZero() {
+			// Invalid dates represent a time in the past (i.e. already expired).
+			return true
+		}
 		freshness = expires.Sub(date)
 	}
 
 	if age > freshness { // Stale response.
 		// Check if the response is allowed being served stale,
 		// or if the request max-stale directive prevents it.
-		allowStale := reqCacheControl.MaxStale >= 0 &&
-			reqCacheControl.MaxStale > age-freshness
+		staleness := age - freshness // negative on overflow
+		allowStale := staleness > 0 && reqCacheControl.MaxStale > staleness
 
 		return resCacheControl.NoStale || !allowStale
 	}
-- 
2.43.0


From bf3587ce055f8ff378362bd75cd0eef6a91b7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 04/62] fix: keep malformed queries in the cache key

---
 pkg/cache/key.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 38eed29..46afb89 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -47,7 +47,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 		ClusterName: "kache-",
 		Host:        req.Host,
 		Path:        cleanPath(req.URL.Path),
-		Query:       req.URL.Query().Encode(),
+		Query:       cleanQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
 	if key.Scheme == "" {
@@ -84,6 +84,16 @@ func StableHashKey(k Key) uint64 {
 	return xxhash.Sum64([]byte(k.String()))
 }
 
+// cleanQuery returns the canonical query for q. A malformed
+// query has no canonical form and is used as is.
+func cleanQuery(q string) string {
+	values, err := url.ParseQuery(q)
+	if err != nil {
+		return q
+	}
+	return values.Encode()
+}
+
 // cleanPath returns the canonical path for p.
 func cleanPath(p string) string {
 	if p == "" {
-- 
2.43.0


From 07e245b86713381a3e624c172156faeb222c5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 05/62] fix: distinguish encoded path separators in the cache
 key

---
 pkg/cache/key.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/key.go b/pkg/cache/key.go
index 46afb89..c1ebb46 100644
--- a/pkg/cache/key.go
+++ b/pkg/cache/key.go
@@ -46,7 +46,7 @@ func NewKeyFromRequst(req *http.Request) *Key {
 	key := &Key{
 		ClusterName: "kache-",
 		Host:        req.Host,
-		Path:        cleanPath(req.URL.Path),
+		Path:        cleanPath(req.URL.EscapedPath()),
 		Query:       cleanQuery(req.URL.RawQuery),
 		Scheme:      req.URL.Scheme,
 	}
@@ -65,7 +65,8 @@ func (k Key) String() string {
 	url := url.URL{
 		Scheme:   k.Scheme,
 		Host:     k.Host,
-		Path:     k.Path,
+		Path:     unescapePath(k.Path),
+		RawPath:  k.Path,
 		RawQuery: k.Query,
 	}
 	return fmt.Sprintf("%s%s", k.ClusterName, url.String())
@@ -84,6 +85,14 @@ func StableHashKey(k Key) uint64 {
 	return xxhash.Sum64([]byte(k.String()))
 }
 
+// unescapePath returns the unescaped path for p.
+func unescapePath(p string) string {
+	if u, err := url.PathUnescape(p); err == nil {
+		return u
+	}
+	return p
+}
+
 // cleanQuery returns the canonical query for q. A malformed
 // query has no canonical form and is used as is.
 func cleanQuery(q string) string {
-- 
2.43.0


From 9c6a7b6abc6a02ac342da5a6244fa380f565083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 06/62] fix: keep the request's path encoding when forwarding
 below an upstream path

---
 pkg/server/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index af6aa14..18cd8f1 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -190,7 +190,9 @@ func (s *Server) Director() func(req *http.Request) {
 		req.URL.Host = upstream.Host
 
 		// Path is forwarded as-is.
+		escapedPath := singleJoiningSlash(upstream.EscapedPath(), req.URL.EscapedPath())
 		req.URL.Path = singleJoiningSlash(upstream.Path, req.URL.Path)
+		req.URL.RawPath = escapedPath
 
 		// Pass host header
 		req.Host = req.URL.Host
-- 
2.43.0


From f6f2cb755ec749aca7077acc844c966c8bf795f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 07/62] fix: range requests bypass the cache

---
 pkg/cache/cacheable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 625a341..27690e7 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -41,6 +41,7 @@ const (
 
 	// Request headers
 	HeaderPragma            = "Pragma"
+	HeaderRange             = "Range"
 	HeaderIfRange           = "If-Range"
 	HeaderIfMatch           = "If-Match"
 	HeaderIfNoneMatch       = "If-None-Match"
@@ -100,6 +101,12 @@ func IsCacheableRequest(req *http.Request) bool {
 		}
 	}
 
+	// Partial responses are not combined or served from cache, so range
+	// requests bypass the cache. Otherwise, a part is stored as the whole.
+	if _, ok := req.Header[HeaderRange]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From fec195f21419ba9bd98ba1b408b7cfbf5daac925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 08/62] fix: evaluate all matching content exclusions

---
 pkg/cache/httpcache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 56cbc16..9bf081c 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -231,11 +231,10 @@ func (c *HttpCache) IsExcludedContent(content string, length int64) bool {
 	}
 	for _, t := range config.Exclude.Content {
 		if t.TypeMatcher != nil && t.TypeMatcher.MatchString(content) {
-			if t.Size > 0 {
-				// if content exceeds the allowed size, do not cache.
-				return t.Size < int(length)
+			// if content exceeds the allowed size, do not cache.
+			if t.Size <= 0 || int64(t.Size) < length {
+				return true
 			}
-			return true
 		}
 	}
 	return false
-- 
2.43.0


From 6cd5f293744cb6fb7da13ea4dab556891936c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 09/62] fix: attach the debug header to cache hits only if
 enabled

---
 pkg/server/middleware/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index c88a3c9..7ba2a91 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -188,7 +188,9 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-	cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	if t.Cache.MarkCachedResponses() {
+		cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
 	return cached.Response(), nil
 }
 
-- 
2.43.0


From 8b725c7cb013ee7520bd9dd5e3cc518244a681c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 10/62] fix: do not panic on a 304 response to an unconditional
 request

---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 7ba2a91..02c2cc9 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -147,7 +147,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	shouldUpdateCachedEntry := true
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
 		resEtag := resp.Header.Get(cache.HeaderEtag)
-- 
2.43.0


From 2e8d4be75020d0d67814b21d514d999b24ca5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 11/62] fix: do not add or force an empty Cache-Control header

---
 pkg/server/middleware/httpcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 02c2cc9..9dcb897 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -241,6 +241,9 @@ func (t *Transport) injectValidationHeaders(ireq *http.Request, header http.Head
 
 // updateCacheControl sets or updates the cache-control header.
 func updateCacheControl(header http.Header, val string, force bool) {
+	if val == "" {
+		return // nothing configured
+	}
 	overwrite := force
 	if _, presentcc := header["Cache-Control"]; !presentcc || overwrite {
 		header["Cache-Control"] = []string{val}
-- 
2.43.0


From bec38308d585f6a546d1fcfc1adf068d9fe8bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 12/62] fix: default to strict mode and survive a missing cache
 section on reload

---
 pkg/cache/httpcache.go | 4 ++++
 pkg/config/loader.go   | 5 ++++-
 pkg/server/handlers.go | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 9bf081c..7d8f3b9 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -157,6 +157,10 @@ func (c *HttpCache) loadConfig() *HttpCacheConfig {
 
 // UpdateConfig updates the cache config in a concurrent safe way.
 func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
+	if config == nil {
+		config = &HttpCacheConfig{Strict: true}
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 718f540..398d74d 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -32,6 +32,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 	"gopkg.in/yaml.v3"
 )
@@ -82,7 +83,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
 
-	config := &Configuration{}
+	config := &Configuration{
+		HttpCache: &cache.HttpCacheConfig{Strict: true},
+	}
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 66d955f..7929d96 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -113,7 +113,7 @@ func (s *Server) CacheConfigUpdateHandler(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	var c cache.HttpCacheConfig
+	c := cache.HttpCacheConfig{Strict: true}
 	dec := yaml.NewDecoder(bytes.NewReader(body))
 	if err := dec.Decode(&c); err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From 5793c2dd9e90297b5ab16704e48a21c2dffcb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 13/62] fix: do not store responses with a TTL of zero without
 expiration

---
 pkg/cache/httpcache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 7d8f3b9..f4bc254 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -316,8 +316,14 @@ func (c *HttpCache) FetchResponse(ctx context.Context, lookup LookupRequest) *Lo
 }
 
 // StoreResponse stores a response in the cache.
-func (c *HttpCache) StoreResponse(_ context.Context, lookup *LookupRequest,
+func (c *HttpCache) StoreResponse(ctx context.Context, lookup *LookupRequest,
 	response *http.Response, responseTime time.Time) {
+	ttl := c.PathTTL(lookup.Request.URL.Path)
+	if ttl <= 0 {
+		// Backends interpret a non-positive TTL as no expiration.
+		c.cache.Delete(ctx, lookup.Key.String())
+		return
+	}
 	resp, err := httputil.DumpResponse(response, true)
 	if err != nil {
 		log.Error().Err(err).Send()
@@ -332,7 +338,7 @@ func (c *HttpCache) StoreResponse(_ context.Context, lookup *LookupRequest,
 		log.Error().Err(err).Send()
 		return
 	}
-	c.cache.Set(lookup.Key.String(), enc, c.PathTTL(lookup.Request.URL.Path))
+	c.cache.Set(lookup.Key.String(), enc, ttl)
 }
 
 // Deletes deletes the response matching the request key from the cache.
-- 
2.43.0


From 4f2ec0eb27df8cd91df13cdaeffa12a70457f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 14/62] fix: honour the Vary header when reusing stored
 responses

---
 pkg/cache/cacheable.go | 25 +++++++++++++++++++++++++
 pkg/cache/entry.go     |  4 ++++
 pkg/cache/httpcache.go |  4 ++++
 3 files changed, 33 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 27690e7..84a09ec 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -24,6 +24,8 @@ package cache
 
 import (
 	"net/http"
+	"slices"
+	"strings"
 )
 
 type (
@@ -53,6 +55,7 @@ const (
 	HeaderEtag         = "Etag"
 	HeaderExpires      = "Expires"
 	HeaderLastModified = "Last-Modified"
+	HeaderVary         = "Vary"
 )
 
 var (
@@ -139,6 +142,28 @@ func IsCacheableResponse(res *http.Response) bool {
 		hasValidationData
 }
 
+// VaryHeader returns the request header fields nominated by the response's Vary header.
+// https://httpwg.org/specs/rfc9111.html#caching.negotiated.responses
+func VaryHeader(res, req http.Header) http.Header {
+	selected := make(http.Header)
+	for _, name := range strings.Split(strings.Join(res.Values(HeaderVary), ","), ",") {
+		if name = http.CanonicalHeaderKey(strings.TrimSpace(name)); name != "" {
+			selected[name] = req[name]
+		}
+	}
+	return selected
+}
+
+// MatchesVary checks if the request header matches the fields that selected a response.
+func MatchesVary(selected, req http.Header) bool {
+	for name, values := range selected {
+		if name == "*" || !slices.Equal(values, req[name]) {
+			return false
+		}
+	}
+	return true
+}
+
 // Contains checks if the given key is in the map.
 func Contains[K comparable, V any](m map[K]V, k K) bool {
 	if _, ok := m[k]; ok {
diff --git a/pkg/cache/entry.go b/pkg/cache/entry.go
index 24a4580..461eb00 100644
--- a/pkg/cache/entry.go
+++ b/pkg/cache/entry.go
@@ -26,6 +26,7 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
+	"net/http"
 )
 
 // EntryStatus is the state of a cached response.
@@ -68,6 +69,9 @@ type Entry struct {
 
 	// Timestamp is the time the body was last modified.
 	Timestamp int64
+
+	// Vary holds the request header fields that selected the response.
+	Vary http.Header
 }
 
 // TODO: Benchmark, encoding/decoding might slow down the hot path.
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index f4bc254..87eab36 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -307,6 +307,9 @@ func (c *HttpCache) FetchResponse(ctx context.Context, lookup LookupRequest) *Lo
 	if err != nil {
 		return &LookupResult{}
 	}
+	if !MatchesVary(entry.Vary, lookup.Request.Header) {
+		return &LookupResult{}
+	}
 	res, err := http.ReadResponse(bufio.NewReader(bytes.NewBuffer(entry.Body)), lookup.Request)
 	if err != nil {
 		log.Error().Err(err).Send()
@@ -332,6 +335,7 @@ func (c *HttpCache) StoreResponse(ctx context.Context, lookup *LookupRequest,
 	entry := &Entry{
 		Body:      resp,
 		Timestamp: responseTime.Unix(),
+		Vary:      VaryHeader(response.Header, lookup.Request.Header),
 	}
 	enc, err := entry.Encode()
 	if err != nil {
-- 
2.43.0


From 519e7c3b769e7efa3eac5190c35e3b9c020ee08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 15/62] fix: invalidate the stored response upon a successful
 unsafe request

---
 pkg/server/middleware/httpcache.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 9dcb897..70c50b7 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -185,6 +185,16 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	return resp, nil
 }
 
+// invalidates checks if the response to an unsafe request invalidates the stored response.
+// https://httpwg.org/specs/rfc9111.html#invalidation
+func invalidates(req *http.Request, resp *http.Response) bool {
+	switch req.Method {
+	case http.MethodGet, http.MethodHead, http.MethodOptions, http.MethodTrace:
+		return false
+	}
+	return resp.StatusCode >= 200 && resp.StatusCode < 400
+}
+
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
@@ -200,7 +210,11 @@ func (t *Transport) send(req *http.Request) (*http.Response, error) {
 	if transport == nil {
 		transport = http.DefaultTransport
 	}
-	return transport.RoundTrip(req)
+	resp, err := transport.RoundTrip(req)
+	if err == nil && invalidates(req, resp) {
+		t.Cache.Delete(context.Background(), cache.NewLookupRequest(req, t.currentTime(), t.Cache.Strict()))
+	}
+	return resp, err
 }
 
 // injectValidationHeaders injects validation headers.
-- 
2.43.0


From a79e204ac5684b1562508e1a12768e104f2e9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 16/62] fix: do not share private responses or those of
 requests exempt from caching

---
 pkg/server/middleware/coalesce.go  | 37 +++++++++++++++++++++++++++---
 pkg/server/middleware/httpcache.go |  6 +++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index 8f6cac4..cfb99e2 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -25,10 +25,13 @@ package middleware
 import (
 	"bufio"
 	"bytes"
+	"fmt"
 	"net/http"
 	"net/http/httputil"
+	"strings"
 	"sync"
 
+	"github.com/kacheio/kache/pkg/cache"
 	"github.com/rs/zerolog/log"
 )
 
@@ -57,6 +60,30 @@ type call struct {
 	coalesced bool
 	resp      []byte
 	err       error
+
+	// header holds the header of the initial request and response, respectively.
+	header, respHeader http.Header
+}
+
+// shareable checks if the initial request's response may be used for the given request.
+func (c *call) shareable(req *http.Request) bool {
+	cc := cache.ParseResponseCacheControl(strings.Join(c.respHeader.Values(cache.HeaderCacheControl), ","))
+	return !cc.NoStore && cache.MatchesVary(cache.VaryHeader(c.respHeader, c.header), req.Header)
+}
+
+// bypass checks if the request must be sent on its own as it is exempt from caching.
+func (coalescer *requestCoalescer) bypass(req *http.Request) bool {
+	if t, ok := coalescer.next.(interface{ bypass(*http.Request) bool }); ok {
+		return t.bypass(req)
+	}
+	return !cache.IsCacheableRequest(req)
+}
+
+// coalesceKey returns the key under which requests are considered similar. Requests
+// with differing cache directives must not be satisfied by the same response.
+func coalesceKey(req *http.Request) string {
+	return fmt.Sprintf("%q %q %q %q", req.URL, req.Host,
+		req.Header.Values(cache.HeaderCacheControl), req.Header.Values(cache.HeaderPragma))
 }
 
 // NewCoalesced returns a coalesced http roundtripper.
@@ -73,12 +100,12 @@ func NewCoalesced(next http.RoundTripper) http.RoundTripper {
 // requests are blocked until the original request completes. The resulting
 // response is shared with all waiting requests.
 func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response, error) {
-	// Only coalesce GET requests.
-	if req.Method != http.MethodGet {
+	// Only coalesce GET requests that take part in caching.
+	if req.Method != http.MethodGet || coalescer.bypass(req) {
 		return coalescer.next.RoundTrip(req)
 	}
 
-	key := req.URL.String()
+	key := coalesceKey(req)
 	coalescer.Lock()
 	inflight, ok := coalescer.inflights[key]
 	if ok {
@@ -112,6 +139,9 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		if inflight.err != nil {
 			return nil, inflight.err
 		}
+		if !inflight.shareable(req) {
+			return coalescer.next.RoundTrip(req)
+		}
 		// Copy initial response to waiting caller.
 		resp, err := http.ReadResponse(bufio.NewReader(bytes.NewBuffer(inflight.resp)), nil)
 		if err != nil {
@@ -145,6 +175,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 			inflight.resp, inflight.err = nil, err
 		} else {
 			// Copy the response before releasing it to waiter(s).
+			inflight.header, inflight.respHeader = req.Header.Clone(), resp.Header.Clone()
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
 		}
 		// Wake up all waiting routines.
diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 70c50b7..4a3a25c 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -195,6 +195,12 @@ func invalidates(req *http.Request, resp *http.Response) bool {
 	return resp.StatusCode >= 200 && resp.StatusCode < 400
 }
 
+// bypass checks if the request is exempt from caching.
+func (t *Transport) bypass(req *http.Request) bool {
+	return t.Cache.IsExcludedPath(req.URL.Path) || t.Cache.IsExcludedHeader(req.Header) ||
+		!cache.IsCacheableRequest(req)
+}
+
 // handleCacheHit handles a cache hit and sends the cached response downstream.
 func (t *Transport) handleCacheHit(key string, cached *cache.LookupResult) (*http.Response, error) {
 	log.Debug().Str("cache-key", key).Interface("header", cached.Header()).Str("x-cache", "HIT").Send()
-- 
2.43.0


From 6f1bf302c6fe55e1de95818bf8d9f49f23a19714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 17/62] fix: do not fail or block coalesced requests when the
 initial request is abandoned

---
 pkg/server/middleware/coalesce.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/server/middleware/coalesce.go b/pkg/server/middleware/coalesce.go
index cfb99e2..efb8091 100644
--- a/pkg/server/middleware/coalesce.go
+++ b/pkg/server/middleware/coalesce.go
@@ -61,6 +61,10 @@ type call struct {
 	resp      []byte
 	err       error
 
+	// abandoned indicates that the call did not complete for reasons that only concern
+	// the initial request, e.g. its client went away. Waiting calls must be retried.
+	abandoned bool
+
 	// header holds the header of the initial request and response, respectively.
 	header, respHeader http.Header
 }
@@ -136,6 +140,12 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 		inflight.L.Unlock()
 
 		// Initial request completed.
+		if inflight.abandoned {
+			if err := req.Context().Err(); err != nil {
+				return nil, err
+			}
+			return coalescer.RoundTrip(req)
+		}
 		if inflight.err != nil {
 			return nil, inflight.err
 		}
@@ -158,8 +168,24 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 	coalescer.inflights[key] = inflight
 	coalescer.Unlock()
 
+	// Release waiting calls even if the execution below panics.
+	completed := false
+	defer func() {
+		if !completed {
+			coalescer.Lock()
+			delete(coalescer.inflights, key)
+			coalescer.Unlock()
+
+			inflight.L.Lock()
+			inflight.abandoned = true
+			inflight.Broadcast()
+			inflight.L.Unlock()
+		}
+	}()
+
 	// Execute e2e request.
 	resp, err := coalescer.next.RoundTrip(req)
+	completed = true
 
 	// Upstream response received. Remove inflight request from the map.
 	// Important: Removing the inflight request before waking up waiting
@@ -178,6 +204,7 @@ func (coalescer *requestCoalescer) RoundTrip(req *http.Request) (*http.Response,
 			inflight.header, inflight.respHeader = req.Header.Clone(), resp.Header.Clone()
 			inflight.resp, inflight.err = httputil.DumpResponse(resp, true)
 		}
+		inflight.abandoned = inflight.err != nil && req.Context().Err() != nil
 		// Wake up all waiting routines.
 		inflight.Broadcast()
 	}
-- 
2.43.0


From 616078ad03655f416098eccf81113905d273f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 18/62] fix: lock the in-memory cache while flushing it

---
 pkg/provider/inmemory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 06a1ca4..3a6e46e 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -267,6 +267,8 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *inMemoryCache) Flush(ctx context.Context) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.reset()
 	return nil
 }
-- 
2.43.0


From 41ed0006494b83367ee02d6ba6d0a3140d81a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 19/62] fix: match purge patterns without wildcards literally

---
 pkg/provider/inmemory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 3a6e46e..fa29dc6 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -285,7 +285,7 @@ func wildcardToRegex(pattern string) string {
 	parts := strings.Split(pattern, "*")
 	if len(parts) == 1 {
 		// No *'s, return exact match pattern.
-		return "^" + pattern + "$"
+		return "^" + regexp.QuoteMeta(pattern) + "$"
 	}
 	var result strings.Builder
 	for i, p := range parts {
-- 
2.43.0


From 9f7247a83562ab65c1ace2df1beba686da20d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 20/62] fix: interpret only '*' as a wildcard when purging keys
 from redis

---
 pkg/provider/redis_client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index ea37fbb..b476725 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -71,6 +71,9 @@ type RedisClientConfig struct {
 	MaxQueueConcurrency int `yaml:"max_queue_concurrency"`
 }
 
+// globEscaper escapes the glob meta characters of Redis, except for '*'.
+var globEscaper = strings.NewReplacer(`\`, `\\`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 // Validate validates the RedisClientConfig.
 func (c *RedisClientConfig) Validate() error {
 	if len(c.Endpoint) == 0 {
@@ -158,7 +161,7 @@ func (c *redisClient) Delete(ctx context.Context, key string) error {
 // Keys returns a slice of cache keys.
 func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 	var keys []string
-	iter := c.Scan(ctx, 0, prefix+"*", 0).Iterator()
+	iter := c.Scan(ctx, 0, globEscaper.Replace(prefix)+"*", 0).Iterator()
 	for iter.Next(ctx) {
 		keys = append(keys, iter.Val())
 	}
@@ -179,7 +182,10 @@ func (c *redisClient) Stop() {
 // Purge purges keys matching the specified pattern from the cache. If the pattern is
 // empty, all keys will be removed from the cache, similar to a `Flush`.
 func (c *redisClient) Purge(ctx context.Context, pattern string) error {
-	iter := c.Scan(ctx, 0, pattern, 0).Iterator()
+	if len(pattern) == 0 {
+		return c.Flush(ctx)
+	}
+	iter := c.Scan(ctx, 0, globEscaper.Replace(pattern), 0).Iterator()
 
 	for iter.Next(ctx) {
 		key := iter.Val()
-- 
2.43.0


From d7aeac7e977f213706814a5a4ae2e38fb198e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 21/62] fix: do not panic when listing keys of an unavailable
 redis

---
 pkg/provider/redis_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index b476725..06d748c 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -166,7 +166,7 @@ func (c *redisClient) Keys(ctx context.Context, prefix string) []string {
 		keys = append(keys, iter.Val())
 	}
 	if err := iter.Err(); err != nil {
-		panic(err)
+		log.Error().Err(err).Msg("Error getting keys from redis")
 	}
 	return keys
 }
-- 
2.43.0


From 5815df5f86a8568057fb3d1e59b3959079eff720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 22/62] fix: drop the expiration of evicted items

---
 pkg/provider/inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index fa29dc6..f7348cd 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -143,6 +143,7 @@ func NewInMemoryCache(config InMemoryCacheConfig) (Provider, error) {
 
 // onEvict is the eviction callback.
 func (c *inMemoryCache) onEvict(key string, val []byte) {
+	delete(c.ttl, key)
 	c.curSize -= itemSize(val)
 }
 
-- 
2.43.0


From 3639d414cb7db6b0e0a9ee08658b4444e99b35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 23/62] fix: expire items of the local tier and of caches
 without an explicit default TTL

---
 pkg/provider/cached.go   | 1 +
 pkg/provider/inmemory.go | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index e465220..a0b6a9d 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -61,6 +61,7 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 	l, err := NewInMemoryCache(InMemoryCacheConfig{
 		MaxSize:     config.MaxSize,
 		MaxItemSize: config.MaxItemSize,
+		DefaultTTL:  config.DefaultTTL,
 	})
 	if err != nil {
 		return nil, err
diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index f7348cd..731b3c6 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -100,9 +100,8 @@ func (c *InMemoryCacheConfig) Sanitize() {
 	}
 	if len(c.DefaultTTL) == 0 {
 		c.DefaultTTL = DefaultInMemoryCacheConfig.DefaultTTL
-	} else {
-		c.TTLEviction = c.DefaultTTL != "-1"
 	}
+	c.TTLEviction = c.DefaultTTL != "-1"
 }
 
 // NewInMemoryCache creates a new thread-safe LRU in memory cache.
-- 
2.43.0


From 0beafe2e35324b1f9fb7bef4277ba04385517c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 24/62] fix: drop the previous item if its replacement exceeds
 the maximum item size

---
 pkg/provider/inmemory.go     | 1 +
 pkg/provider/redis_client.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 731b3c6..9445a76 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -174,6 +174,7 @@ func (c *inMemoryCache) Set(key string, value []byte, ttl time.Duration) {
 	size := itemSize(value)
 	if size > c.maxItemSizeBytes {
 		log.Debug().Msg("Item is bigger than maxItemSize")
+		c._delete(context.Background(), key) // the previous item is superseded
 		return
 	}
 
diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index 06d748c..e6577e0 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -130,6 +130,7 @@ func (c *redisClient) Fetch(ctx context.Context, key string) []byte {
 // Store stores a key and value into Redis.
 func (c *redisClient) Store(key string, value []byte, ttl time.Duration) error {
 	if c.config.MaxItemSize > 0 && len(value) > c.config.MaxItemSize {
+		_ = c.Delete(context.Background(), key) // the previous item is superseded
 		return ErrRedisMaxItemSize
 	}
 	_, err := c.Set(context.Background(), key, value, ttl).Result()
-- 
2.43.0


From 7c49ea8386d87fe4a6bf553060f8cda741f77963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 25/62] fix: keep concurrent fetches from restoring deleted
 items in the local tier

---
 pkg/provider/cached.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index a0b6a9d..879c206 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -106,10 +106,13 @@ func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
+	// Remove from the inner cache first, otherwise a
+	// concurrent fetch restores the item in the outer cache.
+	ok := c.inner.Delete(ctx, key)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.outer.Delete(ctx, key)
-	c.mu.Unlock()
-	return c.inner.Delete(ctx, key)
+	return ok
 }
 
 // Keys returns a slice of cache keys.
@@ -119,18 +122,20 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
+	err := c.inner.Purge(ctx, pattern)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Purge(ctx, pattern)
-	c.mu.Unlock()
-	return c.inner.Purge(ctx, pattern)
+	return err
 }
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
+	err := c.inner.Flush(ctx)
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_ = c.outer.Flush(ctx)
-	c.mu.Unlock()
-	return c.inner.Flush(ctx)
+	return err
 }
 
 // Size returns the number of entries currently stored in the Cache.
-- 
2.43.0


From cf58f86504dace11601d9b83173b97c33d35315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 26/62] fix: lock the simple cache while listing keys and
 release replaced entries

---
 pkg/provider/simple.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/provider/simple.go b/pkg/provider/simple.go
index b5959ad..8d093fd 100644
--- a/pkg/provider/simple.go
+++ b/pkg/provider/simple.go
@@ -75,6 +75,9 @@ func (c *simpleCache) Get(_ context.Context, key string) []byte {
 func (c *simpleCache) Set(key string, val []byte, _ time.Duration) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	if ent := c.entryMap[key]; ent != nil {
+		_ = c.iterateList.Remove(ent)
+	}
 	c.entryMap[key] = c.iterateList.PushFront(val)
 }
 
@@ -102,6 +105,9 @@ func (c *simpleCache) Size() int {
 
 // Keys returns a slice of the keys in the cache.
 func (c *simpleCache) Keys(_ context.Context, _ string) []string {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	keys := make([]string, len(c.entryMap))
 	i := 0
 	for k := range c.entryMap {
-- 
2.43.0


From 9bc76dfb322621a42602611eba1eaf132575d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 27/62] fix: enforce access control lists that only contain
 networks

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 9361c4b..bcae033 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -86,7 +86,7 @@ func NewIPFilter(whitelist string) (*IPFilter, error) {
 // request bypasses the filter.
 func (f *IPFilter) Wrap(next http.HandlerFunc) http.HandlerFunc {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-		if len(f.allowedIPs) == 0 {
+		if len(f.allowedIPs) == 0 && len(f.allowedCIDRs) == 0 {
 			next(w, r)
 			return
 		}
-- 
2.43.0


From ac8a3dee393b70c79b565ebad3065c4c1fdae74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 28/62] fix: recognize IPv6 clients in the access control list

---
 pkg/api/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index bcae033..5e0c79c 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -129,8 +129,8 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	// The default is the originating IP. But, we try to find better
 	// options as this is almost never the right IP we're looking for.
 	addr := ""
-	if parts := strings.Split(req.RemoteAddr, ":"); len(parts) == 2 {
-		addr = parts[0]
+	if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil {
+		addr = host
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-- 
2.43.0


From a3734eb2caaaca74cebcf65684182346b8ffc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 29/62] fix: use the last of all X-Forwarded-For lines to
 identify the client

---
 pkg/api/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/filter.go b/pkg/api/filter.go
index 5e0c79c..4915ed2 100644
--- a/pkg/api/filter.go
+++ b/pkg/api/filter.go
@@ -134,7 +134,7 @@ func originalIP(req *http.Request) (netip.Addr, error) {
 	}
 
 	// If we have a forwarded-for header, take the address from there.
-	if xff := strings.Trim(req.Header.Get("X-Forwarded-For"), ","); len(xff) > 0 {
+	if xff := strings.Trim(strings.Join(req.Header.Values("X-Forwarded-For"), ","), ","); len(xff) > 0 {
 		addrs := strings.Split(xff, ",")
 		last := strings.TrimSpace(addrs[len(addrs)-1])
 		return netip.ParseAddr(last)
-- 
2.43.0


From d726b87046434f116d1fe20a51bd5dddfeafdc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 30/62] fix: answer requests without a matching target with
 503, never from the cache

---
 pkg/server/server.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 18cd8f1..81d7120 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -139,15 +139,11 @@ func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
 
 	switch {
-	case errors.Is(err, context.Canceled):
-		ctx := req.Context()
-		cErr := context.Cause(ctx)
-		if errors.Is(cErr, ErrMatchingTarget) {
-			status = http.StatusServiceUnavailable
-			err = cErr
-		} else { // client canceled request
-			status = http.StatusBadGateway
-		}
+	case errors.Is(context.Cause(req.Context()), ErrMatchingTarget):
+		status = http.StatusServiceUnavailable
+		err = ErrMatchingTarget
+	case errors.Is(err, context.Canceled): // client canceled request
+		status = http.StatusBadGateway
 	case errors.Is(err, io.EOF):
 		status = http.StatusBadGateway
 	default: // connection error
@@ -179,6 +175,7 @@ func (s *Server) Director() func(req *http.Request) {
 		target, ok := s.targets.MatchTarget(req)
 		if !ok {
 			log.Error().Str("request", req.URL.String()).Msg("no matching target found for request.")
+			req.Host = "" // no target, thus nothing to look up in the cache
 			ctx, cancel := context.WithCancelCause(req.Context())
 			*req = *req.WithContext(ctx)
 			cancel(ErrMatchingTarget)
-- 
2.43.0


From fcb5ed910f2772e171aca9a3bdf98c5af110827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 31/62] fix: report every reload of an invalid config and
 serialize reloads

---
 pkg/config/loader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 398d74d..f18abe1 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -29,6 +29,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -44,6 +45,7 @@ type Loader struct {
 	watch         bool
 	watchInterval time.Duration
 
+	mu         sync.Mutex // guards loading the config.
 	config     atomic.Pointer[Configuration]
 	configHash []byte
 
@@ -68,6 +70,9 @@ func NewLoader(path string, watch bool, interval time.Duration) (*Loader, error)
 
 // Load reads the YAML-formatted config.
 func (l *Loader) Load(ctx context.Context) (bool, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	buf, err := os.ReadFile(l.path)
 	if err != nil {
 		return false, err
@@ -78,7 +83,6 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if bytes.Equal(l.configHash, hash) {
 		return false, nil
 	}
-	l.configHash = hash
 
 	dec := yaml.NewDecoder(bytes.NewReader(buf))
 	dec.KnownFields(true)
@@ -90,6 +94,7 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	l.configHash = hash
 	l.config.Store(config)
 
 	return true, nil
@@ -107,6 +112,8 @@ func (l *Loader) Path() string {
 
 // Checksum returns the calculated checksum of the config.
 func (l *Loader) Checksum() string {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	return hex.EncodeToString(l.configHash)
 }
 
-- 
2.43.0


From 2a553d6814bc53c8992d7fd6022cc96e29475344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 32/62] fix: do not modify a cache config that is in use when
 applying it again

---
 pkg/cache/httpcache.go | 11 +++++++++++
 pkg/kache/kache.go     |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 87eab36..59f9de3 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -30,6 +30,7 @@ import (
 	"net/http"
 	"net/http/httputil"
 	"regexp"
+	"slices"
 	"strings"
 	"sync/atomic"
 	"time"
@@ -161,6 +162,16 @@ func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 		config = &HttpCacheConfig{Strict: true}
 	}
 
+	// Compile on a copy, the provided config might already be in use.
+	cfg := *config
+	cfg.Timeouts = slices.Clone(config.Timeouts)
+	if config.Exclude != nil {
+		exclude := *config.Exclude
+		exclude.Content = slices.Clone(exclude.Content)
+		cfg.Exclude = &exclude
+	}
+	config = &cfg
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
diff --git a/pkg/kache/kache.go b/pkg/kache/kache.go
index 2eced2c..5021ec2 100644
--- a/pkg/kache/kache.go
+++ b/pkg/kache/kache.go
@@ -27,6 +27,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 	"time"
 
@@ -42,6 +43,7 @@ import (
 
 // Kache is the root data structure for Kache.
 type Kache struct {
+	mu     sync.Mutex // guards applying the config.
 	Config *config.Configuration
 	loader *config.Loader
 
@@ -147,6 +149,8 @@ func (t *Kache) reloadConfig(ctx context.Context) error {
 
 // applyConfig applies the config to modules.
 func (t *Kache) applyConfig() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.Config = t.loader.Config()
 	t.Cache.UpdateConfig(t.Config.HttpCache)
 }
-- 
2.43.0


From 792d622e4f06ec62310cb87c38ff4892386bcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 33/62] fix: do not crash when a cluster peer is unreachable

---
 pkg/cluster/rqueue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index 5099c0f..ee5404b 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -100,6 +100,7 @@ func (q *RequestQueue) process() {
 					Str("url", msg.Request.URL.String()).
 					Msg("Error request")
 				q.retry(msg)
+				continue
 			}
 			if resp.StatusCode >= 400 && resp.StatusCode <= 599 {
 				log.Error().Err(err).
-- 
2.43.0


From dc339f722f06fd7e77ae76617a68180b6870af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 34/62] fix: resend the body when retrying a cluster broadcast

---
 pkg/cluster/kubernetes.go |  2 +-
 pkg/cluster/rqueue.go     | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index d89c8cd..08d9736 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -144,7 +144,7 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
 		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
-		out, err := http.NewRequest(method, url, io.NopCloser(bytes.NewBuffer(body)))
+		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
 			continue
diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index ee5404b..f568825 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -126,6 +126,16 @@ func (q *RequestQueue) process() {
 func (q *RequestQueue) retry(msg Message) {
 	msg.Attempt++
 	if msg.Attempt < q.Options.MaxRetries {
+		// The body has already been consumed by the previous attempt.
+		if msg.Request.GetBody != nil {
+			body, err := msg.Request.GetBody()
+			if err != nil {
+				log.Error().Err(err).Msg("Error rewinding request body")
+				return
+			}
+			msg.Request = msg.Request.Clone(msg.Request.Context())
+			msg.Request.Body = body
+		}
 		go func() {
 			log.Debug().Str("url", msg.Request.RequestURI).Int("attempt", msg.Attempt).
 				Msgf("Message retry in %v", q.Options.Backoff)
-- 
2.43.0


From 954d496a120fc2834ff7ad97c43af9b143a79fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 35/62] fix: forward a parsable client address to cluster peers

---
 pkg/cluster/kubernetes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 08d9736..95f80c3 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -27,6 +27,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"net"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -150,7 +151,11 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 			continue
 		}
 		out.Header = req.Header.Clone()
-		out.Header.Set("X-Forwarded-For", req.RemoteAddr)
+		// Peers must identify the same client, i.e. keep its address if already forwarded.
+		if host, _, err := net.SplitHostPort(req.RemoteAddr); err == nil &&
+			req.Header.Get("X-Forwarded-For") == "" && req.Header.Get("X-Real-Ip") == "" {
+			out.Header.Set("X-Forwarded-For", host)
+		}
 		out.Header.Set("X-Kache-Cluster", "Broadcast")
 		out.Host = req.Host
 
-- 
2.43.0


From 5f67154e5208d38fe0bcbfdfb1aaf42f31fda260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 36/62] fix: broadcast purges below a prefix without a leading
 slash

---
 pkg/server/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 7929d96..dd49539 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -137,5 +137,5 @@ func (s *Server) broadcastPurge(req *http.Request) {
 	}
 
 	s.cluster.Broadcast(req, "api", http.MethodDelete,
-		path.Join(s.cfg.API.GetPrefix(), "/cache/invalidate"))
+		path.Join("/", s.cfg.API.GetPrefix(), "/cache/invalidate"))
 }
-- 
2.43.0


From 8cc6169c0eae62dafd2b31707dfb89720bb1df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 37/62] fix: do not crash on endpoints without target or mix up
 their ports

---
 pkg/cluster/kubernetes.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 95f80c3..1600037 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -103,12 +103,10 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		return nil
 	}
 
-	var (
-		port      int32
-		endpoints []Endpoint
-	)
+	var endpoints []Endpoint
 
 	for _, e := range eps.Subsets {
+		var port int32
 		for _, p := range e.Ports {
 			if p.Name != portname {
 				continue
@@ -120,8 +118,12 @@ func (c *client) Endpoints(portname string) []Endpoint {
 		}
 		for _, addr := range e.Addresses {
 			// TODO: check endpoint/pod is healthy.
+			name := addr.Hostname
+			if addr.TargetRef != nil { // optional
+				name = addr.TargetRef.Name
+			}
 			endpoints = append(endpoints, Endpoint{
-				Name: addr.TargetRef.Name,
+				Name: name,
 				Host: addr.IP,
 				Port: int(port),
 			})
-- 
2.43.0


From bbb7bdd701e85b85177fbbd035446735be15d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 38/62] fix: broadcast to peers with IPv6 addresses

---
 pkg/cluster/kubernetes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/kubernetes.go b/pkg/cluster/kubernetes.go
index 1600037..83d2cab 100644
--- a/pkg/cluster/kubernetes.go
+++ b/pkg/cluster/kubernetes.go
@@ -31,6 +31,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"strconv"
 	"time"
 
 	"github.com/rs/zerolog/log"
@@ -146,7 +147,8 @@ func (c *client) Broadcast(req *http.Request, portname, method, path string) {
 
 	for _, ep := range endpoints {
 		// Prepare endpoint request.
-		url := fmt.Sprintf("%s://%s:%v%s", "http", ep.Host, ep.Port, path)
+		addr := net.JoinHostPort(ep.Host, strconv.Itoa(ep.Port))
+		url := fmt.Sprintf("%s://%s%s", "http", addr, path)
 		out, err := http.NewRequest(method, url, bytes.NewReader(body))
 		if err != nil {
 			log.Error().Err(err).Send()
-- 
2.43.0


From f1a44c4492b91fb5ab240372057bc306aa3eef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 39/62] fix: deliver upstream responses that take longer than a
 second

---
 pkg/server/server_listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server_listener.go b/pkg/server/server_listener.go
index 69e555f..c17d4ed 100644
--- a/pkg/server/server_listener.go
+++ b/pkg/server/server_listener.go
@@ -99,7 +99,7 @@ func NewListener(ctx context.Context, cfg *config.Listener, handler http.Handler
 		// TODO: set ErrorLog
 		// TODO: make timeouts configurable
 		ReadTimeout:  1 * time.Second,
-		WriteTimeout: 1 * time.Second,
+		WriteTimeout: DefaultTimeout + 1*time.Second, // do not cut off slow upstreams
 		IdleTimeout:  30 * time.Second,
 	}
 
-- 
2.43.0


From 900f2885d27102c387477fcdae902b748a16b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 40/62] fix: apply the content size limit to responses of
 unknown length

---
 pkg/server/middleware/httpcache.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 4a3a25c..aafc36c 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -23,8 +23,11 @@
 package middleware
 
 import (
+	"bytes"
 	"context"
 	"crypto/tls"
+	"io"
+	"math"
 	"net"
 	"net/http"
 	"time"
@@ -175,8 +178,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	}
 
 	// Store new or update validated response.
-	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" &&
-		!t.Cache.IsExcludedContent(resp.Header.Get("Content-Type"), resp.ContentLength) {
+	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" && !t.excludedContent(resp) {
 		t.Cache.StoreResponse(context.Background(), lookup, resp, t.currentTime())
 	} else {
 		t.Cache.Delete(ctx, lookup)
@@ -185,6 +187,30 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	return resp, nil
 }
 
+// excludedContent checks if the response's content is excluded from caching. If the length
+// of the content matters but is not known yet, the body is buffered.
+func (t *Transport) excludedContent(resp *http.Response) bool {
+	contentType := resp.Header.Get("Content-Type")
+	if resp.ContentLength >= 0 || t.Cache.IsExcludedContent(contentType, resp.ContentLength) ||
+		!t.Cache.IsExcludedContent(contentType, math.MaxInt64) {
+		return t.Cache.IsExcludedContent(contentType, resp.ContentLength)
+	}
+	body, err := io.ReadAll(resp.Body)
+	_ = resp.Body.Close()
+	resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(body), errReader{err}))
+	return t.Cache.IsExcludedContent(contentType, int64(len(body)))
+}
+
+// errReader fails with err, or signals the end of input if there is none.
+type errReader struct{ err error }
+
+func (r errReader) Read([]byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+	return 0, io.EOF
+}
+
 // invalidates checks if the response to an unsafe request invalidates the stored response.
 // https://httpwg.org/specs/rfc9111.html#invalidation
 func invalidates(req *http.Request, resp *http.Response) bool {
-- 
2.43.0


From 8ca663ed9973853eda91407477d643bbbf51505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 41/62] fix: store items in both tiers at once

A flush between the two stores left the item in the local tier, although
it had been visible before, and concurrent stores could leave different
items in the tiers.
---
 pkg/provider/cached.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index 879c206..4b1013a 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -98,9 +98,9 @@ func (c *Cached) Get(ctx context.Context, key string) []byte {
 
 // Set adds an element to the cache.
 func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
-	c.inner.Set(key, value, ttl)
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.inner.Set(key, value, ttl)
 	c.outer.Set(key, value, ttl)
 }
 
-- 
2.43.0


From 62259a549fecf65d040936b2d09ba92e221d8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 42/62] fix: do not take interim responses for final ones

---
 pkg/server/server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 81d7120..62705b8 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -128,12 +128,25 @@ func NewServer(
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	timeout := DefaultTimeout
 	http.TimeoutHandler(
-		s.proxy,
+		http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			s.proxy.ServeHTTP(finalResponseWriter{w}, r)
+		}),
 		timeout,
 		fmt.Sprintf("Request timeout after %v", timeout),
 	).ServeHTTP(w, r)
 }
 
+// finalResponseWriter ignores interim (1xx) responses from upstream as the timeout
+// handler, which buffers the response, would take their status for the final one.
+type finalResponseWriter struct{ http.ResponseWriter }
+
+func (w finalResponseWriter) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		return
+	}
+	w.ResponseWriter.WriteHeader(code)
+}
+
 // errorHandler is the proxy error handler.
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
 	status := http.StatusInternalServerError
-- 
2.43.0


From ff3e21ac3dfc5fd3fe4e50cc2c20600920a95ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 43/62] fix: refuse incomplete configs instead of crashing

---
 pkg/config/config.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 9af8c2d..c3d28fb 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -33,6 +33,8 @@ import (
 var (
 	errInvalidListenersConfig = errors.New("invalid listeners config")
 	errInvalidUpstreamsConfig = errors.New("invalid upstreams config")
+	errInvalidProviderConfig  = errors.New("invalid provider config")
+	errInvalidAPIConfig       = errors.New("invalid api config")
 )
 
 // TODO: set defaults
@@ -53,10 +55,17 @@ type Configuration struct {
 
 // Validate validates the configuration.
 func (c *Configuration) Validate() error {
-	return errors.Join(
+	err := errors.Join(
 		c.Listeners.Validate(),
 		c.Upstreams.Validate(),
 	)
+	if c.Provider == nil {
+		err = errors.Join(err, errInvalidProviderConfig)
+	}
+	if c.API == nil {
+		err = errors.Join(err, errInvalidAPIConfig)
+	}
+	return err
 }
 
 // Global holds the global configuration.
@@ -78,6 +87,11 @@ func (l Listeners) Validate() error {
 	if len(l) < 1 {
 		return errInvalidListenersConfig
 	}
+	for _, listener := range l {
+		if listener == nil {
+			return errInvalidListenersConfig
+		}
+	}
 	return nil
 }
 
@@ -96,6 +110,11 @@ func (u Upstreams) Validate() error {
 	if len(u) < 1 {
 		return errInvalidUpstreamsConfig
 	}
+	for _, upstream := range u {
+		if upstream == nil {
+			return errInvalidUpstreamsConfig
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 443685ce7b4ec08963fd421f30187dbce24c0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 44/62] fix: keep the current config if the reloaded one is
 invalid

---
 pkg/config/loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index f18abe1..525004e 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -93,6 +93,9 @@ func (l *Loader) Load(ctx context.Context) (bool, error) {
 	if err := dec.Decode(config); err != nil {
 		return false, err
 	}
+	if err := config.Validate(); err != nil {
+		return false, err
+	}
 
 	l.configHash = hash
 	l.config.Store(config)
-- 
2.43.0


From 66f06220a2c0dbabd42643f90c6bd1901629e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 45/62] fix: refuse invalid upstream paths

---
 pkg/server/server_target.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server_target.go b/pkg/server/server_target.go
index 71217a8..0116bdc 100644
--- a/pkg/server/server_target.go
+++ b/pkg/server/server_target.go
@@ -73,7 +73,9 @@ func NewTarget(cfg *config.Upstream) (*Target, error) {
 	}
 
 	r := mux.NewRouter()
-	r.PathPrefix(cfg.Path) // TODO: add host?
+	if err := r.PathPrefix(cfg.Path).GetError(); err != nil { // TODO: add host?
+		return nil, err
+	}
 
 	t := &Target{
 		name:     cfg.Name,
-- 
2.43.0


From c351f78cccb83fbd2ffabfaa82cf3bdbb73671b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 46/62] fix: do not let stalled peers block cluster broadcasts

---
 pkg/cluster/rqueue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/rqueue.go b/pkg/cluster/rqueue.go
index f568825..1b5c895 100644
--- a/pkg/cluster/rqueue.go
+++ b/pkg/cluster/rqueue.go
@@ -31,6 +31,9 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// requestTimeout bounds each attempt, a stalled receiver must not block the workers.
+const requestTimeout = 10 * time.Second
+
 // Message wraps a HTTP request that gets processed by the queue.
 type Message struct {
 	Request *http.Request
@@ -88,7 +91,7 @@ func (q *RequestQueue) Stop() {
 func (q *RequestQueue) process() {
 	defer q.wg.Done()
 
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	client.Transport = http.DefaultTransport
 
 	for {
-- 
2.43.0


From 069f06ffcc1587e2a106aa8b02484346be9224dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 47/62] fix: refuse unusable upstream addresses

---
 pkg/server/server_target.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server_target.go b/pkg/server/server_target.go
index 0116bdc..d876c1c 100644
--- a/pkg/server/server_target.go
+++ b/pkg/server/server_target.go
@@ -71,6 +71,9 @@ func NewTarget(cfg *config.Upstream) (*Target, error) {
 	if err != nil {
 		return nil, err
 	}
+	if (u.Scheme != "http" && u.Scheme != "https") || u.Host == "" {
+		return nil, fmt.Errorf("unsupported address %q", cfg.Addr)
+	}
 
 	r := mux.NewRouter()
 	if err := r.PathPrefix(cfg.Path).GetError(); err != nil { // TODO: add host?
-- 
2.43.0


From 83fda14c08ad03fd5d10c86ea16172027b826613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 48/62] fix: validate the redis config

---
 pkg/provider/provider.go     | 3 +++
 pkg/provider/redis_client.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/provider/provider.go b/pkg/provider/provider.go
index ccaa6ec..f606b01 100644
--- a/pkg/provider/provider.go
+++ b/pkg/provider/provider.go
@@ -167,6 +167,9 @@ func _createCacheProvider(name string, config ProviderBackendConfig) (Provider,
 	case BackendInMemory:
 		return NewInMemoryCache(config.InMemory)
 	case BackendRedis:
+		if err := config.Redis.Validate(); err != nil {
+			return nil, err
+		}
 		client, err := NewRedisClient(name, config.Redis)
 		if err != nil {
 			return nil, errors.Join(err, errors.New("failed to create redis client"))
diff --git a/pkg/provider/redis_client.go b/pkg/provider/redis_client.go
index e6577e0..37d03ec 100644
--- a/pkg/provider/redis_client.go
+++ b/pkg/provider/redis_client.go
@@ -35,6 +35,7 @@ import (
 var (
 	ErrRedisConfigNoEndpoint    = errors.New("no redis endpoint configured")
 	ErrRedisMaxQueueConcurrency = errors.New("max job queue concurrency must be positive")
+	ErrRedisMaxQueueBufferSize  = errors.New("max job queue buffer size must not be negative")
 	ErrRedisMaxItemSize         = errors.New("max item size exceeded")
 	ErrRedisJobQueueFull        = errors.New("job queue is full")
 )
@@ -82,6 +83,9 @@ func (c *RedisClientConfig) Validate() error {
 	if c.MaxQueueConcurrency < 1 {
 		return ErrRedisMaxQueueConcurrency
 	}
+	if c.MaxQueueBufferSize < 0 {
+		return ErrRedisMaxQueueBufferSize
+	}
 	return nil
 }
 
-- 
2.43.0


From 20075c40ed760b23b003aa01288d9674083eda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 49/62] fix: do not store the debug header of validated
 responses

---
 pkg/server/middleware/httpcache.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index aafc36c..1db183a 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -127,9 +127,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return t.handleCacheHit(cacheKey, cached)
 
 	case cache.EntryRequiresValidation:
-		if t.Cache.MarkCachedResponses() {
-			cached.Header().Set(t.Cache.XCacheHeader(), cache.HIT)
-		}
 		log.Debug().Str("cache-key", cacheKey).Interface("header", cached.Header()).
 			Msg("Cache HIT with validation")
 		req = t.injectValidationHeaders(lookup.Request, cached.Header())
@@ -149,7 +146,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		return resp, err
 	}
 
-	shouldUpdateCachedEntry := true
+	shouldUpdateCachedEntry, validated := true, false
 	if resp.StatusCode == http.StatusNotModified && cached.Status == cache.EntryRequiresValidation {
 		// If the 304 response contains a strong validator (etag) that does not match
 		// the cached response, the cached response should not be updated.
@@ -166,6 +163,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 		_ = resp.Body.Close()
 		resp = cached.Response()
+		validated = true
 	}
 
 	// Set or update custom cache control header.
@@ -184,6 +182,11 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 		t.Cache.Delete(ctx, lookup)
 	}
 
+	// Mark the response only now, the mark must not be stored.
+	if validated && t.Cache.MarkCachedResponses() {
+		resp.Header.Set(t.Cache.XCacheHeader(), cache.HIT)
+	}
+
 	return resp, nil
 }
 
-- 
2.43.0


From 9321004c07ff64bf471d574bb84d77f99d283537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 50/62] fix: a response is stale once its age reaches the
 freshness lifetime

RFC 9111 section 4.2 defines a response as fresh while its freshness lifetime
exceeds its age. The comparison was off by one: a response with max-age=0 was
served from the cache without validation for up to a second.
---
 pkg/cache/httpcache.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index 59f9de3..d896261 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -452,11 +452,13 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 		freshness = expires.Sub(date)
 	}
 
-	if age > freshness { // Stale response.
+	// A response is fresh as long as its freshness lifetime exceeds its age:
+	// https://httpwg.org/specs/rfc9111.html#expiration.model
+	if age >= freshness { // Stale response.
 		// Check if the response is allowed being served stale,
 		// or if the request max-stale directive prevents it.
 		staleness := age - freshness // negative on overflow
-		allowStale := staleness > 0 && reqCacheControl.MaxStale > staleness
+		allowStale := staleness >= 0 && reqCacheControl.MaxStale > staleness
 
 		return resCacheControl.NoStale || !allowStale
 	}
-- 
2.43.0


From a7dab38e7d7c291d9c2de87eba535e5ab4f50e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 51/62] fix: an invalid debug header name no longer breaks
 requests

---
 pkg/cache/httpcache.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index d896261..dd2729e 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -172,6 +172,12 @@ func (c *HttpCache) UpdateConfig(config *HttpCacheConfig) {
 	}
 	config = &cfg
 
+	// An invalid field name would break the requests and responses it is set on.
+	if name := config.XCacheName; name != "" && !isToken(name) {
+		log.Error().Str("x_header_name", name).Msg("Invalid debug header name, using default")
+		config.XCacheName = ""
+	}
+
 	// Compile custom timeout matchers.
 	for i, t := range config.Timeouts {
 		r, err := regexp.Compile(t.Path)
@@ -255,6 +261,17 @@ func (c *HttpCache) IsExcludedContent(content string, length int64) bool {
 	return false
 }
 
+// isToken reports whether s is a valid header field name.
+func isToken(s string) bool {
+	for _, c := range s {
+		if (c < 'a' || 'z' < c) && (c < 'A' || 'Z' < c) && (c < '0' || '9' < c) &&
+			!strings.ContainsRune("!#$%&'*+-.^_`|~", c) {
+			return false
+		}
+	}
+	return len(s) > 0
+}
+
 // MarkCachedResponses returns true if cached responses should be marked.
 func (c *HttpCache) MarkCachedResponses() bool {
 	config := c.loadConfig()
-- 
2.43.0


From 157bf3d459cdad6bcc0008d7b087b026bef331d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 52/62] fix: apply a config that changed while kache was
 starting

Watch loaded the file again without telling anyone, so that the new config
was considered loaded but never applied; an invalid file at that moment ended
the process.
---
 pkg/config/loader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index 525004e..c14ed7c 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -127,10 +127,16 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
-	if _, err := l.Load(ctx); err != nil {
-		return err
+	// The file may have changed since it was loaded.
+	changed, err := l.Load(ctx)
+	if err != nil {
+		log.Error().Err(err).Msg("Error reloading config file")
 	}
 	go func() {
+		if changed {
+			l.notifyChange()
+		}
+
 		tick := time.NewTicker(l.watchInterval)
 		defer tick.Stop()
 		for {
-- 
2.43.0


From c8282fcd7908a8722875b75489f9c49f1a864319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 53/62] fix: refuse a config watch interval that is not
 positive

It crashed the process.
---
 pkg/config/loader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/config/loader.go b/pkg/config/loader.go
index c14ed7c..ad7ea88 100644
--- a/pkg/config/loader.go
+++ b/pkg/config/loader.go
@@ -127,6 +127,10 @@ func (l *Loader) AutoReload() bool {
 
 // Watch watches and reloads the config file if changed.
 func (l *Loader) Watch(ctx context.Context) error {
+	if l.watchInterval <= 0 {
+		return fmt.Errorf("invalid watch interval: %v", l.watchInterval)
+	}
+
 	// The file may have changed since it was loaded.
 	changed, err := l.Load(ctx)
 	if err != nil {
-- 
2.43.0


From e5983d7a882218c7cf41ec288cfe53ee886d880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 54/62] fix: a malformed upstream answer is a bad gateway, not
 an internal error

---
 pkg/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 62705b8..0b8603d 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -149,7 +149,7 @@ func (w finalResponseWriter) WriteHeader(code int) {
 
 // errorHandler is the proxy error handler.
 func errorHandler(w http.ResponseWriter, req *http.Request, err error) {
-	status := http.StatusInternalServerError
+	status := http.StatusBadGateway
 
 	switch {
 	case errors.Is(context.Cause(req.Context()), ErrMatchingTarget):
-- 
2.43.0


From c6ba84bf68e89234ea371e53b6a6d17bef162962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 55/62] fix: do not add the debug header to uncacheable
 requests sent upstream

---
 pkg/server/middleware/httpcache.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 1db183a..13ffc98 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -109,9 +109,6 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 
 	if !cache.IsCacheableRequest(req) {
 		log.Debug().Interface("header", req.Header).Str("x-cache", "PASS").Msg("Ignoring uncachable request")
-		if t.Cache.MarkCachedResponses() {
-			req.Header.Set(t.Cache.XCacheHeader(), cache.MISS)
-		}
 		return t.send(req)
 	}
 
-- 
2.43.0


From 30a6f4e81cc58c3a079b0bccd15876d534d8c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 56/62] fix: in-memory purge matches keys with line breaks and
 invalid UTF-8

---
 pkg/provider/inmemory.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/pkg/provider/inmemory.go b/pkg/provider/inmemory.go
index 9445a76..6170eca 100644
--- a/pkg/provider/inmemory.go
+++ b/pkg/provider/inmemory.go
@@ -25,7 +25,6 @@ package provider
 import (
 	"context"
 	"fmt"
-	"regexp"
 	"strings"
 	"sync"
 	"time"
@@ -254,12 +253,8 @@ func (c *inMemoryCache) Purge(ctx context.Context, pattern string) error {
 	if len(pattern) == 0 {
 		return c.Flush(ctx)
 	}
-	r, err := regexp.Compile(wildcardToRegex(pattern))
-	if err != nil {
-		return err
-	}
 	for _, k := range c.inner.Keys() {
-		if r.MatchString(k) {
+		if matchWildcard(pattern, k) {
 			c.Delete(ctx, k)
 		}
 	}
@@ -279,23 +274,24 @@ func (c *inMemoryCache) Size() int {
 	return c.inner.Len()
 }
 
-// wildcardToRegex converts a wildcard pattern to a regex pattern.
+// matchWildcard reports whether s matches the wildcard pattern, in which each
+// '*' stands for any sequence of bytes and every other byte for itself.
 // Needed since Go does not natively support wildcard matching on strings.
-// TODO: check if we should use a module for this or implement it ourselves and not use regex.
-func wildcardToRegex(pattern string) string {
+func matchWildcard(pattern, s string) bool {
 	parts := strings.Split(pattern, "*")
 	if len(parts) == 1 {
-		// No *'s, return exact match pattern.
-		return "^" + regexp.QuoteMeta(pattern) + "$"
+		// No *'s, match exactly.
+		return s == pattern
+	}
+	s, ok := strings.CutPrefix(s, parts[0])
+	if !ok {
+		return false
 	}
-	var result strings.Builder
-	for i, p := range parts {
-		// Replace * with .*
-		if i > 0 {
-			_, _ = result.WriteString(".*")
+	last := len(parts) - 1
+	for _, p := range parts[1:last] {
+		if _, s, ok = strings.Cut(s, p); !ok {
+			return false
 		}
-		// Quote any regular expression meta character.
-		_, _ = result.WriteString(regexp.QuoteMeta(p))
 	}
-	return "^" + result.String() + "$"
+	return strings.HasSuffix(s, parts[last])
 }
-- 
2.43.0


From d38ad9c3aba4599ea44178320da27902170474c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 57/62] fix: drop a superseded response even if the client has
 gone

---
 pkg/server/middleware/httpcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/middleware/httpcache.go b/pkg/server/middleware/httpcache.go
index 13ffc98..7c8ad53 100644
--- a/pkg/server/middleware/httpcache.go
+++ b/pkg/server/middleware/httpcache.go
@@ -176,7 +176,7 @@ func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error
 	if cacheable && shouldUpdateCachedEntry && lookup.Request.Method != "HEAD" && !t.excludedContent(resp) {
 		t.Cache.StoreResponse(context.Background(), lookup, resp, t.currentTime())
 	} else {
-		t.Cache.Delete(ctx, lookup)
+		t.Cache.Delete(context.Background(), lookup)
 	}
 
 	// Mark the response only now, the mark must not be stored.
-- 
2.43.0


From 5e8ec9067706c6ce8e4cf4fd61b44768f48ed65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 58/62] fix: ignore malformed durations in cache directives

---
 pkg/cache/cache_control.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 7a8fb59..0304fc5 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -200,6 +200,9 @@ func splitDirective(s string) (dir string, arg string) {
 // https://httpwg.org/specs/rfc7234.html#delta-seconds
 func parseDuration(s string) time.Duration {
 	s = strings.Trim(s, "\"'") // trim quotes
+	if strings.Trim(s, "0123456789") != "" {
+		return time.Duration(-1)
+	}
 	d, err := time.ParseDuration(s + "s")
 	if err != nil || d < 0 {
 		return time.Duration(-1)
-- 
2.43.0


From da94d44b5aefee31dda82ba9183e6ac4ff438649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 59/62] fix: requests to switch protocols bypass the cache

The response never ends, so storing or sharing it blocked every client of the resource.
---
 pkg/cache/cacheable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/cacheable.go b/pkg/cache/cacheable.go
index 84a09ec..737edfd 100644
--- a/pkg/cache/cacheable.go
+++ b/pkg/cache/cacheable.go
@@ -49,6 +49,7 @@ const (
 	HeaderIfNoneMatch       = "If-None-Match"
 	HeaderIfModifiedSince   = "If-Modified-Since"
 	HeaderIfUnmodifiedSince = "If-Unmodified-Since"
+	HeaderUpgrade           = "Upgrade"
 
 	// Response headers
 	HeaderAge          = "Age"
@@ -110,6 +111,12 @@ func IsCacheableRequest(req *http.Request) bool {
 		return false
 	}
 
+	// The response to a request to switch protocols never ends, so it
+	// can neither be stored nor shared.
+	if _, ok := req.Header[HeaderUpgrade]; ok {
+		return false
+	}
+
 	// Check if the request contains authorization headers.
 	// For now, requests with authorization headers bypass the cache.
 	// https://httpwg.org/specs/rfc7234.html#caching.authenticated.responses
-- 
2.43.0


From 4f394b7ef896900f9a153a4f85e00d7f2fcfd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 60/62] fix: s-maxage implies proxy-revalidate

A response with s-maxage was served stale to clients that sent max-stale.
---
 pkg/cache/cache_control.go | 12 ++++++++++++
 pkg/cache/httpcache.go     |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/cache_control.go b/pkg/cache/cache_control.go
index 0304fc5..9648353 100644
--- a/pkg/cache/cache_control.go
+++ b/pkg/cache/cache_control.go
@@ -173,6 +173,18 @@ func ParseResponseCacheControl(header string) ResponseCacheControl {
 	return cc
 }
 
+// hasSharedMaxAge checks if the cache-control header of a response holds a valid
+// 's-maxage' directive, which implies the semantics of 'proxy-revalidate'.
+// https://httpwg.org/specs/rfc7234.html#cache-response-directive.s-maxage
+func hasSharedMaxAge(header string) bool {
+	for _, directive := range strings.Split(header, ",") {
+		if dir, arg := splitDirective(directive); dir == "s-maxage" && parseDuration(arg) >= 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // cacheControlOf returns the value of the cache-control header. Repeated
 // header lines are equivalent to a single comma-separated list.
 func cacheControlOf(header http.Header) string {
diff --git a/pkg/cache/httpcache.go b/pkg/cache/httpcache.go
index dd2729e..bb7021e 100644
--- a/pkg/cache/httpcache.go
+++ b/pkg/cache/httpcache.go
@@ -477,7 +477,7 @@ func (l *LookupRequest) requiresValidation(header *http.Header, age time.Duratio
 		staleness := age - freshness // negative on overflow
 		allowStale := staleness >= 0 && reqCacheControl.MaxStale > staleness
 
-		return resCacheControl.NoStale || !allowStale
+		return resCacheControl.NoStale || hasSharedMaxAge(cacheControlOf(*header)) || !allowStale
 	}
 
 	// Fresh response. Only requires validation if min-fresh requirement is not satisfied.
-- 
2.43.0


From 6a2b9c0ee19dfb3d2731f2a85cc721ff7d28952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:56 +0000
Subject: [PATCH 61/62] fix: end connections to the admin port whose request is
 never completed

---
 pkg/api/api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/api/api.go b/pkg/api/api.go
index 9fc1135..4acc7d3 100644
--- a/pkg/api/api.go
+++ b/pkg/api/api.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"net/http"
 	"path"
+	"time"
 
 	"github.com/gorilla/mux"
 	"github.com/kacheio/kache/pkg/config"
@@ -100,7 +101,13 @@ func (a *API) Run() {
 	port := fmt.Sprintf(":%d", a.config.Port)
 	log.Debug().Str("port", port).Str("prefix", a.prefix).Msg("Starting API server")
 
-	if err := http.ListenAndServe(port, a); err != nil {
+	server := &http.Server{
+		Addr:        port,
+		Handler:     a,
+		ReadTimeout: 10 * time.Second, // do not wait forever for incomplete requests
+		IdleTimeout: 30 * time.Second,
+	}
+	if err := server.ListenAndServe(); err != nil {
 		log.Fatal().Err(err).Msg("Starting API server")
 	}
 }
-- 
2.43.0


From 547a1f5e8fee0096e8677acaff23f6fb11ae024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 62/62] fix: a slow remote cache does not hold up the layered
 cache

The lookups of the layered cache waited for one another, local hits and
updates included, while the remote cache was asked. Ask it without holding
the lock and keep what it tells unless the item was changed or removed in
the meantime.
---
 pkg/provider/cached.go | 88 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 16 deletions(-)

diff --git a/pkg/provider/cached.go b/pkg/provider/cached.go
index 4b1013a..9326573 100644
--- a/pkg/provider/cached.go
+++ b/pkg/provider/cached.go
@@ -44,8 +44,26 @@ type Cached struct {
 	ttl time.Duration
 
 	mu sync.Mutex
+
+	// fetches holds the lookups in the tier-two cache under way.
+	fetches map[*fetch]struct{}
+
+	// removals holds the removals under way, as a match of the keys they affect.
+	removals map[*keyMatch]struct{}
+}
+
+// fetch is a lookup in the tier-two cache.
+type fetch struct {
+	// key is the key looked up.
+	key string
+
+	// stale denotes if the key was changed or removed during the lookup.
+	stale bool
 }
 
+// keyMatch reports if a key is affected by an operation.
+type keyMatch func(key string) bool
+
 // NewCached adds a caching layer on top of a cache `Provider` (typically a remote cache) and
 // wraps it with a local in-memory cache. Items will always be stored in both caches. Fetches are
 // only satified by the underlying remote cache, if the item does not exist in the local cache.
@@ -68,10 +86,12 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 	}
 
 	cached := &Cached{
-		inner: cache,
-		outer: l,
-		ttl:   ttl,
-		name:  "layered-" + name,
+		inner:    cache,
+		outer:    l,
+		ttl:      ttl,
+		name:     "layered-" + name,
+		fetches:  make(map[*fetch]struct{}),
+		removals: make(map[*keyMatch]struct{}),
 	}
 
 	return cached, nil
@@ -79,35 +99,48 @@ func NewCached(cache Provider, name string, ttl time.Duration, config InMemoryCa
 
 // Get retrieves an element based on a key, returning nil if the element
 // does not exist.
-func (c *Cached) Get(ctx context.Context, key string) []byte {
+func (c *Cached) Get(ctx context.Context, key string) (val []byte) {
 	c.mu.Lock()
-	defer c.mu.Unlock()
-
-	val := c.outer.Get(ctx, key)
+	val = c.outer.Get(ctx, key)
 	if val != nil {
+		c.mu.Unlock()
 		return val
 	}
-
-	val = c.inner.Get(ctx, key)
-	if val != nil {
-		c.outer.Set(key, val, c.ttl)
+	f := &fetch{key: key}
+	for matches := range c.removals {
+		f.stale = f.stale || (*matches)(key)
 	}
-
-	return val
+	c.fetches[f] = struct{}{}
+	c.mu.Unlock()
+
+	// A slow remote cache must not hold up the other operations. The result
+	// is kept unless the item was changed or removed in the meantime.
+	defer func() {
+		c.mu.Lock()
+		defer c.mu.Unlock()
+		delete(c.fetches, f)
+		if latest := c.outer.Get(ctx, key); latest != nil {
+			val = latest
+		} else if val != nil && !f.stale {
+			c.outer.Set(key, val, c.ttl)
+		}
+	}()
+
+	return c.inner.Get(ctx, key)
 }
 
 // Set adds an element to the cache.
 func (c *Cached) Set(key string, value []byte, ttl time.Duration) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.invalidateFetches(func(k string) bool { return k == key })
 	c.inner.Set(key, value, ttl)
 	c.outer.Set(key, value, ttl)
 }
 
 // Delete deletes an element in the cache.
 func (c *Cached) Delete(ctx context.Context, key string) bool {
-	// Remove from the inner cache first, otherwise a
-	// concurrent fetch restores the item in the outer cache.
+	defer c.beginRemoval(func(k string) bool { return k == key })()
 	ok := c.inner.Delete(ctx, key)
 	c.mu.Lock()
 	defer c.mu.Unlock()
@@ -122,6 +155,7 @@ func (c *Cached) Keys(ctx context.Context, prefix string) []string {
 
 // Purge purges all keys matching the spedified pattern from the cache.
 func (c *Cached) Purge(ctx context.Context, pattern string) error {
+	defer c.beginRemoval(func(string) bool { return true })()
 	err := c.inner.Purge(ctx, pattern)
 	c.mu.Lock()
 	defer c.mu.Unlock()
@@ -131,6 +165,7 @@ func (c *Cached) Purge(ctx context.Context, pattern string) error {
 
 // Flush deletes all elements from the cache.
 func (c *Cached) Flush(ctx context.Context) error {
+	defer c.beginRemoval(func(string) bool { return true })()
 	err := c.inner.Flush(ctx)
 	c.mu.Lock()
 	defer c.mu.Unlock()
@@ -142,3 +177,24 @@ func (c *Cached) Flush(ctx context.Context) error {
 func (c *Cached) Size() int {
 	return len(c.inner.Keys(context.Background(), ""))
 }
+
+// beginRemoval prevents fetches from restoring the items which are about to be
+// removed, until the returned function is called.
+func (c *Cached) beginRemoval(matches keyMatch) func() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.removals[&matches] = struct{}{}
+	c.invalidateFetches(matches)
+	return func() {
+		c.mu.Lock()
+		defer c.mu.Unlock()
+		delete(c.removals, &matches)
+	}
+}
+
+// invalidateFetches marks the matching fetches under way as stale.
+func (c *Cached) invalidateFetches(matches keyMatch) {
+	for f := range c.fetches {
+		f.stale = f.stale || matches(f.key)
+	}
+}
-- 
2.43.0

