"""The properties: source of properties.jsonl and of the MANIFEST entries (tools/gen.py)."""

MW = "pkg/server/middleware/httpcache.go"
CO = "pkg/server/middleware/coalesce.go"
HC = "pkg/cache/httpcache.go"
CC = "pkg/cache/cache_control.go"
CB = "pkg/cache/cacheable.go"
KEY = "pkg/cache/key.go"
ENT = "pkg/cache/entry.go"
IM = "pkg/provider/inmemory.go"
CD = "pkg/provider/cached.go"
RC = "pkg/provider/redis_client.go"
QU = "pkg/provider/queue.go"
RM = "pkg/provider/remote.go"
SI = "pkg/provider/simple.go"
PR = "pkg/provider/provider.go"
SRV = "pkg/server/server.go"
HND = "pkg/server/handlers.go"
LIS = "pkg/server/server_listener.go"
TGT = "pkg/server/server_target.go"
API = "pkg/api/api.go"
FIL = "pkg/api/filter.go"
CFG = "pkg/config/config.go"
LDR = "pkg/config/loader.go"
KCH = "pkg/kache/kache.go"
CLU = "pkg/cluster/kubernetes.go"
RQ = "pkg/cluster/rqueue.go"

PROPS = []


def P(id, title, statement, over, q, why, mech, state=(), observe=(), technique="", note=""):
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   observe_at=list(observe), hook_needed=None),
                      technique=technique, note=note))


HIST = "runtime monitoring: online oracle over recorded request/upstream event histories, random + directed workloads under virtual time"
OBS_DP = ["client side of the proxy transport", "upstream side of the proxy transport"]

P("C01", "A response from the cache is a faithful copy of what upstream sent",
  "Whatever a client receives for a cacheable request, status, header fields and body are byte for byte those of one complete upstream response for that resource (plus the cache's own Age and debug fields and the field updates of later validations). A body whose transfer from upstream failed midway is never stored or delivered as complete.",
  "inputs histories fault_sequences", "Every sequence of requests and upstream responses: all statuses, any repeated/odd header fields, binary, empty, large and chunked bodies, bodies cut at any byte.",
  "The tests store and fetch a handful of small text bodies; fidelity is over all bodies, headers and break points of the transfer.",
  [("response is dumped into the entry while it is read", MW + ":RoundTrip"), ("entry encoding", ENT + ":Encode"), ("entry decoding", HC + ":FetchResponse")],
  observe=OBS_DP, technique=HIST)

P("C02", "Responses that must not be stored are never reused",
  "In strict mode a response that is marked no-store or private (by any Cache-Control line in any letter case), that answers a request with no-store or with credentials, whose status is not cacheable, or that lacks any freshness or validation information, is never used to answer another request.",
  "inputs histories", "Every combination of request and response directives, header layouts and orders, with any requests before and after.",
  "The tests enumerate a few header maps through one predicate; the guarantee is about whole histories, where a forbidden response could get out by storing, coalescing or validation.",
  [("request/response storability", CB + ":IsCacheableRequest, IsCacheableResponse"), ("directive parsing", CC + ":ParseResponseCacheControl"), ("bypass", MW + ":bypass")],
  observe=OBS_DP, technique=HIST)

P("C03", "A stale response is never served without validation",
  "In strict mode, a response delivered without contacting upstream is fresh at that moment by its own Cache-Control (s-maxage, max-age, no-cache), Expires, Date and Age and by the requesting client's max-age, min-fresh, max-stale and no-cache (also Pragma); stale responses only go to clients that accept that staleness, unless the response demands revalidation.",
  "inputs histories", "Every response/request directive combination including malformed, duplicate and overflowing values, at every age and clock offset.",
  "The tests fix a few ages and directives; the guarantee is over all combinations and boundaries in time.",
  [("freshness decision", HC + ":requiresValidation"), ("age calculation", CC + ":CalculateAge"), ("directive parsing", CC + ":ParseRequestCacheControl, ParseResponseCacheControl")],
  observe=OBS_DP, technique=HIST)

P("C04", "Validation serves and refreshes exactly the validated response",
  "When a stored response needs validation, upstream is asked with that response's validators; on 304 the client receives the stored body with the updated fields and the entry is fresh again as the new fields say; on any other answer the client receives that answer. A 304 never ends up as the cached content of the resource and never reaches a client that did not ask a conditional question itself.",
  "inputs histories", "Every order of hits, validations, replacements and client conditionals, with ETag, Last-Modified, both or none.",
  "The tests check one validation each with ETag and Last-Modified; histories with repeated validations and replacements are not sampled.",
  [("validators are added to the upstream request", MW + ":injectValidationHeaders"), ("304 handling and header update", MW + ":RoundTrip"), ("header update", HC + ":UpdateHeader")],
  observe=OBS_DP, technique=HIST)

P("C05", "Requests the cache must not handle reach upstream unmodified",
  "Requests other than GET and HEAD, and requests with Range, preconditions (If-...) or Authorization, are forwarded once each with method, target, fields and body intact and answered with upstream's own answer; their responses are neither stored nor given to other requests.",
  "inputs histories", "Every method and header combination at any point of a history, with and without a stored response.",
  "The tests check the predicate on a few requests; that no later request sees the response needs histories.",
  [("request bypass", MW + ":bypass"), ("cacheability of requests", CB + ":IsCacheableRequest")], observe=OBS_DP, technique=HIST)

P("C06", "Distinct resources and variants never share a cached response",
  "A stored response only answers requests for the same scheme, host, path and query (up to equivalent spellings: dot segments, repeated and trailing slashes in the path, order and escaping of query parameters), and, if upstream sent Vary, only requests whose nominated header fields equal those of the original request; a response with Vary: * answers nobody else.",
  "inputs histories", "Every pair of URLs and hosts, including encoded separators, malformed escapes and queries, delimiter characters, and every Vary nomination.",
  "The tests compare a handful of keys; a collision is a property of all pairs of inputs.",
  [("cache key", KEY + ":NewKeyFromRequst, String"), ("variant selection", CB + ":VaryHeader, MatchesVary"), ("variant check", HC + ":FetchResponse")],
  observe=OBS_DP, technique="runtime monitoring: per-response identity oracle over generated URL/host/Vary neighbourhoods")

P("C07", "A fresh stored response is served without contacting upstream",
  "After a storable response was delivered completely, every later acceptable GET (or HEAD) for it within its freshness and storage lifetime is answered from the cache, without any upstream contact.",
  "inputs histories", "Every storable response and acceptable request within the lifetime, at any age.",
  "A cache that caches too little passes every safety check and most tests; only a systematic oracle on hits shows the loss.",
  [("lookup", HC + ":FetchResponse"), ("store", HC + ":StoreResponse"), ("hit path", MW + ":handleCacheHit")], observe=OBS_DP, technique=HIST)

P("C08", "After a response was superseded the older one is never served again",
  "Once a client received a newer stored response for a resource, or a successful unsafe request changed it, no later request is answered with an older stored response; updates take effect for the whole entry at once (never a mix of two versions).",
  "histories schedules inputs", "Every sequence of replacements, validations, failures, unsafe requests and over-size or uncacheable replacements.",
  "The tests replace no entries at the HTTP level; supersession is about histories of several versions.",
  [("store replaces or deletes", HC + ":StoreResponse"), ("unsafe methods invalidate", MW + ":invalidates"), ("deletion", HC + ":Delete")],
  observe=OBS_DP, technique=HIST)

P("C09", "Age tells the truth about a cached response",
  "Every response served from the cache carries exactly one Age field, whose value is the age of the response by RFC 9111 (upstream's Age or Date plus the time it was kept), never negative, never decreasing while the same response is served and never reset by the cache.",
  "inputs histories", "Every Date/Age combination (missing, invalid, in the future, huge) at all times.",
  "The tests compute a few ages; the field's truth is over all clock and header combinations.",
  [("age", CC + ":CalculateAge"), ("Age field", HC + ":makeResult")], observe=OBS_DP, technique=HIST)

P("C10", "HEAD and GET share the cache correctly",
  "A HEAD request is answered with the header of the response a GET would receive and never with a body, and a response to HEAD is never used as the (empty) body of a GET.",
  "inputs histories", "Every interleaving of HEAD and GET with hits, misses and validations.",
  "No test sends HEAD through the cache.",
  [("method handling", CB + ":IsCacheableRequest"), ("lookup", HC + ":makeResult"), ("store", MW + ":RoundTrip")], observe=OBS_DP, technique=HIST)

P("C11", "Non-strict mode caches for the configured time whatever upstream says",
  "With strict mode off, a successful response is served from the cache for the configured time to live regardless of its caching directives, and not a moment longer; path exclusions and bypassed requests still apply.",
  "inputs configurations histories", "Every response header set, any TTL configuration, at all times.",
  "The tests check one non-strict lookup.",
  [("strict flag", HC + ":Strict, NewLookupRequest, makeResult")], observe=OBS_DP, technique=HIST)

P("C12", "Configured lifetimes are honoured",
  "A stored response is kept for the lifetime configured for the first matching path, otherwise for the default lifetime, and is never served from the cache after it; a lifetime of zero means nothing is stored.",
  "inputs configurations histories", "Every timeout list, order, regular expression and time.",
  "The tests look up single values; that an entry really disappears at the configured time is not observed.",
  [("path lifetime", HC + ":PathTTL, DefaultTTL"), ("store", HC + ":StoreResponse")], observe=OBS_DP, technique=HIST)

P("C13", "Excluded paths, headers and contents are never cached",
  "A request whose path or header matches a configured exclusion, and a response whose content type or size does, is neither stored nor answered from the cache nor shared with a concurrent request, and is delivered unmodified; everything else is not affected by the exclusions.",
  "inputs configurations histories", "Every exclusion configuration and request/response, with known and unknown lengths.",
  "The tests call the predicates with a few values.",
  [("exclusions", HC + ":IsExcludedPath, IsExcludedHeader, IsExcludedContent"), ("bypass", MW + ":bypass, excludedContent")], observe=OBS_DP, technique=HIST)

P("C14", "Default Cache-Control is applied exactly as configured",
  "With a default Cache-Control configured, responses lacking that field get it (all responses if forced), both for the caching decision and for the client; without one, upstream's field is left alone.",
  "inputs configurations histories", "Every default/force combination and upstream header.",
  "The tests cover the header update helper only.",
  [("default", MW + ":updateCacheControl"), ("config", HC + ":DefaultCacheControl, ForceCacheControl")], observe=OBS_DP, technique=HIST)

P("C15", "Concurrent identical requests cause a single upstream fetch",
  "However many clients request the same missing resource while one fetch of it is in progress, upstream sees one request, and each client receives the complete, unmodified response to it with its own body to read.",
  "schedules inputs", "Every number and arrival order of clients, body sizes, and points at which clients read, stop or are slow.",
  "The test fires a few goroutines once; sharing one response among readers is about all interleavings.",
  [("coalescing", CO + ":RoundTrip")], state=[("waiting requests", "calls in progress by request", CO + ":requestCoalescer")], observe=OBS_DP,
  technique="runtime monitoring: generated schedules under virtual time, single-flight and identity oracle over the event log")

P("C16", "Coalescing never hands a client a response it must not get",
  "A client only shares another client's upstream response if both requests were equivalent for caching (resource, directives, no credentials or other exemption, same nominated header fields) and the response may be shared; otherwise it gets its own.",
  "schedules inputs", "Every pair of concurrent requests and response types.",
  "The tests coalesce identical anonymous requests only.",
  [("bypass", CO + ":bypass"), ("coalescing key", CO + ":coalesceKey"), ("shareability", CO + ":shareable")], observe=OBS_DP,
  technique="runtime monitoring: generated schedules under virtual time, per-client identity oracle")

P("C17", "A failing or abandoned fetch never harms other clients",
  "If the fetch that others wait for fails, panics, is cut off or its client goes away, every waiting client still gets a complete response or an error of its own request's making, nobody hangs, and later requests for the resource work normally.",
  "schedules fault_sequences", "Every failure kind and time of the leading fetch, cancellation of any subset of clients at any time.",
  "The tests contain no failing or cancelled leader.",
  [("abandoned calls", CO + ":RoundTrip")], observe=OBS_DP,
  technique="runtime monitoring: fault and cancellation schedules under virtual time, termination and completeness oracle")

P("C18", "The in-memory cache never exceeds its capacity and evicts in LRU order",
  "The accounted size of the items in the in-memory cache never exceeds the configured maximum, no item above the item limit is kept, and when room is needed exactly the least recently used items go, no more than necessary.",
  "inputs histories configurations", "Every sequence of sets (growing, shrinking, oversized), gets, deletes, purges, flushes and expirations, for all capacities.",
  "The tests replay a few hand-written sequences.",
  [("capacity", IM + ":Set, ensureCapacity"), ("size accounting", IM + ":onEvict, itemSize")], state=[("current size", "sum of item sizes", IM + ":curSize")],
  observe=["cache provider API"], technique="runtime monitoring: lock-step reference model over random operation sequences")

P("C19", "Cache storage behaves atomically under concurrency",
  "Concurrent gets, sets, deletes, purges and flushes on the in-memory, simple and layered caches behave as if executed one at a time in some order consistent with real time; no value is invented, mixed or lost.",
  "schedules histories", "Every interleaving of operations of many clients on shared keys.",
  "The tests use one goroutine.",
  [("locking", IM + ":mu"), ("locking", CD + ":mu"), ("locking", SI + ":mu")], observe=["cache provider API"],
  technique="runtime monitoring: recorded concurrent histories, linearizability checker")

P("C20", "Items expire on time in every tier",
  "An item is returned until the lifetime given when it was stored and never after it, in the in-memory cache, in redis and in the layered cache (whose local tier may add at most its own lifetime); storing again renews the lifetime, and expiry can be switched off explicitly.",
  "inputs histories configurations", "Every lifetime, sequence of stores, reads, updates and clock advances.",
  "The tests expire one item.",
  [("expiry", IM + ":Get, Set"), ("local tier", CD + ":Get, Set"), ("redis expiry", RC + ":Store")], observe=["cache provider API"],
  technique="runtime monitoring: virtual-time reference model")

P("C21", "Purging removes exactly the matching keys",
  "A purge removes every key that matches the pattern, in which * stands for any characters and everything else for itself, and no other key; an empty pattern and a flush remove all keys; listing by prefix returns exactly the stored keys with that prefix.",
  "inputs histories", "Every key set, pattern and prefix, including pattern metacharacters, on the in-memory, redis and layered caches.",
  "The tests purge three keys with simple patterns.",
  [("pattern", IM + ":wildcardToRegex, Purge"), ("pattern", RC + ":Purge, Keys, globEscaper")], observe=["cache provider API"],
  technique="runtime monitoring: reference glob matcher against both backends")

P("C22", "What was purged stays purged",
  "Once a delete, purge or flush returned, no cache lookup that starts later returns an item that was stored before it started, whatever lookups and stores ran concurrently, in every tier.",
  "schedules histories", "Every interleaving of readers that refill the local tier with deletes, purges and flushes.",
  "The tests do not run readers concurrently with a purge.",
  [("order of the tiers", CD + ":Delete, Purge, Flush"), ("refill", CD + ":Get")], observe=["cache provider API", "proxy transport"],
  technique="runtime monitoring: generated schedules with injected delays in the remote tier, history oracle")

P("C23", "The layered cache keeps its tiers coherent",
  "The layered cache returns what the remote tier holds or held within the local lifetime: stores, deletes, purges and flushes reach both tiers, local hits do not contact the remote tier, and remote hits are kept locally for at most the local lifetime.",
  "histories inputs", "Every sequence of operations through the layered cache and directly on the remote tier, at all times.",
  "The tests check one fallback.",
  [("tiers", CD + ":Get, Set, Delete, Purge, Flush")], observe=["cache provider API", "remote tier API"],
  technique="runtime monitoring: lock-step reference model, instrumented remote tier")

P("C24", "A slow or failing remote cache never blocks or breaks requests",
  "Storing to the remote cache never blocks the request, accepted writes are applied exactly once and unmodified, writes beyond the queue bound are dropped, and while the remote cache is unreachable, stalls or fails, clients are still served from upstream; after it recovers, caching resumes.",
  "fault_sequences schedules", "Every outage, stall and reset of the backend at any point of a workload.",
  "The tests use a healthy miniature backend.",
  [("write queue", QU + ":dispatch, listen"), ("async store", RC + ":StoreAsync"), ("fetch errors", RC + ":Fetch")],
  state=[("queue", "pending writes", QU + ":jobCh")], observe=["cache provider API", "backend content", "proxy transport"],
  technique="runtime monitoring: fault injection between cache and backend, exactly-once and latency oracles")

P("C25", "Damaged cache contents are never delivered",
  "Whatever bytes the storage returns for a key, requests are answered completely and nothing crashes. Contents that were cut off at any byte or that the cache did not write are never delivered: upstream answers the request and the entry is repaired.",
  "inputs fault_sequences", "Every corruption (truncation at any byte, bit flips, garbage) of a stored entry.",
  "One test decodes a well-formed entry.",
  [("decode", ENT + ":DecodeEntry"), ("lookup", HC + ":FetchResponse")], observe=["proxy transport", "storage content"],
  technique="runtime monitoring: storage fault injection, identity oracle")

P("C26", "Requests reach the right upstream intact and responses come back intact",
  "Each request is forwarded exactly to the configured target with the first matching path, with method, path, query, end-to-end fields and body intact below the target's own path, and its response is returned intact; requests without a matching target get 503 and reach no upstream.",
  "inputs configurations", "Every target configuration and request, including encoded paths, odd queries and bodies of any size.",
  "The tests route a few plain paths.",
  [("routing", TGT + ":MatchTarget"), ("request rewriting", SRV + ":Director, ServeHTTP")], observe=["client connection", "upstream connection"],
  technique="runtime monitoring: real proxy between generated clients and recording upstreams, end-to-end differential oracle")

P("C27", "Upstream failures become clean errors and are never cached",
  "If upstream refuses, resets, times out or breaks off, the client gets a gateway error (or a visibly broken transfer if the response already began), never a truncated response that looks complete; nothing of it is cached and the next request after recovery succeeds.",
  "fault_sequences inputs", "Every failure kind at any byte of the exchange.",
  "The tests cover one unreachable upstream.",
  [("error mapping", SRV + ":errorHandler"), ("store", MW + ":RoundTrip")], observe=["client connection"],
  technique="runtime monitoring: faulty upstream on real connections, completeness and recovery oracle")

P("C28", "The admin API only answers allowed clients",
  "With an access list configured, cache administration requests are executed exactly for clients whose address is in one of the listed addresses or networks, and others are refused without any effect; an unusable list is rejected at start.",
  "inputs configurations", "Every list of IPv4/IPv6 addresses and networks and every client address and forwarding header layout.",
  "The tests check a few IPv4 addresses.",
  [("filter", FIL + ":NewIPFilter, IsAllowed, originalIP"), ("wrapped routes", API + ":createRoutes")], observe=["admin API"],
  technique="runtime monitoring: generated lists and addresses, independent membership oracle, effect monitor")

P("C29", "Admin API calls do what they say",
  "Listing, purging a key, invalidating a pattern, flushing and updating the configuration have exactly the stated effect on the cache the proxy uses, take effect before the answer is sent (a removal even if the caller does not wait for it), and malformed calls have no effect and are answered with an error.",
  "inputs histories", "Every sequence of admin calls and proxied requests.",
  "The tests check status codes of a few calls.",
  [("handlers", HND + ":CacheKeysHandler, CacheKeyPurgeHandler, CacheInvalidateHandler, CacheFlushHandler, CacheConfigHandler, CacheConfigUpdateHandler")],
  observe=["admin API", "proxy transport"], technique="runtime monitoring: end-to-end histories against a reference model of the cache content")

P("C30", "Configuration reload is atomic and survives bad configurations",
  "At any time exactly one complete configuration is in force, the old or the new one and never a mixture or default, and requests starting after a reload follow the new one; an unreadable, invalid or partial new configuration leaves the old one in force and later corrections are picked up.",
  "histories schedules configurations", "Every sequence of valid and invalid configuration files and concurrent traffic.",
  "The tests load one file.",
  [("loading", LDR + ":Load, Watch"), ("applying", KCH + ":reloadConfig, applyConfig"), ("swap", HC + ":UpdateConfig")], observe=["loader API", "proxy transport"],
  technique="runtime monitoring: reload histories with concurrent traffic, configuration-consistency oracle")

P("C31", "Configurations are validated and defaults are safe",
  "Loading keeps every configured value and supplies the documented defaults (including strict caching) for absent ones; a configuration which is incomplete, ill-typed, has unknown settings or an unusable upstream, listener or provider is refused with an error instead of crashing or being applied in part.",
  "inputs configurations", "Every configuration with any subset of settings present, absent or malformed.",
  "The tests load the sample configuration.",
  [("validation", CFG + ":Validate"), ("loading", LDR + ":NewLoader, Load"), ("cache defaults", IM + ":Sanitize")], observe=["loader API"],
  technique="runtime monitoring: generated configurations, field-by-field oracle")

P("C32", "Purges and configuration updates reach every cluster peer",
  "With clustering on and a layered cache, a PURGE received by one node is delivered to every ready peer with its pattern and client, at least once despite transient peer failures and without loops, as is every cache configuration update; unreachable, stalled or odd peers neither crash the node nor keep the others from being notified.",
  "fault_sequences configurations schedules", "Every peer set (addresses, ports, families) and sequence of peer failures.",
  "The tests list endpoints of one fake service.",
  [("endpoints", CLU + ":Endpoints"), ("broadcast", CLU + ":Broadcast"), ("retry", RQ + ":process, retry")], observe=["peer connections", "cluster API"],
  technique="runtime monitoring: simulated cluster with fault injection, delivery oracle")

P("C33", "Shutdown lets requests in progress finish",
  "After a stop was requested, requests already accepted are answered completely (up to the configured grace period), new connections are refused, and the process then ends; slow upstream answers within the timeouts are delivered.",
  "schedules crash_points", "Every moment of the stop relative to the progress of requests.",
  "No test stops a server with requests in progress.",
  [("shutdown", LIS + ":Shutdown, Stop"), ("server stop", SRV + ":Start, Await, Stop, Shutdown")], observe=["client connection"],
  technique="runtime monitoring: real listeners, stop at generated moments, completeness oracle")

P("C34", "No data races",
  "No two unsynchronised accesses to shared memory happen, whatever requests, admin calls, configuration reloads, expirations and cluster broadcasts run concurrently.",
  "schedules", "Every interleaving of all entry points.",
  "The tests are mostly sequential and run without the race detector.",
  [("locks of the in-memory cache", IM + ":mu"), ("config swap", HC + ":loadConfig"), ("coalescer lock", CO + ":requestCoalescer"), ("loader lock", LDR + ":Load")],
  observe=["memory accesses"], technique="Go race detector (ThreadSanitizer) under concurrent stress of the whole system")

P("C35", "Metrics count what happened",
  "A request answered from the cache without asking upstream counts exactly once, as a hit; one forwarded because the cache holds nothing usable for it counts exactly once, as a miss; exempt, revalidated and shared requests count as neither, so the counters add up with the traffic.",
  "histories schedules", "Every sequence and interleaving of hits, misses, validations, bypasses and failures.",
  "No test reads the counters.",
  [("counters", MW + ":newMetrics, RoundTrip")], observe=["metrics registry", "client and upstream traffic"],
  technique="runtime monitoring: conservation oracle between exported counters and observed traffic")

P("C36", "Resources stay bounded under any traffic",
  "After any amount of traffic ended, no goroutine, connection, pending call or bookkeeping entry of it remains; memory and goroutines in use depend on the configured limits and the load in progress, not on how many requests were ever served.",
  "histories fault_sequences", "Every long history of requests with failures, cancellations, evictions and purges.",
  "The tests are too short to show leaks.",
  [("expiry bookkeeping", IM + ":onEvict"), ("pending calls", CO + ":RoundTrip"), ("upstream bodies", MW + ":RoundTrip")], observe=["goroutine dumps", "heap", "upstream connections"],
  technique="runtime monitoring: goroutine/heap/connection census over long histories")

P("C37", "The debug header tells hits from misses",
  "If enabled, the configured debug header of each response is HIT on every response that came from the cache (served from it, or validated and then served from it) and on no other; if disabled or renamed, responses stored before carry no field of the old name.",
  "inputs configurations histories", "Every configuration and request history.",
  "The tests check single lookups.",
  [("hit mark", MW + ":handleCacheHit"), ("name", HC + ":XCacheHeader, MarkCachedResponses")], observe=OBS_DP, technique=HIST)

P("C38", "The assembled server keeps its guarantees under concurrent use",
  "With the whole server running (any backend, any upstreams) and clients, writers, purges and configuration reloads going on at once, every complete response a client gets is one upstream gave for that very resource and variant, not past its lifetime, not from before a confirmed purge or write, never reused if private, no-store, excluded or made for credentials; the server stays available, and what it just fetched it serves from the cache.",
  "histories schedules fault_sequences", "Every interleaving of clients, writers, operators and upstream failures.",
  "The tests exercise the parts one at a time, with no concurrent traffic and no running process.",
  [("transport", MW + ":RoundTrip"), ("providers", IM + ":Get, Set, Purge"), ("admin", API + ":CacheInvalidateHandler"), ("reload", LDR + ":Load")],
  observe=["client connection", "upstream connection", "admin API"], technique="runtime monitoring: recorded histories of a running process, judged offline against upstream's own log")

P("C39", "Hostile clients and upstreams cannot crash or confuse the server",
  "Whatever bytes a client sends, whatever field values clients, admins and upstreams use and whatever configuration update is posted, kache neither crashes nor hangs nor panics; every well-formed request gets the answer to that very request with upstream's status; what is inside a body or a field never becomes a request or field of its own; endless heads are refused and connections whose message is never completed are ended; malformed messages do no harm to anyone else.",
  "inputs histories", "Every byte sequence on a connection and every field value.",
  "The tests send a few well-formed requests.",
  [("listeners", LIS + ":NewListeners, Start"), ("proxy", SRV + ":NewServer, Director"), ("request parsing", CC + ":ParseCacheControl, ParseResponseCacheControl"), ("admin", API + ":CacheConfigUpdateHandler")],
  observe=["client connection", "upstream connection", "process and its log"], technique="runtime monitoring: generated hostile traffic against the running process, correlation and liveness oracle")

P("C40", "The program starts completely or not at all, and exposes what is configured",
  "With unusable options or configuration, an occupied or invalid address or an unreachable backend, kache ends at once with a message and a non-zero code instead of panicking or running in part. Otherwise every configured listener serves the same content from the same cache and nothing of the administration, and the admin port has exactly the configured routes: version and metrics, cache administration below the configured prefix, debugging only if switched on. The log consists of complete records of the configured level, format and place, and a stop ends the program with code 0.",
  "inputs configurations", "Every command line and configuration, every occupied address.",
  "The tests never run the program.",
  [("start", "cmd/kache/main.go:main"), ("modules", KCH + ":setupModules, Run"), ("listeners", LIS + ":NewListeners, Start"), ("routes", API + ":New, createRoutes"), ("logging", "pkg/utils/logger/logger.go:InitLogger"), ("watching", LDR + ":Watch")],
  observe=["process exit and output", "listeners", "admin API", "log file"], technique="runtime monitoring: generated starts of the program, observed from outside against the configuration")

P("C41", "Nodes that share a redis serve each other's responses, and only current ones",
  "What one node stored every node sharing the redis serves identically without asking upstream, across crashes and restarts of nodes; what was purged, flushed, overwritten or replaced through any node is no longer served by any (with a layered cache: not by that node, and by others only from their own local copy). Only the configured database is touched, and a node that dies at any moment leaves nothing behind that is served in part.",
  "histories crash_points configurations", "Every history of requests, writes, purges, flushes, crashes and restarts over the nodes.",
  "The tests run one node in one process, without stopping it.",
  [("shared storage", RC + ":Fetch, Store, Purge, Flush, Keys"), ("layered", CD + ":Get, Set, Delete"), ("key", KEY + ":String"), ("entry", ENT + ":Encode")],
  observe=["client connection of each node", "upstream connection", "redis content"], technique="runtime monitoring: generated histories over several running processes, lock-step reference of the shared cache")
