"""The properties, written once; bin/mkmeta turns them into properties.jsonl and MANIFEST.json."""
P = []


def p(id, title, st, over, qtext, why, files, mech, tech="", note="", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=st, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  tech=tech, note=note, observe=observe, state=state or []))


TV = "TLA+ specification checked with TLC; its behaviours replayed into, and recorded traces of, the real code validated against it"

p("S01", "What was put into the cache is what a read returns",
  "Every envelope stored for a source, and not evicted, is returned by a read that covers its timestamp, unchanged, exactly once, and under no other source. Envelopes that share a timestamp are all kept apart; nothing that was never stored is returned.",
  ["histories", "inputs"], "all sequences of stores over any sources, timestamps (including equal, negative, out-of-order ones) and envelope kinds, and every read after each",
  "The unit tests store a handful of envelopes with distinct increasing timestamps; collisions, re-sends and interleaved sources need histories.",
  ["internal/cache/store/store.go"], [("Put and Get over the per-source tree", "internal/cache/store/store.go")],
  note="LogStore.tla explored exhaustively for small constants (Sorted, NoDup, Disjoint, Conserved); generated and random histories run through the real store, every read compared with the specification's.")
p("S02", "Reads honour range, order, kind and name filters",
  "A read returns exactly the source's envelopes with start <= timestamp < end whose kind is among the requested ones (all, if none is named), in ascending order or, if asked, descending. A name filter keeps exactly the counters, timers and gauges whose name matches, reduces a gauge to its matching metrics, and leaves the stored envelope as it was.",
  ["histories", "inputs"], "all stored histories and all combinations of range bounds, direction, kinds and name filter",
  "Tests use one history per option and never combine options, equal timestamps or bounds that fall on stored timestamps.",
  ["internal/cache/store/store.go"], [("range traversal, type and name filters", "internal/cache/store/store.go")],
  note="Every read in generated and random histories must equal LogStore.tla's Read for the same arguments.")
p("S03", "Limited reads return the right end and split no timestamp",
  "A read limited to n returns the n oldest matching envelopes (newest, if descending), completed with all others that share the last one's timestamp, and nothing else. Paging through a range by continuing just after the last timestamp therefore yields every matching envelope exactly once.",
  ["histories", "inputs"], "all stored histories with any multiplicity of timestamps, all limits and both directions",
  "Tests use distinct timestamps, where splitting never shows.",
  ["internal/cache/store/store.go"], [("limit handling in the traversal", "internal/cache/store/store.go")],
  note="Pages is an invariant of LogStore.tla (TLC); the real store's limited reads must equal the specification's, page by page.")
p("S04", "Eviction removes the oldest, exactly, and is accounted for",
  "A source never holds more than the per-source maximum, and what it loses when full is its oldest envelope. A prune of n removes the n globally oldest envelopes and nothing else; every removed envelope is counted as expired, and the counters for ingress, egress, expired, stored count and cache period agree with what happened.",
  ["histories", "inputs"], "all histories of stores and prunes over several sources, all caps and prune quantities",
  "Tests prune once from one arrangement; which envelopes survive depends on interleaving of sources, ties and earlier prunes.",
  ["internal/cache/store/store.go", "internal/cache/store/prune_consultant.go"], [("truncate with an expiration heap", "internal/cache/store/store.go")],
  note="PruneOldest is an action property of LogStore.tla; after each step of a history the real store's whole contents and metrics must match. Ties between sources at the cut are left open.")
p("S05", "Meta describes exactly what is stored",
  "Meta lists exactly the sources that hold at least one envelope, each with its true count, the number expired, its oldest stored timestamp and its newest timestamp. Meta of a source changes only through stores to it and evictions from it.",
  ["histories"], "all histories of stores, evictions and prunes",
  "Tests look at meta after one scripted sequence; re-appearing sources and out-of-order stores are not sampled.",
  ["internal/cache/store/store.go"], [("Meta and the per-source counters", "internal/cache/store/store.go")],
  note="As S04, observing meta after each step.")
p("S06", "Concurrent stores, reads, prunes and meta lose and corrupt nothing",
  "Under any interleaving of concurrent stores, reads, meta requests and prunes, nothing crashes, every read sees a state that some sequential order of the operations explains, and no envelope whose store has returned is lost other than by eviction.",
  ["schedules"], "all interleavings of concurrent operations, including a prune that empties a source while it is being stored to",
  "Tests run with one fixed schedule; the race window is a few instructions wide.",
  ["internal/cache/store/store.go"], [("per-source locks, the source map and the prune loop", "internal/cache/store/store.go")],
  note="LogStoreConc.tla models the lock protocol step by step (NoLoss, NoCrash; a weakened protocol is rejected); real concurrent histories, steered into the window by blocking metric callbacks, are checked for linearizability against LogStore.tla.")
p("R01", "Read requests are validated and defaulted as documented",
  "A read with a start after a non-zero end, a limit above 1000 or below 0, or a name filter that is no regular expression is refused; any other is served with limit 100 if none is given and the current time as end if none is given. The kind ANY adds no restriction. Meta gives each source its own information.",
  ["inputs"], "all read requests", "Tests sample one request per rule, none at the boundaries or combined.",
  ["internal/routing/local_store_reader.go"], [("request checks and defaults", "internal/routing/local_store_reader.go")],
  note="LocalReader.tla decides for each generated request what the store must be asked; the real reader is run over all of them.")
p("C01", "Every ingress envelope reaches exactly the nodes that own its source",
  "An ingress request sends each envelope, in order, once to every node its source is routed to and to no other, marked so that the receiver does not route it again. A request already marked stays on the receiving node; failure of one node does not keep the others from being sent to.",
  ["inputs", "histories", "fault_sequences"], "all batches, routing tables and combinations of failing nodes", "Tests use two nodes, one envelope each and one failure.",
  ["internal/routing/ingress_reverse_proxy.go"], [("grouping by node and forwarding", "internal/routing/ingress_reverse_proxy.go")],
  note="Ingress.tla; what the fake nodes received must be the specification's delivery for the batch.")
p("C02", "Egress goes to an owner; meta covers the cluster",
  "A read is answered by one node that owns the source, the local one if it does, and fails as unavailable if there is none. Meta is the union of the local meta of all reachable nodes, fails only if none is, and an answer is at most one cache period old.",
  ["inputs", "histories", "fault_sequences"], "all routing tables, node failures and request sequences", "Tests use one remote and one local node.",
  ["internal/routing/egress_reverse_proxy.go"], [("node choice, meta merge and meta cache", "internal/routing/egress_reverse_proxy.go")],
  note="Egress.tla; each observed call to a fake node and each answer must be allowed by it.")
p("C03", "A source is routed to exactly the nodes whose ranges hold its hash",
  "After ranges are set, a source is routed to exactly the nodes with a range that includes its hash, bounds included; a later set replaces the table entirely, and a lookup never sees a mixture of two tables. A node whose ranges overlap is named once. A static table divides the hash space evenly among its nodes.",
  ["inputs", "histories", "schedules"], "all tables (overlapping, adjacent, extreme ranges), hashes and concurrent lookups", "Tests use three disjoint ranges.",
  ["internal/routing/routing_table.go", "internal/routing/static_lookup.go"], [("SetRanges and Lookup", "internal/routing/routing_table.go")],
  note="RoutingTable.tla with exact 64-bit arithmetic by limbs; lookups at and around every bound.")
p("C04", "A node remembers the ranges it was given",
  "A node lists exactly the ranges that were added and not removed since, and hands a set table to its router unchanged. Listing while ranges are being changed never corrupts what is listed or kept.",
  ["histories", "schedules"], "all histories of add, remove, list and set, also concurrent ones", "Tests add two ranges and remove one.",
  ["internal/routing/orchestrator.go"], [("the agent's list of ranges", "internal/routing/orchestrator.go")],
  note="Agent.tla (a bag of ranges); recorded histories must be behaviours of it.")
p("C05", "The scheduler spreads the whole hash space over the live nodes",
  "The ranges handed out are disjoint, cover every hash, and are each assigned to as many nodes as the replication factor asks for; every node is told the same table, the actual assignment. After nodes fail, recover or forget their ranges the assignment is restored within a few rounds, and a scheduler that is not leader changes nothing.",
  ["configurations", "histories", "fault_sequences"], "all node counts, range counts, replication factors, leadership changes and node failures", "Tests run two spies without failures.",
  ["internal/scheduler/scheduler.go"], [("range arithmetic, orchestration, table distribution", "internal/scheduler/scheduler.go")],
  note="Scheduler.tla; note that the orchestrator library is not in this sandbox and is replaced by a stand-in, so what is decided is this repository's use of it.")
p("I01", "Batched forwarding delivers each envelope once, in order, or counts it lost",
  "Envelopes given to a peer's forwarder are sent on in order, none twice, in batches of at most the configured size and without waiting much longer than the batch interval, marked as local. Those that do not fit the buffer are counted as dropped; a failing send loses at most its own batch.",
  ["histories", "schedules", "fault_sequences"], "all arrival patterns, batch sizes and failing sends", "Tests send a few envelopes and count one drop.",
  ["internal/routing/batched_ingress_client.go"], [("buffer, batcher and writer", "internal/routing/batched_ingress_client.go")],
  note="Batcher.tla; batches observed by a fake peer must be its behaviour. go-batching and go-diodes are stand-ins here.")
p("I02", "The nozzle forwards what the stream brings",
  "The nozzle asks the stream for exactly the configured shard and selectors with preferred tags, and forwards every envelope received to the cache once, batched in stream order, unless a send fails or buffers overflow; its counters agree with what it received, delivered and failed to deliver.",
  ["histories", "schedules", "fault_sequences"], "all stream contents, selector configurations and send failures", "Tests stream one constant envelope.",
  ["internal/nozzle/nozzle.go"], [("reader, batcher and writers", "internal/nozzle/nozzle.go")],
  note="Nozzle.tla; requests seen by a fake stream and a fake cache must be its behaviour.")
p("I03", "Syslog messages become the envelopes they describe",
  "Every well-formed message on any connection is turned into the envelope it describes (source, instance, time, log or metric, severity) and stored once, in connection order; a malformed one, or one without application or time, is counted invalid and affects nothing else. A connection is closed when, and only when, it stayed silent for the idle timeout. No input makes the server stop.",
  ["inputs", "histories"], "all byte streams over any number of connections", "Tests send one well-formed message of each kind and one broken one.",
  ["internal/syslog/server.go"], [("message conversion", "internal/syslog/server.go")],
  note="Syslog.tla; the RFC 5424 parser library is a stand-in here, so what is decided is this repository's use of its results.")
p("K01", "Walking a source visits every envelope once, in order",
  "A walk hands its visitor every envelope in its range exactly once in timestamp order, reading on from just after the last one seen, never past the end time; it stops when the visitor, the end of the range, the context or the backoff says so, and not before. Envelopes too young to be settled are left for a later read, so that late arrivals are not skipped.",
  ["histories", "fault_sequences", "schedules"], "all answers a server can give, errors, end times, limits, visitor decisions and cancellations", "Tests script a reader for one path each.",
  ["pkg/client/walk.go"], [("Walk and BuildWalker", "pkg/client/walk.go")],
  note="Walk.tla, embedded in WalkWorld.tla (a store with late arrivals) for the exactly-once result; generated walks replayed and validated call by call.")
p("K02", "Windows cover time without gaps or overlap",
  "Successive windows have the configured width and each begins exactly one interval after the previous one began, whether or not it brought data. Every window is walked (within one interval and the caller's context) and then shown, empty or not, exactly as it was walked, until the visitor says stop.",
  ["histories", "fault_sequences"], "all start times, widths, intervals, window contents and visitor decisions", "Tests look at two windows that hold the same envelope.",
  ["pkg/client/window.go"], [("Window and BuildWalker", "pkg/client/window.go")],
  note="Window.tla (NoGap); generated rounds replayed and validated; BuildWalker's windows compared with the store behind it.")
p("K03", "A client call asks for what was requested and reports what the server said",
  "Over HTTP and gRPC alike, a call carries exactly the caller's arguments to the right endpoint of the server's version, returns exactly what the server answered, returns an error and no value for any failure (bad status, broken or malformed body, lost connection, ended context), releases every response and never crashes.",
  ["inputs", "fault_sequences"], "all calls, option combinations, source names and server answers", "Tests cover one good answer and a few failures per call.",
  ["pkg/client/client.go"], [("request building, version discovery and decoding", "pkg/client/client.go")],
  note="Client.tla; every status and body class at every step is generated and replayed; arguments and values are random.")
p("K04", "Every authenticated request carries a current token",
  "No request goes out without a token; the token is fetched when there is none and after an answer that refuses it, and never a token known to be refused is used again. Concurrent requests share tokens without data races, and failures to obtain one are returned to the caller.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent requests with token refusals and token-server failures", "Tests run requests one after another.",
  ["pkg/client/oauth2_http_client.go"], [("token cache and refresh", "pkg/client/oauth2_http_client.go")],
  note="OAuth.tla with three concurrent calls (NeverBare, NeverStale); a torn design is rejected; real runs under the race detector validated.")
p("A01", "Nobody reads what they are not authorized to",
  "Through the authenticating proxy, apart from asking for its version, a request is passed on only with a valid token, and for non-administrators only for sources the token is authorized for: reads by source, queries rewritten to authorized sources only, and meta filtered. Anything else is refused without reaching the cache, and administrators see everything.",
  ["inputs", "histories", "fault_sequences"], "all requests, tokens, permission sets, related sources and failures of the services consulted", "Tests check one refusal per rule.",
  ["internal/auth/cf_auth_middleware.go", "internal/cfauthproxy/cf_auth_proxy.go"], [("per-endpoint authorization", "internal/auth/cf_auth_middleware.go")],
  note="AuthProxy.tla; which requests reach the cache, for which sources and with which arguments is decided for each generated request, with the real gateway behind the proxy, and for the built cf-auth-proxy program with fake UAA, controller and gateway.")
p("A02", "Only genuine, current tokens are accepted",
  "A token is accepted if and only if it is signed, by the expected algorithm, with a key the identity server published when last asked, and has not expired; administrator rights come from its scopes only. Keys are asked for again when one is unknown or a signature does not fit, at most once per refresh interval even by concurrent readers; withdrawn ones are forgotten, failed answers forget none, and no token or answer makes the reader crash or leak.",
  ["inputs", "histories", "fault_sequences"], "all tokens, key rotations and identity-server failures", "Tests use a handful of tokens and one rotation.",
  ["internal/auth/uaa_client.go"], [("key store, refresh throttle and token checks", "internal/auth/uaa_client.go")],
  note="Uaa.tla; real RSA tokens and key rotations replayed. The JWT library is a stand-in here.")
p("A03", "Authorization answers follow the cloud controller",
  "A source is authorized for a token exactly if the controller's lists of applications and services for that very token, read over all their pages at most one cache period ago, hold it; an error yields no authorization. Misses one after another ask again at most as often as the retry limit within a period, hits never. Application names resolve to exactly the sources listed under them, and to none if that list cannot be read whole.",
  ["histories", "fault_sequences", "schedules"], "all controller answers, page structures, errors and request sequences", "Tests cover two pages and single errors.",
  ["internal/auth/capi_client.go"], [("paginated lists and token cache", "internal/auth/capi_client.go")],
  note="Capi.tla; each request observed at a fake controller and each verdict must be allowed.")
p("A04", "Every request through the proxy leaves one faithful access-log line",
  "Each request yields exactly one line, written before it is served, with its time, method, path (escaped as in a URL) and query, request id, first forwarded or peer address and the server's address; no value can forge another line. A failing log never stops the request.",
  ["inputs"], "all requests and header values", "Tests check a few fixed lines.",
  ["internal/auth/access_log.go", "internal/auth/access_middleware.go"], [("line template and middleware", "internal/auth/access_log.go")],
  note="AccessLog.tla; fields read back from the line must be the request's.")
p("Q01", "Query results reflect the stored samples",
  "A query sees exactly the counters, gauges and timers of the sources it names whose sanitized name and labels match as written (=, !=, =~, !~; a missing label is the same as an empty one), with their values and times, one series per distinct set of labels. A query that names no source in a selector, whose reads fail, or that cannot be answered fails as a whole rather than answering from partial data; no query stops or hangs the cache.",
  ["inputs", "histories", "fault_sequences"], "all selectors, stored envelopes and read failures", "Tests use a few selectors over fixed envelopes.",
  ["internal/promql/promql.go"], [("selection, series building and result conversion", "internal/promql/promql.go"), ("times and steps", "internal/promql/parsing.go")],
  note="PromQL.tla says which samples are seen in which series at which time; selectors, stores and faults generated by TLC, and storms of random queries, run against the real code with the Prometheus engine. Judged: selectors, ranges, offsets, or; functions are the library's.")
p("Q02", "Queries are rewritten to exactly the permitted sources",
  "The sources extracted from a query are exactly those its selectors name; rewriting replaces each named source by exactly its given set everywhere and changes nothing else, so that the rewritten query names exactly the permitted sources. Times, durations and steps are read as documented or refused.",
  ["inputs"], "all queries and replacement sets", "Tests rewrite three queries.",
  ["internal/promql/promql.go", "internal/promql/parsing.go"], [("source extraction and replacement", "internal/promql/promql.go")],
  note="SourceIds.tla; whole queries, not only selectors, generated by it and read back with the Prometheus parser. Source ids with | in them or not fit as a regular expression cannot be listed and are left out.")
p("Q03", "A query's reads are complete or fail",
  "Reading a source for a query returns every envelope in the range, however many pages and retries it takes, or fails; it never presents a part as the whole.",
  ["histories", "fault_sequences"], "all page structures, transient and lasting read errors and context ends", "Tests read one page.",
  ["internal/promql/data_reader/walking_data_reader.go"], [("walk-based reader", "internal/promql/data_reader/walking_data_reader.go")],
  note="TraceReader.tla over Walk.tla; injected faults at every read.")
p("Q04", "Query results survive the trip through JSON",
  "A query result is encoded as one Prometheus-style JSON document per result that carries every series, label, time (to the millisecond) and value, arrays where arrays belong even when empty; decoding an encoded result gives it back, malformed documents are refused, and all other messages pass through the given encoder.",
  ["inputs"], "all results and all documents", "Tests encode and decode a fixed result per kind.",
  ["pkg/marshaler/marshaler.go"], [("assembling and disassembling results", "pkg/marshaler/marshaler.go")],
  note="PromJson.tla defines the document of a result (TLC: decoding inverts encoding over all generated shapes); real encodings and decodings must equal it.")
p("G01", "The HTTP gateway is a faithful door to the gRPC API",
  "Each HTTP request reaches the cache as the gRPC request it spells, with the source of the path and no other, and the answer or the error comes back complete under the right status and format; malformed requests are refused without reaching the cache. Nothing a request contains changes what another request sees.",
  ["inputs", "histories", "fault_sequences"], "all requests, parameters and gRPC outcomes", "Tests send one request per endpoint.",
  ["internal/gateway/gateway.go", "pkg/rpc/logcache_v1/egress.pb.gw.go", "pkg/rpc/logcache_v1/promql.pb.gw.go", "cmd/gateway/main.go"], [("HTTP to gRPC mapping and error bodies", "internal/gateway/gateway.go")],
  note="Gateway.tla; generated requests sent over TLS to the real gateway in front of a fake cache.")
p("B01", "The reliability probe measures what it says",
  "The probe emits one test metric per interval on interval boundaries, asks for exactly the window it measures, and reports received over expected emissions for every path that could be measured and nothing for one that could not; it stays silent while the machine is too young. A failing send is retried, and no configuration makes it crash.",
  ["histories", "fault_sequences", "configurations"], "all sequences of send and query outcomes and all configurations", "Tests cover one window and two outcomes.",
  ["internal/blackbox/blackbox.go", "cmd/blackbox/main.go"], [("emission, calculation and reporting", "internal/blackbox/blackbox.go")],
  note="Blackbox.tla; functions and the built program run against fake servers, validated event by event.")
p("M01", "The cache prunes as much as the memory limit asks for",
  "When the heap uses more of the memory than the limit, the fraction of entries to prune is the excess share, rounded down and never more than are stored; otherwise nothing is pruned. The reported utilization is the one decided on.",
  ["inputs"], "all heap sizes, totals, limits and entry counts", "Tests check a few round numbers.",
  ["internal/cache/store/prune_consultant.go", "internal/cache/memory_analyzer.go"], [("GetQuantityToPrune", "internal/cache/store/prune_consultant.go")],
  note="Prune.tla with exact integer arithmetic; the memory library is a stand-in.")
p("E01", "Written anywhere, readable everywhere",
  "In a running cluster an envelope sent to any node, by whoever or through the syslog server, can be read, queried and found in meta through every node, exactly once, as routed by the tables in force (set by hand or by schedulers, of which one leads); reads for a source without an owner fail rather than answering empty. A node that is lost or cannot even be dialled costs its own sources only; a node without peers keeps and shows everything itself, told so or not; nodes answer only who shows a certificate of theirs.",
  ["histories", "configurations", "fault_sequences"], "all cluster sizes, tables, entry nodes, node losses and restarts", "Tests run two nodes with one table.",
  ["internal/cache/log_cache.go", "internal/routing", "cmd/log-cache", "cmd/scheduler", "cmd/syslog-server"], [("node wiring", "internal/cache/log_cache.go"), ("the programs", "cmd/log-cache/main.go, cmd/scheduler/main.go, cmd/syslog-server/main.go")],
  note="Cluster.tla; real nodes over TCP, and the built programs with TLS and schedulers, driven through generated histories.")
p("T01", "Internal connections are mutually authenticated TLS",
  "Connections built from a certificate configuration use TLS 1.2 or later (below 1.3 with the listed ciphers only), present the configured certificate, and accept a peer, client or server, only if the configured authority vouches for it (servers: under the expected name); an unusable configuration is an error, never a weaker connection.",
  ["configurations", "inputs"], "all combinations of certificates, authorities, names, versions and ciphers", "Tests use one valid configuration and version and cipher tables.",
  ["internal/tls/tls.go"], [("TLS configuration", "internal/tls/tls.go")],
  note="Tls.tla decides each generated pair of configurations; real handshakes must agree.")
