#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the long statements stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Keyword lookup returns exactly the documents containing every search key",
  "For any set of indexed documents and any query made of tokens and/or labels, the index returns each document that contains all of the query's keys exactly once, no other document, in descending document-id order, and never crashes. "
  "A document-id filter only intersects that set, a count-only query reports the same number without returning documents, and the reported count always equals the number of matches; this is identical for all three index types.",
  ["inputs", "configurations"], "every assignment of keyword sets to documents, every query (tokens x labels x repeated keys x id filter x count-only) and every index type",
  "Index tests look up about a dozen hand-picked queries on one five-document corpus; the posting-list intersection with its early exits depends on the relative order of ids in every list.",
  ["core/indexer.go"], [("Lookup/internalLookup posting-list intersection", "core/indexer.go:Lookup"), ("binary search in a posting list", "core/indexer.go:searchIndex"), ("sorted insertion", "core/indexer.go:AddDocs")],
  ["core.Indexer.Lookup results"])

prop("C02", "Logical queries implement must / should / must-not set semantics",
  "A logical query with at least one positive clause returns exactly once each live document that contains all must keys, at least one should key (if any are given) and none of the must-not keys, where a clause takes its keys from its own expression when given and otherwise, if its flag is set, from the query's keywords. "
  "Documents removed from the index are never returned, document-id filters and count-only behave as for plain queries, and no combination of clauses crashes.",
  ["inputs", "configurations"], "every corpus over a small key alphabet, every combination of flags, expressions, query keywords, id filters and count-only",
  "Only four logical queries on one corpus are tested; the clauses interact (shared keyword fallback, empty clauses, pending removals) so the combinations have to be enumerated.",
  ["core/indexer.go", "types/search_request.go"], [("LogicLookup", "core/indexer.go:LogicLookup"), ("findInMustTable/findInShouldTable/findInNotInTable", "core/indexer.go"), ("unionTable", "core/indexer.go:unionTable"), ("logic dispatch", "core/indexer.go:Lookup")],
  ["core.Indexer.Lookup with a Logic argument"])

prop("C03", "BM25 scores equal the documented formula over the live documents",
  "After pending changes are flushed, the relevance score of every returned document (with a position-keeping index, of those matched with position data) equals the documented smoothed BM25 sum over the query tokens, computed from the live documents only: their number, their average length, the document's own length, and the frequency and document frequency of each token. "
  "Labels contribute nothing, and any history of additions, updates and removals leading to the same live documents yields the same scores.",
  ["histories", "inputs", "configurations"], "every history of add / update / remove / flush up to a depth followed by every query, for the index types that keep frequencies, several K1/B settings",
  "One test checks three scores after three additions; statistics are maintained incrementally through updates, removals and caches, so errors depend on the history.",
  ["core/indexer.go", "types/engine_init_options.go", "types/indexer_init_options.go"], [("BM25 loop", "core/indexer.go:internalLookup"), ("incremental totals", "core/indexer.go:AddDocs/RemoveDocs"), ("live-document counter", "core/indexer.go:AddDocToCache/RemoveDocToCache")],
  ["IndexedDoc.BM25"])

prop("C04", "Token proximity, snippet positions and token positions are optimal and exact",
  "With a position-keeping index whose recorded positions are in ascending order, a matched document whose query tokens all have positions is returned with each token's exact recorded positions, and with a proximity value equal to the minimum over all choices of one position per token of the sum of |P(i+1)-P(i)-len(token i)|; the snippet positions are one such choice achieving that minimum. "
  "A match in which some token has no recorded position is still returned, without position data.",
  ["inputs"], "every ascending position list per token within a small text, up to four tokens of different lengths, including labels and repeated tokens",
  "Tests check a handful of fixed sentences; the value is computed by a dynamic programme that only looks at neighbouring positions, which is right or wrong depending on the interleaving of the position lists.",
  ["core/indexer.go", "types/index.go"], [("dynamic programme and path recovery", "core/indexer.go:computeTokenProximity"), ("position bookkeeping on insert and remove", "core/indexer.go:AddDocs/RemoveDocs")],
  ["IndexedDoc.TokenProximity/TokenSnippetLocs/TokenLocs"])

prop("C05", "After a flush the index reflects exactly the latest version of every document",
  "After any sequence of document additions, updates, removals and forced flushes with any cache size, the flushed index contains for every document exactly the keys of its most recently added version if it was not removed afterwards, and nothing of removed or superseded versions. "
  "Between flushes a removed document is never returned (removing a document whose addition is still waiting in the cache may or may not drop that addition) and a returned document always matches a version that has been added; no sequence crashes, blocks, or prevents a document from being added again later.",
  ["histories", "configurations"], "every sequence of cached/forced additions and removals up to a depth over colliding document ids and versions, every small cache size, every index type (removing a document that is only pending addition is documented as unsupported: either outcome is accepted for that document)",
  "Two tests run one scripted sequence each with a fixed cache size; staging caches, state marks and deferred deletion interact across operations, and the interesting states need several specific steps.",
  ["core/indexer.go"], [("staging and partition of the add cache", "core/indexer.go:AddDocToCache"), ("removal cache", "core/indexer.go:RemoveDocToCache"), ("bulk insertion and de-duplication", "core/indexer.go:AddDocs"), ("bulk deletion", "core/indexer.go:RemoveDocs")],
  ["core.Indexer.Lookup, HasDoc"], [("document state marks", "absent / in index / waiting removal / waiting addition", "core/indexer.go:tableLock.docsState")])

prop("C06", "Ranking keeps scored documents, sorts by score, and cuts the exact window",
  "Given matched documents, ranking returns exactly those that are registered with the ranker and receive a non-empty score vector, each with its own score, content, attribute and fields, ordered lexicographically by descending score vector (ascending when reversed), restricted to the window [offset, offset+max) clipped to the result (no upper limit when max is 0). "
  "The reported total is the number of such documents before the window, in both id-only and full mode, and removed or replaced registrations are never used.",
  ["inputs", "histories", "configurations"], "every small list of matches and score vectors (including ties, different lengths and empty vectors), every offset, maximum, order and mode, after every short history of registrations and removals",
  "Two tests rank three documents; window arithmetic, ties, vectors of different length and dropped documents need enumeration.",
  ["core/ranker.go", "types/search_response.go", "utils/utils.go"], [("Rank/RankDocID/RankDocs", "core/ranker.go"), ("window arithmetic", "core/ranker.go:maxOutput"), ("score order", "types/search_response.go:Less")],
  ["core.Ranker.Rank"])

prop("C07", "A document is searchable by exactly the keys its tokenisation mode defines",
  "For every tokenisation mode, the keys under which a document can be found are exactly the segmenter's tokens and/or the document's split pieces and cumulative prefixes that the mode prescribes, plus the caller's own tokens (in every mode but the one that uses only the segmenter's) and labels, and plus the pinyin expansions when enabled; stop words are never searchable when a segmenter is in use. "
  "Token positions and frequencies reported for caller-supplied tokens are the caller's, those of segmented tokens are the ones in the case-folded text, and a text query is case-folded, segmented or split at spaces, and freed of stop words, so that it finds the document exactly when the document has all the resulting tokens as keys - in particular a text finds the document indexed from it in the modes that segment both the same way.",
  ["inputs", "configurations"], "every text up to a small length over an alphabet of dictionary words, unknown characters, mixed case, separators and stop words, with every mode and every combination of caller tokens and labels",
  "Engine tests index a few fixed sentences with three mode settings; which keys exist depends on mode, separators, stop words and overlaps between text tokens, caller tokens and labels.",
  ["segment.go", "engine.go", "stop_tokens.go"], [("mode dispatch", "segment.go:makeTokensMap/segmenterData"), ("splitting", "segment.go:splitData/defaultTokens/ForSplitData"), ("stop words", "stop_tokens.go"), ("query tokens", "engine.go:Tokens/Segment")],
  ["Engine.Search, Engine.Tokens"])

prop("C08", "Search results do not depend on how the engine is configured",
  "For any indexed corpus and any request, the engine returns the matching documents in score order restricted to the requested window, with the total number of matches and each document's stored content, attribute and fields, regardless of the number of shards, threads and buffers and of id-only versus full mode, for any scoring that depends only on the document (BM25 statistics are kept per shard). "
  "Count-only requests (which count the matches before scoring drops any), unordered, id-filtered, label and logical requests return the corresponding restriction of the same result, window pages tile the full result, and no valid request makes the engine panic or hang.",
  ["configurations", "inputs"], "every combination of shard count, thread count, buffer length and output mode with every combination of request options over a corpus with distinct scores",
  "Engine tests use default sharding and one request shape per test; option combinations (for example count-only through the typed search calls, or pages crossing shard boundaries) are not covered.",
  ["engine.go", "indexer_worker.go", "ranker_worker.go", "types/engine_init_options.go"], [("fan-out and merge", "engine.go:Search/RankID/Ranks/NotTimeOut"), ("merged window", "engine.go:maxRankOutput"), ("per-shard window", "ranker_worker.go:rankerRank"), ("unordered path", "indexer_worker.go:orderLess")],
  ["Engine.Search/SearchDoc/SearchID"])

prop("C09", "Flush is a barrier: everything submitted before it is visible after it",
  "When a flush returns, every addition and removal whose call returned before the flush began is reflected in every later search, in full results as well as in counts, under every interleaving of the engine's internal workers. "
  "Documents separated by flushes are ordered: add, flush, remove, flush leaves a document absent and remove, flush, add, flush leaves it present with its new content.",
  ["schedules", "histories"], "every interleaving, up to a bound on scheduler deviations, of the segmenter, indexer and ranker workers with short client histories of index / remove / flush / search, with and without persistence and concurrent clients",
  "Tests call Flush once on an idle multi-core machine, so the windows between the last counter update and the worker that registers scores or stores data are never exercised.",
  ["engine.go", "indexer_worker.go", "ranker_worker.go", "segment.go", "store_worker.go"], [("Flush waits on request/completion counters", "engine.go:Flush"), ("completion counters", "indexer_worker.go, store_worker.go"), ("forced update message through every shard", "segment.go:segmenterWorker")],
  ["Engine.Search after Engine.Flush"])

prop("C10", "The engine never deadlocks, livelocks or crashes under concurrent use",
  "Concurrent indexing, removal, search and flush calls, with or without persistence and with any positive channel buffer sizes, always all return: no interleaving blocks forever, spins forever, panics or terminates the process. "
  "The index structure shared by the workers has the same guarantee when used directly from several goroutines.",
  ["schedules", "configurations"], "every interleaving up to a bound on scheduler deviations of two to three concurrent clients with one to three operations each, with minimal buffers and caches",
  "Tests are single-client; lock-order inversions and full-channel cycles need two workers stopped at particular points.",
  ["core/indexer.go", "engine.go", "indexer_worker.go", "ranker_worker.go", "segment.go", "store_worker.go"], [("lock order of the add cache, table and remove cache", "core/indexer.go:AddDocToCache/RemoveDocToCache"), ("channel topology", "engine.go:Init"), ("flush spin loops", "engine.go:Flush")],
  ["termination of every call"])

prop("C11", "Every search observes complete, current-or-newer documents under concurrency",
  "A search that runs concurrently with additions, updates, removals and other searches returns every document that was flushed before it started and is not being changed, at most once, with its own content, score and match data, and never returns a document that was removed and flushed before it started. "
  "A document being updated is returned, if at all, only as a match for a version that was submitted, and concurrent searches never receive each other's results.",
  ["schedules", "histories"], "every interleaving up to a bound on scheduler deviations of one to two searching clients with one mutating client",
  "Tests never search while mutating; the result depends on which worker runs between lookup, ranking and merging.",
  ["engine.go", "indexer_worker.go", "ranker_worker.go", "core/indexer.go", "core/ranker.go"], [("reader/writer locks", "core/indexer.go, core/ranker.go"), ("per-request reply channel", "engine.go:Search")],
  ["Engine.Search results"])

prop("C12", "Operations documented as thread safe are free of data races",
  "Concurrent use of the operations documented as thread safe (index, remove, flush, search, document-existence queries and counters), by the caller and by the engine's own workers, never accesses the same memory without synchronisation. "
  "The same holds for concurrent use of one index or one ranker instance.",
  ["schedules"], "every interleaving, up to a bound on scheduler deviations, of small concurrent clients, with accesses ordered only by the program's own synchronisation",
  "The tests are not run under a race detector and are single-client; a race is only reported on an execution in which the two accesses are not accidentally ordered.",
  ["engine.go", "core/indexer.go", "core/ranker.go", "counters.go", "riot.go"], [("table, cache and ranker locks", "core/indexer.go, core/ranker.go"), ("atomic counters", "engine.go, counters.go")],
  ["race reports on explored schedules"])

prop("C13", "A search timeout bounds the wait and yields a correct partial result",
  "A search with a positive timeout (in milliseconds) always returns, as soon as the timeout has elapsed if not before: either complete, with the timeout mark clear and the same result as without a timeout, or, not before the timeout, with the timeout mark set and a correctly scored and ordered subset of that result. "
  "A search that timed out leaves the engine able to answer all later searches and flushes, and a non-positive timeout means no limit.",
  ["schedules", "configurations"], "every point at which the timer can fire relative to the shards' replies, for one to three shards, both output modes, followed by further searches",
  "One test uses a generous timeout that never fires; partial results depend on the order of timer and shard replies.",
  ["engine.go"], [("timed collection loop", "engine.go:TimeOut"), ("buffered reply channel", "engine.go:Search")],
  ["SearchResp.Timeout, Docs, NumDocs"])

prop("C14", "Every storage backend behaves like a persistent map",
  "For every bundled storage backend, any sequence of set, get, has, delete, iterate, close and reopen behaves as a map from non-empty byte keys (outside the backend's own reserved prefix) to byte values: get and iterate return exactly the latest values, a missing key gives no value, iteration visits each live key once and stops with the callback's error, has is true exactly for live keys, and closing and reopening changes nothing. "
  "All backends give the same answers for the same sequence, values handed out stay valid, and the backend is selected by explicit name, else by the environment, else the default, with unknown names reported as errors.",
  ["histories", "configurations"], "every operation sequence up to a depth over colliding keys and values (including empty and binary values) with a reopen at every point, on each backend",
  "The store tests run one linear script per backend and only partly check the results.",
  ["store/store.go", "store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go"], [("backend adapters", "store/*.go"), ("selection", "store/store.go:OpenStore")],
  ["store.Store methods"])

prop("C15", "A closed and reopened engine returns the same results",
  "With persistence on, after any history of additions, updates and removals and an orderly close, an engine reopened on the same folder holds exactly the same documents and answers every query identically (content, attributes, fields, labels, tokens and counts), for any interleaving of the engine's workers and any number of storage shards (changes of the same document that are not separated by a flush may take effect in either order). "
  "Reopening repeatedly, or continuing to modify after a reopen, preserves this, and the number of indexed documents reported after recovery equals the number stored.",
  ["histories", "schedules", "configurations"], "every short history with a close and reopen at every point, every interleaving of storage workers up to a bound, one to three storage shards, gob-encodable document data",
  "One test stores and reloads once; deletions travel to the database on their own goroutine and updates on another, so the final store content depends on the schedule.",
  ["engine.go", "store_worker.go", "riot.go"], [("store writes", "store_worker.go:storeIndexDoc"), ("store deletes", "store_worker.go:storeRemoveDoc, engine.go:RemoveDoc"), ("recovery", "store_worker.go:storeInit, engine.go:Store"), ("flush/close wait for storage", "engine.go:Flush/Close")],
  ["Engine.Search, GetDBAllIds, NumIndexed after reopen"])

prop("C16", "A crash or storage fault loses only unflushed changes; recovery still works",
  "If the process stops between any two storage operations, or a stored value is damaged so that it cannot be read, or a storage write fails (or a document cannot be encoded), an engine reopened on the surviving data starts, serves exactly the intact stored documents, and reflects every change that a completed flush covered. "
  "Unreadable entries are skipped without affecting other documents, a failing write neither blocks nor crashes the engine, and a later rewrite of the damaged document makes it durable again.",
  ["crash_points", "fault_sequences", "histories"], "every prefix of the sequence of storage operations of short histories, every single corrupted or truncated value, every single failing write",
  "No test simulates a crash or a storage error.",
  ["engine.go", "store_worker.go"], [("recovery skips undecodable values", "store_worker.go:storeInit"), ("stored counter drives flush", "store_worker.go:storeIndexDoc, engine.go:Flush")],
  ["reopened engine results"])

prop("C17", "The HTTP and gRPC interfaces expose the engine faithfully",
  "A document added over HTTP or gRPC is found after a flush by searches over either interface with its id, content and attributes, survives a restart, and disappears after a delete request; requests with absent optional parts (such as no logical clause, no id filter, no labels) are answered, not crashed on. "
  "A search over either interface returns the engine's matches for the query, logical clauses and id filter, ordered by newest timestamp then id, limited to the requested (non-negative) or configured window, with the length field equal to the number of documents returned.",
  ["inputs", "histories"], "every short sequence of add / delete / search requests over both interfaces and every combination of optional request fields",
  "There are no tests for the network packages.",
  ["net/com/search.go", "net/http/http.go", "net/http/search.go", "net/grpc/grpc.go", "net/grpc/search.go", "net/grpc/grpcc.go"], [("request mapping", "net/http/http.go, net/grpc/grpc.go"), ("shared engine", "net/com/search.go:Searcher"), ("response order and window", "net/http/http.go:Search, net/grpc/search.go:rpcSearch")],
  ["HTTP handlers, gRPC service"])

prop("C18", "Distributed search returns the top results of the union of all nodes",
  "A distributed search over a set of nodes returns the documents every reachable node returns for the request, merged newest first and cut to exactly the requested (or configured) maximum, whatever the order in which the nodes answer and whichever subset of them fails (an unusable answer is a failure of that node only). "
  "Concurrent distributed searches do not see each other's answers.",
  ["schedules", "fault_sequences", "inputs"], "every assignment of small result lists and failures to up to three nodes, every arrival order of the answers, every maximum",
  "There are no tests for the distributed search.",
  ["net/http/dist.go", "net/grpc/search.go"], [("fan-out, collection and merge", "net/http/dist.go:WgDist/WgPost"), ("gRPC fan-out", "net/grpc/search.go:wgGrpc/WgRpc")],
  ["WgDist response"])

prop("C19", "The heartbeat restarts a service exactly when its failures exceed the limit",
  "The heartbeat runs the configured restart command exactly when more than three failed checks (an error or an unhealthy reply) have accumulated since it started or last restarted the service, once per such accumulation, in the configured directory, and keeps checking afterwards. "
  "Healthy replies never cause a restart, and the health endpoint reports the current number of failures.",
  ["fault_sequences", "histories"], "every sequence of healthy, unhealthy and failing replies up to a length covering several restarts, with succeeding and failing restart commands",
  "There are no tests for the heartbeat; its behaviour is a function of the whole sequence of replies.",
  ["net/heartb/heart.go"], [("failure counter and threshold", "net/heartb/heart.go:heart/Grpcc"), ("restart", "net/heartb/heart.go:restart")],
  ["commands run, Health response"])

prop("C20", "The public id-sorting helpers sort every input",
  "The ascending and descending sort helpers for numeric ids permute any input into non-decreasing (respectively non-increasing) order without losing or inventing elements, the stable variants give the same result, and the sortedness predicates are true exactly for ordered inputs.",
  ["inputs"], "every sequence up to a length over a small alphabet, every permutation of small length, and every 0-1 sequence pattern family large enough to reach the large-input pivot, merge and heap paths",
  "The helpers have no tests; the large-input paths only run for inputs beyond dozens of elements.",
  ["core/uint64.go"], [("quick/heap/insertion sort", "core/uint64.go:Asc/Desc"), ("stable merge", "core/uint64.go:StableAsc/StableDesc"), ("predicates", "core/uint64.go:IsSortedAsc/IsSortedDesc")],
  ["function results"])

prop("C21", "The shared document-information registry keeps every registration",
  "The process-wide registries of document information and inverted-index shards keep, for every shard, the last information registered under each key, creating missing shards on demand and never discarding or replacing an existing shard; a document is reported as existing exactly when some shard holds it, and the per-shard totals count the registrations. "
  "This holds when registrations and queries run concurrently.",
  ["histories", "schedules"], "every registration/query sequence up to a depth over two shards and two keys, and every interleaving up to a bound of concurrent registrations",
  "The registry has no tests.",
  ["core/data.go", "types/doc_info.go"], [("registry functions under a lock", "core/data.go")],
  ["core.DocInfoGroup, core.InvertedIndexGroup, core.IsDocExist"])

prop("C22", "Re-indexing a document replaces it everywhere",
  "After a document id is indexed again with different data, its changes being separated by flushes, and the engine is flushed, searches find it only through its newest data, exactly once, with the newest content, attributes and fields, whatever the number of shards; no key that only an older version had finds it, and removing it removes every trace. "
  "Re-indexing with identical data changes nothing.",
  ["histories", "configurations"], "every sequence of index / re-index / remove / flush operations up to a depth over colliding ids and contents, one to three shards, with and without persistence",
  "No engine test re-indexes an id with different content; which shard the new version goes to depends on the data.",
  ["engine.go", "segment.go", "core/indexer.go", "core/ranker.go"], [("shard choice", "engine.go:internalIndexDoc/getShard"), ("update in the index", "core/indexer.go:AddDocToCache")],
  ["Engine.Search"])

prop("C23", "Counters and introspection agree with the history once the engine is flushed",
  "After a flush, the number of indexed documents equals the number of index calls, the number of removals equals the removal calls times the number of shards, the token counter equals the keys added, and a document-existence query is true exactly for documents that were added and not removed since. "
  "With persistence, the store listings and the stored-existence query name exactly those documents with their latest data, and asking never changes the engine.",
  ["histories", "configurations", "schedules"], "every short history of index / remove / flush / query calls, one to three shards, with and without persistence",
  "Tests read one counter once and call the existence query on one document.",
  ["counters.go", "riot.go", "engine.go"], [("counters", "counters.go, indexer_worker.go"), ("HasDoc/HasDocDB/GetDBAllIds/GetDBAllDocs", "riot.go")],
  ["Engine counters and introspection calls"])

prop("C24", "Engines in one process are independent and callers' data stays untouched",
  "Calls on one engine never change the answers, counters or stored data of another engine of the same process, even when both were created from the same options or use the same segmenter, and however the calls of their clients interleave. "
  "Documents, search requests, filters and set options handed to an engine are never modified by it, one request value can be used by several concurrent searches, and an answer that was returned stays as it was whatever happens later.",
  ["histories", "configurations", "schedules"], "every sequence of index / remove / search / reopen calls up to a depth distributed over two engines made from shared or different options, each compared with the engine alone; every interleaving up to a bound of two clients",
  "The tests run one engine at a time and never look at their inputs or at earlier answers again; sharing shows only in a later call on something that looks unrelated.",
  ["engine.go", "segment.go", "core/indexer.go", "core/ranker.go", "core/data.go", "types/engine_init_options.go"], [("options and defaults", "engine.go:Init, types/engine_init_options.go:Init"), ("request handling", "engine.go:Search/Tokens"), ("answer assembly", "core/ranker.go:Rank, core/indexer.go:internalLookup"), ("document intake", "engine.go:internalIndexDoc, segment.go")],
  ["Engine.Search answers, the caller's own values"])

prop("C25", "Concurrent HTTP and gRPC requests are each answered as if they were alone",
  "Requests that run at the same time over the HTTP handlers and the gRPC service of one process do not disturb each other: every request ends, and every search returns exactly the documents that match its own query, clauses, id filter and window, newest first and with its length field right. "
  "A document that other requests are adding, replacing or deleting at that moment may or may not be among them, but is only ever returned with the content and attributes of one of its versions. "
  "Every accepted add and delete takes effect, and is seen by later searches of the same client after a flush and after a restart. Handling requests concurrently causes no data race in the process.",
  ["schedules", "inputs"], "every schedule of two or three concurrent clients, each sending a few add / delete / search / flush requests over either interface, on one or more shards, with and without storage",
  "There are no tests for the network packages, and a test runs few interleavings.",
  ["net/http/http.go", "net/http/search.go", "net/grpc/grpc.go", "net/grpc/search.go", "net/com/search.go"],
  [("handlers sharing one engine", "net/com/search.go:Searcher"), ("per-request answers", "net/http/http.go:Search, net/grpc/search.go:rpcSearch")],
  ["HTTP handlers, gRPC service methods"])

prop("C26", "An engine runs with exactly the options given, and documented defaults otherwise",
  "However an engine is started - Init with any subset of the options, New or NewEngine with zero to three arguments, New with a TOML file, a segmenter handed over with WithGse, InitEngine of the network packages with any configuration, in code or read from a file - it behaves like an engine with the same options written out in full: the same answers, scores, positions, default ranking and window, tokenisation and stop words, the same folder, number of databases and storage backend on disk, and either of the two can reopen the other's folder. "
  "An option that is given is never replaced or lost; one that is missing has its documented default: 8 shards, 8 databases, a frequency index with a cache of 300000 documents, BM25 ranking with k1=2.0 and b=0.75, no window, no storage, leveldb (or the backend named by Riot_Store_Engine), the bundled dictionary, folder riot-index; the constructors and the network configuration use storage, a document-id index and 10 shards and databases instead. "
  "Numbers of workers and buffer sizes never change answers, options of one engine never reach another, and misuse (initialising twice, use before Init, unknown backend, unusable folder, missing stop-word file) is refused.",
  ["configurations", "inputs"], "every combination of given and missing options within each group (search options, workers, storage, tokenisation), every way to start an engine, pairs (thorough: triples) of keys of the configuration file",
  "Tests start engines with a handful of options; an option that is mixed up or lost shows only in a combination nobody tried, often only after a restart.",
  ["types/engine_init_options.go", "types/indexer_init_options.go", "engine.go", "riot.go", "net/com/search.go", "net/com/conf.go", "store/store.go"],
  [("defaults", "types/engine_init_options.go:Init, types/indexer_init_options.go:Init"), ("engine start", "engine.go:initDef/Init/Store/WithGse"), ("constructors", "riot.go:New/NewEngine"), ("network configuration", "net/com/search.go:InitEngine"), ("backend selection", "store/store.go:OpenStore")],
  ["Engine started by any constructor, files on disk"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
