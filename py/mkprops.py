#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that it is easy to review).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("T01", "Point operations behave like an ordered map over arbitrary byte-string keys",
  "A single-threaded sequence of get, put (insert or overwrite), compare-style find and remove on byte-string keys of length 0 to 255 -- including keys that are prefixes of each other, differ only in length or in trailing NUL bytes, or share arbitrarily long prefixes -- always gives exactly the results of an ordered map with the same history. "
  "This holds for every supported tree shape parameter (node widths, search method, prefetching, phantom tracking), and whether an insertion was committed, aborted or repeated after removal.",
  ["inputs", "histories", "configurations"], "all key sets, all operation sequences, all node-width/search configurations",
  "mttest workloads use a handful of key shapes (decimal and 8-byte keys) in one compiled configuration and mostly check only final gets; key shapes that stack layers, collide in a slice, or empty and refill nodes are never enumerated.",
  ["masstree.hh", "masstree_struct.hh", "masstree_key.hh", "masstree_get.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_tcursor.hh", "ksearch.hh", "kpermuter.hh", "stringbag.hh", "btree_leaflink.hh"],
  [("descent and leaf lookup", "masstree_struct.hh node_base::reach_leaf, masstree_get.hh"), ("insertion, layer creation and splits", "masstree_insert.hh, masstree_split.hh"), ("removal, node unlinking, layer collapse", "masstree_remove.hh")],
  ["tcursor/unlocked_tcursor results", "query get/put/remove results"])

p("T02", "Range scans return exactly the requested keys, in order, in both directions",
  "On a quiescent tree, a forward (or reverse) scan from any start key, inclusive or exclusive of that key, visits exactly the stored keys at or after (at or before) the start key, each once, in ascending (descending) byte order with its current value, until the tree is exhausted or the visitor asks to stop, and then visits nothing more; the returned count is the number of visits. "
  "The start key need not be present and may be a prefix, an extension, or a sibling in any layer of stored keys. "
  "Server-level scans return the same keys with the requested columns, limited to the requested count.",
  ["inputs", "histories", "configurations"], "all stored key sets reached by any history, all start keys, directions, inclusion flags, stop positions, node widths",
  "Existing scan tests cover a few decimal key ranges forward; the reverse scanner, exclusive starts and layer boundaries (suffix equal/longer/shorter, trailing NULs) are barely exercised, and scantest does not even compile.",
  ["masstree_scan.hh", "query_masstree.hh", "masstree_key.hh", "stringbag.hh", "str.hh"],
  [("scan state machine", "masstree_scan.hh scanstackelt::find_initial/find_retry/find_next"), ("direction helpers", "masstree_scan.hh forward_scan_helper/reverse_scan_helper"), ("query scan adaptor", "query_masstree.hh query::run_scan")],
  ["scanner visit_value calls", "scan result arrays"])

p("T03", "The tree stays structurally well formed after every history",
  "After any completed history of inserts, overwrites, aborted inserts and removes, the index is well formed: in every layer all stored keys are strictly ordered within and across leaves, separators route every stored key to the leaf holding it, sibling and parent links are mutually consistent, no emptied leaf or layer remains reachable except a layer's own root, and no node is left locked or marked as changing. "
  "Every key's stored full bytes are reproducible from its position, and key and node statistics agree with the contents.",
  ["histories", "inputs", "configurations"], "all operation histories, sequential or concurrent (checked at quiescence), all node widths",
  "No test inspects the structure; a broken link or separator is only noticed if a later test operation happens to route through it.",
  ["masstree_struct.hh", "masstree_split.hh", "masstree_remove.hh", "btree_leaflink.hh", "nodeversion.hh", "masstree_stats.hh", "masstree_print.hh", "stringbag.hh"],
  [("split propagation", "masstree_split.hh tcursor::make_split"), ("leaf unlinking and parent redirection", "masstree_remove.hh remove_leaf/redirect/collapse, btree_leaflink.hh"), ("version/lock bits", "nodeversion.hh")],
  ["walk of nodes reachable from the root at quiescence", "json_stats"])

p("C01", "Concurrent point operations are linearizable and always complete",
  "For any interleaving of get, insert, update and remove by several threads on the same tree, there is a single order of the operations, consistent with real-time order per key, that explains every result and the final contents; a completed write is seen by every later read and no read returns a value never written or a torn value. "
  "Every operation finishes under a fair schedule, and afterwards no node stays locked.",
  ["schedules", "histories"], "all interleavings at memory-access granularity of all small multi-threaded programs (splits, layer creation, leaf removal, layer collapse included)",
  "The concurrent workloads sample a few OS schedules with mostly thread-private keys and check only final values; windows of a few instructions are almost never hit.",
  ["masstree_struct.hh", "masstree_get.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_tcursor.hh", "nodeversion.hh", "kpermuter.hh", "compiler.hh", "query_masstree.hh"],
  [("optimistic reads validated by version", "nodeversion.hh stable/has_changed/has_split, masstree_get.hh"), ("hand-over-hand locking on split and removal", "masstree_split.hh, masstree_remove.hh"), ("publication order of permutation, suffix and value", "masstree_struct.hh leaf, masstree_tcursor.hh")],
  ["invocation/response history of tcursor operations"])

p("C02", "Scans running concurrently with updates stay sorted, duplicate-free and complete",
  "A forward or reverse scan that overlaps other threads' inserts, updates and removes visits keys in strictly monotonic order without duplicates, visits every key in its range that was present throughout the scan, never visits a key absent throughout it, and each visited value was current at some moment during the scan. "
  "The scan terminates once concurrent updates stop.",
  ["schedules", "histories"], "all interleavings of a scan with splits, removals and layer changes",
  "No registered test scans while other threads write with an oracle; retry paths of the scanner need a split or removal inside a window of a few instructions.",
  ["masstree_scan.hh", "masstree_struct.hh", "masstree_remove.hh", "masstree_split.hh", "btree_leaflink.hh"],
  [("retry and revalidation in the scanner", "masstree_scan.hh scanstackelt::find_next/find_retry, scan()"), ("sibling links and stable advance", "masstree_struct.hh leaf::advance_to_key, btree_leaflink.hh")],
  ["visit order and values of concurrent scans"])

p("C03", "Removed memory is never used too early and is always eventually reclaimed",
  "A thread inside a read-side critical section may keep using any node, key suffix or value it reached, however other threads remove or replace it: no memory is reclaimed or reused while such a thread may still reach it, and none is freed twice. "
  "Once all threads have passed quiescent points everything that was removed or replaced (nodes, emptied layers, suffix bags, old values, destroyed trees) is returned to the allocator, so live memory does not grow with history: an index whose keys were all removed holds no more than a constant amount (a few structural nodes) more than a fresh one, and a destroyed one holds nothing.",
  ["schedules", "histories"], "all interleavings of readers, removers and quiescent points; all allocation histories",
  "Use-after-free in recycled pool memory is invisible to ordinary tests and to address sanitizers, and leaks never fail a test.",
  ["kvthread.hh", "kvthread.cc", "masstree_remove.hh", "masstree_tcursor.hh", "masstree_struct.hh", "query_masstree.hh", "value_bag.hh"],
  [("epoch-based limbo lists", "kvthread.hh threadinfo::rcu_register/rcu_quiesce, kvthread.cc hard_rcu_quiesce"), ("deferred frees and layer collection callbacks", "masstree_remove.hh gc_layer_rcu_callback/destroy_rcu_callback"), ("minimum active epoch", "kvthread.hh min_active_epoch")],
  ["every memory access against the set of reclaimed blocks", "live block count after quiescence"],
  "pool allocate/release notification in the per-thread allocator (guarded)")

p("C04", "Unchanged versions prove an unchanged record, absence or range",
  "If a reader records the version of the node where it found a record, found its absence, or scanned, and later finds that version unchanged, then no key was inserted into or removed from the part of the key space covered by that node in between. "
  "The nodes a scan reports to its visitor cover the whole scanned range, so if all their versions are unchanged no key appeared in or vanished from it. An insertion, committed or aborted, reports exactly the version transitions it caused, including the new nodes created by splits and layers, so that a transaction can tell its own changes from others'; lookups, scans and overwrites of present keys leave all versions unchanged.",
  ["schedules", "histories", "configurations"], "all histories of insert, remove, split, layer creation between a read and its validation",
  "Nothing in the test suite validates recorded versions; the interface exists for transactional users of the library.",
  ["masstree_tcursor.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_scan.hh", "nodeversion.hh"],
  [("insert/split version counters", "nodeversion.hh unlock, mark_insert, mark_split"), ("reported old/new versions and new nodes", "masstree_tcursor.hh original_version_value, updated_version_value, new_nodes"), ("visited leaf versions in scans", "masstree_scan.hh visit_leaf")],
  ["full_version_value of cursors, visit_leaf arguments"])

p("V01", "Multi-column rows update exactly the requested columns and snapshots stay intact",
  "Updating a row with a set of (column, value) pairs yields a row in which exactly those columns have the new values and every other column keeps its bytes, for any increasing column indexes, value lengths and row implementation; replacing a row leaves exactly the new value. "
  "A row obtained by a reader before an update still shows its old contents afterwards, a reader running concurrently sees all of an update or none of it, and column reads by index or sub-range return exactly the stored bytes.",
  ["inputs", "histories", "configurations"], "all update sequences, column sets (dense, sparse), sizes, row types, schedules",
  "Tests use one or two fixed columns with short values in the default row type.",
  ["value_bag.hh", "value_array.hh", "value_array.cc", "value_versioned_array.hh", "value_versioned_array.cc", "value_string.hh", "value_string.cc", "kvrow.hh", "query_masstree.hh"],
  [("copy-on-write row update", "value_bag.hh update, value_array.hh update, value_string.hh update"), ("query layer", "query_masstree.hh query::apply_put/run_put/run_replace/run_get"), ("versioned snapshot", "value_versioned_array.hh snapshot")],
  ["row col() values", "query results"])

p("V02", "Per-key timestamps strictly increase, also across removal and reinsertion",
  "Every successful put, replace or remove of a key carries a timestamp strictly greater than that of every earlier modification of the same key, whichever threads performed them, whatever their clocks said and even if the key (and the node or layer that held it) was removed in between; the stored row carries the timestamp of its last modification. "
  "Therefore ordering the logged modifications of a key by timestamp reproduces their true order.",
  ["histories", "schedules", "inputs"], "all multi-thread modification histories with arbitrarily skewed thread clocks",
  "Tests never compare timestamps; only a crash recovery after an unlucky remove/reinsert by another thread would show the damage.",
  ["query_masstree.hh", "kvthread.hh", "masstree_remove.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_struct.hh", "masstree_tcursor.hh", "value_bag.hh"],
  [("timestamp assignment", "query_masstree.hh query::assign_timestamp, kvthread.hh update_timestamp/operation_timestamp"), ("phantom epoch carried by leaves", "masstree_struct.hh leaf::phantom_epoch_, masstree_remove.hh, masstree_split.hh")],
  ["row timestamp after each operation", "log record timestamps"])

p("L01", "Log replay reproduces the logged operations in any replay order",
  "Replaying the log records of a history -- puts, whole-value replaces, column updates and removes, distributed over any number of logs, replayed in any order and interleaving, alone or on top of a state that already includes some of them -- always ends in the same table: the one the original history produced, with the same column contents and with removed keys reported as absent. "
  "Any key and value bytes that the server accepts survive the trip through the log unchanged.",
  ["histories", "schedules", "inputs"], "all histories, all assignments of operations to logs, all replay orders, all key/value bytes",
  "The recovery tests use decimal keys, one operation kind at a time and whatever order the threads happen to take.",
  ["log.cc", "log.hh", "kvrow.hh", "value_bag.hh", "query_masstree.hh", "mtd.cc"],
  [("record encoding", "log.cc loginfo::record"), ("record decoding", "log.cc logrec parse, logrecord::extract"), ("delta chains and out-of-order resolution", "log.cc logrecord::run/apply, value_bag.hh delta markers")],
  ["table contents after replay"])

p("L02", "A crash at any point recovers a consistent prefix of the acknowledged history",
  "After a crash that leaves each log file truncated at an arbitrary byte, recovery succeeds and produces exactly the state after some prefix, in log-epoch order, of the executed operations: no operation of an epoch that every surviving log completed is lost, no operation after the recovered point is visible, and nothing partially written, duplicated or stale is visible. "
  "Once the logs on disk show that they have nothing left to write, a crash loses nothing.",
  ["crash_points", "histories"], "every truncation point of every log file of every generated history, one or several logs",
  "The recovery tests kill the server at one or two moments; they never cut log files at chosen bytes, and compare only whether keys exist.",
  ["log.cc", "log.hh", "mtd.cc"],
  [("epoch records and group commit", "log.cc loginfo::logger, logset; mtd.cc epochinc"), ("cross-log cut-off epoch", "log.cc logreplay::info, mtd.cc recover/recover_phase"), ("log rewriting after recovery", "log.cc logreplay::replayandclean1")],
  ["recovered table", "rewritten log files"])

p("L03", "A checkpoint plus the remaining log restores the same state as the full history",
  "A checkpoint taken at any moment, while updates continue, together with the log written since it began, recovers exactly the state the full history produces: every row is in exactly one partition, with all columns and its timestamp, and no row is missing, duplicated or older than the checkpoint's start. "
  "A checkpoint that was not completed is ignored, and after a successful checkpoint a restart never needs anything older.",
  ["crash_points", "histories", "schedules", "inputs"], "all table contents (key shapes, sizes, column counts), concurrent updates, numbers of checkpoint threads and crash points",
  "Only fixed decimal key sets are checkpointed by the tests, without concurrent updates and without a crash in the middle.",
  ["checkpoint.cc", "checkpoint.hh", "query_masstree.cc", "query_masstree.hh", "mtd.cc", "log.cc", "value_bag.hh", "msgpack.hh"],
  [("range partitioning", "query_masstree.cc query_table::findpivots, mtd.cc conc_checkpointer"), ("checkpoint writing and reading", "checkpoint.cc ckstate::visit_value/insert, mtd.cc writecheckpoint/readcheckpoint"), ("checkpoint metadata and log replay start", "mtd.cc recover")],
  ["recovered table", "checkpoint files"])

p("L04", "Recovery is idempotent under repeated crashes and restarts",
  "Recovering, crashing again at any point (including in the middle of recovery or of rewriting the logs, or before any new write), restarting with the same or (without a checkpoint) a larger number of logs, and recovering again never loses or resurrects anything: each recovery yields the state after a prefix of the combined history that includes everything made durable earlier. "
  "Operations executed after a recovery are ordered after everything recovered.",
  ["crash_points", "histories", "fault_sequences"], "all sequences of runs, crashes and restarts",
  "The tests recover once from an orderly kill.",
  ["log.cc", "mtd.cc", "misc.hh", "file.cc", "checkpoint.cc"],
  [("log clean-up by rename", "log.cc logreplay::replayandclean1, replay"), ("epoch continuation", "mtd.cc recover, log.cc global_log_epoch"), ("timestamp continuation", "log.cc initial_timestamp")],
  ["recovered table after each restart"])

p("S01", "The server answers every pipelined request correctly however the bytes arrive",
  "For any sequence of valid requests from any number of simultaneous client connections, with the request bytes split over the network in any way and any number of requests in flight, each connection receives exactly one reply per request, in order, carrying the request's sequence number, the right reply code and exactly the result of executing the operations of that connection in order on the shared table (keys and values of any bytes). "
  "A connection that is closed, half-closed, or paused in the middle of a request never affects the others.",
  ["inputs", "histories", "schedules"], "all request sequences, pipelining depths, byte segmentations, connection counts",
  "The bundled client sends whole requests over fast loopback with fixed key shapes and mostly ignores replies' contents.",
  ["mtd.cc", "kvproto.hh", "mtclient.hh", "msgpack.hh", "msgpack.cc", "kvio.cc", "kvio.hh", "query_masstree.hh"],
  [("connection loop and incremental parsing", "mtd.cc conn, tcp_threadfunc, onego"), ("reply building", "mtd.cc onego, msgpack.hh unparser"), ("client library", "mtclient.hh")],
  ["bytes on the wire"])

p("S02", "No client input can crash, hang or corrupt the server",
  "Whatever bytes a client sends -- malformed, truncated, oversized, wrongly typed or out-of-range requests, or a disconnect at any byte -- the server process survives, keeps answering other clients correctly and does not change any data except as the valid requests among them say. "
  "At worst the offending connection receives an error reply or is closed.",
  ["inputs", "fault_sequences"], "all byte strings on a connection or in a datagram, all disconnect points",
  "Tests only run well-behaved clients.",
  ["mtd.cc", "msgpack.cc", "msgpack.hh", "kvproto.hh", "json.hh", "json.cc", "query_masstree.hh"],
  [("request validation", "mtd.cc onego, tcp_threadfunc, udp_threadfunc"), ("streaming parser", "msgpack.cc streaming_parser::consume")],
  ["server liveness, other connections' replies, table contents"])

p("S03", "Each UDP request datagram gets exactly the reply to that datagram",
  "A well-formed request sent as a UDP datagram is executed once and answered with exactly one datagram holding its reply, independent of what earlier or concurrent datagrams contained. "
  "A datagram that is not a complete request is ignored or answered with an error and does not influence later ones.",
  ["inputs", "histories"], "all sequences of complete, truncated and garbage datagrams",
  "The tests use UDP only incidentally, with complete requests of similar length.",
  ["mtd.cc", "msgpack.cc"],
  [("datagram loop", "mtd.cc udp_threadfunc")],
  ["reply datagrams"])

p("M01", "MessagePack encoding round-trips every value, however the input is chunked",
  "Encoding any value (integers of every magnitude and sign, doubles, booleans, null, strings, arrays, maps, nested) and decoding it yields an equal value of the same type, using an encoding that the MessagePack specification assigns to that value; decoding accepts every encoding form of the specification. "
  "Feeding the bytes to the incremental decoder in any chunks gives the same value, consumes exactly the value's bytes, and is repeatable for back-to-back values.",
  ["inputs"], "all values, all encodings, all chunkings",
  "msgpacktest has some dozens of literal cases and no round trip or chunking search.",
  ["msgpack.hh", "msgpack.cc", "json.hh", "straccum.hh"],
  [("unparser", "msgpack.hh unparser"), ("streaming parser", "msgpack.cc streaming_parser::consume"), ("direct parser", "msgpack.hh parser")],
  ["encoded bytes and decoded values"])

p("M02", "The MessagePack decoder is safe and chunk-independent on arbitrary bytes",
  "On any byte string the incremental decoder terminates, touches no memory outside the bytes given, uses memory proportional to the input, and reports success, error or need-more-input identically for every chunking; whatever it accepts re-encodes to an equivalent value. "
  "After an error or a reset it can be reused.",
  ["inputs"], "all byte strings and chunkings",
  "No fuzzing exists; tests feed only valid or lightly truncated input.",
  ["msgpack.hh", "msgpack.cc", "json.hh"],
  [("bounds checks and resumption state", "msgpack.cc streaming_parser::consume")],
  ["decoder status, consumed length, memory safety"])

p("J01", "JSON text round-trips every value",
  "Printing any JSON value (nested arrays and objects, integers over the full signed and unsigned 64-bit range, finite doubles within the documented print precision, strings of arbitrary Unicode text including control characters, quotes, NUL and non-BMP characters, with any indentation setting) and parsing the text gives an equal value, and printing again gives identical text. "
  "The printed text is valid JSON.",
  ["inputs", "configurations"], "all values and print settings",
  "jsontest checks a fixed list of literals.",
  ["json.hh", "json.cc", "straccum.hh", "str.hh", "string.cc"],
  [("unparser", "json.cc Json::hard_unparse, unparse_visitor"), ("parser", "json.cc Json::streaming_parser, consume_string/consume_backslash")],
  ["text and re-parsed values"])

p("J02", "The JSON parser accepts exactly JSON, independently of chunking",
  "The parser accepts a text if and only if it is valid JSON (RFC 8259 grammar over valid UTF-8, as an independent parser decides), and yields the value that text denotes, whether it is given the text at once or in arbitrary chunks to the incremental interface, without reading outside the text. "
  "On rejected input it reports an error, terminates and leaves no partial result.",
  ["inputs"], "all texts, valid and mutated, all chunkings",
  "jsontest feeds some fixed valid and invalid texts whole.",
  ["json.cc", "json.hh", "str.cc", "string.cc", "straccum.cc"],
  [("state machine", "json.cc Json::streaming_parser::consume"), ("UTF-8 checking", "string.cc/str.hh utf8 helpers")],
  ["accept/reject decision and value"])

p("J03", "JSON values behave as independent mutable values",
  "Any sequence of copies, moves, element and member reads, assignments, insertions, erasures, iterations, merges and conversions on JSON values gives the results of a plain reference model in which every copy is independent: changing one value never changes another, lookups return what was stored last, and sizes and iteration follow the model. "
  "Numeric conversions and comparisons agree with the mathematical values.",
  ["histories", "inputs"], "all operation sequences on a set of shared values",
  "jsontest checks fixed sequences; copy-on-write sharing bugs need specific aliasing histories.",
  ["json.hh", "json.cc", "str.hh", "string.hh"],
  [("copy-on-write representation", "json.hh ArrayJson/ObjectJson, uniqueify_array/uniqueify_object"), ("object hash table", "json.cc ObjectJson::find/find_insert/erase/rehash")],
  ["values compared with the model after each step"])

p("U01", "Strings and string accumulators match a plain byte-string model",
  "Any sequence of construction, copying, sub-string, concatenation, append, fill, search, comparison, case, trimming, encoding and formatted-append operations on the string and string-accumulator classes yields exactly the bytes a plain byte-string model gives, never reads or writes outside the string, and never changes another string that shares storage. "
  "A string obtained before a change of its source keeps its contents.",
  ["histories", "inputs"], "all operation sequences and byte contents",
  "There is no compiled string test (test_string does not build).",
  ["string.hh", "string.cc", "str.hh", "str.cc", "straccum.hh", "straccum.cc", "string_base.hh", "string_slice.hh", "hashcode.hh"],
  [("shared memos and in-place append", "string.cc String::append_uninitialized, mutable_data"), ("accumulator growth", "straccum.cc StringAccum::grow/extend"), ("string algorithms", "string_base.hh, string.cc")],
  ["string contents"])

p("U02", "Text helpers agree with their specifications",
  "Natural, numeric and byte-wise comparisons are consistent total orders that agree with their definitions; prefix, suffix, find and pattern matching agree with reference definitions; number parsing and UTF-8, UTF-16, CESU-8, Windows-1252, Base 64, URI and JSON encoders and decoders agree with independent implementations, for every input. "
  "Hash values of equal strings are equal however the strings are represented.",
  ["inputs"], "all byte strings and pairs/triples of them",
  "Only a few fixed examples exist in a test file that does not build.",
  ["str.hh", "str.cc", "string.cc", "string.hh", "string_base.hh", "hashcode.hh", "misc.cc"],
  [("comparison and matching", "str.cc Str::hard_natural_compare etc., string.cc glob_match"), ("encoding conversion", "string.cc to_utf8, windows1252_to_utf8, encode_json, printable")],
  ["results compared with references"])

p("K01", "Node building blocks keep their contracts for every state",
  "The slot permutation of a node always remains a permutation of its slots that reflects exactly the inserts, removals, exchanges and splits applied; the key-suffix store returns exactly the suffix assigned to each slot, refuses only when out of space and compares as bytes do; key slicing, shifting and comparison agree with byte-wise key order for every key length; and in-node search finds the exact position for every sorted content with each search method.",
  ["inputs", "histories", "configurations"], "all node widths, states and operation sequences; all key pairs",
  "Test files that targeted these (unit-mt, test_string) do not compile; workloads reach only some states at one width.",
  ["kpermuter.hh", "ksearch.hh", "masstree_key.hh", "stringbag.hh", "string_slice.hh", "string_slice.cc"],
  [("packed permutation", "kpermuter.hh"), ("suffix storage", "stringbag.hh"), ("key slices", "masstree_key.hh, string_slice.hh"), ("search", "ksearch.hh")],
  ["state compared with a vector model"])

p("U03", "The inline-storage vector behaves like a sequence",
  "Any sequence of operations on the small vector (push, emplace, pop, erase, resize, copy, assignment, also between different inline capacities, clear and iteration, with arguments that may be elements of the vector itself), at any inline capacity and with any element type including non-trivial ones, has exactly the effect on a sequence, destroys each constructed element exactly once, and never leaks or touches memory outside its storage, including across the transition from inline to heap storage.",
  ["histories", "configurations"], "all operation sequences, capacities and element types",
  "No test exists for the container.",
  ["small_vector.hh"],
  [("storage growth and element lifetime", "small_vector.hh")],
  ["contents and element construction/destruction counts"])

p("U04", "Wrap-around counters, time conversions and decimal counters are exact",
  "Comparisons, differences and increments of wrap-around epoch counters agree with modular arithmetic whenever the two values lie within half the range of each other, for every width and across the wrap; conversions between machine times and stored timestamps preserve order and lose at most their documented precision; and the decimal text counter writes a number with the requested minimum number of digits and increments it exactly, carries included.",
  ["inputs"], "all pairs of counter values and times",
  "No test exists; a wrap is never reached in practice runs.",
  ["circular_int.hh", "misc.hh", "timestamp.hh"],
  [("signed difference comparison", "circular_int.hh"), ("time conversion", "timestamp.hh"), ("decimal text", "misc.hh quick_istr")],
  ["results compared with wide arithmetic"])

p("U05", "Command-line parsing recognises exactly what the option table allows",
  "For any option table and any argument vector, the command-line parser reports each option, its negation, its value (converted as the type demands), each non-option argument and each error in argument order exactly as the documented rules say: unambiguous prefixes, combined short options, attached or separate values, optional values and the end-of-options marker included. "
  "Saving and restoring the parser state replays the same results, and no argument text can make it read outside the arguments.",
  ["inputs", "configurations"], "all option tables and argument vectors",
  "Tests use the parser only through a few fixed command lines.",
  ["clp.c", "clp.h", "misc.cc"],
  [("option lookup and value parsing", "clp.c Clp_Next, find_long/find_prefix_opt, parse_*")],
  ["option codes and values"])

p("U06", "Atomic file replacement is all or nothing under any fault",
  "Replacing a file atomically leaves, after any failure, short write, interruption or crash in the middle, either the complete old or the complete new contents under its name and never a mixture; success is reported only if the new contents were completely written, synced and put in place, and reading a file returns its exact contents or an error.",
  ["fault_sequences", "inputs", "crash_points"], "all failing, short and interrupted system calls at every step",
  "No test injects system call failures.",
  ["file.cc", "file.hh"],
  [("write, fsync and rename", "file.cc atomic_write_file_contents, sync_write_file_contents"), ("complete transfer loops", "file.hh safe_read, safe_write"), ("whole-file read", "file.cc read_file_contents")],
  ["file contents and return values under injected faults"])

p("U07", "Buffered stream output and the client connection deliver exact bytes in order",
  "Whatever mix of appends, reserved writes and flushes is used on the buffered output stream, whatever its buffer size and however the operating system splits, interrupts or delays the transfers, the receiver obtains exactly the bytes written, in order and once, and everything accepted before a flush has been sent when the flush returns. "
  "Output that a failed write did not take is kept and is sent, once, by a later flush. The client connection sends every request in the server's format, in order, and decodes exactly the replies sent to it, however they arrive split, joined, delayed or interrupted; it never blocks when only asked to check, and reports a truncated reply as no reply.",
  ["inputs", "histories", "fault_sequences"], "all operation sequences, buffer sizes, short and interrupted writes, reply segmentations",
  "Only whole-message use over fast loopback is exercised.",
  ["kvio.cc", "kvio.hh", "kvproto.hh", "mtclient.hh", "mtclient.cc"],
  [("output buffer growth and flush", "kvio.cc kvwrite/kvflush/kvout::grow"), ("requests", "mtclient.hh KVConn::send*"), ("reply reading", "mtclient.hh KVConn::receive/check, mtclient.cc KVConn::hard_check")],
  ["bytes received"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
