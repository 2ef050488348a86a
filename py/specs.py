"""HARNESS: how each harness is built.  CHECKS: what each property's check runs."""
JSONO = ["json.cc", "straccum.cc", "str.cc", "string.cc", "compiler.cc", "memdebug.cc"]
ROWO = ["value_array.cc", "value_versioned_array.cc", "value_string.cc"]
ASAN = ["-O2", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
          "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1"}
SANLD = ["-fsanitize=address,undefined"]

# instrumented as for ThreadSanitizer, but linked with our own callbacks (harness/vsched.cc)
TSAN = ["-O1", "-DMASSTREE_VERIF_HOOKS=1", "-fsanitize=thread"]

# everything the server asks of the operating system (harness/simos.cc)
SIMWRAP = ["-Wl," + ",".join("--wrap=" + f for f in """
    pthread_create pthread_self pthread_cancel pthread_join pthread_detach pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait
    pthread_cond_signal pthread_cond_broadcast sched_yield nanosleep sleep usleep gettimeofday clock_gettime time
    setitimer signal sigaction exit socket setsockopt getsockopt bind listen
    accept accept4 pipe epoll_create epoll_create1 epoll_ctl epoll_wait select poll recvfrom
    sendto close read recv write send writev fsync fdatasync
    ftruncate rename unlink creat open open64""".split())]
SIMF = ["-U_FORTIFY_SOURCE", "-DMASSTREE_VERIF_HOOKS=1"]
SIMREPO = ["log.cc", "checkpoint.cc", "file.cc", "misc.cc", "query_masstree.cc", "string_slice.cc", "kvio.cc", "msgpack.cc", "kvrandom.cc", "kvthread.cc",
           "mtd.cc", "clp.c"] + ROWO + JSONO
SIMMAIN = {"mtd.cc": ["-Dmain=mtd_main"]}
SIMSAN = ["-O1"] + ASAN[1:] + ["-fno-sanitize=enum,nonnull-attribute,shift"]

HARNESS = {
    "tree": dict(srcs=["tree.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=["-O1"]),
    "conc": dict(srcs=["conc.cc", "vsched.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=["-O1", "-DMASSTREE_VERIF_HOOKS=1"],
                 srcflags={"conc.cc": TSAN, "kvthread.cc": TSAN, "vsched.cc": ["-O2"]},
                 ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "posix_memalign", "madvise", "memcpy", "memmove", "memcmp"))]),
    "limbo": dict(srcs=["limbo.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=["-O1", "-DMASSTREE_VERIF_HOOKS=1"],
                  ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "posix_memalign", "madvise"))]),
    "msgp": dict(srcs=["msgp.cc", "globals.cc"], repo=["msgpack.cc", "kvthread.cc"] + JSONO, flags=ASAN, ldflags=SANLD, env=SANENV),
    "jsont": dict(srcs=["jsont.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=ASAN, ldflags=SANLD, env=SANENV),
    "jsonv": dict(srcs=["jsonv.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=ASAN + ["-fno-sanitize=null"], ldflags=SANLD, env=SANENV),
    "strs": dict(srcs=["strs.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=ASAN + ["-fno-sanitize=nonnull-attribute"], ldflags=SANLD, env=SANENV),
    "rowts": dict(srcs=["rowts.cc", "vsched.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=["-O1", "-DMASSTREE_VERIF_HOOKS=1"],
                  srcflags={"rowts.cc": TSAN, "kvthread.cc": TSAN, "vsched.cc": ["-O2"]},
                  ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "posix_memalign", "madvise", "memcpy", "memmove", "memcmp"))]),
    "rowc": dict(srcs=["rowc.cc", "vsched.cc", "globals.cc"], repo=["kvthread.cc"] + ROWO + JSONO, flags=["-O1", "-DMASSTREE_VERIF_HOOKS=1"],
                 srcflags=dict({"rowc.cc": TSAN, "kvthread.cc": TSAN, "vsched.cc": ["-O2"]}, **{f: TSAN for f in ROWO}),
                 ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "posix_memalign", "madvise", "memcpy", "memmove", "memcmp"))]),
    "rows": dict(srcs=["rows.cc", "globals.cc"], repo=["kvthread.cc", "msgpack.cc"] + ROWO + JSONO,
                 flags=ASAN + ["-fno-sanitize=enum,nonnull-attribute,shift", "-fno-access-control"],
                 ldflags=SANLD + ["-Wl,--wrap=malloc,--wrap=free"], env=SANENV),
    "recov": dict(srcs=["recov.cc", "simos.cc"], repo=SIMREPO, flags=["-O1"] + SIMF, srcflags=SIMMAIN, ldflags=SIMWRAP),
    "recova": dict(srcs=["recov.cc", "simos.cc"], repo=SIMREPO, flags=SIMSAN + SIMF, srcflags=SIMMAIN, ldflags=SANLD + SIMWRAP, env=SANENV),
    "serv": dict(srcs=["serv.cc", "simos.cc"], repo=SIMREPO, flags=["-O1"] + SIMF, srcflags=SIMMAIN, ldflags=SIMWRAP),
    "serva": dict(srcs=["serv.cc", "simos.cc"], repo=SIMREPO, flags=SIMSAN + SIMF, srcflags=SIMMAIN, ldflags=SANLD + SIMWRAP, env=SANENV),
    "units": dict(srcs=["units.cc", "globals.cc"], repo=["kvthread.cc"] + JSONO, flags=ASAN + ["-fno-sanitize=nonnull-attribute"], ldflags=SANLD, env=SANENV),
    "clps": dict(srcs=["clps.cc", "globals.cc"], repo=["clp.c", "misc.cc", "kvthread.cc"] + JSONO,
                 flags=["-O1"] + ASAN[1:] + ["-fno-sanitize=nonnull-attribute,null,pointer-overflow"], ldflags=SANLD, env=SANENV),
    "io": dict(srcs=["io.cc", "globals.cc"], repo=["mtclient.cc", "kvio.cc", "file.cc", "misc.cc", "testrunner.cc", "msgpack.cc", "clp.c", "kvthread.cc"] + JSONO,
               flags=["-O1"] + ASAN[1:] + ["-fno-sanitize=nonnull-attribute", "-U_FORTIFY_SOURCE"], srcflags={"mtclient.cc": ["-O1"] + ASAN[1:] + ["-U_FORTIFY_SOURCE", "-Dmain=mtclient_main"]},
               ldflags=SANLD + ["-Wl," + ",".join("--wrap=" + f for f in "read write open open64 close fsync fdatasync rename select poll usleep perror".split())], env=SANENV),
}

CONCA = ["threads interleave at memory accesses; stores become visible in program order (no store-buffer reordering)"]
PBT = "property-based testing: "
RECN = ("the server's own main() runs on a simulated operating system (threads as fibers, virtual time, sockets as queues, real files with a record of what was "
        "synced); each life is a process; TCP and UDP clients, 1-4 logs, small log buffers")
RECR = ("a case is a sequence of server runs with generated operations, schedules, clocks and crash images; non-trivial when a run executed at least "
        "three modifications; distinct by hash of its choice sequence")
RECA = ["threads switch at blocking calls, file operations and hook points, not at every memory access", "a crash keeps every completed directory operation (create, "
        "rename) and of each file at least what was synced, cut at any byte", "a checkpoint is reread with the number of threads that wrote it"]
SERVN = ("the server's own main() runs on a simulated operating system (threads as fibers, virtual time, sockets as queues), driven by simulated TCP and UDP "
         "clients; a plain and a sanitized build")
SERVR = ("a case is one life of the server with generated connections, requests, byte splits, pauses, disconnects and schedules; non-trivial when at least five "
         "replies were checked; distinct by hash of its choice sequence")
SERVA = ["threads switch at blocking calls, file operations and hook points, not at every memory access", "a reply that cannot fit a UDP datagram may be dropped"]

CHECKS = {
    "T01": dict(
        technique=PBT + "stateful model-based operation sequences vs std::map, shrinking",
        level="exploration",
        level_note="random operation sequences over adversarial key pools on 8 tree shapes; every result compared with an ordered-map model",
        rule="a case is a sequence of get/insert/overwrite/abort/remove operations on a generated key pool; non-trivial when the history "
             "split nodes or created layers and both hit and missed lookups occurred; distinct by hash of its choice sequence",
        runs=[dict(harness="tree", argv=["T01"], quick=(60000, 30), thorough=(2000000, 600))]),
    "T02": dict(
        technique=PBT + "generated histories and scans in both directions vs std::map ranges",
        level="exploration",
        level_note="random histories, then scans from present, absent and derived start keys with early stops",
        rule="a case is a history followed by scans; non-trivial when the tree has several nodes or layers and a scan crossed them; "
             "distinct by hash of its choice sequence",
        runs=[dict(harness="tree", argv=["T02"], quick=(60000, 30), thorough=(2000000, 600))]),
    "T03": dict(
        technique=PBT + "generated histories, structural invariant walk of the whole tree",
        level="exploration",
        level_note="after random histories (also after all deferred reclamation ran) every node, link, separator, suffix and statistic is checked",
        rule="a case is a history followed by a complete structural walk; non-trivial when nodes split or layers were created; distinct by "
             "hash of its choice sequence",
        runs=[dict(harness="tree", argv=["T03"], quick=(60000, 30), thorough=(2000000, 600))]),
    "C01": dict(
        technique=PBT + "generated concurrent programs and schedules (preemption at every memory access), linearizability of each history",
        level="exploration",
        level_note="2-4 deterministically scheduled threads on 4 tree shapes; each per-key history is searched for a linearization, then the final tree is walked",
        rule="a case is a prefilled tree, 2-4 short thread programs and a schedule that may preempt at every memory access of the tree code; "
             "non-trivial with at least one write, three operations and two preemptions more than threads; distinct by hash of its choice sequence",
        assumptions=CONCA,
        runs=[dict(harness="conc", argv=["C01"], quick=(200000, 40), thorough=(5000000, 900)),
              dict(harness="conc", argv=["C01", "pool"], base=5000000, quick=(10000, 20), thorough=(500000, 400))]),
    "C02": dict(
        technique=PBT + "generated concurrent programs and schedules, per-scan order, provenance and completeness oracle",
        level="exploration",
        level_note="as C01, with forward and reverse scans running against insertions, splits, removals and layer collection",
        rule="as C01, and the case ran at least one scan",
        assumptions=CONCA,
        runs=[dict(harness="conc", argv=["C02"], quick=(200000, 40), thorough=(5000000, 900)),
              dict(harness="conc", argv=["C02", "pool"], base=5000000, quick=(10000, 20), thorough=(500000, 400))]),
    "C03": dict(
        technique=PBT + "generated concurrent programs, schedules and epoch advances under a shadow heap (use after free, double free, leaks)",
        level="exploration",
        level_note="as C01 with epochs advancing; every access to freed or pooled memory fails; after draining, live memory equals what the tree reaches; "
                   "emptied and destroyed trees return their memory; and the reclaimer by itself, with up to thousands of retired objects, pool "
                   "blocks and callbacks that retire more, against a record of which critical sections were open at each retirement",
        rule="as C01; of the reclaimer alone: more than 20 objects were retired, and some released",
        assumptions=CONCA + ["destroy() is called once all threads have run their pending callbacks"],
        runs=[dict(harness="conc", argv=["C03"], quick=(120000, 40), thorough=(3000000, 900)),
              dict(harness="conc", argv=["C03", "pool"], base=5000000, quick=(10000, 20), thorough=(500000, 400)),
              dict(harness="limbo", argv=["C03"], base=9000000, quick=(16000, 10), thorough=(1000000, 200))]),
    "C04": dict(
        technique=PBT + "generated operations and schedules; reported version transitions vs the versions of every leaf; validated reads vs the history",
        level="exploration",
        level_note="one-third sequential cases compare all leaf versions before and after each operation with what the cursor reports; the rest run "
                   "concurrent optimistic transactions and check that unchanged versions imply unchanged presence",
        rule="a case is non-trivial when it is sequential, or when a writer ran and some recorded version validated; distinct by hash of its choice sequence",
        assumptions=CONCA + ["a validator reads a version consistently (twice, until equal)"],
        runs=[dict(harness="conc", argv=["C04"], quick=(200000, 40), thorough=(5000000, 900)),
              dict(harness="conc", argv=["C04", "pool"], base=5000000, quick=(10000, 20), thorough=(500000, 400))]),
    "M01": dict(
        technique=PBT + "generated values and encodings vs an independent MessagePack encoder and decoder",
        level="exploration",
        level_note="values are encoded by the library and by a reference encoder that picks any legal form, decoded by both, in random chunks from exact-size buffers under ASan/UBSan",
        rule="a case is 1-3 values, a byte stream of library or reference encodings, and its chunkings; non-trivial when a value is an array or map "
             "or the stream exceeds 8 bytes; distinct by hash of its choice sequence",
        runs=[dict(harness="msgp", argv=["M01"], quick=(30000, 25), thorough=(1500000, 600))]),
    "M02": dict(
        technique=PBT + "generated and mutated byte strings vs a reference decoder, several chunkings, allocation accounting",
        level="exploration",
        level_note="mutated encodings, adversarial headers (lengths up to 2^32-1), deep nesting and raw bytes; outcome, consumed length, value and memory "
                   "use are compared with a reference decoder under ASan/UBSan",
        rule="a case is 1-3 byte strings, each decoded in three chunkings; non-trivial when a string has more than 3 bytes; distinct by hash of its choice sequence",
        assumptions=["values nested deeper than 100 levels may be refused, as long as every chunking refuses them",
                     "extension types and map keys other than strings and integers are not representable in a Json and count as errors"],
        runs=[dict(harness="msgp", argv=["M02"], quick=(30000, 25), thorough=(1500000, 600))]),
    "J01": dict(
        technique=PBT + "generated values printed with random layout, read by an independent RFC 8259 parser and by the library",
        level="exploration",
        level_note="print -> independent parser -> compare; print -> library parser -> compare -> print again; ASan/UBSan",
        rule="a case is one value and one layout; non-trivial when the text exceeds 6 bytes; distinct by hash of its choice sequence",
        assumptions=["doubles keep 12 significant digits (documented print format); the sign of a floating-point zero is not required to survive"],
        runs=[dict(harness="jsont", argv=["J01"], quick=(150000, 20), thorough=(8000000, 500))]),
    "J02": dict(
        technique=PBT + "generated, mutated and random texts vs an independent RFC 8259/UTF-8 parser, several chunkings",
        level="exploration",
        level_note="each text goes through parse, assign_parse (String and exact-size memory) and the incremental parser in random chunks; ASan/UBSan",
        rule="a case is 1-2 texts; non-trivial when a text has more than 4 bytes; distinct by hash of its choice sequence",
        assumptions=["texts nested deeper than 1000 levels may be refused", "escaped lone surrogates denote no Unicode text and count as invalid",
                     "for repeated members the last one counts"],
        runs=[dict(harness="jsont", argv=["J02"], quick=(60000, 25), thorough=(3000000, 600))]),
    "J03": dict(
        technique=PBT + "stateful model-based operation sequences on several values vs a deep-copying reference tree",
        level="exploration",
        level_note="four values share structure by copies and moves; after every operation all four are compared with their models; ASan/UBSan",
        rule="a case is a sequence of up to 60 operations on four values and their members; non-trivial with at least three operations on values "
             "of at least three nodes; distinct by hash of its choice sequence",
        assumptions=["no arithmetic beyond the range of the number's type", "no comparison of an integer with a double",
                     "references into a value are not kept across copies or changes of it"],
        runs=[dict(harness="jsonv", argv=["J03"], quick=(60000, 25), thorough=(3000000, 600))]),
    "U01": dict(
        technique=PBT + "stateful model-based operation sequences on sharing strings and accumulators vs std::string",
        level="exploration",
        level_note="5 strings and 2 accumulators share storage; after every operation all 7 are compared with their models; ASan/UBSan",
        rule="a case is a sequence of up to 60 operations; non-trivial with at least three operations and a string of four bytes; distinct by "
             "hash of its choice sequence",
        assumptions=["moved-from strings are assigned before they are used again", "no allocation failures"],
        runs=[dict(harness="strs", argv=["U01"], quick=(100000, 25), thorough=(5000000, 600))]),
    "U02": dict(
        technique=PBT + "generated texts vs independent reference definitions; order axioms over related strings",
        level="exploration",
        level_note="comparison, search, patterns, number parsing, transcoders and encoders, each against its own reference, on exact-size memory; ASan/UBSan",
        rule="a case calls one helper family on generated texts (natural order: all pairs and triples of 5 related strings); every case is "
             "non-trivial; distinct by hash of its choice sequence",
        assumptions=["number parsing is checked for numbers that fit the result type"],
        runs=[dict(harness="strs", argv=["U02"], quick=(1500000, 25), thorough=(60000000, 600))]),
    "V01": dict(
        technique=PBT + "stateful model-based row updates, reads and scans for every row type; concurrent readers and writers under generated schedules",
        level="exploration",
        level_note="the query layer on a real tree with bag, array, versioned-array and string rows vs column vectors: results are compared when obtained and as "
                   "long as they are held (ASan/UBSan, row memory accounted); concurrently, every read must be a state the row had during the read, on a shadow heap",
        rule="a case is a history over 1-30 keys (columns to 3000, values to 70 KB), non-trivial with three modifications; or 2-3 scheduled threads on "
             "1-3 keys, non-trivial with a write, a read and two preemptions more than threads; distinct by hash of its choice sequence",
        assumptions=CONCA + ["the columns of one put are strictly increasing (value_bag.hh states this as a prerequisite) and below 32768"],
        runs=[dict(harness="rows", argv=["V01"], quick=(4000, 20), thorough=(400000, 500)),
              dict(harness="rowc", argv=["V01"], base=5000000, quick=(60000, 20), thorough=(6000000, 600))]),
    "V02": dict(
        technique=PBT + "generated concurrent puts, replaces and removes, clocks and schedules; timestamp order per key in lock order",
        level="exploration",
        level_note="the real query layer on the real tree with 1-3 deterministically scheduled threads, skewed clocks and remove markers; every modification is "
                   "observed while its leaf is locked, final rows are compared with the last modification",
        rule="a case is a prefilled tree, thread programs, clocks and a schedule that may preempt at every memory access; non-trivial with at least three "
             "modifications and (several threads) two preemptions more than threads; distinct by hash of its choice sequence",
        assumptions=CONCA,
        runs=[dict(harness="rowts", argv=["V02"], quick=(200000, 35), thorough=(8000000, 900)),
              dict(harness="rows", argv=["V02"], base=5000000, quick=(1500, 12), thorough=(150000, 300))]),
    "L01": dict(
        technique=PBT + "generated histories on the real server, replay of its logs in generated interleavings vs a table model",
        level="exploration",
        level_note=RECN + "; here every operation is durable before the restart, logs are replayed by interleaved threads (also on top of a checkpoint), and the "
                   "recovered table must be the complete history's",
        rule=RECR,
        assumptions=RECA,
        runs=[dict(harness="recov", argv=["L01"], quick=(4500, 28), thorough=(1000000, 600)),
              dict(harness="recova", argv=["L01"], base=5000000, quick=(300, 15), thorough=(100000, 200))]),
    "L02": dict(
        technique=PBT + "generated histories, schedules and crash points on the real server; surviving table vs prefixes of the history",
        level="exploration",
        level_note=RECN + "; logs are cut at generated bytes",
        rule=RECR,
        assumptions=RECA,
        runs=[dict(harness="recov", argv=["L02"], quick=(6000, 28), thorough=(1000000, 600)),
              dict(harness="recova", argv=["L02"], base=5000000, quick=(300, 15), thorough=(100000, 200))]),
    "L03": dict(
        technique=PBT + "generated checkpoints during updates on the real server, then a crash; surviving table vs prefixes of the history; row encoding round trips",
        level="exploration",
        level_note=RECN + "; checkpoints are requested at any time and crashes hit their file operations too; separately, rows of every type go through the "
                   "checkpoint encoding",
        rule=RECR,
        assumptions=RECA,
        runs=[dict(harness="recov", argv=["L03"], quick=(3500, 28), thorough=(600000, 600)),
              dict(harness="recova", argv=["L03"], base=5000000, quick=(250, 15), thorough=(100000, 200)),
              dict(harness="rows", argv=["L03"], base=9000000, quick=(1500, 8), thorough=(150000, 100))]),
    "L04": dict(
        technique=PBT + "generated sequences of runs, crashes (also while recovering) and restarts of the real server; surviving tables vs prefixes of the history",
        level="exploration",
        level_note=RECN + "; 3 to 5 runs of the server per case, half of the restarts crash while they recover, the number of logs may grow",
        rule=RECR,
        assumptions=RECA,
        runs=[dict(harness="recov", argv=["L04"], quick=(3500, 28), thorough=(600000, 600)),
              dict(harness="recova", argv=["L04"], base=5000000, quick=(250, 15), thorough=(100000, 200))]),
    "S01": dict(
        technique=PBT + "generated connections, pipelined requests, byte splits and schedules on the real server; every reply vs a table model",
        level="exploration",
        level_note=SERVN + "; pipelining connections on key ranges of their own and one-at-a-time connections on a shared range (modelled in execution order)",
        rule=SERVR,
        assumptions=SERVA,
        runs=[dict(harness="serv", argv=["S01"], quick=(50000, 28), thorough=(5000000, 500)),
              dict(harness="serva", argv=["S01"], base=5000000, quick=(4000, 18), thorough=(500000, 300))]),
    "S02": dict(
        technique=PBT + "generated hostile connections and datagrams (structured and byte mutations) next to well-behaved clients on the real server",
        level="exploration",
        level_note=SERVN + "; after hostile input every other client's replies and the final table must be exactly the model's, and valid requests on a hostile "
                   "connection must be obeyed",
        rule=SERVR,
        assumptions=SERVA + ["requests whose validity is a matter of opinion (excess arguments, out-of-range columns) may be obeyed or refused"],
        runs=[dict(harness="serv", argv=["S02"], quick=(60000, 28), thorough=(5000000, 500)),
              dict(harness="serva", argv=["S02"], base=5000000, quick=(4500, 18), thorough=(500000, 300))]),
    "S03": dict(
        technique=PBT + "generated datagrams, valid and not, from several clients on the real server; one right reply per valid datagram",
        level="exploration",
        level_note=SERVN + "; UDP clients mixed with TCP clients and with truncated, oversized, empty and non-request datagrams",
        rule=SERVR,
        assumptions=SERVA,
        runs=[dict(harness="serv", argv=["S03"], quick=(60000, 28), thorough=(5000000, 500)),
              dict(harness="serva", argv=["S03"], base=5000000, quick=(4500, 18), thorough=(500000, 300))]),
    "K01": dict(
        technique=PBT + "stateful model-based operation sequences on node building blocks (permuter, suffix bag, keys) and searches vs plain models",
        level="exploration",
        level_note="permuters of 10 widths vs a vector of slots, suffix bags with 8- and 16-bit offsets in exact-size memory, 16- to 64-bit slices and keys of up to "
                   "40 bytes, every search method on permuted and plain nodes; ASan/UBSan",
        rule="a case exercises one building block on generated state or operations; trivial only if a suffix bag sees fewer than three operations; distinct by "
             "hash of its choice sequence",
        assumptions=["partial rotation of a permuter (used by nothing) is checked for full permuters only", "keys compared within a layer"],
        runs=[dict(harness="units", argv=["K01"], quick=(300000, 25), thorough=(30000000, 600))]),
    "U03": dict(
        technique=PBT + "stateful model-based operation sequences vs std::vector, with counted element lifetimes and allocations",
        level="exploration",
        level_note="two vectors of one inline capacity and one of another, over 8 element types and capacities; elements check that they are used only while "
                   "alive; every block is returned with its own size; ASan/UBSan",
        rule="a case is a sequence of up to 52 operations; non-trivial when a vector outgrows its inline capacity; distinct by hash of its choice sequence",
        assumptions=["no allocation or constructor failures"],
        runs=[dict(harness="units", argv=["U03"], quick=(250000, 25), thorough=(10000000, 600))]),
    "U04": dict(
        technique=PBT + "generated pairs of counter values and times vs 128-bit arithmetic",
        level="exploration",
        level_note="7 counter types, values around 0, the wrap and half the range apart; stored timestamps, timespecs and decimal counters; ASan/UBSan",
        rule="every case is non-trivial; distinct by hash of its choice sequence",
        assumptions=["values exactly half the range apart are not ordered"],
        runs=[dict(harness="units", argv=["U04"], quick=(1500000, 20), thorough=(200000000, 300))]),
    "U05": dict(
        technique=PBT + "generated option tables, value lists, option characters and command lines against an independent model of the documented rules",
        level="exploration",
        level_note="every result of Clp_Next and Clp_Shift, the option chosen, negation, value text and value, the error count, the current option's name and formatted "
                   "messages into exact-size buffers are compared, across saved and restored states; ASan/UBSan",
        rule="a case is one option table and one or more argument lists, up to 80 steps; non-trivial when an option was recognised or an ambiguous table was reported; "
             "distinct by hash of its choice sequence",
        assumptions=["arguments and names are valid in the parser's encoding", "numbers that do not fit their type are not judged"],
        runs=[dict(harness="clps", argv=["U05"], quick=(60000, 25), thorough=(3000000, 600))]),
    "U06": dict(
        technique=PBT + "generated file contents and injected system call faults (failures, interruptions, short counts); file inspected after every system call",
        level="exploration",
        level_note="the real functions on real files in a scratch folder; between any two system calls the file is its complete old or new version, and is on disk "
                   "before it takes its name; ASan/UBSan",
        rule="a case is one or two operations on one file; non-trivial when a system call failed, was interrupted or moved fewer bytes; distinct by hash of its choice sequence",
        assumptions=["fsync puts data on disk, rename is atomic", "a failed close() after fsync may or may not be reported"],
        runs=[dict(harness="io", argv=["U06"], quick=(90000, 25), thorough=(3000000, 600))]),
    "U07": dict(
        technique=PBT + "stateful output sequences against a faulty sink; client sessions against a scripted server with generated segmentation",
        level="exploration",
        level_note="bytes written plus bytes buffered equal bytes appended after every step; the client's requests are decoded by an independent codec and its replies, "
                   "up to several input buffers long, are compared one by one; ASan/UBSan",
        rule="a case is one output stream or one client session; non-trivial with a fault and more output than the buffer holds, or with three replies; distinct by hash of its choice sequence",
        assumptions=["replies are valid MessagePack", "results of receive() are used before the next receive() or check()"],
        runs=[dict(harness="io", argv=["U07"], quick=(40000, 25), thorough=(2000000, 600))]),
}
