"""Registry: sanitizer variants, interposed symbols, and per property the workloads that decide it."""
WRAPS = """epoll_wait epoll_pwait epoll_pwait2 read write recv send close accept4 accept socket bind listen connect
fstat time clock_gettime gettimeofday timespec_get timerfd_settime inotify_init1 inotify_init getaddrinfo""".split()

UB = ["-fsanitize=undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,alignment", "-fno-sanitize-recover=all"]
VARIANTS = {
    "asan":     dict(cc="gcc", cflags=["-O1", "-fsanitize=address"] + UB),
    "asan-sse": dict(cc="gcc", cflags=["-O1", "-msse4.2", "-fsanitize=address"] + UB),
    "tsan":     dict(cc="gcc", cflags=["-O1", "-fsanitize=thread"], setarch=True),
    "msan":     dict(cc="clang", cflags=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"]),
    "msan-sse": dict(cc="clang", cflags=["-O1", "-msse4.2", "-fsanitize=memory"]),
    "prod":     dict(cc="gcc", cflags=["-O3", "-march=native", "-mtune=native"]),
}
CHECKS = {}
TECH = "runtime monitoring: online oracle over sanitized executions of the real library"
NOTE = ("Held on the executions observed (counts in the evidence), not a proof; the workloads are seeded and random, faults and timings included. "
        "Trusts the compilers' sanitizers, the kernel, and the oracle in the harness.")
def check(pid, runs, rule, level="exploration", technique=TECH, note=NOTE, **kw):
    CHECKS[pid] = dict(runs=runs, rule=rule, level=level, technique=technique, note=note, **kw)
def run(harness, scenario, cases, variant="asan", **kw):
    return dict(harness=harness, scenario=scenario, cases=cases, variant=variant, **kw)

# ---------------------------------------------------------------- containers
check("C20", [run("cont", "buffer", (6000, 200000)), run("cont", "buffer", (1500, 30000), "msan"), run("cont", "bufhuge", (40, 400), "prod"), run("cont", "bufmove", (1, 2), "prod")],
      "random histories of 20-80 buffer operations (insert/fill/erase/reserve/resize/compact/clear) at random positions and skewed sizes; distinct = different operation/size history",
      require={"eval": 10000})
check("C21", [run("cont", "vector", (6000, 200000)), run("cont", "vector", (1500, 30000), "msan"), run("cont", "vechuge", (40, 400), "prod")],
      "random histories of 20-80 vector operations over 13 element sizes with release callbacks logged; distinct = different history", require={"eval": 10000})
check("C22", [run("cont", "list", (5000, 150000)), run("cont", "list", (1500, 30000), "msan")],
      "random histories of 30-130 operations on two lists incl. splices between them; distinct = different history", require={"eval": 10000},
      assumptions=["an element is only erased or moved through its own address while it is a member of a list"])
check("C23", [run("cont", "mapi", (2500, 80000)), run("cont", "maps", (2500, 80000)), run("cont", "mapg", (3000, 100000)), run("cont", "mapbig", (8, 64)),
              run("cont", "mapg", (1000, 20000), "msan"), run("cont", "maps", (600, 20000), "msan")],
      "random insert/erase/reserve/clear histories over 4-2500 keys; integer keys incl. dense and strided, string keys incl. empty, long (to 4000 characters), 8-bit; generic map with constant, clustered and wrapping hash functions; distinct = different history",
      require={"eval": 10000}, assumptions=["integer keys are non-zero (0 marks an empty slot)", "string keys outlive their entries"])
check("C24", [run("cont", "string", (3500, 100000)), run("cont", "string", (800, 20000), "msan"), run("cont", "strhuge", (24, 200), "prod")],
      "random histories of 15-55 string operations incl. file and pipe round trips with injected short reads and writes; distinct = different history",
      require={"eval": 10000, "file_round_trips": 100}, assumptions=["arguments do not alias the string being modified", "string_write is used on blocking descriptors"])
check("C25", [run("cont", "hash", (400, 20000)), run("cont", "hash", (200, 5000), "msan"), run("cont", "hash", (100, 5000), "prod"), run("cont", "hashhuge", (4, 32), "prod")],
      "all lengths 0-139 repeatedly plus random lengths to 65000, random content and alignment, compared with an independent implementation written from the published algorithm; distinct = different hash value",
      require={"eval": 10000}, assumptions=["little-endian machine"])
check("C26", [run("cont", "decimal", (256, 256), "prod"), run("cont", "decimal_san", (64, 2000))],
      "every 32-bit value against a decimal counter (production build) plus boundary and random values under sanitizers; distinct = blocks of 2^24 values and sanitized values",
      exhaustive=1 << 32, require={"eval": 10000})
check("C30", [run("cont", "data", (4000, 150000)), run("cont", "data", (1000, 20000), "msan"), run("cont", "datahuge", (16, 64), "prod")],
      "random pairs of byte strings with shared prefixes, embedded zeros and empty ones, exact-size allocations; distinct = different pair", require={"eval": 10000},
      assumptions=["offsets and sizes lie within the slice"])

# ---------------------------------------------------------------- HTTP
HTTP_RULE = "grammar-generated, mutated, token-soup and random %s, each at every truncation point (sampled above 600 bytes) and with foreign bytes behind it, at random alignments; distinct = different byte sequence"
def parser_runs(s):
    return [run("http", s, (500, 20000)), run("http", s, (500, 20000), "asan-sse"), run("http", s, (200, 5000), "msan"), run("http", s, (200, 5000), "msan-sse"),
            run("http", s, (600, 20000), "prod"), run("http", "align", (512, 5120), "asan"), run("http", "align", (512, 5120), "asan-sse"),
            run("http", "align", (512, 5120), "prod"), run("http", "live", (300, 6000)), run("http", "vasthead", (16, 200), "prod"), run("http", "toolong", (9, 90), "prod"),
            run("http", "long", (320, 8000)), run("http", "long", (320, 8000), "asan-sse"), run("http", "long", (320, 8000), "prod")]
HTTP_ASSUME = ["'GET / X' and other starts shorter than a version are undecided until nine bytes follow"]
check("C09", parser_runs("request"), HTTP_RULE % "request heads", require={"eval": 100000, "complete": 5000, "rejected": 5000, "need_more": 50000, "long_heads": 500, "vast_parsed": 1, "vast_refused": 3}, assumptions=HTTP_ASSUME)
check("C10", parser_runs("response"), HTTP_RULE % "response heads", require={"eval": 100000, "complete": 5000, "rejected": 5000, "need_more": 50000, "long_heads": 500, "vast_parsed": 1, "vast_refused": 3}, assumptions=HTTP_ASSUME)
check("C11", [run("http", "write", (4000, 100000)), run("http", "write", (800, 10000), "msan"), run("http", "write", (1500, 20000), "prod"), run("http", "lookup", (3000, 50000)), run("http", "lookup", (500, 5000), "prod"), run("http", "vastbody", (12, 12), "prod"), run("http", "hugebody", (2, 4), "prod")],
      "random messages (all argument sizes, empty and large ones, binary bodies) written one after another into exact and roomy outputs, compared byte for byte, read back and split; some sent to a peer; distinct = different message",
      require={"eval": 50000, "round_trips": 5000, "wire_messages": 500}, assumptions=["bodies below 4 GB", "arguments do not lie in the stream's own output"])
check("C29", [run("http", "chunked", (6000, 200000)), run("http", "chunked", (1500, 20000), "msan"), run("http", "chunked", (3000, 50000), "prod"), run("http", "vastchunk", (24, 200), "prod")],
      "valid, mutated and random chunked bodies with and without trailers, each fed at once, bytewise and in random pieces; distinct = different body", require={"eval": 30000, "complete": 5000, "rejected": 500, "need_more": 500})

# ---------------------------------------------------------------- event loop
WORLD = "random worlds of 1-110 sockets, TCP connections, pipes and eventfds, edge- and level-triggered, raw and through descriptor, with peers that write, drain, half-close, close and reset"
check("C01", [run("core", "stale", (1000, 30000)), run("core", "objects", (600, 30000)), run("core", "stale", (200, 4000), "msan")],
      WORLD + ", and callbacks that close, free, reopen and re-mask themselves and others in the same wake-up; the same across events, timers, streams, descriptors and watchers; distinct = different history",
      require={"eval": 20000, "removals": 20000, "removed_while_ready": 3000, "object_callbacks": 4000})
check("C02", [run("core", "ready", (1500, 40000)), run("core", "stale", (300, 10000))],
      WORLD + "; every callback is checked against poll(2), every quiet point against what is owed; distinct = different history",
      require={"eval": 20000, "settled": 5000, "level_rounds": 3000})
check("C03", [run("core", "loop", (2500, 80000)), run("core", "crowd", (240, 6000)), run("core", "signals", (150, 3000)), run("core", "sigrace", (1, 1), known="signal-before-wait", shards=1)],
      "random lives of a loop over 1-31 descriptors (some over up to 10000) that close, open, signal each other and abort from callbacks, on a virtual clock, plus real waits interrupted by handled and terminating signals; distinct = different history",
      require={"eval": 20000, "ended_by_abort": 200, "ended_by_signal": 100, "ended_empty": 100, "empty_loops": 50, "crowd_waits": 500, "now_checks": 5000, "signals_while_blocked": 20, "interrupted_waits": 20})
check("C04", [run("event", "single", (3000, 80000)), run("event", "threads", (300, 8000)), run("event", "threads", (200, 4000), "tsan"), run("event", "block", (150, 4000)),
              run("event", "block", (100, 2000), "tsan"), run("event", "threads", (150, 4000), "prod")],
      "random histories of signals, closes and re-opens of 1-12 events from the loop thread and callbacks, and from up to 8 threads with random delays, under ASan, TSan and the production build; every quiet point balances signals against deliveries; distinct = different history",
      require={"eval": 20000, "signals": 20000, "balances": 3000, "threaded_wakeups": 1000, "blocking_runs": 100},
      assumptions=["an event is not closed while another thread is inside event_signal on it"])
check("C05", [run("timer", "timers", (2500, 60000)), run("timer", "timers", (800, 20000), "prod"), run("timer", "timers", (150, 3000), "msan"), run("timer", "block", (200, 4000)), run("timer", "late", (4, 32))],
      "random histories of 1-10 timers with delays and intervals of 0, 1 ns to any 64-bit value, set, re-set, cleared and freed from inside and outside callbacks, with a loop that is late at random; every report is bounded from both sides by the monotonic clock, the programmed values are read back; plus loops late by more than 2^32 expirations; distinct = different sequence of settings",
      require={"eval": 5000, "sets": 20000, "clears": 2000, "programmed_checked": 10000, "coalesced": 500, "dues": 2500},
      assumptions=["the kernel's clocks are not stepped during the run", "values above 2^62 ns are only checked for not firing"])

# ---------------------------------------------------------------- streams
ST = "random histories of 1-5 streams over UNIX and TCP sockets and pipes with tiny to large kernel buffers, injected short writes, bursty, stalling, half-closing, closing and resetting peers"
check("C06", [run("stream", "bytes", (4000, 60000)), run("stream", "bulk", (120, 2000), weight=3), run("stream", "bytes", (300, 6000), "msan"), run("stream", "notes", (500, 10000)),
              run("stream", "burst", (150, 3000), weight=2), run("stream", "marked", (2, 2), known="short-read", shards=2)],
      ST + "; each byte is compared at both ends, each quiet point checks that everything flushed or sent has arrived; distinct = different history",
      require={"eval": 50000, "flushes": 5000, "bytes_out": 10000000, "bytes_in": 1000000, "settled": 3000, "short_writes": 1000},
      assumptions=["output is not modified through a pointer from stream_allocate after the next call on the stream"])
check("C08", [run("stream", "notes", (5000, 80000)), run("stream", "bytes", (1000, 10000)), run("stream", "notes", (300, 6000), "msan")],
      ST + ", and callbacks that close, free and re-open streams; every callback must be owed, every owed callback must come, the peer gets nothing after a close; distinct = different history",
      require={"eval": 30000, "requests": 3000, "writes": 2000, "closes": 3000, "close_reports": 1500, "settled": 2500},
      assumptions=["several stream_notify calls before their callback are one request"])
check("C07", [run("tls", "tls", (3000, 60000)), run("tls", "vast", (3, 12), "prod", shards=1)],
      "random histories of 1-4 TLS (TLS 1.2 and 1.3, client and server, RSA, EC and long-chain certificates) and plain lives of streams, open for reading, for writing or both, and outputs of 2 to 4 GiB, against an independent OpenSSL peer whose ciphertext the harness cuts, delays, corrupts, replays and truncates; distinct = different history",
      require={"eval": 10000, "handshakes": 1000, "spoiled": 300, "bytes_out": 5000000, "bytes_in": 1000000, "records": 5000, "settled": 2500, "key_updates": 50, "write_only_tls": 500, "vast": 3},
      assumptions=["OpenSSL itself is trusted"])

# ---------------------------------------------------------------- server
SRV = "random worlds of 1-2 servers (UNIX, TCP, given connections, plain and TLS) and up to 40 clients whose pipelined requests arrive in random pieces through large and tiny socket buffers"
check("C12", [run("server", "serve", (1500, 40000))], SRV + ", answered at once, later, in any order and from one another's handlers; every byte a client receives and every request the handler gets is compared with the model; distinct = different order of handler calls",
      require={"eval": 20000, "handled": 5000, "deferred": 1000, "settled": 2000, "handshakes": 300},
      assumptions=["a client that half-closes counts as disconnected", "requests have no bodies"])
check("C13", [run("server", "life", (1500, 40000)), run("server", "churn", (16, 300)), run("server", "closedheld", (1, 1), known="closed-held-shutdown", shards=1),
              run("server", "closedhandler", (1, 1), known="closed-in-handler-shutdown", shards=1)],
      SRV + ", with requests held, released, answered, closed and rejected from inside and outside handlers while clients leave and servers shut down; distinct = different order of handler calls",
      require={"eval": 20000, "shutdowns": 1500, "holds": 500, "app_closes": 200, "client_left": 300, "churned": 1000, "closed_in_order": 500},
      assumptions=["the server object itself is kept until the last held request was released", "each request is answered at most once"])
check("C14", [run("server", "hostile", (1500, 40000)), run("server", "badtruncates", (1, 1), known="bad-request-truncates", shards=1),
              run("server", "endless", (1, 1), known="endless-head", shards=1)],
      SRV + ", where half of the clients send damaged, random, oversized and binary heads, spoil their TLS wire, stall, reset and leave, and accepting fails at random; distinct = different order of handler calls",
      require={"eval": 20000, "hostile_inputs": 1500, "bad_requests": 500, "accept_failures": 200, "client_left": 300, "spoiled_tls": 50})
check("C15", [run("server", "date", (160, 4000))],
      "servers under a clock that starts at random moments between 1970 and 2540 (year, leap-day and century boundaries preferred) and runs 50 times faster, over time zones and locales; each Date is parsed by an independent calendar and bounded from both sides; distinct = different Date",
      require={"eval": 1000, "dates": 1000, "settled": 300})

# ---------------------------------------------------------------- async, resolver
check("C16", [run("async", "calls", (1200, 30000)), run("async", "calls", (500, 10000), "tsan"), run("async", "calls", (400, 10000), "prod"), run("async", "concurrent", (200, 3000)), run("async", "concurrent", (100, 2000), "tsan")],
      "random histories of 1-24 async objects whose workers return at once, sleep, compute, wait for the loop, do I/O or disable cancellation, called, cancelled, destroyed, freed and reused at random moments from inside and outside DONE, under ASan, TSan and the production build; distinct = different order of calls, cancellations and completions",
      require={"eval": 10000, "calls": 8000, "dones": 3000, "cancelled_running": 300, "destroyed_busy": 300, "parallel_cases": 100, "rendezvous": 300},
      assumptions=["one call at a time per object", "async_cancel may wait for a CALL that does not reach a cancellation point"])
check("C17", [run("async", "resolve", (700, 15000)), run("async", "resolve", (300, 5000), "tsan"), run("async", "dns", (200, 3000))],
      "random lookups (hosts and services, also of thousands of characters, families, types, protocols and flags, valid and invalid) on 1-12 resolvers, replaced, cancelled and destroyed in flight, compared with the system resolver; lookups over a slow name server cancelled in the middle; distinct = different argument combination",
      require={"eval": 3000, "answers": 1500, "successes": 500, "replaced": 300, "destroyed_busy": 100, "cancels": 200, "dns_cancelled": 50, "long_names": 200})

check("C18", [run("notify", "watch", (350, 6000)), run("notify", "overflow", (8, 100), weight=3), run("notify", "many", (32, 400)), run("notify", "watch", (50, 600), "msan")],
      "random histories of 1-3 watchers over 2-24 files and directories (random masks, long, odd and vanishing names, unwatchable paths, paths of up to 4095 characters), bursts of changes from outside and inside callbacks, cleared, destroyed and reused at random moments, floods beyond the kernel queue with further changes while it is drained; every report is compared with a second inotify instance read at the same moments; distinct = different sequence of reports",
      require={"eval": 10000, "events": 10000, "watches": 1500, "refused": 100, "vanished": 100, "overflows": 5, "cleared_in_callback_pending": 50, "destroyed_in_callback_pending": 30, "settled": 1000, "long_paths": 100, "changes_while_draining": 100, "many_watches": 2000},
      assumptions=["no two watched paths of one watcher name the same file", "an inotify instance can be created"])

check("C19", [run("net", "socket", (1500, 30000)), run("net", "resolve", (400, 8000)), run("net", "context", (600, 10000)), run("net", "socket", (300, 3000), "prod")],
      "net_socket over every family, type, protocol and role, free, used, shared and foreign addresses, lists of one and several, with each system call failing in turn and no descriptor left, the result put to use; net_resolve against the system resolver; contexts from valid, damaged, truncated, swapped, missing and unreadable files, put to use in a handshake; distinct = different combination",
      require={"eval": 5000, "sockets": 4000, "failures": 800, "passive_sockets": 800, "active_sockets": 800, "exchanges": 2000, "resolved": 500, "contexts": 300, "context_failures": 300, "context_handshakes": 300},
      assumptions=["the address list comes from getaddrinfo or is allocated like its lists", "of a longer list the first address is used"])

check("C27", [run("multi", "threads", (300, 6000), "tsan"), run("multi", "threads", (400, 8000)), run("multi", "threads", (300, 8000), "prod")],
      "2-8 threads, each running one to three reactors with random mixes of events, timers, plain and TLS echo streams and HTTP servers with clients, lookups, calls, watchers, pipes and data structures, with random delays, some aborted or ended by a signal; each task judges its own results, the race detector the rest; distinct = different mix and order of completion",
      require={"eval": 10000, "threads": 1500, "responses": 3000, "echoed": 500, "handshakes": 300, "aborted": 100, "killed": 50, "ended": 1000, "notes": 50},
      assumptions=["every object is used by one thread only", "OpenSSL is trusted and not instrumented"])

# ---------------------------------------------------------------- conservation
LEAKS = ["descriptor-leak", "memory-leak", "foreign-close", "double-close", "AddressSanitizer"]
check("C28", [run("life", "mix", (1500, 40000)), run("core", "objects", (200, 5000), only=LEAKS), run("server", "life", (300, 8000), only=LEAKS), run("tls", "tls", (500, 10000), only=LEAKS),
              run("stream", "notes", (500, 10000), only=LEAKS), run("timer", "timers", (300, 8000), only=LEAKS), run("event", "single", (300, 8000), only=LEAKS), run("async", "calls", (200, 4000), only=LEAKS),
              run("async", "resolve", (150, 3000), only=LEAKS), run("net", "socket", (300, 5000), only=LEAKS), run("net", "context", (150, 3000), only=LEAKS), run("notify", "watch", (60, 1000), only=LEAKS)],
      "random lives of up to 14 objects of all kinds (descriptors, plain and TLS streams, servers with clients, events, timers, watchers, calls, lookups) opened, used, failed, closed, re-opened and destroyed in any order, also from callbacks; every close by the library is held against who owns the descriptor, descriptors and heap are compared before and after each history, which is repeated when they differ; the same over the histories of the other monitors; distinct = different history",
      require={"eval": 20000, "objects": 10000, "given": 5000, "lives": 1500, "destroyed_in_callback": 100, "destroyed_open": 2000, "connections": 1000, "requests": 200, "cloexec": 5000, "accept_failures": 100},
      assumptions=["a server is not shut down inside a handler of its own", "held requests are answered or released before their server is shut down", "the system grants the loop, events, timers and watchers themselves"])

# quick runs are as deep as fits into some 20 s per check
for _p, _k in dict(C01=3, C02=8, C03=5, C04=4, C05=2, C06=5, C07=5, C08=6, C09=2, C10=2, C12=3, C13=3, C14=3, C16=3, C17=4, C19=3, C20=2, C21=3, C22=3,
                   C23=2, C24=2, C25=2, C29=3, C30=2).items():
    for _r in CHECKS[_p]["runs"]:
        if _r["cases"][0] >= 100 and _r["scenario"] != "align": _r["cases"] = (_r["cases"][0] * _k,) + tuple(max(_r["cases"][0] * _k, x) for x in _r["cases"][1:])
