#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  python3 tools/mkprops.py
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=["src/reactor/" + f if "/" not in f else f for f in files.split()],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "No event reaches a handler after it was removed or closed",
 "Once a handler has been deleted from the reactor, or a descriptor has been closed, its callback is never invoked for the old registration again, not even for events that were already collected in the same wake-up, and its memory may be freed or its file descriptor number reused at once. If it is registered again from inside a callback, events collected for the old registration are not delivered to the new one. This holds whichever callback does the removal: its own, or that of any other handler in the same wake-up.",
 "histories schedules", "every population of registered descriptors, every set of them ready in one wake-up, every sequence of close / free / re-open / fd-number reuse done from inside callbacks",
 "test/core.c 'race' has two descriptors in one order; the guarantee is over every batch composition and every removal from every position of the batch, with memory freed and descriptors reused.",
 "core.c descriptor.c", [("reactor_delete rewrites pending events of the batch", "core.c reactor_delete"), ("descriptor_callback re-reads the event word between dispatches", "descriptor.c descriptor_callback")],
 [("event, event_end", "unprocessed remainder of the current batch", "core.c struct reactor")], ["callback invocations", "epoll_wait return values"])

prop("C02", "Readiness is always delivered, in order, and only if asked for",
 "When a registered descriptor becomes readable or writable while that condition is in its mask, or its peer closes or hangs up, the matching READ, WRITE or CLOSE callback is delivered once the loop runs; for one wake-up of one descriptor READ comes before WRITE and WRITE before CLOSE. A condition left out of the mask, or that does not exist, is never reported. An edge-triggered descriptor is notified again after new activity or after its mask is changed to include the condition, and not over and over without either; a level-triggered one is notified on every wake-up while the condition persists, and no number of ready descriptors starves another.",
 "histories schedules inputs", "every history of peer writes, closes, half-closes, reads, drains, mask changes and level/edge modes over any number of descriptors (well beyond one epoll batch)",
 "test/descriptor.c runs one descriptor through one fixed sequence; lost wake-ups need particular orders of mask changes and activity.",
 "core.c descriptor.c", [("descriptor_events maps the mask to the epoll events", "descriptor.c"), ("descriptor_mask re-arms", "descriptor.c descriptor_mask"), ("reactor_loop_once walks the batch", "core.c")],
 observe=["descriptor callbacks", "poll(2) state of the descriptor"])

prop("C03", "The loop runs exactly as long as there is work or until aborted",
 "reactor_loop returns if and only if no descriptor is registered any more, or reactor_abort was called, or SIGTERM or SIGINT arrived; it never blocks with nothing registered, finishes the wake-up it is in, and an interrupted wait (EINTR) is not an error and loses no event. SIGPIPE never ends the process, and every construct / destruct cycle starts afresh. reactor_now is the real-time clock in nanoseconds, constant within one loop iteration and renewed on the next.",
 "histories schedules fault_sequences", "every number of registered descriptors and order of their removal, aborts and signals at any point (in a callback, during the wait, between iterations), interrupted waits at any iteration, repeated construct/destruct cycles",
 "test/core.c aborts once from one signal; arrival points of signals and removal orders are not enumerated.",
 "core.c", [("descriptor counting in reactor_add/reactor_delete", "core.c"), ("active flag and signal handlers", "core.c reactor_construct"), ("EINTR handling", "core.c reactor_loop_once")],
 [("descriptors", "number of registrations", "core.c struct reactor"), ("active", "loop not aborted", "core.c struct reactor")], ["epoll_wait calls", "return of reactor_loop"])

prop("C04", "Every event signal is delivered exactly once",
 "The counts delivered to an event's callback add up to exactly the number of event_signal calls made on it while it was open, whoever makes them: the loop thread, its own callback, or any number of other threads concurrently. Callbacks run only in the loop thread, carry a count of at least one, never run without a signal, and never run after the event was closed; signals left pending at close do not reach a later re-opened event.",
 "schedules histories", "every interleaving of event_signal calls from any number of threads with the loop, with bursts before the loop runs, signals from inside the callback and close/re-open at any point",
 "test/event.c sends one signal; the loss appears only with several signals pending in one wake-up.",
 "event.c descriptor.c", [("eventfd counter and its read in event_callback", "event.c")], observe=["event callbacks", "event_signal calls"])

prop("C05", "Timers never fire early, lose or invent expirations",
 "A timer set with (delay, interval) never reports an expiration before its delay has passed, reports exactly one expiration if the interval is zero, and otherwise the reported counts add up to one for the delay plus one for each full interval elapsed, however late or rarely the loop runs; a delay of zero fires at once. After timer_clear or timer_set nothing of the old setting is reported any more, not even if it had already expired in the current wake-up, and the timer may be cleared, re-armed or freed from its own or another callback. Delays and intervals are honoured to the nanosecond for any 64-bit value, including many seconds.",
 "histories schedules inputs", "every delay/interval pair, every number of timers, any delay in running the loop, any set/clear/re-arm/free from inside callbacks of the same wake-up",
 "test/timer.c runs a couple of settings on an idle loop; same-wake-up races and missed intervals depend on schedules.",
 "timer.c descriptor.c", [("timerfd is drained and the counts are summed", "timer.c timer_callback"), ("nanosecond split", "timer.c timer_set")], observe=["timer callbacks", "timerfd_gettime of the timer's descriptor"])

prop("C06", "Plain streams carry every byte once and in order",
 "On a plain stream over a socket or pipe, the bytes the peer receives are exactly the concatenation of everything queued with stream_write or stream_allocate before the flushes, and the bytes offered by stream_read are exactly what the peer sent minus what was consumed, in order, without loss, duplication or corruption. This holds for any sizes, any kernel buffer size, any slow, stopping or bursty peer, partial writes, and queueing while earlier data is still being sent. Flushed data is transmitted as soon as the peer makes room, without further calls by the application, and data sent just before the peer closes is delivered before the close is reported.",
 "inputs schedules histories fault_sequences", "every segmentation and size of writes and reads on both sides, socket buffer sizes, partial-write points, descriptor kinds (unix and TCP sockets, pipes)",
 "test/stream.c moves one pattern with one peer schedule; partial-write points and re-arming depend on kernel buffer state.",
 "stream.c buffer.c descriptor.c", [("write loop keeps the unsent tail", "stream.c stream_socket_write"), ("mask follows pending output", "stream.c stream_socket_update"), ("read loop until short read", "stream.c stream_socket_read")],
 observe=["bytes at both ends of the socket"])

prop("C07", "TLS streams carry every byte once and in order",
 "On a TLS stream, in the server or client role, application bytes arrive at the peer exactly as queued and in order, and received bytes are exactly those the peer sent, whatever the sizes, record boundaries, handshake timing (data queued before it completes), protocol version, partial socket writes and slow peers; flushed data is transmitted as the peer makes room. A stream that is not opened for reading still completes its handshake and sends, but neither reads nor reports what the peer sends. Nothing the application queues is ever sent in clear text, data that was not authenticated is never delivered, and garbage, truncation or corruption on the wire never crashes the process. A stream closed after TLS use can be opened again, with or without TLS.",
 "inputs schedules histories fault_sequences", "every segmentation of application data and of the wire bytes, both roles, TLS 1.2 and 1.3, corrupted, truncated or stalled wires, re-opened streams, streams open for reading, writing or both",
 "test/stream.c does one exchange over an ideal socketpair, so want-read/want-write paths are barely reached.",
 "stream.c", [("SSL_read until it would block", "stream.c stream_ssl_read"), ("SSL_write until it would block", "stream.c stream_ssl_flush"), ("interest from ssl state and pending output", "stream.c stream_ssl_mask")],
 observe=["plaintext at both ends", "bytes on the wire"])

prop("C08", "Stream notifications are exact and closing is final",
 "Each stream_notify is answered by exactly one STREAM_WRITE callback, once all output queued so far has been handed to the kernel, and none comes without a request; STREAM_READ is reported only when new bytes were received and only if reading was requested; STREAM_CLOSE is reported when the peer closes or resets. After stream_close or stream_destruct no callback runs, nothing queued is sent, and flushing is harmless; a re-opened stream starts with empty buffers and no stale notification. A vanished or resetting peer, at any moment and with any amount of pending output, never aborts the process.",
 "histories schedules fault_sequences", "every sequence of write, flush, notify, close, free and re-open, from inside and outside callbacks, against peers that read, stall, half-close, close or reset at any point",
 "test/stream.c uses one notify on an idle stream and one orderly close.",
 "stream.c descriptor.c", [("notify flag cleared before dispatch", "stream.c stream_socket_callback"), ("close clears buffers and notify", "stream.c stream_close")],
 [("notify", "WRITE notification requested", "stream.h struct stream")], ["stream callbacks", "bytes at the peer"])

prop("C09", "HTTP requests are parsed exactly and within bounds",
 "For every byte sequence, http_read_request_data returns the exact length of the leading request head with method, target and header names and values as exact slices of the input if it is complete and well formed; every incomplete prefix of such a head yields 'need more', and an error is reported only for bytes that no continuation can make acceptable. It reads only the given bytes: the result depends neither on memory outside the buffer nor on how it is aligned or how the bytes were delivered, and a verdict reached on a prefix never changes when more bytes follow. More header fields than the caller provides room for, or a head of 2^31 bytes or more, is an error, never an overflow or a wrong size.",
 "inputs configurations", "every byte sequence up to several kilobytes, every truncation point, every field capacity, both the SSE4.2 and the scalar scanner",
 "test/http.c parses a handful of requests in a large buffer, with the scalar scanner only.",
 "http.c src/picohttpparser/picohttpparser.c", [("phr_parse_request and its end-of-buffer checks", "src/picohttpparser/picohttpparser.c"), ("http_read_request_data", "http.c")], observe=["return value and slices", "sanitizer reports on exact-size allocations"])

prop("C10", "HTTP responses are parsed exactly and within bounds",
 "For every byte sequence at the head of a stream's input, http_read_response returns the exact length of the response head with the status code, reason phrase and header fields as exact slices if it is complete and well formed; every incomplete prefix of such a head yields 'need more', and an error is reported only for bytes that no continuation can make acceptable. It reads only the received bytes, and a verdict reached on a prefix never changes when more bytes follow. A head of 2^31 bytes or more is an error, never a wrong size.",
 "inputs configurations", "every byte sequence up to several kilobytes, every truncation point, every field capacity, both scanners",
 "test/http.c reads a few well-formed responses.",
 "http.c src/picohttpparser/picohttpparser.c", [("phr_parse_response", "src/picohttpparser/picohttpparser.c"), ("http_read_response", "http.c")], observe=["return value and slices"])

prop("C11", "HTTP messages are written exactly and read back unchanged",
 "http_write_request and http_write_response append to the stream's output exactly one message and nothing else, with the given method, target, host, status, date, content type and body unchanged, the body preceded by a Content-Length equal to its size, and the optional headers present or absent as documented by their arguments; the bytes depend on nothing but the arguments, and no byte outside the space reserved is touched. Reading a written message back yields the same fields, and any sequence of written messages can be split again at exactly the same boundaries. Field lookup is case-insensitive, exact on length, and returns the first match.",
 "inputs", "every combination of empty, short and large arguments (bodies to gigabytes, around each decimal length boundary), any output already pending, any sequence of messages",
 "test/http.c compares two fixed messages.",
 "http.c pointer.c stream.c utility.c", [("size computed up front must equal what is pushed", "http.c http_write_request, http_write_response")], observe=["stream output bytes", "round trip through the readers"])

prop("C12", "The server answers every request once, in order, however it is cut up",
 "For every connection, each well-formed request head received reaches the handler exactly once, in order, with exactly its method, target and header fields, and its response is sent exactly once in the same order, whether it is given at once or later, and however the bytes were segmented or pipelined and whichever other connections are active. While a response is outstanding, no later request of that connection reaches the handler. This holds for plain and for TLS connections.",
 "inputs schedules histories", "every segmentation of pipelined requests into reads, every choice of immediate or deferred answers completed in any order across connections, any number of connections",
 "test/server.c sends one request per connection, at most split in two.",
 "server.c http.c stream.c", [("request state machine", "server.c server_request_update, server_request_read, server_respond")],
 [("state, event_triggered, data", "progress of the connection", "server.h struct server_request")], ["handler calls", "bytes received by clients"])

prop("C13", "Held server requests stay valid; ended ones are released exactly once",
 "A request object stays valid for as long as the application holds it, and is released exactly once when the connection has ended and the last hold is gone; answering, closing or releasing a held request stays safe when the client has disconnected, when it was closed by the application, or when the server was shut down (once or repeatedly) in the meantime, and nothing is sent on a connection once it is closed. An answer small enough for the socket's buffer that was given before the server is shut down still reaches the client, an answer given outside of a handler is sent before the next request is handled, server_close ends the connection in order (what the kernel has taken of the answers before still arrives), and after shutdown and the release of all holds no connection, descriptor or memory remains.",
 "histories schedules", "every sequence of hold, release, respond, close, bad request, client disconnect, shutdown and destruct, from inside and outside the handler, on any number of connections",
 "test/server.c runs one fixed sequence per operation on a single connection.",
 "server.c list.c stream.c", [("reference count of the request", "server.c server_hold, server_release, server_close, server_shutdown")],
 [("ref", "holders of the request", "server.h struct server_request")], ["sanitizer reports", "open descriptors and heap at quiescence", "client side of the connection"])

prop("C14", "No client can crash, wedge or corrupt the server",
 "Whatever any client sends or does, including malformed, oversized, binary or endless input, sudden resets, half-closes, stalled reading and broken TLS, the server keeps running and keeps answering the other clients correctly. A request head that is rejected as malformed is answered with 400 Bad Request after the responses to the requests before it, never reaches the handler, and that connection is closed. Temporary failures to accept a connection never stop later connections from being accepted.",
 "inputs fault_sequences schedules", "every byte sequence from clients, every point of reset or stall, accept failures (descriptor exhaustion, aborted connections, interruptions) at any point, many clients at once",
 "test/server.c sends one malformed request and never injects a failure.",
 "server.c stream.c http.c src/picohttpparser/picohttpparser.c", [("server_bad_request on parse error", "server.c server_request_read"), ("accept loop", "server.c server_socket_descriptor_callback, server_ssl_descriptor_callback")], observe=["server process", "responses seen by well-behaved clients"])

prop("C15", "Every server response carries a correct, current Date",
 "Every response of an open server carries a Date field that is a well-formed HTTP date (IMF-fixdate, GMT), names a weekday, day, month and year that belong together for any point in time, and is not in the future. It lags behind the clock by no more than the one-second refresh allows, also in the first response after the server was opened and for every locale and time zone setting.",
 "inputs histories configurations", "every point in time (leap days, year and century boundaries), every moment of a response relative to the refresh timer, any number of servers, locales and time zones",
 "test/server.c never looks at the Date field.",
 "server.c http.c timer.c", [("server_date_update", "server.c"), ("refresh timer", "server.c server_socket_open, server_ssl_open")], observe=["Date field seen by clients, under a controlled clock"])

prop("C16", "Async calls run once, elsewhere, and complete after the work is visible",
 "Each async_call runs the CALL callback exactly once, in another thread, concurrently with the loop, and then the DONE callback exactly once in the loop thread, after CALL has returned and with everything it wrote visible. After async_cancel or async_destruct returns, neither callback is running or will run, so the object and its state may be reused or freed at once, at any moment of the call's life. An object may be used for one call after another, also from its own DONE callback, and any number of calls may be in flight.",
 "schedules histories", "every interleaving of the worker with the loop thread's call, cancel, destruct, free and re-use, for any number of concurrent objects and durations of work",
 "test/async.c is not even run reliably; data races and use after free depend on the schedule.",
 "async.c event.c", [("completion event", "async.c async_thread, async_callback"), ("cancellation waits for the worker", "async.c async_cancel")], observe=["callbacks with thread identity", "race detector"])

prop("C17", "Resolver lookups complete once with the right answer or not at all",
 "Each resolver_lookup ends in exactly one callback in the loop thread: success with the addresses that the system resolver gives for the host, service, family, socket type, protocol and flags requested, or failure if there are none. Requests do not affect each other, strings passed in may be changed or freed as soon as the call returns, and a lookup that is cancelled, replaced by a new one or destroyed in flight reports nothing and leaks nothing.",
 "inputs schedules histories", "every combination of hosts, services, families, types and flags resolvable without a network, any number in flight, cancellation and re-use at any moment",
 "test/resolver.c looks up two names in the simplest order.",
 "resolver.c async.c net.c", [("arguments are copied", "resolver.c resolver_lookup"), ("result released on clear", "resolver.c resolver_clear")], observe=["resolver callbacks", "getaddrinfo reference"])

prop("C18", "File notifications are complete, ordered and correctly labelled",
 "Every change of a watched path that the kernel reports is delivered exactly once, in order, with the path as it was registered, the name of the directory entry concerned (empty if none) and the kernel's event mask, all of them valid for the whole callback, even if it adds or repeats watches. Clearing or destroying the watcher stops delivery at once, also from inside its own callback with more changes pending, and afterwards new watches report only themselves. An overflow of the kernel queue, a watch that vanishes with its file and a path that cannot be watched never abort the process.",
 "histories schedules fault_sequences", "every sequence of changes in any number of watched directories and files, bursts beyond one read buffer and beyond the kernel queue, clear/destroy/re-watch from inside and outside the callback",
 "test/notify.c watches the root directory and looks at no event content.",
 "notify.c list.c", [("batch walk with cancel flag", "notify.c notify_callback"), ("watch table", "notify.c notify_watch, notify_clear")], observe=["notify callbacks", "an independent inotify instance on the same paths"])

prop("C19", "Network helpers return usable non-blocking sockets or -1, never half-states",
 "net_socket returns either a non-blocking socket of the requested family and type, listening on, with room for connections that wait, (passive) or connecting to (active) exactly the given address, or -1; it consumes the address list and leaves no descriptor or memory behind in every case, whichever system call fails. net_resolve returns the resolver's answer for exactly the given host, service, family, type and flags, or nothing. A server context is created only from a readable certificate and private key, then serves TLS 1.2 and TLS 1.3 clients with exactly that certificate, and is otherwise reported as an error without leaking.",
 "inputs fault_sequences configurations", "every address family, type and flag combination available, every failing system call (socket, bind, out of descriptors), missing, malformed or swapped certificate and key files",
 "test/net.c covers one success and two failures.",
 "net.c", [("net_socket error paths", "net.c"), ("net_ssl_server_context error paths", "net.c")], observe=["getsockname/getsockopt/fcntl of the result", "open descriptors and heap"])

prop("C20", "Buffers behave as byte sequences",
 "After any sequence of operations a buffer's contents are those of an ideal byte sequence subjected to the same inserts, fills, erases, resizes and clears at any position; reserving and compacting never change contents, capacity is never below size and never below what was reserved, and no byte outside is read or written. Clearing or destroying releases everything.",
 "histories inputs", "every sequence of operations with sizes from zero across every capacity boundary",
 "test/buffer.c applies a dozen operations once.",
 "buffer.c", [("capacity rounding and moves", "buffer.c")], observe=["buffer contents through the public API", "sanitizer reports"])

prop("C21", "Vectors behave as sequences and release each removed element once",
 "After any sequence of operations a vector holds exactly the elements of an ideal sequence subjected to the same operations, for any element size, with front, back, at, size and empty agreeing; elements keep their values across growth, reserve and shrinking. The release callback runs exactly once for every element removed by erase, pop, clear or destruct, with the value of that element, and never for a remaining one.",
 "histories inputs", "every sequence of operations, positions, range and fill lengths and element sizes",
 "test/vector.c applies a fixed sequence to one element size.",
 "vector.c buffer.c", [("element to byte arithmetic", "vector.c")], observe=["vector contents", "release calls"])

prop("C22", "Lists keep order and element addresses, and release exactly once",
 "After any sequence of pushes, inserts, splices, erases and clears a list enumerates, forwards and backwards, exactly the elements of an ideal doubly linked list subjected to the same operations; an element's address never changes during its lifetime, also when it is moved within or between lists. The release callback runs exactly once for each erased element and finds it intact; an element may be erased while the list is being walked if the next one was taken first, and find returns the first match or nothing.",
 "histories inputs", "every sequence of operations on one or two lists, at every position, with element sizes from zero",
 "test/list.c applies a fixed sequence.",
 "list.c", [("relinking in insert, splice, erase", "list.c")], observe=["forward and backward walks", "release calls", "sanitizer reports"])

prop("C23", "Maps behave as dictionaries under every history of inserts and erases",
 "After any sequence of operations, integer- and string-keyed maps (and the generic map under them, for any hash function however bad) contain exactly the keys and values of an ideal dictionary in which the first insert of a key wins; lookup of an absent key yields nothing, size and enumeration agree, and growing, reserving, clearing and colliding keys never lose, duplicate or change an entry. The release callback runs exactly once for every entry erased, cleared, destroyed or rejected as a duplicate, and for no other.",
 "histories inputs", "every sequence of insert, erase, reserve, clear and lookup over any key set, including adversarial collisions, wrap-around clusters and every rehash point (non-zero integer keys)",
 "test/map*.c insert and erase a fixed series once; deletion repair in wrapped clusters needs particular layouts.",
 "map.c mapi.c maps.c", [("backward-shift deletion", "map.c map_erase"), ("rehash on growth", "map.c map_rehash")], observe=["lookups, enumeration and size", "release calls"])

prop("C24", "Strings behave as byte strings, in memory and through files",
 "After any sequence of inserts, appends, prepends, erases, replacements, resizes and copies a string's contents equal those of an ideal byte string, terminated by a zero byte that is not counted; searching finds the leftmost occurrence at or after the position, and replace-all replaces every non-overlapping occurrence from the left once, never within its own replacement. Saving to an existing file makes the file hold exactly the string, writing delivers every byte even if the kernel takes only part at a time, and loading or reading returns exactly what is there. The shared empty string is never modified, copies are independent, and freeing releases everything.",
 "histories inputs fault_sequences", "every sequence of operations on arbitrary bytes (embedded zeros, empty strings, growing and shrinking replacements), short reads and writes at any point, previous file contents of any length",
 "test/string.c applies a fixed sequence and saves only to /dev/null.",
 "string.c data.c", [("header with size and capacity before the characters", "string.c"), ("write loop", "string.c string_write")], observe=["string contents", "file contents", "sanitizer reports"])

prop("C25", "Hashing is FarmHash64 and depends only on the given bytes",
 "hash_data of n bytes equals the published FarmHash 64-bit function for every length and content, hash_string equals hash_data over the characters, and hash_uint64 is the published 64-bit finaliser, a bijection. Nothing outside the given bytes is read and neither alignment nor surrounding memory affects the result.",
 "inputs", "every byte sequence, length and alignment; every 64-bit integer",
 "test/hash.c checks a few strings, not every length class and tail length.",
 "hash.c", [("length-class functions", "hash.c")], observe=["return values against an independent implementation"])

prop("C26", "Decimal conversion is exact for every 32-bit value",
 "For every unsigned 32-bit value the reported decimal length and the digits written are exactly those of its shortest decimal representation; the zero-terminated form is terminated right after the last digit, and no byte outside the digits (and terminator) is written.",
 "inputs", "all 2^32 values",
 "test/utility.c tries some powers of ten.",
 "utility.c", [("length by power table", "utility.c utility_u32_len"), ("digit pairs", "utility.c utility_u32_sprint")], observe=["bytes written"])

prop("C27", "Reactors in different threads are independent",
 "Each thread may run its own reactor with its own descriptors, events, timers, streams (plain and TLS), servers, watchers and resolvers at the same time: there are no data races, and every thread observes exactly the behaviour it would alone. Aborting, emptying or destroying the reactor of one thread does not affect another.",
 "schedules histories", "every interleaving of threads that construct, use and destroy reactors and all objects on them, and that use the pure data structures, concurrently",
 "no test starts two reactors.",
 "core.c stream.c server.c string.c", [("thread-local reactor, TLS and date state", "core.c, stream.c, server.c"), ("shared null string is read-only", "string.c")], observe=["race detector", "per-thread results"])

prop("C28", "Descriptors and memory are conserved over every object's life",
 "Over any history of constructing, opening, using, closing and destroying reactor objects, including every way their peers or system calls may fail, each descriptor the library creates or is given is closed exactly once, no descriptor it does not own is ever closed, the descriptors behind the loop, events, timers and watchers are not inherited by executed programs, and after destruction no memory it allocated remains. Repeating a history any number of times leaves the process as the first time did.",
 "histories fault_sequences", "every mix of objects and order of open, use, failure, close and destruct, including closes and destructions from inside callbacks",
 "the leak check of the tests (valgrind.sh) fails on this platform and covers only the tests' own sequences.",
 "descriptor.c stream.c server.c event.c timer.c notify.c async.c resolver.c net.c core.c", [("descriptor_close owns the descriptor", "descriptor.c"), ("destructors", "each module")], observe=["close calls with ownership model", "/proc/self/fd", "allocator statistics"])

prop("C29", "Chunked decoding does not depend on segmentation",
 "For every byte sequence fed to the chunked decoder in any pieces, the decoded bytes, the point where the body ends, the bytes left over and the final verdict (complete, need more, error) equal those for the same bytes fed at once and those of the chunked grammar; decoding is in place and never reads or writes outside the given bytes.",
 "inputs histories", "every byte sequence and every way to cut it into pieces, with and without trailer consumption",
 "no test calls the decoder.",
 "src/picohttpparser/picohttpparser.c", [("decoder state machine", "src/picohttpparser/picohttpparser.c phr_decode_chunked")], observe=["decoded bytes and return values"])

prop("C30", "Data slices and cursors are exact",
 "Slices never copy or alter bytes: select, consume and offset address exactly the bytes implied by their arguments, equality and prefix tests hold exactly when the bytes agree (empty slices included), and allocation yields zeroed memory of the requested size. Cursor pushes place exactly the given bytes at the cursor, advance it by exactly their number and touch nothing else.",
 "inputs histories", "all pairs of byte strings including empty, embedded zeros and common prefixes, all offsets and sizes within the slice, any sequence of pushes",
 "test/data.c and test/pointer.c check one or two literals.",
 "data.c pointer.c", [("slice arithmetic", "data.c"), ("cursor arithmetic", "pointer.c")], observe=["returned slices", "bytes around the cursor"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    p["anchors"]["files"] = [f for f in p["anchors"]["files"]]
    for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
