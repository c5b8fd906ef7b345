#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as source so that statements are easy to edit).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Handles designate one live object each until closed or moved",
  "A handle returned by a successful creation differs from every other live handle and keeps designating the object it was created for, through any number of later creations, moves and closures (including growth of the handle table), until it is closed or moved with hown; after that, and for numbers never issued, every operation on it fails with EBADF and touches no object. Closing runs the object's destructor exactly once with blocking calls disabled meanwhile, hown keeps the object alive under a new number (or closes it if it fails), and a type query always returns what that object itself answers for that type, never a cached answer of another type or of a previous occupant. A failed creation (invalid argument, cancelled coroutine, out of memory) reports its error and leaves every existing handle as it was.",
  ["histories", "inputs", "fault_sequences"], "every handle table (any size, any free list), every handle argument, every allocation outcome, destructors that themselves create or close handles",
  "Tests make a handful of handles; slot reuse, growth past 248 live handles, stale numbers, failed reallocation and destructors that reallocate the table are never combined.",
  ["handle.c", "handle.h"],
  [("hmake/hown/hclose/hquery", "handle.c"), ("free list with rotation", "handle.c dill_hmake, dill_hclose")],
  [("handle table", "slot in use or member of the free list", "handle.h dill_ctx_handle")])

p("C02", "Wire encodings of integers, Base64 and SHA-1 are exact and reversible",
  "Every 16-, 32- and 64-bit integer is written in network byte order (most significant byte first) into exactly 2, 4 or 8 bytes and read back as the same value, touching no neighbouring byte. Base64 encoding follows RFC 4648 (with padding), decoding inverts it, neither ever reads beyond its input or writes beyond the stated output capacity, and a result that does not fit is refused with -1. The decoder skips white space and stops at the first foreign character. The hash used in the WebSocket handshake equals SHA-1 for every message, however the message is split into updates.",
  ["inputs"], "all integer values and buffer positions, all byte strings (including bytes above 127), all output capacities, all message lengths and splits",
  "The tests only exercise the codecs through a few protocol exchanges with fixed short payloads; capacity limits, high bytes and block boundaries are never reached.",
  ["utils.c", "utils.h"],
  [("dill_puts/getl/putll...", "utils.c"), ("dill_base64_encode/decode", "utils.c"), ("dill_sha1_*", "utils.c")])

p("C03", "Scatter/gather lists are validated exactly and never damaged",
  "A vectored send or receive accepts an iolist if and only if it is well formed: either both ends are null, or the list starting at the first element is a loop-free chain of unmarked elements that ends exactly at the given last element; anything else fails with EINVAL without transferring a byte. Whatever the outcome, the caller's list is handed back unmodified, element by element. The bytes covered are exactly the concatenation of the elements in order: copying in or out, conversion for the kernel and skipping a prefix touch each byte once and nothing beyond, and copies that do not fit are refused.",
  ["inputs"], "all list topologies (cyclic, lasso-shaped, truncated, wrong tail, premarked), all element lengths including zero, elements without a buffer, all prefix lengths",
  "Unit tests pass one or two well-formed lists; malformed topologies and zero-length or bufferless elements in odd positions are not tried.",
  ["iol.c", "iol.h", "bsock.c", "msock.c"],
  [("dill_iolcheck", "iol.c"), ("dill_ioltoiov/ioltrim/iolto/iolfrom", "iol.c")])

p("C04", "Kernel byte streams deliver exactly the bytes, in order, once",
  "Over TCP and IPC sockets a successful send has handed the kernel exactly the bytes of the buffers in order, once each, and a successful receive has filled the buffers with exactly the next bytes of the incoming stream (discarding them where an element has no buffer), irrespective of how the kernel splits, shortens, interrupts or defers the transfers and of the small read-ahead buffer. Bytes read ahead are never lost, duplicated, reordered or read past, across successive receives of any sizes. A closed peer surfaces as EPIPE, a reset as ECONNRESET, an expired deadline as ETIMEDOUT; errors are never reported as success.",
  ["schedules", "inputs", "fault_sequences"], "every sequence of receive/send sizes, every kernel answer (partial count, EAGAIN, end of stream, reset, other error) at every step, every fill state of the read-ahead buffer",
  "Loopback tests see full-size transfers nearly always; partial writes in the middle of an element and refills that straddle requests depend on kernel timing.",
  ["fd.c", "fd.h"],
  [("dill_fd_send", "fd.c"), ("dill_fd_recv", "fd.c"), ("read-ahead buffer", "fd.h dill_fd_rxbuf")])

p("C05", "Length-prefix framing preserves message boundaries and content",
  "For every header size and byte order, a sent message appears on the stream as its length encoded in exactly the configured number of bytes in the configured endianness followed by its bytes, and receiving returns exactly one whole message, its exact length and content, and leaves the stream at the next header. A message that is too long for the receiver's buffer fails with EMSGSIZE and one whose length does not fit the header is refused; no byte outside the supplied buffers is written. After any failed send (receive) every further send (receive) fails, and the other direction is not affected.",
  ["inputs", "histories", "fault_sequences"], "every header size and byte order, every message size, every arrangement of the buffers, every failure of the underlying stream",
  "Tests use two header sizes and short messages that fit; lengths above the header's range, multi-element receive lists and mid-frame failures are not sampled.",
  ["prefix.c"], [("dill_prefix_msendl", "prefix.c"), ("dill_prefix_mrecvl", "prefix.c"), ("dill_prefix_detach", "prefix.c")])

p("C06", "Delimiter framing preserves message boundaries and content",
  "A sent message appears on the stream as its bytes followed by the delimiter, and a receive consumes the stream exactly up to and including the first occurrence of the delimiter and returns the bytes before it, for every delimiter of 1 to 32 bytes, including messages that contain proper prefixes of the delimiter. A message longer than the receiver's buffers fails with EMSGSIZE, never a silently truncated success, and nothing beyond the supplied buffers is written. After a failed operation or after the end of the stream that direction fails for good.",
  ["inputs", "histories", "fault_sequences"], "every delimiter and message content, every split of the receive buffers (including zero-length and bufferless elements), every failure of the underlying stream",
  "Tests use CRLF and a few short words; self-overlapping delimiters, messages exactly at the capacity and split buffers are not sampled.",
  ["suffix.c"], [("dill_suffix_mrecvl", "suffix.c"), ("dill_suffix_msendl", "suffix.c")])

p("C07", "Terminator protocol ends a message stream exactly at the terminator",
  "On a message socket with a terminator, messages are passed through unchanged in both directions, done sends exactly the terminator once, and a receive reports the end of the stream (EPIPE) if and only if the incoming message equals the terminator (failures of the underlying socket are passed on); every later receive also fails with EPIPE. A message that merely starts with, or is a prefix of, the terminator is delivered whole, and one larger than the receiver's buffer is never reported as a success. Detaching completes the handshake (sends our terminator if not yet sent, consumes input up to the peer's) before returning the underlying socket, which stays open; a failed handshake closes it.",
  ["inputs", "histories", "fault_sequences"], "every terminator (including empty) and message, every arrangement and size of receive buffers, every failure of the underlying socket",
  "Tests run one terminator over one transport with ordinary messages; near-miss messages and short buffers are not tried.",
  ["term.c"], [("dill_term_mrecvl", "term.c"), ("dill_term_attach_mem", "term.c"), ("dill_term_detach", "term.c")])

p("C08", "HTTP requests, statuses and fields are formatted and parsed safely",
  "What the HTTP layer writes is a syntactically valid HTTP/1.1 start line or header field carrying the given values; arguments that could break the line structure (control characters or spaces where not allowed, malformed names) are refused with EINVAL. For every line a peer may send, receiving either returns the fields of that line, properly separated, with surrounding blanks stripped and terminated inside the caller's buffers, or fails with a protocol, size or end-of-stream error; no read or write ever leaves the line or the buffers. Sending and receiving are inverse: what one side sends is what the other side gets.",
  ["inputs", "fault_sequences"], "all byte strings as lines from the peer, all argument strings, all output buffer sizes including tiny ones",
  "Tests exchange two well-formed requests; malformed lines, boundary-length buffers and odd blanks are unlimited in number.",
  ["http.c"], [("dill_http_recvrequest/recvstatus/recvfield", "http.c"), ("dill_http_sendrequest/sendstatus/sendfield", "http.c")])

p("C09", "WebSocket frames are encoded, decoded and closed as RFC 6455 requires",
  "Each sent message is one final frame with the right opcode, the shortest length encoding, a mask exactly when sent by a client, and its payload (masked by position within the frame) intact; a receive reassembles exactly one message from its fragments, unmasks it, answers nothing, delivers exact bytes, length and type, and ignores or handles interleaved control frames without corrupting the message. Messages too large for the buffer give EMSGSIZE and protocol violations (wrong masking, reserved or unknown opcodes, oversized or fragmented control frames, misplaced continuations) give EPROTO, never memory corruption. A close frame carries the given status in network order and its text, is reported as EPIPE with the received status and reason retrievable, and ends that direction for good.",
  ["inputs", "histories", "fault_sequences"], "every payload length in the three size classes, every frame header a peer can send, every fragmentation and interleaving of control frames, every buffer arrangement",
  "The tests talk to themselves with a few short unfragmented messages, so the receive path for fragmentation, control frames and large lengths is not exercised.",
  ["ws.c"], [("dill_ws_sendbase", "ws.c"), ("dill_ws_recvbase", "ws.c"), ("dill_ws_done/status", "ws.c")])

p("C10", "SOCKS5 negotiation speaks RFC 1928/1929 and stays within bounds",
  "The client's and the proxy's method negotiation, username/password sub-negotiation, commands and replies are exactly the RFC 1928/1929 byte sequences for the given address, host name, port and credentials (1 to 255 bytes each); arguments outside the representable range are refused with EINVAL before anything is sent. Whatever bytes the other side sends, each call ends with a result or an error (an unexpected version, method, address type or a refusal is an error, with errno set), authentication succeeds only if the peer accepted it, and no byte is read or written outside the buffers, even for maximum-length credentials. Decoded requests report exactly the address, name and port that were encoded.",
  ["inputs", "fault_sequences"], "all credentials and names of every length, all addresses and ports, all byte sequences from the peer, all failures of the stream",
  "Tests run one happy path per mode; maximum-length credentials and hostile replies are not sampled.",
  ["socks5.c"], [("dill_socks5_client_auth", "socks5.c"), ("dill_socks5_proxy_auth", "socks5.c"), ("connect/reply encoding", "socks5.c")])

p("C11", "Channels hand each message over exactly once, in order, or not at all",
  "A send on one side of a channel completes successfully only by handing its message, byte for byte, to exactly one receive on the other side, and vice versa; peers blocked on the same side are served first come first served, and the two directions of a channel never mix. Sizes must match: otherwise both operations fail with EMSGSIZE and no message is transferred. Once a side is marked done, or both sides are closed, every blocked and later operation in that direction fails with EPIPE; operations that time out or are cancelled leave no trace in the channel, so they neither consume nor deliver a message afterwards.",
  ["schedules", "histories", "inputs"], "all numbers and orders of blocked peers, all message sizes, all deadlines, cancellation or timeout at any suspension",
  "Tests run fixed small scripts of two or three coroutines with one integer each; queue orders, timeouts racing with peers and size mismatches against deep queues are not covered.",
  ["chan.c", "cr.c"], [("dill_chsend/chrecv/chdone", "chan.c"), ("dill_chcancel", "chan.c")],
  [("waiting clauses", "FIFO lists of blocked senders and receivers per direction", "chan.c dill_halfchan")])

p("C12", "choose performs exactly one of its operations, or none",
  "A multi-way wait performs at most one of its clauses: it returns the index of the clause that was carried out (or that failed, with the error of that clause), giving preference to the first clause in order that can proceed at once, and leaves every other clause without effect on its channel, both when it returns immediately and when it is resumed later. If none can proceed it fails with ETIMEDOUT at a zero or expired deadline with no trace left in any channel; cancellation gives ECANCELED. Invalid clauses (unknown operation, null buffer with nonzero length, bad handle, done channel, size mismatch) are reported at their index with the matching error.",
  ["schedules", "histories", "inputs"], "every number and mix of clauses over any channels (including the same channel several times), every state of those channels, every way of being resumed",
  "Tests use at most three clauses in fixed arrangements; the combinations of ready, blocked, done and mismatched clauses grow without limit.",
  ["chan.c", "cr.c"], [("dill_choose", "chan.c"), ("clause cancellation", "cr.c dill_trigger")])

p("C13", "A suspended coroutine is resumed exactly once, by one cause",
  "A suspended coroutine is made runnable exactly once per suspension, by the first of the events it waits for (or by cancellation), it sees the identity and error of that very event, and every other event it was waiting for is withdrawn at that moment so that none can reach it later. Runnable coroutines run in the order in which they became runnable, a new coroutine runs before its creator continues, and a yield lets every coroutine that was already runnable go first. A coroutine that is being cancelled gets ECANCELED from every blocking call instead of suspending.",
  ["schedules", "histories"], "any number of coroutines, clauses and events in any order of occurrence, including several events in the same poll",
  "Tests observe a few deterministic schedules; a double resume or a stale waiter needs two particular events within one scheduling round.",
  ["cr.c", "cr.h", "qlist.h", "slist.h", "list.h"], [("dill_trigger/dill_cancel", "cr.c"), ("dill_wait", "cr.c"), ("ready queue", "qlist.h")],
  [("ready queue", "FIFO of runnable coroutines", "cr.h dill_ctx_cr")])

p("C14", "Deadlines fire in order, never early, and never get lost",
  "A timer never expires before its deadline, and once the clock has reached it, it expires at the next poll no matter how many other timers are pending or were cancelled: expired timers are served in deadline order, and cancelling one leaves all others intact. When all coroutines are blocked the process waits no longer than the earliest pending deadline allows and, with nothing pending, indefinitely. A negative deadline never expires and a zero or past deadline expires immediately with ETIMEDOUT where the operation cannot complete at once.",
  ["schedules", "histories", "inputs"], "any set of pending deadlines (all 64-bit values, equal ones included), any interleaving of insertions, cancellations and expiries, any clock readings",
  "Tests arm a handful of timers with close deadlines; tree rebalancing with many timers, equal keys, removals in the middle and far-away deadlines are not tried.",
  ["rbtree.c", "rbtree.h", "cr.c", "now.c", "libdill.c"], [("dill_rbtree_insert/erase/first/next", "rbtree.c"), ("dill_timer", "cr.c"), ("poll timeout", "cr.c dill_wait")],
  [("timers", "search tree of pending deadlines", "cr.h dill_ctx_cr")])

p("C15", "Closing a bundle ends all its coroutines before it returns",
  "When closing a bundle (or a single coroutine's handle) returns, every coroutine launched in it has finished, each unfinished one having had its blocking calls fail with ECANCELED, its stack is released once, and coroutines outside the bundle are untouched. Waiting for a bundle succeeds exactly when no coroutine of it remains (at once if there is none), gives ETIMEDOUT at the deadline and ECANCELED on cancellation, leaves the bundle intact in those cases, and cannot crash whatever the order of the deadline and the last termination. A launch that fails (no memory, cancelled, bad handle, too small a user stack) starts nothing, leaks nothing, changes no existing bundle and reports the error.",
  ["schedules", "histories", "fault_sequences"], "any number and states of coroutines in the bundle, any order of terminations, deadline and cancellation, every allocation failure",
  "Tests close bundles with one to three coroutines in one state; the race of deadline and last termination and failed launches are not sampled.",
  ["cr.c", "stack.c"], [("dill_bundle_close/dill_bundle_wait", "cr.c"), ("dill_prologue/dill_epilogue", "cr.c"), ("dill_cr_close", "cr.c")])

p("C16", "A file descriptor wait wakes the right coroutine for the right event",
  "A coroutine waiting for a descriptor to become readable (writable) is resumed when the poller reports that condition, or an error or hang-up, for that descriptor, and never because of another descriptor or the other direction; at most one coroutine may wait per descriptor and direction and a second one gets EBUSY. After a wait ends for any reason (event, deadline, cancellation), nothing of it remains registered on its behalf, and the poller's interest in each descriptor equals the set of current waits by the time it next waits. Cleaning a descriptor fails with EBUSY while somebody waits on it, is harmless for unknown or invalid descriptors and makes reuse of the number safe.",
  ["histories", "schedules", "fault_sequences"], "every sequence of waits, events, timeouts, cancellations and cleans over any descriptors, every event mask the kernel can report, registration failures",
  "Tests use one pipe or socket pair; mixed directions, simultaneous events, slot reuse and clean/reuse sequences on many descriptors are not combined.",
  ["epoll.c.inc", "poll.c.inc", "pollset.c", "libdill.c"], [("dill_pollset_in/out/clean/poll (epoll)", "epoll.c.inc"), ("dill_pollset_in/out/clean/poll (poll)", "poll.c.inc")])

p("C17", "Stacks and buffers handed out are exclusive and recycled safely",
  "Every coroutine stack or receive buffer handed out is not in use by anybody else, has the full configured size, is properly aligned and (for stacks, where supported) guarded, whether it is fresh or recycled. Releasing one makes it reusable or returns it to the system exactly once; the cache never grows beyond its limit and never hands out the same block twice. If memory cannot be obtained the request fails with ENOMEM and nothing already handed out is affected.",
  ["histories", "fault_sequences"], "every sequence of allocations and releases, every cache fill level, failure of every system call involved",
  "Tests never make the allocator fail and rarely fill the cache past its limit.",
  ["stack.c", "fd.c", "stack.h", "fd.h"], [("dill_allocstack/dill_freestack", "stack.c"), ("dill_fd_allocbuf/freebuf", "fd.c")])

p("C18", "Addresses survive parsing, formatting and comparison exactly",
  "Parsing an IPv4 or IPv6 literal with a port yields an address whose family, length, port and bytes are exactly the given ones, for every valid literal and port under every mode that admits the family, and formatting it gives back an equivalent literal; invalid literals, ports outside 0 to 65535 and unknown modes are refused with EINVAL rather than crashing. Two addresses compare equal exactly when family, address and (unless told to ignore it) port are equal. Changing the port changes nothing else.",
  ["inputs"], "all addresses, ports and modes, all invalid ports and modes",
  "Tests resolve a few literals; the full ranges of ports, modes and families are not covered.",
  ["ipaddr.c"], [("dill_ipaddr_local/remote", "ipaddr.c"), ("dill_ipaddr_equal/port/setport/str", "ipaddr.c")])

p("C19", "Half-close, error and busy states of stream sockets are respected",
  "On TCP and IPC connections, after done no further send is possible (EPIPE, and the peer is told exactly once), after the peer's end of stream every receive gives EPIPE, after a failed send (receive) every later send (receive) fails, with ECONNRESET after a reset, and the other direction keeps working; two coroutines cannot use the same direction at once (EBUSY). Graceful close performs done if still needed, waits for the peer's end of stream, releases the socket in every case and succeeds only if the whole exchange did. An error in one direction never blocks or changes the outcome of the other.",
  ["histories", "fault_sequences"], "every sequence of send, receive, done and close operations, every outcome of the underlying transfers, every state of both directions",
  "Tests follow a few orderly shutdowns; combinations of errors, half-closed states and repeated operations are not enumerated.",
  ["tcp.c", "ipc.c"], [("dill_tcp_bsendl/brecvl/done/close", "tcp.c"), ("dill_ipc_bsendl/brecvl/done/close", "ipc.c")])

p("C20", "Layered sockets own what they wrap, and failure leaks nothing",
  "Attaching a protocol takes over the underlying socket: on success the old handle number is no longer valid and closing the new one closes the whole stack exactly once; on failure the underlying socket is closed as documented and no memory or handle is leaked. Detaching hands the underlying socket back under a valid handle and invalidates the protocol's own handle, and on failure closes everything. This holds for every protocol and whichever allocation or step fails.",
  ["histories", "fault_sequences"], "every protocol, caller-supplied or library memory, failure of every allocation, handle creation and handshake step",
  "Tests attach and detach successfully; failures halfway through cannot be provoked from outside.",
  ["prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "handle.c"], [("*_attach/_attach_mem/_detach/_hclose", "prefix.c suffix.c term.c http.c ws.c")])

p("C21", "UDP sends and receives whole datagrams to and from the right peer",
  "A UDP send transmits exactly the concatenated bytes as one datagram to the given address, or to the socket's remote address if none is given, and fails with EINVAL if there is neither. A receive returns one datagram's exact length, bytes and sender; with a fixed remote address, datagrams from anybody else are dropped without disturbing the deadline. A datagram longer than the buffers fails with EMSGSIZE; a receive waits up to the deadline, while a datagram the kernel has no room for is dropped, as UDP may. Opening reports every failure (including of binding) and leaks no descriptor, and handles that are not UDP sockets are refused.",
  ["inputs", "fault_sequences", "histories"], "every address and payload arrangement, every sequence of kernel answers, failure of every step of opening",
  "Tests send a few datagrams over loopback between cooperating sockets; stray senders and failing system calls are not simulated.",
  ["udp.c"], [("dill_udp_sendl_/recvl_", "udp.c"), ("dill_udp_open_mem", "udp.c")])

p("C22", "TLS layers keep the guarantees of the socket they wrap",
  "Data sent over a TLS-wrapped stream arrives complete, in order and unmodified or the connection fails; the end of stream is reported only when the peer ended it. Errors and half-close behave as for plain byte streams.",
  ["inputs", "histories", "fault_sequences"], "all payloads, all record splits, all failures below",
  "The TLS test fails with the installed OpenSSL and covers one handshake.",
  ["tls.c"], [("dill_tls_bsendl/brecvl", "tls.c")])

p("C23", "Threads are isolated from one another",
  "Coroutines, handles and caches belong to the thread that created them; concurrent use of the library from several threads never interferes and everything a thread owns is released when it ends.",
  ["schedules"], "all interleavings of threads",
  "Tests start one extra thread once.",
  ["ctx.c"], [("per-thread context", "ctx.c")])

p("C24", "Scheduling is fair and blocked operations eventually complete",
  "Every runnable coroutine eventually runs, and a blocked operation whose event occurs eventually completes even while other coroutines keep the CPU busy by yielding.",
  ["schedules", "histories"], "infinite executions",
  "Tests observe finite prefixes.",
  ["cr.c"], [("one-second forced poll", "cr.c dill_wait")])

p("C25", "Switching coroutines preserves all machine state",
  "A coroutine resumed after a suspension finds its registers, stack and local variables as they were when it suspended.",
  ["schedules", "programs"], "all programs and compiler decisions",
  "Tests sample programs and one compiler.",
  ["libdill.h"], [("dill_setjmp/dill_longjmp/dill_setsp", "libdill.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
