#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call per property keeps the text reviewable."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOTEST = "The unit tests only exercise the hash table, array, queue, tree and pool start-up; "

prop("P01", "Only authorised tunnel clients are ever proxied",
 "A tunnel server acts on a client's proxy request (resolves a name, opens an outgoing connection, relays a byte) only after that same connection has presented an authentication record with the right magic whose key the server's configured key set accepts. A connection whose record is missing, short, malformed or rejected never gets an outgoing connection or a lookup, and is closed.",
 ["inputs", "schedules", "histories"],
 "every byte sequence a client may send, split over any number of reads, with every order of readiness, timeout and error events, in both server modes",
 NOTEST + "no test opens a connection, and the guarantee is about every arrival order of bytes and events.",
 ["src/app/tls_tunnel_s.c", "src/app/socks5.c", "src/common/aho_corasick.c"],
 [("authentication step", "src/app/tls_tunnel_s.c: tls_tunnel_s_auth_chk"), ("request handling", "src/app/socks5.c: s5_p1_req, s5_p2_req, s5_cup_connect"), ("key matcher", "src/common/aho_corasick.c: ezac_find")],
 [("session type", "which end of the tunnel the session serves"), ("handler slots of the connection", "what the next readiness event will run")])

prop("P02", "An authorisation verdict depends only on the presented key",
 "Whether a key is accepted is a function of the bytes of that key record and of the configured key set alone: it is accepted only if it contains a complete configured key. Nothing remembered from an earlier connection, and no byte outside the key field, can change the verdict, and every configured key that fits the key field is usable for any configured key set.",
 ["inputs", "histories", "configurations"],
 "every key record, every sequence of earlier authentication attempts in the same worker and every set of configured keys",
 NOTEST + "the matcher has no test, and leakage between connections needs a history of attempts.",
 ["src/common/aho_corasick.c", "src/app/tls_tunnel_s.c"],
 [("matcher cursor", "src/common/aho_corasick.c: ezac_find, ezac_reset, ezac_find_next_ctx"), ("failure links", "src/common/aho_corasick.c: ezac_compiler"), ("key length handed to the matcher", "src/app/tls_tunnel_s.c: tls_tunnel_s_auth_chk")],
 [("matcher cursor", "node reached by the bytes seen so far")])

prop("P03", "Tunnel traffic and credentials travel only inside TLS",
 "Every byte of credentials, proxy requests and relayed payload that crosses the leg between tunnel client and tunnel server goes through a TLS connection whose handshake completed, negotiated from a context that refuses anything below TLS 1.2. No path falls back to reading or writing that leg in the clear.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every event order, every handshake outcome and every failure of a TLS or allocation call, for the tunnel client and for both server modes",
 NOTEST + "no TLS code runs in any test, and the fallback paths need failing calls.",
 ["src/common/ssl.c", "src/common/net.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c"],
 [("transport selection", "src/common/net.c: net_alloc, src/common/ssl.c: ssl_con_alloc / handshake callbacks"), ("context creation", "src/common/ssl.c: client and server context constructors"), ("credentials sent", "src/app/tls_tunnel_c.c")],
 [("handshake-complete flag", "set once the TLS handshake succeeded"), ("send/recv slots", "plain or TLS transport of the connection")])

prop("P04", "Static file requests never leave the web root",
 "The web server opens a file on behalf of a client only for reading, only for a retrieval request, and only under the configured document root: whatever the request path contains, no component of the opened name steps above the root. Only ordinary files are served.",
 ["inputs", "configurations"],
 "every request path up to the size of the request buffer, and every configured root",
 NOTEST + "no test sends an HTTP request.",
 ["src/app/webser.c", "src/http/http_req.c"],
 [("path screening", "src/app/webser.c: webser_req_router"), ("file opening", "src/app/webser.c: webser_req_file")],
 [("request path", "bytes of the request line between method and version")])

prop("P05", "Nothing is used after it has been released",
 "Once a connection, session, buffer, lookup, request, timer, TLS object or registration has been released, no handler, timer, readiness event or pending callback reads, writes, calls through or releases it again. This holds on every path, including failure and timeout paths.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every interleaving of readiness, timeout, name-lookup and error events of a session, and every failing allocation or system call along the way",
 NOTEST + "no session is ever created by a test.",
 ["src/app/socks5.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/webser.c", "src/common/net.c", "src/common/ssl.c", "src/common/event.c", "src/dns/dns.c", "src/http/http_req.c", "src/common/meta.c"],
 [("connection release", "src/common/net.c: net_free"), ("session release", "src/app/socks5.c, src/app/tls_tunnel_s.c release callbacks"), ("timers and registrations", "src/common/timer.c, src/common/event.c: ev_free"), ("lookup release", "src/dns/dns.c: dns_free")],
 [("session graph", "client connection, upstream connection, session record, lookup, buffers, TLS objects, timers")])

prop("P06", "A finished session gives everything back",
 "When a session, request or lookup is over, every block of memory, descriptor, timer, TLS object, queue link and readiness registration it obtained has been released, whichever way it ended. A worker's resource use is bounded by its live sessions, not by its history.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "every event order and every failing call, for every way a session can end",
 NOTEST + "no session is ever created or torn down by a test.",
 ["src/app/socks5.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/webser.c", "src/common/net.c", "src/common/ssl.c", "src/dns/dns.c", "src/http/http_req.c", "src/common/meta.c"],
 [("release functions", "net_free, ssl_con_free, ev_free, dns_free, webser_free, web_req_free, meta_free"), ("session teardown", "src/app/socks5.c: s5_free and callers")],
 [("outstanding resources", "blocks, descriptors, timers, registrations reachable from live sessions")])

prop("P07", "Every open connection has a running deadline",
 "Whenever a worker goes back to waiting, every client or upstream connection it still holds open is covered by an armed timer of its session that will end or advance it. A silent peer, a lost reply or a failed lookup therefore never keeps a session alive for ever.",
 ["schedules", "inputs", "fault_sequences"],
 "every point at which a worker returns to its event loop with a session open, over all event orders and failures",
 NOTEST + "no test runs the event loop.",
 ["src/app/socks5.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/webser.c", "src/common/net.c", "src/common/ssl.c", "src/dns/dns.c"],
 [("timer arming", "src/common/timer.c: tm_add / tm_del and the EZ_TMADD sites"), ("accept and handshake deadlines", "src/common/net.c: net_accept, src/common/ssl.c")],
 [("armed timer", "set entry in the timer heap")])

prop("P08", "A blocked transfer is always woken again",
 "Whenever a write on a connection could not proceed and data is still waiting, the connection is registered for write readiness with a continuation that retries that write; whenever a session is waiting for input, some connection of it is registered for read readiness with a handler. No order of partial reads, partial writes and TLS retries leaves a transfer parked with nothing armed to resume it.",
 ["schedules", "inputs", "histories"],
 "every sequence of would-block, partial and complete reads and writes on both legs of a session, including TLS calls that want the opposite direction",
 NOTEST + "no socket is used by any test and the stalls need specific back-pressure interleavings.",
 ["src/common/ssl.c", "src/common/net_send.c", "src/common/event.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/socks5.c", "src/app/webser.c"],
 [("registration", "src/common/event.c: ev_opt"), ("TLS retry", "src/common/ssl.c: ssl_read, ssl_write"), ("relay", "src/app/tls_tunnel_s.c: traffic handlers")],
 [("interest mask and handler slots", "what readiness will run"), ("pending bytes", "bytes received but not yet forwarded")])

prop("P09", "Exhausted memory or failed calls never crash a worker",
 "If any memory request, descriptor request or library call made while serving a client fails, the affected session is refused or closed and the worker carries on. No such failure leads to a null or unset pointer being dereferenced or called, or to an abort.",
 ["fault_sequences", "inputs", "schedules"],
 "every allocation and system or library call reachable from a served connection failing, at every occurrence and in every combination",
 NOTEST + "allocation never fails in a test.",
 ["src/app/socks5.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/webser.c", "src/app/web_api.c", "src/common/net.c", "src/common/ssl.c", "src/dns/dns.c", "src/http/http_req.c", "src/common/meta.c", "src/common/mem.c"],
 [("failure checks", "schk sites on every serving path"), ("pool", "src/common/mem.c: mem_pool_alloc")])

prop("P10", "No client or server input can hang a worker",
 "Handling one event always finishes: every iteration of a loop run while serving either consumes input, makes progress on output, or moves towards its end. No sequence of received bytes makes a worker spin without reading, writing or returning.",
 ["inputs", "schedules", "fault_sequences"],
 "every content and fragmentation of received data and every error state of the libraries used, for every loop reachable from an event handler",
 NOTEST + "parsers are never fed partial input by a test.",
 ["src/http/http_req.c", "src/app/socks5.c", "src/common/ssl.c", "src/dns/dns.c", "src/app/webser.c", "src/app/tls_tunnel_s.c"],
 [("parser loops", "src/http/http_req.c: web_req_line, web_req_hdrs"), ("relay loops", "src/app/tls_tunnel_s.c"), ("TLS error drain", "src/common/ssl.c: ssl_clear_error")])

prop("P11", "Tunnel and SOCKS input stays inside its buffers",
 "Whatever a tunnel client or SOCKS peer sends, the code that reads, parses and answers it never touches memory outside the buffer, record or array element it is working on, and never uses more bytes than were received. Lengths taken from the wire are checked before use.",
 ["inputs", "schedules"],
 "every byte sequence and fragmentation of the authentication record, method negotiation, connect request and relayed data",
 NOTEST + "no protocol parser is run by a test.",
 ["src/app/socks5.c", "src/app/socks5.h", "src/app/tls_tunnel_s.c", "src/app/tls_tunnel_c.c", "src/common/meta.c"],
 [("method and request parsers", "src/app/socks5.c: s5_p1_req, s5_p2_req, s5_cup_addr"), ("record layout", "src/app/socks5.h")],
 [("receive buffer", "start, position, end of data, end of buffer")])

prop("P12", "HTTP input stays inside its buffers",
 "Whatever an HTTP client sends, parsing the request, choosing what to serve and building the answer never touch memory outside the buffers and arrays concerned. This includes request lines, header tables, request bodies, path names and generated headers of any length.",
 ["inputs", "schedules"],
 "every request, header set and body, split in any way over reads",
 NOTEST + "no HTTP parser is run by a test.",
 ["src/http/http_req.c", "src/app/webser.c", "src/app/web_api.c", "src/common/meta.c"],
 [("request parser", "src/http/http_req.c"), ("path and header construction", "src/app/webser.c: webser_req_router, webser_req_file, webser_rsp*")])

prop("P13", "DNS messages are built and parsed in bounds",
 "Building a query for any requested host name and parsing any datagram received as an answer never touch memory outside the packet buffer, the name buffers and the answer record. Names that do not fit a DNS query are refused.",
 ["inputs"],
 "every host name a client may ask for and every datagram of any length and content",
 NOTEST + "the resolver has no test.",
 ["src/dns/dns.c", "src/dns/dns.h"],
 [("query construction", "src/dns/dns.c: dns_request_build and name conversion"), ("answer parsing", "src/dns/dns.c: dns_response_analyze")])

prop("P14", "Logging and text formatting are safe for any content",
 "Formatting a log line or text message never reads or writes outside its buffer however long the content is, never interprets received data as a format, and every formatted argument has the type its directive expects.",
 ["inputs"],
 "every log and formatting call site and every argument value",
 NOTEST + "over-long messages and attacker-chosen content are never logged in a test.",
 ["src/common/log.c", "src/common/log.h", "src/app/webser.c", "src/app/web_api.c"],
 [("log writer", "src/common/log.c: log_print"), ("formatting calls", "every printf-style call in src")])

prop("P15", "Relayed bytes arrive complete, in order and once",
 "Everything received from one side of a session is written to the other side exactly once and in order: each read is appended after the unsent data, each partial write advances by exactly what was accepted, and a buffer is recycled only when it is empty. Bytes already received from a side that then closes are still delivered to the other side unless writing them fails or that side closes too.",
 ["schedules", "inputs", "histories"],
 "every sequence of read and write sizes, would-blocks, end-of-file and errors on both legs, in client and server mode",
 NOTEST + "no relay is run by a test; loss needs partial writes at particular moments.",
 ["src/app/tls_tunnel_s.c", "src/app/tls_tunnel_c.c", "src/common/net_send.c", "src/common/meta.c", "src/common/meta.h"],
 [("relay handlers", "src/app/tls_tunnel_s.c: traffic handlers"), ("chained send", "src/common/net_send.c")],
 [("receive buffers of both legs", "bytes received and not yet forwarded")])

prop("P16", "A name lookup reports exactly one outcome",
 "Every lookup started for a live session ends in exactly one notification, success or failure, while that session is alive; a session that ends first is never notified afterwards. This holds for immediate failures, cached answers, timeouts, unusable replies and valid replies alike.",
 ["schedules", "inputs", "fault_sequences"],
 "every outcome and ordering of lookup start, reply, timeout, allocation failure and session teardown",
 NOTEST + "the resolver has no test.",
 ["src/dns/dns.c", "src/app/socks5.c"],
 [("lookup life cycle", "src/dns/dns.c: dns_alloc, dns_query, dns_free, dns_expire"), ("requester callback", "src/app/socks5.c: s5_cup_dns_cb")],
 [("lookup record", "pending request and whom to notify")])

prop("P17", "Resolved addresses come from valid, unexpired answers",
 "An address used for an outgoing connection comes either from a complete four-byte address record of a reply to the session's own question, or from a cache entry for that same name whose lifetime has not run out. Expired entries are dropped and live entries are kept.",
 ["inputs", "histories"],
 "every reply datagram, every time-to-live value and every sequence of lookups",
 NOTEST + "the resolver and its cache have no test.",
 ["src/dns/dns.c"],
 [("answer acceptance", "src/dns/dns.c: dns_response_analyze, dns_response_process"), ("cache", "src/dns/dns.c: dns_rec_find, dns_rec_add, dns_rec_chk")],
 [("cache entry expiry", "time after which the address may not be used")])

prop("P18", "HTTP answers are well formed and match their content",
 "Every HTTP answer the server emits has a status line, header lines that each end properly, one blank line, and a declared body length equal to the number of body bytes that follow. An error outcome is reported with its own status and is never replaced by a success status.",
 ["inputs", "schedules", "fault_sequences"],
 "every request, every requested file size and every partial write while answering",
 NOTEST + "no HTTP answer is produced in a test.",
 ["src/app/webser.c", "src/app/web_api.c"],
 [("answer construction", "src/app/webser.c: webser_rsp, webser_rsp_code, header helpers"), ("file sending", "src/app/webser.c: payload senders")])

prop("P19", "Socket outcomes are reported faithfully",
 "The read and write primitives report a would-block as retry, an interrupted call is repeated, an orderly or failed end of stream as an error, and any other result as the exact number of bytes moved. This holds for plain and TLS transports alike, and a TLS connection never reports bytes it did not move.",
 ["fault_sequences", "schedules"],
 "every result and error code the socket and TLS calls can return",
 NOTEST + "no socket call is made by a test.",
 ["src/common/net_send.c", "src/common/ssl.c"],
 [("plain primitives", "src/common/net_send.c"), ("TLS primitives", "src/common/ssl.c: ssl_read, ssl_write")])

prop("P20", "The memory pool hands out blocks that fit, once",
 "A pool request returns either nothing or a zeroed block, at least as large as asked, that no one else holds; a request too large or an exhausted size class never yields a block of another class or a corrupt list. Releasing returns the block to the class it came from.",
 ["histories", "inputs"],
 "every sequence of requests and releases of every size, including exhaustion of any size class",
 "The tests only start the pool; no test exhausts a class or mixes sizes.",
 ["src/common/mem.c", "src/common/mem.h"],
 [("allocation", "src/common/mem.c: mem_pool_alloc"), ("release", "src/common/mem.c: mem_pool_free"), ("set-up", "src/common/mem.c: mem_pool_init")],
 [("free list per class", "blocks available"), ("block header", "class and validity mark")])

prop("P21", "Every lock taken is released on every path",
 "Any lock acquired by a worker is released exactly once before the acquiring operation returns, on every path including refusals and detected corruption. No operation takes a lock it already holds.",
 ["schedules", "fault_sequences"],
 "every path through every function that takes a lock",
 "Tests never drive the refusal paths on which a lock could be kept.",
 ["src/common/mem.c", "src/common/shm.c", "src/common/process.c", "src/common/log.c"],
 [("pool lock", "src/common/mem.c")])

prop("P22", "Deadlines fire in order and only once",
 "The timer set always knows the earliest deadline: after any sequence of arming, re-arming and cancelling, no timer fires before an earlier one, a cancelled or re-armed timer never fires for its old deadline, and the set's bookkeeping of where each timer sits stays exact. A timer that cannot be recorded is not reported as armed.",
 ["histories", "schedules"],
 "every sequence of arm, re-arm, cancel and expiry over any number of timers",
 NOTEST + "timers and their heap have no test.",
 ["src/common/util/bheap.c", "src/common/timer.c"],
 [("heap", "src/common/util/bheap.c: heap_add, heap_del"), ("timer set", "src/common/timer.c: tm_add, tm_del, tm_min, tm_oldest")],
 [("position index stored in each node", "where the node sits in the heap")])

prop("P23", "Readiness is delivered only to live registrations, none lost",
 "In one round of readiness processing each ready connection is served by its own handler at most once per direction, a connection released during the round is not served any more, and releasing one connection never cancels the readiness of another. What is registered with the kernel always matches what the connection asked for.",
 ["schedules", "histories"],
 "every set of simultaneously ready connections and every release performed by the handlers that run first",
 NOTEST + "no test runs the event loop.",
 ["src/common/event.c", "src/common/event.h"],
 [("dispatch", "src/common/event.c: ev_loop"), ("release", "src/common/event.c: ev_free"), ("registration", "src/common/event.c: ev_opt")],
 [("ready arrays and per-event indexes", "events collected this round")])

prop("P24", "Supervision: workers are replaced and can always be told to stop",
 "The supervisor restarts a worker that dies unless it is stopping, forwards stop and reload requests to every worker even if one of them is gone, and the record of the supervisor's identity exists exactly while the supervisor runs. A worker that cannot finish its start-up does not serve.",
 ["crash_points", "fault_sequences", "schedules"],
 "every moment at which a worker may die or a signal arrive, and every failure during start-up",
 NOTEST + "no process is forked by a test.",
 ["src/common/process.c", "src/common/modules.c", "src/main.c"],
 [("fork and restart", "src/common/process.c: proc_fork, master loop"), ("broadcast", "src/common/process.c: proc_signal_bcast"), ("identity file", "src/common/process.c pid file functions, src/main.c")])

prop("P25", "Signals cannot corrupt or kill a serving process",
 "Signal handlers only record that a signal arrived, using operations that are safe at any instant, and touch only state that exists whenever the handler can run. A peer that disconnects while being written to never terminates the process.",
 ["schedules", "crash_points"],
 "a signal arriving at any instruction of any process, from the moment the handlers are installed",
 NOTEST + "no test delivers a signal.",
 ["src/common/process.c", "src/main.c"],
 [("handlers", "src/common/process.c: signal handling functions"), ("installation", "src/common/process.c: signal table, src/main.c")])

prop("P26", "Configuration is bounded and bad configuration is refused",
 "Loading any configuration file either fills the settings with properly terminated values that fit them or refuses to start; missing members, wrong types, over-long strings and over-long lists never overrun a setting or crash. A refused configuration never leads to serving.",
 ["configurations", "inputs"],
 "every well-formed or malformed configuration document and key file",
 NOTEST + "no configuration file is loaded by a test.",
 ["src/common/config.c", "src/common/config.h", "src/app/tls_tunnel_s.c", "src/main.c"],
 [("loader", "src/common/config.c"), ("key file loader", "src/app/tls_tunnel_s.c")])

prop("P27", "Shared containers keep their contents intact",
 "Inserting, finding, removing and iterating in the lists, arrays, hash tables, trees and ring buffers never loses, duplicates or invents an element and never touches memory outside the container, for any sequence of operations including removal of the last, first or only element.",
 ["histories", "inputs"],
 "every sequence of operations and element sizes",
 "The tests run a handful of fixed sequences; they do not reach removal of a leaf or a wrapped buffer.",
 ["src/common/util/queue.c", "src/common/util/ezhash.c", "src/common/util/arr.c", "src/common/util/bst.c", "src/common/ringbuffer.c"],
 [("hash table", "src/common/util/ezhash.c"), ("queue", "src/common/util/queue.c"), ("array", "src/common/util/arr.c"), ("tree", "src/common/util/bst.c"), ("ring buffer", "src/common/ringbuffer.c")])

prop("P28", "Every descriptor is closed exactly once by its owner",
 "Each socket or file descriptor obtained while serving has one owner, is closed exactly once, and is never used after it was closed or when it was never obtained. A descriptor number reused by the system for another session is therefore never closed or written on behalf of the old one.",
 ["fault_sequences", "schedules", "histories"],
 "every failure of a call after a descriptor was obtained, and every way a session ends",
 NOTEST + "no descriptor is opened by a test.",
 ["src/common/net.c", "src/dns/dns.c", "src/app/webser.c", "src/common/process.c", "src/common/listen.c"],
 [("connection descriptors", "src/common/net.c: net_accept, net_connect, net_free"), ("file descriptors", "src/app/webser.c"), ("resolver sockets", "src/dns/dns.c")])

prop("P29", "Keep-alive requests do not bleed into each other",
 "On a persistent HTTP connection each request is answered from its own bytes only: the next request starts exactly at the first byte after the previous one's body, bytes already received are not lost, and no state of the previous request survives into the next.",
 ["inputs", "histories", "schedules"],
 "every sequence of requests on one connection and every way their bytes are split over reads",
 NOTEST + "no HTTP connection is opened in a test.",
 ["src/app/webser.c", "src/http/http_req.c"],
 [("restart after an answer", "src/app/webser.c: webser_keepalive, webser_start"), ("body consumption", "src/http/http_req.c: web_req_payload")])

prop("P30", "Concurrent traffic is served within its time budget",
 "Under any load the configured connection count allows, each ready connection is served within a bounded time and a deadline fires within a bounded delay of its due time.",
 ["schedules"],
 "every arrival pattern of connections and data",
 NOTEST + "no load is generated by a test.",
 ["src/common/event.c", "src/common/timer.c"],
 [("event loop", "src/common/event.c: ev_loop")])

prop("P31", "The tunnel endpoints understand each other",
 "A tunnel client and a tunnel server of the same configuration always complete authentication and relay a SOCKS session end to end over a real network, whatever TLS library version and network behaviour lie between them.",
 ["schedules", "configurations"],
 "every pair of deployed endpoints",
 NOTEST + "the two programs are never run against each other.",
 ["src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c"],
 [("client side", "src/app/tls_tunnel_c.c"), ("server side", "src/app/tls_tunnel_s.c")])

prop("P32", "The outgoing connection goes where the client asked",
 "For every accepted proxy request the outgoing connection is made to exactly the address and port named in that request, or, for a host name, to an address resolved for that very name. A request for anything but a plain connection to an address family that is supported is refused without connecting anywhere.",
 ["inputs", "schedules", "fault_sequences"],
 "every request of every address type, arriving in any pieces, with the lookup and the connect succeeding at once, later or not at all",
 NOTEST + "no proxy request is parsed by a test.",
 ["src/app/socks5.c", "src/dns/dns.c"],
 [("request parsing", "src/app/socks5.c: s5_p2_req"), ("connecting", "src/app/socks5.c: s5_cup_addr, s5_cup_connect"), ("name lookup", "src/app/socks5.c: s5_cup_dns_cb")])

prop("P33", "A tunnel client identifies itself to its own server first",
 "Every session of a tunnel client connects to the configured server and, inside TLS and before any byte of the local program's traffic, sends exactly one complete authentication record with the agreed magic and its configured key. Bytes the local program sends meanwhile are kept and relayed unchanged, and a session whose server cannot be reached is closed.",
 ["schedules", "fault_sequences", "configurations"],
 "every key, every outcome and delay of connect, handshake and partial sends, and local data arriving at any point",
 NOTEST + "no tunnel session is opened by a test.",
 ["src/app/tls_tunnel_c.c"],
 [("connecting", "src/app/tls_tunnel_c.c: tls_tunnel_c_accept"), ("authentication record", "src/app/tls_tunnel_c.c: record building and sending")])

prop("P34", "SOCKS replies are well formed and truthful",
 "A greeting is answered with the chosen method, and a request is answered with a complete success reply only after the outgoing connection is established; relaying starts only after the whole reply was sent. A request that failed or was refused never receives a success reply.",
 ["inputs", "schedules", "fault_sequences"],
 "every greeting and request, every partial send of a reply and every outcome of lookup and connect",
 NOTEST + "no SOCKS exchange takes place in a test.",
 ["src/app/socks5.c"],
 [("greeting", "src/app/socks5.c: s5_p1_req, s5_p1_rsp"), ("reply", "src/app/socks5.c: s5_p2_rsp")])

prop("P35", "What is configured is what is served",
 "Each setting takes the value the configuration file gives it, every configured port is listened on by every worker, and each accepted connection is handed to the protocol its port is configured for, with TLS exactly where configured. If a configured port cannot be served the program refuses to start, and no other port is opened.",
 ["configurations", "fault_sequences"],
 "every operating mode, every number of ports, every failing system call while opening ports or accepting connections",
 NOTEST + "no configuration is loaded and no port is opened by a test.",
 ["src/common/config.c", "src/common/listen.c", "src/common/event.c", "src/common/net.c"],
 [("settings", "src/common/config.c: config_parse"), ("ports", "src/common/listen.c: listen_init, listen_start"), ("workers", "src/common/event.c: ev_init"), ("accepting", "src/common/net.c: net_accept")])

prop("P36", "Client and server agree on who is authorised",
 "A tunnel client whose configured key is covered by the server's key set is always accepted by that server, and one whose key is not covered is always refused. The record the client sends is exactly what the server takes off the stream, however it is split in transit, so the first byte after it is the first byte of the proxied session.",
 ["configurations", "inputs", "schedules"],
 "every pair of a client key and a server key set, and every way the record can be split in transit",
 NOTEST + "the two ends live in different processes and are never run against each other.",
 ["src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/tls_tunnel_s.h", "src/common/aho_corasick.c"],
 [("record building", "src/app/tls_tunnel_c.c: tls_tunnel_c_auth_build"), ("record checking", "src/app/tls_tunnel_s.c: tls_tunnel_s_auth_chk"), ("key set", "src/app/tls_tunnel_s.c: tls_tunnel_s_auth_init")])

prop("P37", "A shared port tells tunnel and web clients apart by the magic alone",
 "On a TLS web port a connection is handed to the tunnel exactly when the server is configured to hide a tunnel there and the connection's first bytes are the agreed magic; every other connection is served as a web client as soon as its first bytes show that. Whichever side takes over gets every byte received so far, unchanged.",
 ["inputs", "schedules", "configurations"],
 "every beginning of a connection, split in any way, in every operating mode",
 NOTEST + "no TLS connection is accepted by a test.",
 ["src/app/webser.c"],
 [("choosing", "src/app/webser.c: webser_transfer_to_tlstunnel"), ("accepting", "src/app/webser.c: webser_accept_cb_ssl")])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
