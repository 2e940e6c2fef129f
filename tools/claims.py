"""Which analyses decide which property, and how."""
ANALYSES = {
 "c": {"text": "tunnel client worker"},
 "s": {"text": "tunnel server worker"},
 "secret": {"text": "tunnel server behind the web server"},
 "http": {"text": "plain web server"},
 "https": {"text": "TLS web server"},
}
UNITS = {
 "heap": "timer heap: removal and insertion at every position of a well-formed heap of up to 9 entries", "timer": "three timers armed, re-armed, cancelled, expiring, with re-entrant callbacks",
 "timerfull": "arming a timer when the set is full", "ring": "ring buffer of unknown size and content", "queue": "intrusive queue", "hash": "hash table", "hash2": "hash table histories", "arr": "growing array", "bst": "search tree of up to four unknown keys",
 "pool": "memory pool as built at start-up, through its operations only: every class, sizes in it, used up to the last block, foreign blocks", "sock": "plain socket primitives, every result of the system call",
 "chain": "sending a chain of buffers, every partial result", "tls": "TLS primitives, every result and error code", "config": "configuration loading, every member missing, mistyped, over-long or fine",
 "authfile": "authorisation file loading", "log": "log line of any length", "systime": "time stamps", "proc": "supervisor from main on", "sig": "signals at every call-out of the process module",
 "webreq": "reading and parsing any request, arriving in any pieces", "webbound": "choosing what to serve and building the answer, all lengths unknown", "webpath": "request paths over '/', '.' and other characters, behind prefixes of critical lengths",
 "webans": "up to two requests on one connection, cut at every position, every file outcome, blocked sends, memory running out", "webfile": "a file of any size sent in any pieces", "webtls": "TLS connections of the web server up to the tunnel or HTTP",
 "dnscache": "any reply to a lookup, and cache histories with colliding names",
 "s5req": "one SOCKS session from the greeting to relaying, every request, outcome and partial send", "s5auth": "a tunnel client's session up to relaying",
 "listen": "every mode and number of ports, from the configuration to the first handler of an accepted connection", "cfgval": "configuration files with each member present or missing",
 "authrec": "records with a damaged magic, every kind of key, incomplete, after other sessions",
 "pair": "a tunnel client's record given to a tunnel server",
 "ezac": "key matching over small alphabets", "ezacfree": "key set building and release",
}
ANALYSES.update({"unit:" + k: {"text": v} for k, v in UNITS.items()})
ANALYSES["rules"] = {"text": "whole-program rules over the linked IR: formats, signal handlers, locks"}
E2 = "abstract interpretation of the module's own functions from an arbitrary well-formed state with unknown inputs (drivers in engine/drv, every outcome of every library call, linear-interval domain)"
ASSUME_U = [
 "the state a driver starts from covers every state the module can be in up to the sizes named in DESIGN.md",
 "library and system calls return any result their manuals allow",
 "clang's IR for the working tree represents the shipped program",
]
ASSUME = [
 "system calls and libssl behave as their manuals say: each modelled call may return every documented outcome",
 "at most one environment call fails per dispatched event; any number of events fail over a session",
 "one session (client connection plus its upstream and lookup) is followed at a time next to the worker's permanent objects",
 "clang's IR for the working tree (without NDEBUG, EVENT_EPOLL) represents the shipped program",
]
E1 = "abstract interpretation of the event-driven worker over the linked IR (abstract heap, typestate ghosts, linear-interval domain, joins and widening at loop heads and at the event loop)"
S = ["c", "s"]
REL = {   # which obligation counters belong to which property
 "P03": ["TLS"], "P05": ["returns", "deadline", "readiness", "descriptor"], "P06": ["returns", "descriptor"], "P07": ["deadline", "timer"], "P08": ["wake-up", "readiness reg"],
 "P09": ["returns"], "P10": ["cycles"], "P15": ["placements", "send ranges", "end-of-stream"], "P28": ["descriptor"], "P23": ["readiness"],
}
def relevant(p, k): return p not in REL or any(x in k for x in REL[p])
CLAIMS = {
 "P03": dict(analyses=S, min={"c": {"TLS connections from a limited context": 1, "send ranges checked": 1}},
   rule="Typestate of the tunnel leg: every plain send/recv on a descriptor whose peer is the tunnel's other end is a violation; every TLS object is created from a context that a minimum protocol version of TLS 1.2 was set on, on all paths; data calls before the handshake completed are violations."),
 "P05": dict(analyses=S, min={"c": {"returns to the event loop": 100, "deadline firings": 10}},
   rule="Every load, store, call, free and library call on an abstract object checks its released flag; at every return to the event loop no epoll registration, armed deadline or list link may refer to a released object."),
 "P06": dict(analyses=S, min={"c": {"descriptor closes": 10}},
   rule="At every return to the event loop each object and descriptor of the session must be reachable from the worker's permanent objects, armed deadlines or registrations; an unreachable one is a leak."),
 "P07": dict(analyses=S, min={"c": {"deadline coverage checks": 100, "deadline firings": 10}},
   rule="At every return to the event loop each open session descriptor must belong to an object reachable from an armed deadline, and firing a deadline must strictly reduce the session (release it or move it to its closing phase)."),
 "P08": dict(analyses=S, min={"c": {"wake-up checks": 100}},
   rule="At every return to the event loop a connection whose last transfer would block must be registered for that direction with a handler that continues it (edge-triggered rules of epoll), and unread data needs a registered reader."),
 "P09": dict(analyses=S, min={"c": {"returns to the event loop": 100}},
   rule="Every modelled allocation and system/library call is forked into success and failure; no path after a failure may reach abort, a null dereference, an out-of-bounds access or the use of a released object."),
 "P10": dict(analyses=S, min={"c": {"cycles": 10}},
   rule="Every cycle of the abstract transition graph inside one dispatch must have a lexicographic ranking (a linear measure bounded below that no edge raises and some edge lowers); recursion depth is bounded."),
 "P15": dict(analyses=S, min={"c": {"receive placements checked": 10, "send ranges checked": 10}},
   rule="Accounting typestate of the relay buffers: received bytes go behind the buffered ones and are added before anything else happens, sent bytes start at the first unsent byte and are removed exactly, buffers are only reset when empty, and an orderly end of stream closes only after the buffered bytes were sent."),
 "P28": dict(analyses=S, min={"c": {"descriptor closes": 10}},
   rule="Typestate open/closed of each descriptor: closing a closed one, using a closed one or losing the last reference to an open one is a violation on every path."),
 "P23": dict(analyses=S, min={"c": {"readiness registrations": 100, "readiness deliveries": 10}},
   rule="Readiness is delivered by interpreting the real dispatch loop over every registered descriptor and mask, singly and in pairs: a delivery that touches a released or foreign object, or a registration that survives its object, is a violation."),
}
CLAIMS.update({
 "P01": dict(analyses=["s"], min={"s": {"outgoing actions checked": 50, "key verdicts": 1}},
   rule="Typestate of the client connection: an authorised mark is set only by the verdict that the key matcher accepted; that a verdict needs the right magic as well, whatever happened before, is decided by interpreting the record check for every damage to the magic; every lookup, every outgoing connect and every relayed byte on behalf of the connection is a violation unless the mark is set."),
 "P11": dict(analyses=S, min={"c": {"returns to the event loop": 100}, "s": {"returns to the event loop": 100, "key verdicts": 1}},
   rule="Every load, store, copy, comparison and library call on the tunnel and SOCKS paths is checked against the extent of the abstract object it works on, with every received byte and length unknown; bytes are only consumed below the received count."),
 "P13": dict(analyses=["s"], min={"s": {"lookups started": 10, "lookup outcomes": 10}},
   rule="Query building for an unknown host name of any length and parsing of an unknown datagram of any length are interpreted with every index and length unknown; each access must stay inside the packet, the name buffer or the answer record."),
 "P16": dict(analyses=["s"], min={"s": {"lookups started": 10, "lookup outcomes": 10}},
   rule="Typestate of a lookup (none, started, reported): the notification is delivered at most once, only while its session is live, and no return to the event loop leaves a started lookup without an armed deadline or a reply handler that will report it; a session that ends cancels its lookup."),
})
REL.update({"P01": ["outgoing", "key verdicts"], "P11": ["returns", "placements", "send ranges"], "P13": ["lookup"], "P16": ["lookup"]})
for _p in ("P05", "P06", "P07", "P08", "P09", "P10", "P15", "P28", "P23"):
    CLAIMS[_p]["min"]["s"] = dict(CLAIMS[_p]["min"]["c"])
TECH = {p: E1 for p in CLAIMS}
def unit(p, units, rule, more=(), mins=None, rel=None):
    CLAIMS[p] = dict(analyses=["unit:" + u for u in units] + list(more), rule=rule, assumptions=ASSUME_U, min={"unit:" + u: {"ends of the driver": 1} for u in units})
    CLAIMS[p]["min"].update(mins or {})
    if rel: REL[p] = rel
    TECH[p] = E2
unit("P02", ["ezac", "ezacfree"], "The key matcher's functions are interpreted over every pair of configured keys and every presented text up to the bounds, with and without an earlier verdict, against the definition 'contains a complete configured key'; in the server analysis every verdict call may only look at bytes of the record's key field.",
     more=["s"], mins={"s": {"key verdicts": 1}})
unit("P14", ["log", "systime"], "Every format in the program is traced to constant texts through parameters, members and locals; each directive is compared with the type of its argument (IR types and the compiler's format checking); log and time-stamp functions are interpreted with content of any length; every text argument of a log or formatting call in the workers must be terminated inside its object.",
     more=["rules", "c", "s"], mins={"rules": {"formats traced to their origin": 100, "formatted arguments checked": 100}, "c": {"log calls": 1}, "s": {"log calls": 1}})
TECH["P14"] = "value-flow and type rule over the linked IR for formats, plus abstract interpretation of the formatting functions and of the workers' log calls"
unit("P19", ["sock", "chain", "tls"], "The transfer primitives are interpreted with every result the system or TLS call can give (count, short count, end of stream, each error code, interruption); what they report must be exactly that outcome.")
unit("P20", ["pool"], "The real start-up of the pool and then requests and releases are interpreted, looking only at what the operations return: blocks in use never overlap, each is zeroed and as large as asked, a class used up to its last block yields nothing and serves again after a release, other classes are untouched, and foreign blocks and requests that fit no class are refused.")
unit("P21", ["pool", "ring"], "Typestate of every lock: interpreted in the drivers of all lock users (no return with a lock held, no second acquisition), and as a dataflow rule over every function of the program that takes a lock, including locks taken by callees.",
     more=["rules"], mins={"rules": {"lock operations": 10, "lock users": 3}})
unit("P22", ["heap", "timer", "timerfull"], "The heap operations are interpreted from an arbitrary well-formed heap with unknown deadlines and must restore order and back links; the timer functions are interpreted with unknown deadlines and passing time, firing must be in order, due, once, and the armed mark exact.")
unit("P24", ["proc"], "The supervisor is interpreted from main on with every failing start-up step, fork and kill and any interleaving of worker deaths, stop and reload requests up to six workers started: record, replacement, forwarding and refusal to serve are checked at every wait, fork, signal and exit.")
unit("P25", ["sig"], "Call-graph rule: everything reachable from a registered handler is async-signal-safe. The process module is interpreted with a signal arriving at every call-out from before its initialisation to after its end: no handler may touch missing or released state, and broken-pipe signals must be handled before serving.",
     more=["rules"], mins={"rules": {"signal handlers found": 1, "calls a handler can make": 1}})
unit("P26", ["config", "authfile", "cfgval"], "Loading is interpreted for every combination of unreadable file, short read, missing, mistyped, over-long or fine member, and any list length: every text setting stays terminated inside its field, every count inside its bounds, and success is only reported for a configuration that was understood.")
unit("P27", ["ring", "queue", "hash", "hash2", "arr", "bst"], "Each container operation is interpreted from an arbitrary well-formed container of small size with unknown elements; contents, order, links and counts are compared with the abstract collection afterwards, and every access must stay inside the container.")
unit("P04", ["webpath"], "Request handling up to the opening of a file is interpreted for every path up to the bounds, each method and each kind of file: every name passed to open lies below the configured root component by component, is opened for reading only, only for a retrieval, and only when the name is an ordinary file.")
unit("P12", ["webreq", "webbound", "webfile", "webtls"], "Reading, parsing, path choice, answer building and file sending are interpreted with unknown content and unknown lengths: every access is checked against the extent of the buffer, array element or block it works on, and received bytes only go behind those already received.")
unit("P17", ["dnscache", "s5req"], "Lookup, reply handling and cache are interpreted for every shape of reply to one question and for histories of lookups with colliding names and passing time: an address reported must come from a complete address record of a reply with the lookup's identity and question, or from an unexpired entry of the same name; expired entries are dropped, live ones found.")
unit("P18", ["webans", "webfile"], "Every byte an answer consists of is followed through header building and sending for every kind of request, file outcome and partial send: status line, header line ends, blank line, declared length against the bytes that follow, and status against outcome.")
unit("P29", ["webans", "webtls"], "Two requests on a connection, cut at every position and with bodies that look like requests, are followed from the first byte to the last answer: each answer must be the one its own request asks for, none is lost, invented or made of another request's bytes.")
unit("P32", ["s5req"], "A SOCKS session is interpreted from the greeting on, with requests of every address type arriving in any pieces: address, port and name given to lookup and connect are compared with the bytes of the request, and nothing is connected for a refused one.")
unit("P33", ["s5auth"], "A tunnel client's session is interpreted from accept to relaying with every outcome of connect, handshake and partial sends and local data arriving in between: destination, record bytes, order and kept bytes are compared with the configuration and the arrivals.")
unit("P34", ["s5req"], "A SOCKS session is interpreted from the greeting on with replies blocked or sent in parts: reply bytes are compared with the protocol, a success reply requires an established outgoing connection, relaying requires a complete reply.")
unit("P35", ["listen", "cfgval"], "Start-up and accepting are interpreted for every mode, several numbers of ports and each failing call: the ports bound, registered and accepted from are compared with the configuration, as are the handler and the TLS mark of every accepted connection and every setting read from the file.")
unit("P36", ["pair"], "The client's session is interpreted up to its record, the server is interpreted from loading its keys on, and the record is given to it cut at every position: the server's verdict is compared with the definition 'covers', and the bytes it takes with the bytes the client sent.")
unit("P37", ["webtls"], "A connection to a TLS web port is interpreted from the handshake on, in every mode, with the magic, the magic with one byte wrong and an ordinary request as its first bytes, split around the magic and the record: who takes over, when, and with which bytes is compared with the definition.")
for _p, _u in {"P01": ["webtls", "authrec"], "P02": ["authrec"], "P03": ["webtls", "s5auth", "listen"], "P05": ["webans", "webfile", "webtls", "s5req", "s5auth"], "P06": ["webans", "webfile", "webtls", "s5req", "s5auth", "listen"], "P07": ["webans", "webtls", "listen"], "P08": ["webans", "webtls", "s5req", "s5auth", "listen"], "P09": ["webbound"], "P11": ["webtls", "s5req", "s5auth"], "P28": ["webans", "webfile", "listen"], "P15": ["s5auth"], "P10": ["listen"]}.items():
    CLAIMS[_p]["analyses"] = CLAIMS[_p]["analyses"] + ["unit:" + u for u in _u]
    CLAIMS[_p]["min"].update({"unit:" + u: {"ends of the driver": 1} for u in _u})
    CLAIMS[_p]["rule"] += " The session set-up and the web server's part are interpreted in drivers under the same rule."
    if _p in REL: REL[_p] = REL[_p] + ["closed", "released", "deadline", "waits", "continuation", "tunnel", "TLS", "open", "ends"]
REL.update({"P02": ["text", "key", "keys"], "P14": ["format", "log", "time stamp", "date", "ends"]})
NA_PENDING = "no static check for this property has been completed yet"
NA = {
 "P30": "needs measured execution time on real hardware; static analysis of the source gives step bounds (see P10) but not durations",
 "P31": "interoperation of two endpoints over a real network depends on peers, kernel and timing that are not in the source",
}
