"""What each property's check runs: harnesses, sizes, bounds."""
CRATES = {
    "proto": {"repo_crates": ["socket-io-protocol", "owned_subslice"]},
    "sub": {"repo_crates": ["owned_subslice"]},
    "client": {"repo_crates": ["socket-io-client", "socket-io-protocol", "owned_subslice"]},
    # the same without overflow checks, as in a release build
    "subr": {"repo_crates": ["owned_subslice"], "dir": "sub",
             "env": {f"CARGO_PROFILE_{p}_{k}": "false" for p in ("RELEASE", "DEV") for k in ("OVERFLOW_CHECKS", "DEBUG_ASSERTIONS")}},
}


def H(idx, name, quick, thorough=(), covers=(), crate="proto", **k):
    return dict(crate=crate, idx=idx, name=name, quick=list(quick), thorough=list(thorough), covers=list(covers), **k)


ERR = "the message text of serde_json errors (serde_json::error, Error::custom and the like) is left empty instead of being formatted; nothing observed depends on it"

WORLD = [
    ERR,
    "the socket is a scripted byte stream, the timer a clock the harness advances, the executor a list of tasks each polled exactly when it was woken",
    "the random order in which select! polls its branches is the harness's choice; up to the stated number of picks differ from the first branch",
    "the connection has been open for a day before anything happens, except in half of 2201",
    "random bytes (websocket masks and key, hash seeds) are fixed; the logger is off",
]

PROPS = {
    "C01": dict(
        harnesses=[
            H(101, "n messages of any kind with few free bytes, then a probe of the state", [1, 2, 3, 4], [5], ["rejected", "open", "close", "ping", "pong", "text", "binary"]),
            H(102, "any text of n bytes in any state", range(0, 6), [6, 7], ["rejected", "text"]),
            H(103, "any binary of n bytes in any state", range(0, 6), [6, 10, 20], ["rejected", "binary"]),
            H(104, "control frames with n free bytes in any state", range(0, 4), [4, 5], ["rejected"]),
            H(105, "open packet, n free bytes in the session id", range(0, 4), [4], ["open", "escaped"]),
            H(106, "open packet, n free bytes as a number", range(1, 4), [4, 5], ["open"]),
            H(107, "malformed opens", range(0, 4), [4], ["rejected"]),
            H(108, "n messages on one decoder, then one with a free byte", [12, 300], [70000], ["many", "close"]),
            H(109, "messages of n bytes", [126, 5000, 70000], [], ["text", "binary", "rejected"]),
        ],
        bounds="sequences of up to 4 messages (5 thorough) with one or two free bytes each; single messages of up to 5 free bytes (7 thorough; 20 for binary) in every state; open packets with up to 3 (4) free bytes in each field; 300 (70000) messages on one decoder; messages of 126, 5000 and 70000 bytes, 3 of them free",
        stubs=[ERR],
    ),
    "C02": dict(
        harnesses=[
            H(201, "any text of n bytes", range(0, 6), [6, 7], ["text", "binary", "ping"]),
            H(202, "any n bytes", [0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 126, 257, 4097, 65536], [31, 32, 33, 64, 65], ["binary"]),
            H(203, "packaging any text of n bytes", range(0, 6), [6], ["accepted", "refused"]),
            H(204, "packaging any n bytes", range(0, 9), [16, 33], ["accepted", "refused"]),
            H(205, "texts and byte strings of n bytes", [126, 5000, 70000], [], ["text"]),
        ],
        bounds="texts of up to 5 bytes (7 thorough), byte strings of up to 17 (65) and of 126, 257, 4097 and 65536; texts of up to 70000 bytes of which 3 are free",
        stubs=[ERR],
    ),
    "C03": dict(
        harnesses=[
            x
            for c, t in (("sub", ""), ("subr", ", overflow wraps"))
            for x in (
                H(301, "n bytes, an initial window, two narrowings, all bounds 64-bit" + t, range(0, 4), [4, 5], ["exposed", "panics"], c),
                H(302, "text of n bytes, one narrowing, all bounds 64-bit" + t, range(1, 4), [4, 5], ["exposed", "panics", "split"], c),
                H(303, "any length, n narrowings, bounds near 0, 2^63 and 2^64" + t, [0, 1], [2], ["exposed", "panics"], c),
                H(304, "whole values and comparisons" + t, range(0, 4), [], ["equal", "different"], c),
                H(305, "writing through a window" + t, range(0, 4), [5], ["written"], c),
            )
        ],
        bounds="vectors of up to 3 bytes (5 thorough) and texts of up to 3 (5), two narrowings with arbitrary 64-bit bounds; lengths and bounds near 0, 2^63 and 2^64 for elements without size with one (2) narrowings; with and without overflow checks",
        stubs=["the text of panic messages is not formatted"],
    ),
    "C04": dict(
        harnesses=[
            H(401, "any text of n bytes", range(0, 6), [6, 7], ["packet", "rejected", "asks", "completed"]),
            H(402, "kind, n header bytes, nested argument list", range(0, 6), [6, 7], ["packet", "rejected", "asks"]),
            H(403, "binary kind, count, n header bytes", range(0, 5), [5, 6], ["packet", "rejected", "asks", "completed"]),
            H(404, "namespace of n arbitrary bytes", range(0, 4), [4, 5], ["packet", "rejected"]),
            H(405, "argument list with n arbitrary bytes", range(0, 4), [4, 5], ["packet", "rejected"]),
            H(406, "arguments of structural characters", range(0, 5), [5, 6], ["packet", "rejected"]),
            H(407, "namespace, string, list, depth or number of n characters", [30, 130, 300], [], ["packet", "rejected", "asks"]),
        ],
        bounds="texts of up to 5 arbitrary bytes (7 thorough); longer texts only of the listed shapes with up to 5 symbolic bytes; namespaces, strings, lists and numbers of up to 300 characters and depths of 120 with one free byte",
    ),
    "C05": dict(
        harnesses=[H(501, "run of n digits as id or count", [0, 1, 2, 3, 4, 5, 8, 19, 20, 21, 22], [6, 7, 10, 15, 18, 24, 40], ["packet", "rejected", "asks", "completed"])],
        bounds="runs of the listed lengths; all digits free up to length 4, beyond that the leading digits are non-zero (or those of 2^64-1) and the last 2 to 4 are free",
    ),
    "C06": dict(
        harnesses=[
            H(601, "event name of n bytes", [0, 1, 2], [3], ["round trip"]),
            H(602, "namespace of n bytes", range(0, 4), [4], ["round trip"]),
            H(603, "n arguments of any of the kinds", [0, 1, 2], [], ["round trip"]),
            H(604, "one argument with n free bytes", [0, 1], [2], ["round trip"]),
            H(605, "ids", [0], [], ["round trip"]),
            H(606, "n attachments", [1, 2, 3, 4, 11, 101], [20], ["round trip"]),
            H(607, "name, namespace, text, bytes and list of n elements", [20, 300, 5000], [], ["round trip"]),
        ],
        bounds="names of up to 2 free bytes (3 thorough), namespaces of up to 3 (4), up to 2 arguments of 14 kinds with 1 (2) free bytes, ids around 0, 10000 and 2^64, up to 101 attachments; names, texts, buffers and lists of up to 5000 elements with up to 4 free bytes",
        stubs=[ERR],
    ),
    "C07": dict(
        harnesses=[H(701, "namespace of n bytes", range(0, 5), [5, 6], ["connect", "disconnect"])],
        bounds="namespaces of up to 4 free bytes (6 thorough)",
        stubs=[ERR],
    ),
    "C08": dict(
        harnesses=[
            H(801, "declared and given numbers of attachments, n placeholders", range(0, 5), [5], ["immediate", "completed", "refused"]),
            H(802, "binary message outside an assembly", range(0, 5), [9], []),
            H(803, "text kinds with a count, n digits", range(0, 5), [5], ["refused", "accepted"]),
            H(804, "n declared, one fewer, n or one more given", [10, 11, 100, 300], [], ["completed", "refused"]),
            H(805, "counts next to powers of two and ten, n free digits at the end, up to three attachments", [0, 1, 2], [3], ["asks", "refused", "impossible"]),
        ],
        bounds="counts and numbers of messages of 0 to 3 with up to 4 placeholders (5 thorough); counts of up to 4 free digits for the text kinds; 10, 11, 100 and 300 attachments, one fewer or one more; counts of up to 2 (3) free digits after leading ones next to powers of two",
        stubs=[ERR],
    ),
    "C09": dict(
        harnesses=[
            H(901, "argument list around n free bytes", range(0, 4), [4], ["decoded", "same value"]),
            H(902, "n arguments out of a list", [1, 2, 3], [4], ["same value", "both fail"]),
            H(903, "n arguments, every third a placeholder", [12, 100, 300], [], ["decoded"]),
        ],
        bounds="one argument with up to 3 free bytes (4 thorough) in the shapes of 901, or up to 3 (4) out of a list of argument texts, each deserialised into the listed types; up to 300 arguments with a free digit",
        stubs=[ERR],
    ),
    "C10": dict(
        harnesses=[
            H(1001, "one leaf, wrapped n times", [0, 1, 2, 3], [], ["attachment", "compared"]),
            H(1002, "sequences of n elements", [0, 1, 2, 3], [4], ["attachment", "compared"]),
            H(1003, "runs of n bytes with one other element", [1, 3, 4, 8], [9, 16, 17], ["attachment", "compared"]),
            H(1004, "n arguments", range(0, 4), [4], ["attachment", "compared"]),
            H(1005, "two levels of lists", [1], [2], ["attachment", "compared"]),
            H(1006, "a buffer of n bytes in any way of serialising", [126, 257, 5000, 65536], [], ["compared"]),
            H(1007, "n arguments with buffers, some of which fail", [12, 120, 300], [], ["compared", "failed"]),
        ],
        bounds="leaves of every serde data type with up to 2 free bytes, up to 3 levels of nesting, sequences of up to 3 mixed elements (4 thorough) and of up to 8 (17) bytes, up to 3 (4) arguments; buffers of up to 65536 bytes, 3 of them free, and up to 300 arguments with buffers",
        stubs=[ERR],
    ),
    "C11": dict(
        harnesses=[H(1101, "n serialisations, some of which fail", range(0, 4), [4], ["compared", "failed"]), H(1102, "n arguments with buffers, some of which fail", [12, 120, 300], [], ["compared", "failed"])],
        bounds="up to 3 (4 thorough) serialisations; the failure is at any place of values of the listed shapes; up to 300 serialisations with failures at every second or third",
        stubs=[ERR],
    ),
    "C12": dict(
        harnesses=[
            H(1201, "single values, n free bytes", range(0, 4), [4], ["same value", "both fail"]),
            H(1202, "lists, n free bytes", range(0, 3), [3], ["same value", "both fail"]),
            H(1203, "maps, n free bytes", range(0, 3), [3], ["same value", "both fail"]),
            H(1204, "whole values", [0], [], ["same value", "both fail"]),
            H(1205, "every request, n free bytes", range(0, 4), [4], ["same value", "both fail"]),
            H(1206, "first keys under every request, n free bytes", range(0, 3), [3], ["same value", "both fail"]),
            H(1208, "lists, maps, texts and depths of n", [20, 90, 300], [], ["same value"]),
            H(1209, "keys that begin like that of a placeholder, n free bytes more", [1], [2, 3], ["same value", "both fail"]),
            H(1207, "what serde_json does not offer outside", [0], []),
        ],
        bounds="values of up to 3 free bytes (4 thorough), lists and maps with up to 2 (3), into the listed types, through every Deserializer method and to a JSON value; keys of up to 1 (3) free bytes after _placeholder; lists, maps and texts of up to 300 elements and depths of 100 with one free byte",
        stubs=[ERR],
    ),
    "C13": dict(
        harnesses=[
            H(1301, "n free digits as the number", [1, 2], [3], ["resolved", "error"]),
            H(1302, "several placeholders, n attachments", [1, 2, 3, 4, 11], [5, 50], ["resolved"]),
            H(1303, "missing or malformed numbers", [1, 2, 3], [4], ["error"]),
            H(1304, "any type, n free bytes in the placeholder", range(0, 3), [3], ["decoded"]),
            H(1305, "displaying", [1, 2, 3], [4], ["displayed"]),
            H(1306, "number before the marker", [0], []),
            H(1307, "n arguments, every third a placeholder", [12, 100, 300], [], ["decoded"]),
        ],
        bounds="numbers of up to 2 free digits (3 thorough), up to 11 (50) attachments of up to 2 free bytes, up to 100 of fixed content, any of the listed types on placeholders with up to 2 (3) free bytes",
        stubs=[ERR],
    ),
    "C14": dict(
        harnesses=[
            H(1401, "n changes of the table on two namespaces and names, every event after each", [1, 2, 3], [4], ["event", "fallback"], "client"),
            H(1402, "a name with a free byte, with and without fallback", [0, 1], [], ["event", "none"], "client"),
            H(1403, "a namespace with a free byte, event and fallback", [0, 1], [], ["event", "none"], "client"),
            H(1404, "n free bytes as arguments", [1, 2, 3], [4], ["delivered", "malformed", "several"], "client"),
            H(1405, "n names with callbacks in three namespaces, of which some are cleared, any of them asked for", [12, 130], [300], ["event", "fallback"], "client"),
            H(1406, "n other things (acks, emits, connects, disconnects, binary events, changes elsewhere), then every event", [0, 1, 2], [], ["event", "fallback"], "client"),
            H(1408, "namespaces (n even) and names (n odd) that are nearly those of callbacks, or the reverse", [0, 1, 2, 3], [], ["event", "fallback", "none"], "client"),
            H(1409, "names of n/2+1 characters in any form that JSON has for them, with and without attachment", [0, 1, 2, 3], [4], ["event", "fallback", "none"], "client"),
            H(1411, "names and namespaces that coincide when written together, with nothing, a free byte or twice the same in between", [0, 1, 2], [], ["event", "none"], "client"),
            H(1410, "two clients, n changes of either table, every event on both", [0, 1], [2], ["event", "fallback"], "client"),
            H(1407, "two threads: an event, one with id, one with an attachment against each change of the table; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="3 (4 thorough) changes over two namespaces and two names, then 9 events (three namespaces, three names); names and namespaces with one free byte; arguments of up to 3 (4) free bytes; up to 130 (300) names in each of three namespaces; two other things between registering and events; two clients with one (2) changes; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C15": dict(
        harnesses=[
            H(1501, "n steps of emits (with, without callback, dropped) and acks (known, used, unknown, other namespace)", [1, 2, 3, 4], [5], ["fired", "unexpected"], "client"),
            H(1502, "ack id of n free digits, from 3 on after leading ones next to powers of two", [1, 2, 3, 4], [], ["fired", "unexpected"], "client"),
            H(1503, "the ack arrives before the sending call returns, n emits", [1, 2], [3], ["answered"], "client"),
            H(1504, "ack with attachments of n free bytes", [0, 2], [8], ["attached"], "client"),
            H(1505, "n callbacks waiting at once, any of them answered, twice", [12, 130, 300], [40], ["fired"], "client"),
            H(1506, "ways to build one emit: n settings of form and callback, arguments of which some fail", [1, 2], [0, 3], ["fired"], "client"),
            H(1507, "callbacks waiting in three namespaces while n other things happen", [0, 1, 2], [3], ["fired"], "client"),
            H(1510, "ack for a namespace whose id begins with the digit in which another ends, n callbacks before", [0, 1, 12], [], ["fired", "unexpected"], "client"),
            H(1509, "two clients, n emits by either, their acks in any order", [1, 2, 3], [], ["fired"], "client"),
            H(1508, "two threads: an ack against each change of the table and each way to send; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="histories of 4 (5 thorough) steps on two namespaces; acks of up to two arguments with a free digit; ids of up to 2 free digits, alone and after leading ones next to powers of two; up to 300 callbacks waiting at once; three emits by two clients; two (3) other things meanwhile; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C16": dict(
        harnesses=[
            H(1601, "event with an id of n free digits in three namespaces, text or up to three attachments; reply at three times, two forms, up to two arguments", [0, 1, 2], [3], ["answered", "never", "no id", "malformed"], "client"),
            H(1602, "n events waiting at once, answered in every order", [1, 2, 3], [4, 5], ["answered"], "client"),
            H(1603, "a namespace of n free bytes, ids of any length, the form set up to twice, an argument that fails", [0, 1], [], ["answered"], "client"),
            H(1604, "two threads: an event that is answered against each way to send; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="ids of up to 2 (3 thorough) free digits; up to 3 (5) events at once; a namespace of one free byte; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C17": dict(
        harnesses=[
            H(1701, "n frames of any sort", [1, 2, 3, 4], [5], ["pinged", "assembled"], "client"),
            H(1702, "n packets with pings within one read, socket that takes few bytes, two picks of select! free", [1, 2], [3], ["done"], "client"),
            H(1703, "n pings among frames of other sorts", [20, 300], [], ["done"], "client"),
            H(1704, "two threads: a ping against each change of the table and each way to send; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="sequences of 4 (5 thorough) frames: pings, pongs, websocket pings and pongs, connect, disconnect, events, binary events with two attachments; bursts of 2 (3) packets; up to 300 pings; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C18": dict(
        harnesses=[
            H(1801, "n operations within an event callback, a fallback or an ack callback, then every event and ack", [1, 2], [], ["done", "acked"], "client"),
            H(1802, "a callback that replaces or clears itself or the fallback, n events", [1, 2, 3], [5], ["done"], "client"),
        ],
        bounds="up to 2 operations (set, clear, set fallback, clear fallback, emit with callback, emit binary) inside one callback; a lock that is held while the callback runs shows as a call that blocks forever",
        stubs=WORLD,
    ),
    "C19": dict(
        harnesses=[
            H(1901, "n sends (text, binary with two attachments, binary ack) and pings, socket that takes few bytes, two picks of select! free", [1, 2], [3], ["sent"], "client"),
            H(1902, "n sends, then close", [1, 2], [3], ["closed"], "client"),
            H(1903, "frames of n bytes", [126, 1000, 65536], [], ["sent"], "client"),
            H(1904, "n sends", [12, 120, 300], [], ["sent"], "client"),
            H(1905, "n sends and pings on a connection that holds back what is not flushed, one pick of select! free", [1, 2], [3], ["sent"], "client"),
            H(1906, "two threads: what is queued and a binary event against each way to send; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="2 (3 thorough) sends, a socket that takes 1, 5, 11 or all bytes at a time and may be blocked before, one pause after each send, two free picks of select!; payloads of up to 65536 bytes and up to 300 attachments; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C20": dict(
        harnesses=[
            H(2001, "n packets, each in one to three frames, every point of pause, reads of 1, 7 or all bytes", [1], [2], ["delivered"], "client"),
            H(2002, "up to three attachments due, text of n free bytes instead of any of them", [0, 1, 2], [3], ["refused"], "client"),
            H(2003, "frames of n bytes", [126, 1000, 65536], [], ["delivered"], "client"),
            H(2004, "n packets", [12, 120, 300], [], ["delivered"], "client"),
        ],
        bounds="1 (2 thorough) packets of up to two attachments, every split of the stream in two, fragments with control frames in between, each of five control frames before the attachments; texts of up to 2 (3) free bytes where an attachment is due; payloads of up to 65536 bytes and up to 300 attachments",
        stubs=WORLD,
    ),
    "C21": dict(
        harnesses=[
            H(2101, "behaviours of the peer in the handshake, n free bytes as the answer", [0, 1, 4], [8], ["open", "refused", "silent"], "client"),
            H(2102, "anything but an open packet first, n free bytes as text", [0, 1, 2, 3], [4], ["refused"], "client"),
            H(2103, "open packet with one byte replaced by any, at position 10n to 10n+9", range(0, 7), [], ["open", "refused"], "client"),
            H(2104, "silence", [0], [], ["open", "silent"], "client"),
            H(2105, "answer, open packet and n pings in any granularity", [0, 1], [2], ["open"], "client"),
            H(2106, "a connector or an executor that fails (0); faults while the request is written (1)", [0, 1], [], ["refused", "open"], "client"),
        ],
        bounds="one free byte in the open packet, up to 3 (4 thorough) free bytes as first message, up to 4 (8) as answer to the handshake, the answer cut at every position, the request in pieces of 1, 7 or 64 bytes with a failure after up to two of them, three free picks of select!",
        stubs=WORLD,
    ),
    "C22": dict(
        harnesses=[
            H(2201, "close in five states of the connection, n packets while closing, six ends", [0, 1], [2], ["broken", "closed", "error", "timeout"], "client"),
            H(2202, "the peer closes first, after n events", [0, 1], [2], ["closed"], "client"),
            H(2203, "close while the connection takes few bytes or none, after n sends", [0, 1, 2], [4], ["closed", "timeout"], "client"),
            H(2204, "two threads: events, pings, sends, a violation, the end of the connection against close; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="1 (2 thorough) packets while closing, reads of 3 or all bytes, one free pick of select!, two further closes; up to 2 (4) packets that the connection does not take; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C23": dict(
        harnesses=[
            H(2301, "scheme of n free bytes", [1, 2, 3, 4], [5], ["plain", "refused", "tls"], "client"),
            H(2302, "each scheme with a byte replaced, added or left out", [0, 1, 2, 3], [], ["plain", "refused", "tls"], "client"),
            H(2303, "port of n free bytes, each scheme", [1, 2], [], ["plain", "refused", "tls"], "client"),
            H(2304, "port of n free digits after known ones", [1], [2], ["plain", "refused", "tls"], "client"),
            H(2305, "path of n free bytes", [0, 1, 2], [3], ["plain", "refused"], "client"),
            H(2306, "query of n free bytes", [0, 1, 2], [3], ["plain"], "client"),
            H(2307, "host of n free bytes", [1, 2], [3], ["plain", "refused", "tls"], "client"),
            H(2308, "any text of n bytes", [0, 1, 2, 3, 4], [5], ["refused"], "client"),
            H(2309, "known schemes, hosts, ports, paths and queries", [0, 1], [], ["plain", "refused", "tls"], "client"),
        ],
        bounds="one part of the address with up to 2 free bytes at a time (scheme 4, text 4; one more each when thorough), ASCII outside path and query; over TLS (https, wss) host and port only, the request is encrypted",
        stubs=WORLD,
        assumptions=["what a URL text says is taken from the url crate, which the client uses too"],
    ),
    "C24": dict(
        harnesses=[
            H(2401, "up to n good messages, one of 14 kinds of violation with a free byte or none, good messages", [0, 1, 2], [3], ["none", "violated"], "client"),
            H(2402, "any text message of n bytes", range(0, 5), [5, 6], ["violated", "asks"], "client"),
            H(2403, "n free header bytes before the arguments", [1, 2, 3], [4], ["violated", "asks", "event"], "client"),
            H(2404, "n free bytes as the first argument", [1, 2, 3], [4], ["violated", "event"], "client"),
            H(2405, "declared counts next to powers of two, n attachments given", [0, 1, 2], [], ["asks", "violated"], "client"),
            H(2406, "n good messages, then a violation", [30, 300], [], ["done"], "client"),
            H(2407, "two threads: a violation against each change of the table and each way to send; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="up to 2 (3 thorough) messages before the violation; messages of up to 4 (6) free bytes; counts of up to 2 free digits after leading ones next to powers of two; up to 300 messages before the violation; what a message means is taken from the protocol crate (C01, C04); two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C25": dict(
        harnesses=[
            H(2501, "eleven ways in which a connection ends, then n uses of the client or what came from it", [0, 1, 2, 3], [4], ["over"], "client"),
            H(2502, "n acknowledgements sent before and after the close frame", [1, 2, 5], [], ["closed"], "client"),
            H(2503, "two threads: four ways in which a connection ends against each way to send; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="eleven ways in which a connection ends, then 3 (4 thorough) uses: emits, kept acknowledgements, changes of the table, late packets, further closes; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
    "C26": dict(
        harnesses=[
            H(2601, "a client is dropped in eleven states, n packets or kept acknowledgements afterwards", [0, 1, 2, 3], [4], ["gone"], "client"),
            H(2602, "two threads: ten things the task has to do against the drop of the client; n/2+1 switches", [0, 1, 2, 3], [], ["task first", "other first"], "client"),
        ],
        bounds="eleven states (four while connecting, five open, two closing), then 3 (4 thorough) packets or acknowledgements; two threads, one of them the connection task, with up to two switches before any atomic operation of either, in sequentially consistent memory",
        stubs=WORLD,
    ),
}
NA = {}
