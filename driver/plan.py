"""What each check runs: cases in the quick tier, limits, and the rule of its evidence."""

# id: (quick cases, thorough seconds, what one evaluation is and what makes it distinct)
PLAN = {
    "C01": (1440, 500, "One evaluation is one outgoing history: 1-6 threads send tagged random messages (all types, sizes around buffer boundaries) through clones of a connection over TCP or stdio with fast, slow, tiny-buffer or interrupted peers; the harness's own parser reads every byte. Distinct by transport, threads, sizes and pacing."),
    "C02": (2240, 500, "One evaluation is one incoming byte stream (random messages, rendering, headers and segmentation, pauses, signals) on TCP or stdio, compared with the reference decoding of each frame. Distinct by stream contents and segmentation."),
    "C03": (1280, 500, "One evaluation is one history of concurrent accepted sends whose bytes the peer parses, ended by dropping the connection and joining, with peers that close early in some. Distinct by transport, threads, sizes, pacing and ending."),
    "C04": (3200, 500, "One evaluation is one malformed, damaged or truncated byte stream on TCP or stdio, judged by the reference parser (what may be delivered, whether join reports), allocation and panic monitors. Distinct by byte stream."),
    "C05": (6400, 400, "One evaluation is one JSON text with some combination of id, method, params, result and error members, decoded by four serde routes and compared with the reference classification. Distinct by shape, method and member kinds."),
    "C06": (2800, 400, "One evaluation is a batch of messages sent through encode and decode (serde, memory, TCP, stdio) and compared member by member. Distinct by message kind, variant and shape."),
    "C07": (7200, 400, "One evaluation is one method string (every known name, near misses, unknown names) in both directions between text and type. Distinct by method."),
    "C08": (6400, 400, "One evaluation is one params value generated from the schema table (or corrupted at one place), decoded and encoded again. Distinct by method and set of members present."),
    "C09": (12000, 400, "One evaluation is one result value generated from the schema table, decoded and encoded again, compared after normalisation. Distinct by type and set of members present."),
    "C10": (4500, 400, "One evaluation is one history of a payload value: a constructor, then a random sequence of setters and *_mut edits with a JSON model beside it; the encoding is compared and all getters read after every step. Distinct by type and operation sequence."),
    "C11": (960, 500, "One evaluation is one handshake script (pre-initialization traffic, initialize, what follows, idle pauses up to 11 s) on memory, TCP or stdio against the handshake state machine. Distinct by script."),
    "C12": (960, 500, "One evaluation is one shutdown script (other requests, shutdown, what follows, delays up to 12 s, silence) on every transport. Distinct by script."),
    "C13": (1600, 400, "One evaluation is one session whose peer vanishes at a chosen place (between messages, inside a frame, in a handshake; close, half close, reset), with panic, error and join monitors. Distinct by place, manner and transport."),
    "C14": (14400, 400, "One evaluation is one incoming history with build/exit (and look-alikes) at some place and further messages behind it, on TCP or stdio. Distinct by history shape."),
    "C15": (160, 500, "One evaluation is either a block of short sessions with nine endings or doubling phases of message traffic; live heap bytes, threads and descriptors are compared between phases. Distinct by kind of session, ending and transport."),
    "C16": (400, 400, "One evaluation is one concurrent history on an in-memory pair, its send and receive log checked for exactly-once, per-thread order, independence of directions and disconnection. Distinct by threads, sizes and schedule parameters."),
    "C17": (1440, 500, "One evaluation is one session script run on memory, TCP (both ways) and stdio, whose observable histories are compared. Distinct by script."),
    "C18": (7200, 400, "One evaluation is one response built through the public API or decoded, compared in id, outcome and code. Distinct by constructor, id kind and error code."),
    "C19": (9600, 400, "One evaluation is one request (typed, custom, decoded), whose id(), method() and params() are compared with its encoding. Distinct by variant and id kind."),
    "C20": (24000, 400, "One evaluation is one root path or URI (generated segments, percent escapes, non-UTF-8, hosts) compared with the path it denotes. Distinct by URI."),
    "C21": (4800, 400, "One evaluation is one call of a default handler of the server trait with a generated request. Distinct by handler and params."),
    "C22": (1280, 500, "One evaluation is one session in which one direction is blocked by a peer that does not read or write while the other must progress (lockstep events, not time). Distinct by transport, direction, sizes."),
    "C23": (720, 500, "One evaluation is one history of send, try_send, send_timeout and send_deadline attempts with a paced or vanished receiver: returned messages, durations and deliveries are conserved. Distinct by variants, outcomes and pacing."),
    "C24": (320, 500, "One evaluation is one process with several concurrent connections, of which some fail, stall or end; every other must behave as alone. Distinct by the mixture."),
    "C26": (18000, 400, "One evaluation is one request id (all integer boundaries, numeric strings, Unicode) through construction, comparison, hashing, printing, decoding and encoding. Distinct by id."),
    "C28": (2400, 300, "One evaluation is one attempt to connect or listen (lists of addresses of which some work, texts that are none, idle times, signals, clients that queue up or reset, few descriptors left in a process of its own), judged by outcome, an exchange of messages and descriptor counts. Distinct by kind of attempt and circumstances."),
    "C29": (160, 400, "One evaluation is one process holding 6-24 sessions (sockets both ways, memory pairs, children on stdio) in which everything waits; processor time and wake-ups of every thread are read from /proc until one window is quiet. Distinct by the multiset of states."),
    "C30": (96, 500, "One evaluation is one comparison of processor time: the same bytes as many messages and as one (received or sent, by kind of content, at growing totals), a backlog on a memory pair, or the first and last blocks of a session of 120,000 messages. Distinct by kind and transport."),
    "C31": (480, 4000, "One evaluation is one session whose messages, answers of the handshakes, endings or openings are timed by place over 8-16 rounds: both ways over TCP against a peer or between two ends of the library, on a memory pair, through a child on stdio. Distinct by the sequence of steps."),
    "C27": (4000, 400, "One evaluation is one message rendered in many ways (member order, whitespace, escapes, unknown members) that must decode to the same message. Distinct by message kind and variation."),
}

# C25: (tool, property workload, quick cases, thorough cases, first case)
TSAN = [
    ("C25", 240, 6000, 0), ("C16", 60, 1000, 0), ("C23", 40, 400, 0), ("C24", 16, 200, 0), ("C01", 24, 400, 0), ("C03", 24, 300, 0),
    ("C22", 16, 200, 0), ("C13", 160, 3000, 0), ("C11", 24, 400, 4), ("C12", 24, 400, 4), ("C14", 80, 1500, 0), ("C17", 24, 300, 0),
]
ASAN = [
    ("C25", 240, 6000, 0), ("C04", 80, 2000, 0), ("C02", 40, 600, 0), ("C05", 160, 3000, 0), ("C06", 24, 400, 0), ("C08", 160, 3000, 0),
    ("C09", 160, 3000, 0), ("C10", 80, 1500, 0), ("C13", 160, 3000, 0), ("C20", 160, 3000, 0), ("C21", 80, 1500, 0), ("C26", 160, 3000, 0),
    ("C27", 80, 1000, 0), ("C24", 8, 100, 0), ("C14", 80, 1500, 0),
]
MIRI = [("C25", 24, 600, 0)]
RULE25 = ("One evaluation is one case run under one tool: ThreadSanitizer and AddressSanitizer/LeakSanitizer (std rebuilt and instrumented too) over concurrent, "
          "hostile and failing sessions on all transports, Miri over small sessions on memory pairs and real TCP. Violations are sanitizer or Miri reports and strings "
          "that are not UTF-8. Distinct by tool, workload and observed shape of the case.")
