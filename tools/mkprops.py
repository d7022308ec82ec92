#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
S = "bsp-server/src/"
T = "bsp-types/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Every outgoing message is exactly one correct frame",
  "Every message written to a peer over TCP or stdio appears on the byte stream as exactly one frame: a Content-Length header giving the exact byte length of the body, a blank line (CRLF line ends), and a body that is one UTF-8 JSON object with \"jsonrpc\": \"2.0\". The frames are contiguous and nothing else is ever written to the stream, whatever the messages' content and size, however many threads send them and however fast the peer reads.",
  ["inputs", "schedules"], "all messages (kinds, sizes up to megabytes, multi-byte text), all interleavings of sending threads, all read paces of the peer",
  "The tests serialize seven small ASCII messages to strings and never look at a byte stream; the length header, the jsonrpc member and interleaved writers are not exercised at all.",
  [S+"message.rs", S+"transporter.rs"],
  [("Message::write computes the length from the serialized text, writes header and body and flushes", S+"message.rs"), ("one writer thread per connection drains the outgoing channel", S+"transporter.rs")],
  ["bytes read by a raw TCP peer", "bytes read from the stdout pipe of a subprocess"])

p("C02", "Well-formed frames are delivered once, in order, however they arrive",
  "Every well-formed frame a peer sends over TCP or stdio is delivered to the application as exactly one message, in the order sent and with the content sent. This does not depend on how the bytes are split into reads, on the size of the body (multi-byte text included), on additional headers or the order of headers, or on the letter case of the Content-Length header's name.",
  ["inputs", "schedules"], "all sequences of well-formed frames, all segmentations of the byte stream, all header variations",
  "No test reads from a stream; segmentation, buffer-boundary sizes and header variations form an unbounded space.",
  [S+"message.rs", S+"transporter.rs"],
  [("read_msg_text parses headers line by line and reads exactly the announced number of bytes", S+"message.rs"), ("the reader thread forwards each message over a rendezvous channel", S+"transporter.rs")],
  ["messages received from Connection::receiver, against the frames the raw peer sent"])

p("C03", "Accepted messages reach the peer exactly once, in order, before join succeeds",
  "Every message whose send succeeded, from any number of threads sharing a connection, is put on the wire exactly once and unaltered, and messages sent by one thread keep their order. Once the application has dropped the connection and joining its threads has succeeded, every accepted message has been written in full, even if the peer reads slowly.",
  ["schedules", "histories"], "all interleavings of sending threads, all read paces of the peer, all message mixes",
  "No test sends a message over a transport or joins the threads; loss at shutdown and reordering only show under concurrency and backpressure.",
  [S+"transporter.rs", S+"io_thread.rs", S+"message.rs", S+"lib.rs"],
  [("rendezvous channel to a single writer thread", S+"transporter.rs"), ("each message is flushed before the next is taken", S+"message.rs"), ("join waits for reader and writer", S+"io_thread.rs")],
  ["frames seen by a raw peer, against the log of successful sends and the time join returned"])

p("C04", "Malformed or truncated input is contained",
  "For every sequence of bytes a peer may send, the application receives exactly the messages before the first malformed or incomplete frame, then the end of the stream; joining the threads reports an error for a malformed frame or one cut short inside a header line or body, and success when the stream ends cleanly between frames. No input makes the process panic or abort, and none makes it reserve memory in proportion to a length that was announced but never sent.",
  ["inputs"], "all byte streams: bad headers, missing/overflowing/huge lengths, wrong line ends, invalid UTF-8, invalid JSON, wrong JSON shapes, deep nesting, truncation at every byte",
  "No test feeds malformed bytes to the reader; the space of byte streams is infinite.",
  [S+"message.rs", S+"transporter.rs", S+"io_thread.rs"],
  [("header and length validation", S+"message.rs"), ("bounded growth while reading the body", S+"message.rs"), ("errors of the reader thread are returned by join", S+"transporter.rs")],
  ["messages received, result of join, panics in any thread, exit status, sizes of heap requests"])

p("C05", "A message's kind follows from its method and id",
  "An incoming JSON object with a method and a (string or 32-bit integer) id is delivered as a request with that id and method, one with a method and no id (or a null id) as a notification, and one with an id and no method as a response; omitted params mean the same as null params. In particular a request whose params do not fit its method is still delivered as a request, keeping its id, method and params as they were sent, so that it can be answered. An object with a method and an id of any other type, an object with neither, and any JSON value that is not an object are rejected.",
  ["inputs"], "all JSON values as message bodies",
  "Tests decode two requests and three notifications that all take the expected branch; misclassification needs unusual ids, params or member combinations.",
  [S+"message.rs", S+"request.rs", S+"notification.rs", S+"response.rs"],
  [("dispatch on the presence of method and id, with a raw request as fallback", S+"message.rs")],
  ["the kind, id, method and params of the decoded message"])

p("C06", "Messages survive the wire unchanged",
  "Any message that is sent over a connection and received by this library again has the same kind, the same id (value and type), the same method, and the same params, result (a null result included), or error as before; only object members whose value is null or the documented default may be dropped. Decoding an encoded message and encoding it again gives the same JSON.",
  ["inputs"], "all requests, notifications and responses, typed and custom, with arbitrary JSON payloads",
  "Tests check one direction on single samples with expected strings; payload values and their combinations are unbounded.",
  [S+"message.rs", S+"request.rs", S+"notification.rs", S+"response.rs", S+"request/id.rs"],
  [("hand-written Serialize/Deserialize of requests and notifications", S+"request.rs"), ("derived Serialize/Deserialize of responses with a presence-preserving result", S+"response.rs")],
  ["JSON of messages before sending and after receiving"])

p("C07", "Method names and typed messages correspond one to one",
  "Each method of the protocol that the library supports (14 requests and 9 notifications) has exactly one name, the one the protocol specifies, and a message with that name and fitting params is decoded to that method's own typed message and encoded under that name again. Every other method name, however similar, is kept verbatim as a custom message.",
  ["inputs"], "all method names: the protocol's, near misses (case, prefix, suffix, whitespace, other kind), arbitrary text",
  "Tests mention six names; a swapped, misspelled or swallowed name for any other method goes unnoticed.",
  [S+"request.rs", S+"notification.rs"],
  [("method() name tables", S+"request.rs"), ("match on the method name when decoding", S+"notification.rs")],
  ["variant and method() of decoded messages, method member of encoded ones"])

p("C08", "Params of requests and notifications follow the protocol's schema",
  "For each supported method, every params object that conforms to the protocol's schema decodes to the typed message, and encodes to the same members with the same (camelCase) names and values, where optional members that are absent stay absent (or null) and never change the others. Enumerations keep their protocol numbers, timestamps in milliseconds fit, and params that lack a required member or have one of the wrong type are not decoded to the typed message.",
  ["inputs"], "all conforming params (every subset of optional members, arbitrary values), and all single-member corruptions of them",
  "Tests cover four params objects; names, optionality and ranges of some eighty members are otherwise untested.",
  [T+"initialize_params.rs", T+"bt_compile.rs", T+"bt_test.rs", T+"bt_run.rs", T+"bt_clean_cache.rs", T+"bt_sources.rs", T+"bt_resources.rs", T+"bt_dependency_modules.rs", T+"bt_dependency_sources.rs", T+"bt_inverse_sources.rs", T+"bt_did_change.rs", T+"debug_session_start.rs", T+"log_message.rs", T+"show_message.rs", T+"publish_diagnostics.rs", T+"task.rs", T+"task/start.rs", T+"task/progress.rs", T+"task/finish.rs", T+"task/kind.rs", T+"task/status.rs"],
  [("serde attributes on the params types", T), ("hand-written data-kind encoding", T+"task/kind.rs")],
  ["JSON before decoding and after encoding, against an independent schema"])

p("C09", "Results of responses follow the protocol's schema",
  "Every result object that conforms to the protocol's schema for its request decodes to the library's result type and encodes to the same members with the same (camelCase) names and values; this covers initialization results with capabilities and providers, build targets with tags, sources, resources, dependency modules, run, compile, test, clean-cache and debug-session results. Build target tags are plain strings, the predefined ones under their protocol names and any other text kept verbatim; objects that lack a required member or have one of the wrong type are rejected.",
  ["inputs"], "all conforming results and all single-member corruptions of them",
  "No test touches a result type.",
  [T+"initialize_result.rs", T+"server_capabilities.rs", T+"providers.rs", T+"workspace_build_targets.rs", T+"bt_tag.rs", T+"bt_capabilities.rs", T+"bt_sources.rs", T+"bt_resources.rs", T+"bt_dependency_modules.rs", T+"bt_dependency_sources.rs", T+"bt_inverse_sources.rs", T+"bt_run.rs", T+"bt_compile.rs", T+"bt_test.rs", T+"bt_clean_cache.rs", T+"debug_session_start.rs"],
  [("serde attributes on the result types", T), ("hand-written tag encoding", T+"bt_tag.rs")],
  ["JSON before decoding and after encoding, against an independent schema"])

p("C10", "Constructors and accessors agree with the encoded value",
  "For every payload type, a value built with its constructors encodes to exactly the arguments given, each under its own member, with unset members at their documented default. Every setter changes exactly its own member to the given value, and every getter returns exactly what its member encodes to, after any sequence of sets.",
  ["inputs", "histories"], "all argument values and all sequences of setter calls",
  "Tests call two constructors and two setters; about a hundred accessors are untested.",
  [T+"initialize_params.rs", T+"initialize_result.rs", T+"server_capabilities.rs", T+"client_capabilities.rs", T+"bt_capabilities.rs", T+"bt_clean_cache.rs", T+"bt_compile.rs", T+"bt_test.rs", T+"bt_run.rs", T+"bt_sources.rs", T+"bt_resources.rs", T+"bt_dependency_modules.rs", T+"bt_dependency_sources.rs", T+"bt_inverse_sources.rs", T+"bt_did_change.rs", T+"debug_session_start.rs", T+"log_message.rs", T+"show_message.rs", T+"task/id.rs", T+"task/start.rs", T+"task/finish.rs", T+"workspace_build_targets.rs"],
  [("constructors, getters and setters", T)],
  ["getter results and encoded JSON after each step"])

p("C11", "The initialization handshake follows the protocol",
  "Until build/initialize arrives, every request is answered exactly once, in order, with error -32002 under its own id, and every notification other than build/exit is dropped. The first build/initialize is given to the application's handler exactly once and answered exactly once with the handler's result under its id; initialization then succeeds, returning the params received, if and only if the next message is build/initialized. Build/exit or a response before build/initialize, or anything other than build/initialized after the answer, makes initialization fail with an error, and no message is consumed after initialization has returned.",
  ["histories", "inputs"], "all sequences of incoming messages before, during and after the handshake, on every transport",
  "No test runs the handshake.",
  [S+"lib.rs", S+"response.rs"],
  [("initialize_start loop", S+"lib.rs"), ("initialize_finish", S+"lib.rs")],
  ["responses seen by the client, handler calls, result of initialize, messages left to receive"])

p("C12", "The shutdown handshake follows the protocol",
  "Offered a request other than build/shutdown, shutdown handling reports false, sends nothing and consumes nothing. Offered build/shutdown, it answers exactly once, with a null result under the request's id, and then reports true if the next message is build/exit and an error if it is anything else or the connection ends. The client may take seconds to send build/exit, but if nothing arrives at all the wait ends with an error within a minute.",
  ["histories", "inputs"], "all requests, ids, following messages and (bounded) delays, on every transport",
  "No test calls shutdown handling.",
  [S+"lib.rs"],
  [("handle_shutdown with a receive timeout", S+"lib.rs")],
  ["responses seen by the client, the returned value, messages left to receive"])

p("C13", "A vanishing peer yields errors, never panics or hangs",
  "If the peer disconnects at any point of a session (between any two messages, in the middle of a frame, during initialization or shutdown, by closing, half-closing or resetting), every operation of the application that needs the peer returns an error or reports the end of the stream, within bounded time. No thread panics, and joining the threads returns instead of panicking or blocking once the application has dropped the connection.",
  ["crash_points", "fault_sequences"], "every cut point of a session, every byte offset in a frame, every way to disconnect, on every transport",
  "No test has a peer that disconnects.",
  [S+"lib.rs", S+"transporter.rs", S+"io_thread.rs"],
  [("send errors of the handshake become protocol errors", S+"lib.rs"), ("I/O errors end the threads with an error", S+"transporter.rs")],
  ["results of initialize, handle_shutdown, send, receive and join; panics in any thread"])

p("C14", "Nothing that follows build/exit is delivered",
  "On TCP and stdio the build/exit notification is the last message delivered: whatever follows it on the stream, valid or not, is never delivered nor reported as an error, and the application then sees the end of the stream. Joining the threads succeeds as soon as the application drops the connection, even though the peer keeps its side open and keeps sending; nothing other than a build/exit notification ends the session this way.",
  ["inputs", "histories"], "all message sequences containing build/exit and all continuations",
  "No test reads a stream past an exit notification.",
  [S+"transporter.rs"],
  [("the reader loop stops after forwarding an exit notification", S+"transporter.rs")],
  ["messages received after exit, result of join while the peer stays connected"])

p("C15", "Long-running servers use bounded resources",
  "Memory does not grow with the number of messages exchanged (typed or custom, valid or rejected) as long as the set of distinct method names is bounded. After a connection has ended and its threads have been joined, all memory, threads and file descriptors it used are released, however the session ended.",
  ["histories"], "all long message histories and all ways to end a session",
  "Tests exchange a handful of values and never look at resources.",
  [S+"message.rs", S+"request.rs", S+"notification.rs", S+"transporter.rs"],
  [("method names are interned", S+"message.rs"), ("threads own the stream halves and end with the connection", S+"transporter.rs")],
  ["live heap bytes, thread count and open file descriptors at quiescent points"])

p("C16", "The in-memory pair is two independent first-in first-out queues",
  "What one end of an in-memory connection pair sends, and only that, is received by the other end, exactly once, unaltered and in order for each sending thread, independently in the two directions. Sending never blocks; when an end is dropped, the other end still receives everything sent before and then sees the end of the stream, and its sends fail.",
  ["schedules", "histories"], "all interleavings of senders and receivers on both ends, all drop points",
  "No test uses the in-memory pair.",
  [S+"lib.rs"],
  [("two crossed unbounded channels", S+"lib.rs")],
  ["history of sends and receives on both ends"])

p("C17", "A session is the same on every transport",
  "The same client messages produce the same server-side observations (messages received, results of initialization and shutdown handling) and the same answers in the same order whether the session runs over the in-memory pair, over TCP (connecting or listening) or over standard input and output.",
  ["histories", "configurations"], "all session scripts, all transports",
  "No test runs a session on any transport.",
  [S+"lib.rs", S+"transporter.rs", S+"message.rs"],
  [("one Connection interface over all transports", S+"lib.rs"), ("separate reader and writer loops for stdio and sockets", S+"transporter.rs")],
  ["server log and client log of the same script on each transport"])

p("C18", "Responses carry the request's id, exactly one outcome and the standard code",
  "A success response built from an id and a result (directly or by converting a pair of an id and any result type) encodes to exactly that id and result and no error; an error response encodes to exactly that id, its code and message, and no result. Each named error constructor uses its standard JSON-RPC/LSP code (-32700, -32600 to -32603, -32099, -32000, -32002, -32800 to -32802).",
  ["inputs"], "all ids, results, messages, codes and constructors",
  "No test builds a response.",
  [S+"response.rs", S+"error.rs"],
  [("Response constructors and conversions", S+"response.rs"), ("error code table", S+"error.rs")],
  ["encoded JSON and fields of the response"])

p("C19", "A request's reported id, method and params match its encoding",
  "For every request, the id, method and params it reports are those of its encoded form (null params where none are encoded), for typed and custom requests, whether it was received or built from an id and params. The method a notification reports is that of its encoded form.",
  ["inputs"], "all requests and notifications",
  "No test calls these accessors.",
  [S+"request.rs", S+"notification.rs"],
  [("id(), method() and params() tables", S+"request.rs"), ("From conversions", S+"notification.rs")],
  ["accessor results against the encoded JSON"])

p("C20", "The workspace root path is the path the root URI denotes",
  "For every absolute path, initialization params whose root URI was made from that path report that path as the workspace root, whatever characters it contains (spaces, percent signs, non-ASCII, reserved characters) and also after a trip over the wire (unless the URI itself reads differently from its text, as the url crate has it for backslashes).",
  ["inputs"], "all absolute paths",
  "No test reads the root path.",
  [T+"initialize_params.rs"],
  [("root_path", T+"initialize_params.rs")],
  ["reported path against the original one"])

p("C21", "Default request handlers answer, and never panic",
  "A server that implements only initialization can have every other handler called with any params: workspace targets, sources, inverse sources, dependency sources and resources give an empty result, shutdown and reload succeed without a value, and all other requests give an error. None of them panics.",
  ["inputs"], "all handlers, all params",
  "No test calls a default handler.",
  [T+"server.rs"],
  [("default methods of the server trait", T+"server.rs")],
  ["returned values and panics"])

p("C22", "The two directions of a connection do not block each other",
  "While the peer does not read, so that outgoing messages pile up, incoming messages are still delivered; while the application does not receive, outgoing messages are still written and flushed immediately, one by one. Once the blocked side resumes, everything pending is delivered.",
  ["schedules"], "all stall patterns of either side and message sizes beyond the transport's buffers",
  "No test has two directions, let alone a stalled one.",
  [S+"transporter.rs"],
  [("separate reader and writer threads with separate channels", S+"transporter.rs")],
  ["progress of one direction while the other is stalled"])

p("C23", "A send attempt either delivers the message or hands it back",
  "Each call to send, try_send, send_timeout or send_deadline either succeeds, and the message is delivered to the peer exactly once, or fails and returns the very same message, which is then never delivered. The non-blocking and timed variants never block beyond their limit by more than scheduling noise, the timed ones give up only when their limit has passed, and a send fails as disconnected once the other side is gone.",
  ["schedules", "histories"], "all interleavings of the four send variants with fast, slow and vanishing receivers",
  "No test sends anything.",
  [S+"lib.rs", S+"transporter.rs"],
  [("delegation to the channel", S+"lib.rs")],
  ["history of send outcomes against messages seen by the peer"])

p("C24", "Connections in one process are isolated from each other",
  "With any number of connections open in one process, each delivers exactly the messages of its own peer and sends only to its own peer, and malformed input, exit, disconnection or a stall on one has no effect on the others.",
  ["schedules", "fault_sequences"], "all interleavings of several connections with faults on some of them",
  "No test opens a connection.",
  [S+"lib.rs", S+"transporter.rs", S+"message.rs"],
  [("per-connection threads and channels", S+"transporter.rs")],
  ["per-connection histories with connection-tagged messages"])

p("C25", "Sessions are free of data races, undefined behaviour and leaks",
  "No session, however many threads and connections take part and whatever the peer sends, causes a data race, an invalid memory access or other undefined behaviour, or memory that becomes unreachable without being freed.",
  ["schedules", "inputs"], "all interleavings and inputs of sessions reached by the stress workload",
  "Tests are single-threaded and run without sanitizers.",
  [S+"transporter.rs", S+"message.rs", S+"request.rs", S+"notification.rs", S+"lib.rs"],
  [("safe Rust over channels", S+"lib.rs"), ("mutex-protected interning of method names", S+"message.rs")],
  ["reports of ThreadSanitizer, AddressSanitizer, LeakSanitizer and Miri"])

p("C26", "Request ids keep their type and value",
  "Every 32-bit integer and every string is a valid id, and an id that is received, compared, hashed, ordered, displayed or sent back never changes its type or value: ids are equal, hash alike and compare as equal exactly if they have the same type and value, so 3 and \"3\" stay different. An integer id is displayed as the number and a string id as a quoted string; a number that is not a 32-bit integer is never accepted as an id.",
  ["inputs"], "all pairs of ids",
  "Tests use the id 3 only.",
  [S+"request/id.rs"],
  [("untagged id representation with derived comparisons", S+"request/id.rs")],
  ["comparisons, hashes, display and encoding of pairs of ids"])

p("C27", "Decoding ignores member order, unknown members and insignificant whitespace",
  "Decoding gives the same message whatever the order of the members of any object in it, with or without the jsonrpc member and other unknown members of any value, with any insignificant whitespace and any JSON escaping of strings. This holds for messages from a stream and for requests, notifications and responses decoded on their own from text or from a JSON value.",
  ["inputs"], "all reorderings, extensions and textual forms of all message objects",
  "Tests decode each sample in one textual form; the one with an extra member goes through a JSON value and misses the text decoder.",
  [S+"request.rs", S+"notification.rs", S+"message.rs", S+"response.rs"],
  [("field visitors that skip unknown members", S+"request.rs")],
  ["decoded messages of equivalent texts"])

p("C28", "Opening a connection succeeds or reports an error, and leaves nothing behind",
  "Connecting yields a connection to the first of the given addresses that accepts, and an error if none does. Listening waits, for as long as it takes, for one client at the first of the given addresses that can be bound, serves that client alone (others are refused, at the latest when they send something) and reports an error if no address can be bound; the address can be listened on again as soon as the connection is over. Neither ever panics, signals do not disturb it, and a failed attempt, for lack of file descriptors too, leaves no descriptor or thread behind.",
  ["inputs", "configurations", "fault_sequences"], "all lists of addresses and address texts, all arrival times and orders of clients, any number of free file descriptors",
  "No test opens a connection.",
  [S+"lib.rs", S+"transporter.rs"],
  [("connect and listen hand the socket to Transporter::socket, which duplicates it and starts the threads", S+"lib.rs")],
  ["the result of Connection::connect and Connection::listen, messages exchanged with raw peers, descriptor counts"])

p("C29", "Waiting costs no processor time",
  "A session in which everything waits (for bytes, for the rest of a message, for a peer that does not read, for an application that does not receive, for the next step of initialization or shutdown, for a client, for the threads to end, or with its peer gone) uses no processor time: no thread spins or polls (more than a thousandth of a processor, or twenty wake-ups a second), however long the wait and however many such sessions there are.",
  ["schedules", "inputs", "histories"], "all states in which a session waits, on every transport, and all mixtures of such sessions in one process",
  "No test holds a session that waits, or measures processor time.",
  [S+"lib.rs", S+"transporter.rs", S+"io_thread.rs"],
  [("the threads block in reads, writes and rendezvous channels", S+"transporter.rs"),
   ("initialization and shutdown block in recv and recv_timeout", S+"lib.rs")],
  ["processor time and voluntary context switches of every thread, read from /proc"])

p("C30", "A message costs in proportion to its size, however long the session",
  "The processor time to receive or send a message grows no faster than its size, whatever it consists of (text, escapes, lists, members, typed params, header lines, long names), and a message late in a session costs no more than an equal one at the beginning, however many messages, ids and method names have gone before or, on an in-memory pair, wait in the queue.",
  ["inputs", "histories"], "all messages by size and content; all lengths of sessions and of queues",
  "Tests decode a handful of small messages.",
  [S+"message.rs", S+"transporter.rs", S+"request.rs", S+"notification.rs"],
  [("read_msg_text reads headers and body", S+"message.rs"),
   ("intern_method keeps the method names seen", S+"message.rs"),
   ("Message::write encodes and writes", S+"message.rs")],
  ["processor time of a process that receives or sends, between two answered requests"])

p("C31", "A message passes at once",
  "In a session that is not otherwise busy, a message is delivered as soon as it is sent, the answers the library itself gives (refusals, initialization, shutdown) come as soon as they are due, and a session that ends (by exit, end of stream or an unreadable message) is over for receivers and for those who join its threads right away; connections are opened, and refused, at once: nothing is held back (for 12 ms or more, again and again) until a timer expires, an acknowledgement comes or there is more traffic, whatever the sizes, numbers, pauses and pattern of the messages.",
  ["inputs", "schedules", "histories"], "all patterns of messages both ways, all pauses, on every transport",
  "No test measures time or opens a connection; what delays a message depends on what was sent and acknowledged before it.",
  [S+"transporter.rs", S+"message.rs", S+"lib.rs"],
  [("Transporter::socket turns off the delay of small segments", S+"transporter.rs"),
   ("Message::write flushes after each message", S+"message.rs")],
  ["monotonic times of send and receive of every message, by place in the session"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
