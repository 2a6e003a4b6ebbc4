#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts is this table)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {})},
    })


S = "src/session.cpp"
SH = "include/dap/session.h"

prop("C01", "A response reaches only the request that caused it",
     "Every outgoing message carries a sequence number no other message of the session carries, and a request's response handler is registered under that very number before the request can reach the peer. An inbound response is delivered only to the handler registered under the request sequence number it echoes. A response whose number is unknown or was already answered reaches no handler and is reported to the error handler.",
     ["inputs", "schedules", "histories"], "all inbound response messages, all interleavings of concurrent senders and the receive thread, all histories of sent requests",
     "Tests send a few requests one after the other; wrong correlation needs concurrent sends, fast responses or repeated/forged response numbers.",
     [S, SH], [("sequence counter", "session.cpp: nextSeq"), ("pending response table", "session.cpp: EventHandlers::put/response"), ("response dispatch", "session.cpp: processResponse")],
     ["error handler", "response handler invocations", "bytes written"])
prop("C02", "A request completes exactly once, with the outcome the peer reported",
     "A response with a usable request sequence number completes its request exactly once: with the decoded body when the peer reports success, otherwise with an error whose message is not empty, also when the success flag or the message is missing. A request that could not be sent is reported to its caller, is completed with an error, and is not kept waiting for a response.",
     ["inputs", "fault_sequences", "histories"], "all response messages (well-formed or not), all points where sending fails",
     "Tests cover one success, one error and no malformed responses; a future that is never completed shows only as a hang.",
     [S, SH], [("response dispatch", "session.cpp: processResponse"), ("failed send", "session.cpp: send"), ("promise completion", "session.h: Session::send<T>")],
     ["response handler invocations", "future returned by send"])
prop("C03", "Each answered request yields one response echoing its number and command",
     "When a request handler reports success or an error, exactly one response message is written, carrying the request's own sequence number and command, the success flag of the callback that was used, and that callback's body or error message. Afterwards, and only then, the response-sent handler registered for the response type (if any) is invoked once, with the same outcome.",
     ["inputs", "schedules", "histories"], "all requests, handlers answering inline or later from other threads",
     "Tests check the happy path of a few request types; mixed-up fields or a sent handler that runs early or twice pass them.",
     [S], [("success and error callbacks", "session.cpp: processRequest"), ("response-sent lookup", "session.cpp: EventHandlers::responseSent")],
     ["bytes written", "response-sent handler invocations"])
prop("C04", "Inbound messages reach exactly the handler registered for them, or are reported",
     "A request or event handler is invoked only for a message whose type, sequence number and command or event name are present and well-typed, only if it is the handler registered for that command or event, and with the arguments or body decoded into the registered type. Every other inbound message invokes no request or event handler and is reported to the error handler instead. Registering a second handler for the same message type keeps the first and reports an error.",
     ["inputs", "histories"], "all inbound message texts, all registration histories",
     "The set of malformed messages is unbounded; tests contain a handful.",
     [S], [("message dispatch", "session.cpp: processMessage, processRequest, processEvent"), ("handler tables", "session.cpp: EventHandlers")],
     ["handler invocations", "error handler"])
prop("C05", "Decoded message storage is built, used and freed exactly once",
     "Storage for a decoded message is allocated with the size of its type, constructed before it is decoded into, and still alive whenever it is handed to a handler. On every path on which the message is dispatched or rejected it is destructed once and then freed once, with nothing touching it afterwards. Code that runs later than the function that created it refers to no local variable of that function.",
     ["inputs", "schedules"], "all inbound messages and decode outcomes, all handlers",
     "A leak, double free or dangling capture on an error path does not fail a functional test.",
     [S], [("request storage", "session.cpp: processRequest"), ("event storage", "session.cpp: processEvent"), ("response storage", "session.cpp: processResponse")])
prop("C06", "Outgoing messages are framed exactly and never interleave",
     "Each message is written as the header 'Content-Length: N', a blank line (CRLF CRLF) and then its N bytes, and no byte of another message is written in between, whatever threads send concurrently. Nothing is written once the writer is closed, nor for a request or event that failed to encode, and a failed or refused write is reported to the sender.",
     ["inputs", "schedules", "fault_sequences"], "all message texts, all interleavings of sending threads, all write failures",
     "Interleaved frames need two threads to collide between header and body; tests do not force it.",
     [S, "src/content_stream.cpp"], [("framing", "content_stream.cpp: ContentWriter::write"), ("send serialisation", "session.cpp: send, sendMutex")],
     ["bytes written"])
prop("C07", "Inbound frames are recovered exactly, whatever the chunking",
     "The payload returned for a frame is exactly the N bytes that follow its 'Content-Length: N' header and blank line, with bytes taken from the stream in order, none lost, duplicated or reordered, however the reader splits them. When invalid data is ignored, no byte is skipped at which a complete header prefix starts. When invalid data must close the stream, the reader is closed on every malformed header.",
     ["inputs", "fault_sequences"], "all byte streams, all ways the reader may split them, both invalid-data policies",
     "The stream space is unbounded and chunk boundaries multiply it; tests use a few strings.",
     ["src/content_stream.cpp", "src/content_stream.h"], [("frame parser", "content_stream.cpp: ContentReader::read, scan, match, matchAny"), ("buffering", "content_stream.cpp: ContentReader::buffer")],
     ["ContentReader::read results"])
prop("C08", "Frame decoding cannot be driven out of bounds or to unbounded allocation",
     "Whatever bytes the peer sends, frame decoding never reads or removes a byte that was not received, never asks the stream for more bytes than the destination holds, never lets the announced length wrap around, and never reserves memory for an announced length before that many bytes have arrived.",
     ["inputs", "fault_sequences"], "all byte streams and all partial reads",
     "Out-of-bounds accesses and huge lengths need hostile input that tests do not contain and sanitizers only see when fed.",
     ["src/content_stream.cpp"], [("buffering", "content_stream.cpp: ContentReader::buffer"), ("length parser", "content_stream.cpp: ContentReader::read")])
prop("C09", "The end of the stream ends message processing and reports closure once",
     "When the stream ends, is closed or fails, the receive loop terminates instead of spinning, whatever was buffered, and the close handler given to the session, if any, is called exactly once, after the last message was queued. Every message decoded before that is queued for dispatch in arrival order, and each queued message is dispatched once.",
     ["inputs", "schedules", "crash_points"], "all points at which the stream ends, with or without a close handler",
     "Tests end streams only at message boundaries; spinning or a missing close callback elsewhere goes unseen.",
     [S, "src/content_stream.cpp"], [("receive and dispatch loops", "session.cpp: startProcessingMessages"), ("end of stream", "content_stream.cpp: ContentReader::buffer, isOpen")],
     ["close handler"])
prop("C10", "Destroying a session stops and joins its threads before releasing anything",
     "Destroying a session closes its queue, reader and writer and then joins every thread it started, before any member those threads use is destroyed; it neither joins a thread it has not unblocked nor destroys a running thread. Connecting or starting message processing a second time changes nothing and is reported as an error.",
     ["schedules", "histories"], "all moments of destruction relative to the receive and dispatch threads, all call orders of connect/start",
     "Shutdown races depend on the schedule; tests shut down in one order with idle threads.",
     [S], [("destructor", "session.cpp: ~Impl"), ("start guards", "session.cpp: connect, startProcessingMessages")])
prop("C11", "State shared between threads is accessed without data races",
     "Every variable that two threads of the library (or two callers of its thread-safe entry points) can access concurrently, at least one of them writing, is atomic or is protected at each access by a common lock: the session's handler tables, queue and writer, in-memory pipes, channels, futures, sockets and the type registry.",
     ["schedules"], "all interleavings of the session threads, sending threads and callers of pipe, channel, future and socket operations",
     "A race that corrupts state once in many runs passes the tests.",
     [S, "src/chan.h", "src/io.cpp", "src/socket.cpp", "src/typeof.cpp", "include/dap/future.h", "src/rwmutex.h", "src/network.cpp"],
     [("locks", "mutex members of the session, channel, pipe, file, socket, future and type registry")])
prop("C12", "No deadlock: locks are ordered, released, and never held across callbacks",
     "Every lock taken is released on every path, is never taken again while already held, and any two locks are always nested in the same order. No user-supplied handler is invoked, no thread is joined and no queue is waited on while the session or the server holds one of its locks that such a handler or thread could need.",
     ["schedules", "histories"], "all paths through the library and all handlers calling back into it",
     "A deadlock needs an unlucky schedule or a handler that calls back; tests have neither.",
     [S, "src/io.cpp", "src/socket.cpp", "src/chan.h", "src/network.cpp"], [("lock scopes", "all functions that lock")])
prop("C13", "Waiting threads are always woken when what they wait for happens",
     "Whenever an operation makes the condition of a blocked reader, taker, writer-lock or future waiter true (data written, item queued, closed, last reader gone, value set), it wakes that waiter, and the waiter re-checks its condition under the lock before it proceeds, so no wake-up is lost and none is spurious.",
     ["schedules"], "all interleavings of waiters and wakers on pipes, channels, read/write locks and futures",
     "A lost wake-up needs the waker to run in a window of a few instructions.",
     ["src/chan.h", "src/io.cpp", "src/rwmutex.h", "include/dap/future.h"], [("condition variables", "Chan, Pipe, RWMutex, promise_state")])
prop("C14", "Channels deliver every item once, in order, and drain after close",
     "Items put into a channel are taken exactly once each and in the order they were put. After close, takers first receive the remaining items and then an empty result without blocking; until then, a taker of an empty channel blocks. Resetting reopens and empties the channel.",
     ["schedules", "histories"], "all sequences and interleavings of put, take, close and reset",
     "The unit test moves one value through one channel.",
     ["src/chan.h"], [("channel", "chan.h: Chan")])
prop("C15", "Streams obey the reader/writer contract: counts, order, and nothing after close",
     "A read from an in-memory pipe, string buffer or file stores only bytes that were written and not yet read, in order, at most as many as asked for, and returns how many it stored, returning 0 only once the stream is closed or exhausted. A write appends all its bytes in order and reports success, or reports failure. Once closed, a stream stays closed: it reports not open, writes fail, and nothing of the underlying file is used again.",
     ["inputs", "histories", "schedules"], "all sequences of read, write and close with all sizes",
     "Tests exercise one file and a few pipe transfers of matching sizes.",
     ["src/io.cpp", "src/string_buffer.h"], [("pipe", "io.cpp: Pipe"), ("file", "io.cpp: File"), ("string buffer", "string_buffer.h: StringBuffer")])
prop("C16", "The read/write lock excludes writers from everyone and is released once",
     "A writer holds the lock only while no reader and no other writer does; a reader never enters while a writer holds it; any number of readers may hold it together. Each scoped lock releases exactly the lock it acquired, once, in its own mode, also after being moved from or assigned to.",
     ["schedules", "histories"], "all interleavings of readers and writers, all moves of scoped locks",
     "Tests use a few threads and never move a lock.",
     ["src/rwmutex.h"], [("RWMutex", "rwmutex.h"), ("scoped locks", "rwmutex.h: RLock, WLock")])
prop("C17", "A future yields the promised value, and only once it has been set",
     "get and wait return only after the value was set, and get returns that value; timed waits report ready exactly when the value is set and timeout otherwise. All copies of a promise and its futures share one state, which outlives them all, and setting the value makes it visible to every waiter.",
     ["schedules", "histories"], "all interleavings of set_value, get and the timed waits",
     "There is no unit test of futures besides their use in sessions.",
     ["include/dap/future.h"], [("shared state", "future.h: promise_state"), ("operations", "future.h: future, promise")])
prop("C18", "Socket handles are closed exactly once and never used after closing",
     "Every socket handle and address list obtained from the system has exactly one owner and is released exactly once, on every path including failures; no operation uses a handle after it was closed; closing wakes operations blocked on the handle before it waits for them to finish; an invalid handle is never used.",
     ["schedules", "fault_sequences"], "all failure points of the socket calls, all interleavings of close with reads, writes and accepts",
     "System-call failures and close races are not injected by the tests.",
     ["src/socket.cpp"], [("handle owner", "socket.cpp: Socket::Shared"), ("listen, accept, connect", "socket.cpp: Socket")])
prop("C19", "Socket writes send every byte or fail; reads report exactly what arrived",
     "A socket write returns success only after the system accepted every byte, in order and each once, whatever partial writes or interruptions occur, and otherwise returns failure without raising a signal that kills the process. A socket read asks for no more than the caller's buffer holds, and returns the number of bytes received, or 0 at the end of the stream or on error, retrying when interrupted.",
     ["inputs", "fault_sequences"], "all sizes, all sequences of partial, interrupted and failing system calls",
     "Short writes and interruptions are rare on loopback and not forced by tests.",
     ["src/socket.cpp"], [("I/O loops", "socket.cpp: Socket::Shared::read, write")])
prop("C20", "Connecting honours its timeout and hands out only connected blocking sockets",
     "With a timeout, connecting waits no longer than the given number of milliseconds, fails if the connection is not established by then, and leaves the socket in blocking mode when it succeeds. A connection is returned only if the system reported it established without error; otherwise nothing is returned and the handle is released.",
     ["inputs", "fault_sequences"], "all timeouts and all outcomes of connect and the wait",
     "Tests connect to a local listener that accepts at once.",
     ["src/socket.cpp", "src/network.cpp"], [("connect", "socket.cpp: Socket::connect, setBlocking, errored")])
prop("C21", "The TCP server serves each connection once and stops cleanly",
     "A started server hands every accepted connection to the connect handler exactly once, reports a failed accept only if it was not asked to stop, and then ends. Stopping or destroying it, any number of times, closes the listening socket and then joins the accept thread; starting again first stops the previous run; a start that cannot listen reports the error and returns false. Started without an address it listens on the local host only.",
     ["schedules", "histories", "fault_sequences"], "all orders of start, stop, connections and destruction",
     "Tests start and stop a server a few times in the same order.",
     ["src/network.cpp"], [("server", "network.cpp: Impl")])
prop("C22", "Decoding checks the JSON type before every typed access and never aborts",
     "Whatever text is received, in each JSON back end no value is accessed as a type it was not checked to have, no exception escapes and no assertion fires; a value of the wrong type makes decoding of that value fail and leaves a scalar or dynamic destination unchanged, and the failure of a nested value makes the enclosing call fail.",
     ["inputs", "configurations"], "all message texts, all JSON back ends",
     "Type confusions in untested shapes abort the process or throw only for input the tests lack.",
     ["src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp"],
     [("decoders", "the three *_json_serializer.cpp: deserialize, count, array, field")])
prop("C23", "All JSON back ends accept the same values for each type",
     "For every destination type and every kind of JSON value, the back ends agree on whether decoding succeeds and on the value: booleans only from true/false, integers only from integers (exact within the 64-bit signed range), numbers from any number, strings only from strings, objects only from objects, arrays only from arrays, and a dynamic value from every kind. Elements and members are handed over once, under their own index or name; nothing is decoded from a missing field, and nothing but null from a malformed document.",
     ["inputs", "configurations"], "all JSON kinds x all destination types x all back ends",
     "The tests run the same few documents on each back end and do not compare rejected kinds.",
     ["src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp", "src/null_json_serializer.cpp"],
     [("decoders", "the three *_json_serializer.cpp")])
prop("C24", "Encoding writes each value under its own type and name, and reports failure",
     "In every back end a boolean, integer, number, string, array, object or dynamic value is encoded as the JSON kind of that type from the value given, each field under its own name and each array element in its own place; a field whose value is removed does not appear. If any nested value fails to encode, the enclosing call reports failure.",
     ["inputs", "configurations"], "all values and nestings, all back ends",
     "Tests round-trip a few structures and never make a nested encoder fail.",
     ["src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp", "include/dap/serialization.h"],
     [("encoders", "the three *_json_serializer.cpp: serialize, array, object, field, remove")])
prop("C25", "A dynamic value owns exactly one live object and releases it once",
     "Whatever sequence of construction, assignment, copy, move, reset and destruction is applied, a dynamic value holds at most one object of its recorded type, constructed in storage large and aligned enough for it; each object is destructed once and heap storage is freed once, self-assignment and assignment from a part of the old value included. Copies are independent of the original, and a moved-from value is empty.",
     ["histories", "inputs"], "all operation sequences on values held inline or on the heap",
     "Ownership errors in rarely combined operations (move-assign over a heap value, self-assignment) pass functional tests.",
     ["include/dap/any.h"], [("any", "any.h: any")])
prop("C26", "Typed access to a dynamic or variant value succeeds only for the stored type",
     "Asking a dynamic value or variant whether it holds a type answers yes exactly for the type stored in it, and a typed access refers to the stored object itself. A variant can be given only values of its listed types, starts as its first type, and passes copies, moves and assignments through to the stored value.",
     ["inputs", "histories", "programs"], "all stored types and operations, all programs using variants",
     "Tests try a few types; which programs must not compile cannot be tested at run time.",
     ["include/dap/any.h", "include/dap/variant.h"], [("type test", "any.h: is, get"), ("variant", "variant.h: variant")])
prop("C27", "Optionals and response-or-error values behave as values",
     "An optional reports a value exactly when one was assigned and not reset, returns that value (or the given default when empty), and copies, moves, assigns and compares by presence and value. A response-or-error value keeps the response or the error it was built or assigned from, and is an error exactly when its message is not empty.",
     ["histories", "inputs"], "all operation sequences on optionals and response-or-error values",
     "Assignment and comparison corner cases are combinatorial.",
     ["include/dap/optional.h", SH], [("optional", "optional.h: optional"), ("response or error", "session.h: ResponseOrError, Error")])
prop("C28", "Every protocol structure maps each member to its own wire name and type",
     "For each request, response, event and type of the protocol, the wire name registered for the structure and the table of its fields list every data member exactly once, under that member's wire name, with that member's own type and offset, including inherited members; no two members share a wire name. A field that the protocol makes optional is declared optional.",
     ["inputs", "programs"], "all protocol structures and all their members",
     "Hundreds of hand-checkable table rows; tests touch a few.",
     ["include/dap/protocol.h", "src/protocol_types.cpp", "src/protocol_requests.cpp", "src/protocol_response.cpp", "src/protocol_events.cpp", "include/dap/typeof.h"],
     [("field tables", "protocol_*.cpp: DAP_IMPLEMENT_STRUCT_TYPEINFO"), ("declarations", "protocol.h")])
prop("C29", "Run-time type descriptions match their types and outlive every user",
     "Each type description constructs, copies, destructs, sizes, aligns and (de)serialises objects of exactly the type it describes; structure descriptions visit every field, base fields included, at its own offset, and fail if any field fails. Descriptions are created once, safely from any thread, live until the library is terminated, and are each destroyed exactly once; nested initialise/terminate pairs destroy them only at the last terminate.",
     ["schedules", "histories", "inputs"], "all types described, all threads asking for descriptions, all initialise/terminate histories",
     "Wrong element types or lifetimes corrupt memory only for particular types or orders of termination.",
     ["include/dap/typeof.h", "src/typeof.cpp", "src/typeinfo.cpp", "include/dap/typeinfo.h"],
     [("descriptions", "typeof.h: BasicTypeInfo, TypeOf"), ("registry", "typeof.cpp: TypeInfos"), ("struct description", "typeof.h: DAP_IMPLEMENT_STRUCT_TYPEINFO_BASE macros")])
prop("C30", "Formatted messages are safe for any content",
     "Every format string is a constant that matches its arguments in number and type, text received from the peer is only ever passed as an argument, and formatted output never exceeds its buffer and is always terminated before it is used.",
     ["inputs"], "all message contents and call sites of formatting functions",
     "A format mismatch on an error path is undefined behaviour that no test triggers.",
     [S, "src/io.cpp", SH, "include/dap/io.h"], [("formatting functions", "session.cpp: EventHandlers::error, Error; io.cpp: writef")])
prop("C31", "Stream adaptors pass data and results through unchanged",
     "A combined reader/writer forwards reads, writes, closing and open-ness to the streams it was made from. A spying reader or writer returns exactly what the spied stream returned, copies to the log exactly the bytes transferred, preceded by the prefix, only when a transfer happened, and never alters the data; formatted writes send the formatted text (cut after 2047 characters) and report the write's result.",
     ["inputs", "fault_sequences"], "all data, sizes and results of the underlying streams",
     "Tests do not cover the adaptors' failure results or partial reads.",
     ["src/io.cpp"], [("adaptors", "io.cpp: RW, ReaderSpy, WriterSpy, writef")])
prop("C32", "Typed handlers receive the right type and their result is answered once",
     "Registering a typed handler registers it under the description of its own request, event or response type and calls it with the decoded object of that type; a returned response, error or response-or-error is answered exactly once, as an error exactly when it holds one, under the response type of that request. Handlers whose signature does not fit a request or event are rejected at compile time.",
     ["programs", "inputs"], "all handler signatures and results",
     "Template wrappers are instantiated per handler type; tests instantiate a few, and programs that must not compile cannot be tested at run time.",
     [SH, "include/dap/traits.h"], [("handler wrappers", "session.h: registerHandler, registerSentHandler, send"), ("traits", "traits.h")])

if __name__ == "__main__":
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
