HOOKS = ["7ce378c0e249ae228c00177452f3d4a7fcb5e0a4"]
NOTES = ("One Rust harness (mc/) links the real crate from /repo against patched copies of tokio, dashmap and "
 "parking_lot whose lock acquisitions and task picks are scheduling points owned by the explorer; clock and "
 "randomness are interposed at link time. One hook in /repo (cfg pmcp_mc) publishes the server handle that Server::run consumes. known-findings.txt lists recorded defects.")
NA = {}
SM = "model checking of the real code: exhaustive operation sequences against a reference model"
SCHED = "stateless model checking: exhaustive schedules of the real code up to a deviation bound"
INP = "bounded-exhaustive enumeration of inputs against a reference model"

prop("C01", "Every request gets exactly one response, carrying its own id",
 "While a server is connected, every request the client sends - valid, unknown, malformed in its parameters, or failing in the handler - is answered by exactly one response whose id equals the request's id, and nothing else on the connection is a response. Responses come back in the order of the requests, and notifications are never answered.",
 ["histories","schedules","fault_sequences"],
 "For every sequence of incoming messages (all methods, string and numeric ids, handlers that succeed, fail or wait) and every interleaving of handler completion, server-side notifications and transport errors.",
 "The server loop is private and the tests call handlers one at a time; no test runs the connected loop over message sequences, failing sends, or handlers that finish while other traffic is pending.",
 ["src/server/mod.rs","src/shared/protocol_helpers.rs"],
 [("message handler loop answers each request with the request's id","src/server/mod.rs")],
 observe=["frames written to the transport"], technique=SCHED,
 note="Exhaustive over message sequences up to the stated length and schedules up to the deviation bound, on the real server loop with a scripted transport; deeper histories and real sockets are outside.")

prop("C02", "Dispatch: answers reflect exactly what was registered and asked",
 "For every server configuration, listing methods return exactly the registered tools and prompts and advertise exactly the configured capabilities, a call reaches the one handler registered under the requested name with the caller's arguments unchanged exactly once, and its outcome is what the caller gets. Calls that name nothing registered, or use a facility the server does not have, produce an error response and invoke no handler.",
 ["configurations","inputs","histories"],
 "For every combination of registered handlers and every request of the method alphabet in every order up to the bound.",
 "The tests check one configuration per method; they do not cross configurations, names, absent arguments, failing handlers and request order.",
 ["src/server/mod.rs","src/types/protocol.rs"],
 [("request dispatch table","src/server/mod.rs"),("builder registration","src/server/mod.rs")],
 observe=["JSON-RPC responses","handler invocations"], technique=SM,
 note="All configurations x requests x short sequences on the real server through its batch entry point and its connected loop, compared with a reference dispatcher.")

prop("C03", "Server notifications are delivered once, in order, without waiting",
 "Every notification a server sends while connected is written to the connection exactly once and in the order sent, and never displaces, duplicates or delays beyond the current request any response. It does not depend on the client sending something first.",
 ["schedules","histories"],
 "For every interleaving of notification sends, incoming requests and handler completions up to the deviation bound.",
 "Tests read the server's notification channel directly; none observes the transport while the message loop is waiting for input.",
 ["src/server/mod.rs"],
 [("notification channel and the task that drains it","src/server/mod.rs")],
 observe=["frames written to the transport"], technique=SCHED,
 note="Exhaustive schedules on the real server loop with a scripted transport.")

prop("C04", "Cancelling a request stops that request and no other",
 "A cancellation request takes effect on exactly the request it names: that request's handler observes it (waiting for cancellation then finishes), its peer is told at most once, and every other request's state is untouched. Cancelling an unknown or finished request has no effect, in every interleaving with registration, completion and other cancellations.",
 ["schedules","histories"],
 "For all operation sequences over two request ids up to the bound and all interleavings of concurrent cancel, register and finish.",
 "Tests cover single cancel calls in sequence; races between cancel and completion and multi-request histories are not sampled.",
 ["src/server/cancellation.rs","src/server/mod.rs"],
 [("token table keyed by request id","src/server/cancellation.rs")],
 observe=["cancellation tokens","emitted cancelled notifications","handler context"], technique=SCHED,
 note="Exhaustive sequences and bounded schedules on the real manager, plus the server's own cancel entry point observed from inside a running handler.")

prop("C05", "Root list equals registered minus unregistered roots",
 "After any history of registering and unregistering roots, listing returns exactly the roots registered and not yet unregistered, and each accepted registration or effective unregistration emits one change notification. A root that is not a file URI is rejected without changing anything.",
 ["histories","schedules"],
 "For every sequence of register/unregister operations over colliding URIs up to the bound, under every schedule of the unregistration tasks.",
 "Tests register one or two distinct roots; duplicate URIs, interleaved unregistration and rejected input in mid-history are not covered.",
 ["src/server/roots.rs","src/server/mod.rs"],
 [("root table and the unregister handle","src/server/roots.rs")],
 observe=["root listing","emitted notifications"], technique=SCHED,
 note="All sequences up to the bound with a reference multiset, under explored task schedules.")

prop("C06", "Update notices go out exactly when a current subscriber exists",
 "A resource update is announced once if at least one subscription to that resource is in force and not at all otherwise, and the reported subscriber count, the subscriber sets and the statistics agree with the set of subscriptions in force. Subscribing twice counts once; unsubscribing removes exactly that subscription; removing a client removes all and only its subscriptions.",
 ["histories","schedules"],
 "For every sequence of subscribe, unsubscribe, remove-client and update over two clients and two resources up to the bound, and all two-task interleavings.",
 "Tests use a few fixed histories; interleavings and duplicate or absent subscriptions in longer histories are unsampled.",
 ["src/server/subscriptions.rs","src/server/mod.rs"],
 [("uri to client-set table","src/server/subscriptions.rs")],
 observe=["queries","emitted notifications"], technique=SCHED,
 note="Every sequence up to the bound against a relation model; concurrent pairs checked for linearizability by brute force.")

prop("C07", "Runtime tool and prompt changes are immediately and atomically visible",
 "After adding or removing a tool or prompt at run time, the registry contains exactly what the history of successful changes says, listeners hear each successful change once and in order, and nothing is announced for a rejected change. Reloading a configuration leaves exactly the configuration's contents.",
 ["histories","schedules"],
 "For every sequence of add, remove, reload over two names up to the bound and all two-task interleavings.",
 "Tests add one tool and check it; no history or concurrency is explored.",
 ["src/server/dynamic.rs"],
 [("registry maps and listener list","src/server/dynamic.rs")],
 observe=["registry queries","listener callbacks"], technique=SCHED,
 note="Every sequence up to the bound against a reference registry; concurrent pairs for serializability.")

prop("C08", "Batches: one response per request, same id, same order",
 "Processing a batch yields exactly one response per request, in request order and carrying that request's id - including requests that fail, time out or cannot be parsed - whatever order the handlers finish in. At no time are more handlers running than the configured concurrency limit, and an empty batch yields an empty batch.",
 ["schedules","inputs","configurations"],
 "For all batches up to the bound, all concurrency limits, and all completion orders and timeout outcomes of the handlers.",
 "Tests use instantaneous or sleeping handlers in one order; completion orders, limits and timeouts are not crossed.",
 ["src/utils/parallel_batch.rs","src/shared/batch.rs","src/server/batch.rs"],
 [("index-tagged futures and semaphore","src/utils/parallel_batch.rs")],
 observe=["returned responses","handler start/finish events"], technique=SCHED,
 note="All batches x completion orders x limits up to the bound on the real batch processor under virtual time.")

prop("C09", "An input request ends with its own answer, cancellation or timeout",
 "Each request for user input returns exactly once, with the first of: the response bearing its id, a cancellation, or the timeout - also when the peer has stopped taking requests; the caller gets the response as it was given, and a response to another request is never delivered to it. Afterwards it is no longer pending, and a response for an id that is not pending is refused.",
 ["schedules","histories"],
 "For every interleaving of up to three concurrent input requests with responses, cancellations and timeouts.",
 "Tests drive one request at a time with one reply.",
 ["src/server/elicitation.rs"],
 [("pending table of reply channels","src/server/elicitation.rs")],
 observe=["returned results","pending count"], technique=SCHED,
 note="Exhaustive event orders and bounded schedules under virtual time on the real manager.")

prop("C10", "A client only sends what the session's state and capabilities allow",
 "Before a successful initialization nothing but the initialize request leaves the client, a failed initialization leaves it uninitialized, a second one is refused, and success is followed by exactly one initialized notification. Afterwards, a request reaches the wire only if the server advertised the capability it needs; a refused operation sends nothing.",
 ["histories","configurations","fault_sequences"],
 "For every operation sequence up to the bound, every combination of advertised capabilities, and every kind of server answer to initialization.",
 "Tests check single calls against fixed canned answers; capability combinations and failed or repeated initializations are not enumerated.",
 ["src/client/mod.rs","src/types/capabilities.rs","src/types/protocol.rs"],
 [("initialized flag and capability assertions","src/client/mod.rs")],
 observe=["messages handed to the transport","returned results"], technique=SM,
 note="All sequences x capability sets x initialization answers up to the bound on the real client with a scripted transport.")

prop("C11", "A client call returns the response to that call",
 "When several calls are in flight from clones of one client, or an earlier call was abandoned, each call that returns a result returns the response the server produced for that very request, and every call ends once the server has answered.",
 ["schedules","histories","fault_sequences"],
 "For every interleaving of concurrent calls, abandoned calls, errors and notifications up to the deviation bound.",
 "Tests issue one call at a time against canned answers.",
 ["src/client/mod.rs"],
 [("send and receive under the transport lock","src/client/mod.rs")],
 observe=["results returned to callers"], technique=SCHED,
 note="Exhaustive schedules up to the deviation bound of two or three concurrent calls against an in-order server.")

prop("C12", "Pending requests complete once, for the right waiter and transport",
 "Completing a request wakes exactly the waiter registered under that id with exactly that response, and never twice; a response arriving on a transport completes only requests issued on that transport; cancelling or completing one request leaves every other pending. The reported set of pending requests always equals those registered and not completed or cancelled.",
 ["histories","schedules"],
 "For every sequence of register, complete, complete-on-transport, cancel over two ids and two transports up to the bound, under every schedule.",
 "Property tests sample random single operations; multi-operation histories and task schedules are not enumerated.",
 ["src/shared/protocol.rs"],
 [("pending table keyed by id with owner transport","src/shared/protocol.rs")],
 observe=["receivers' results"], technique=SCHED,
 note="Exhaustive sequences against a reference table, under explored schedules.")

prop("C13", "Messages survive the wire: encode then decode is the identity",
 "Every message the SDK can express - each request, notification and response kind, with each optional field present or absent, string and numeric ids, and arbitrary text - is encoded as one valid JSON-RPC 2.0 object which decodes to the same kind of message with the same id, method and contents. Decoding the official wire form of every method yields the corresponding typed message, with omitted optional parameters accepted. A message kept as a value, as an event log keeps it, is read back as the same message.",
 ["inputs"],
 "For every message shape in the protocol's finite alphabet crossed with the presence of each optional field and an alphabet of awkward strings, numbers and ids.",
 "Round-trip tests cover some message kinds with fixed or random payloads, one layer at a time; they do not cross kinds, optional fields and codec layers.",
 ["src/shared/protocol_helpers.rs","src/shared/stdio.rs","src/types/protocol.rs","src/types/jsonrpc.rs","src/types/capabilities.rs"],
 [("request/notification builders and parsers","src/shared/protocol_helpers.rs"),("wire encoder and decoder","src/shared/stdio.rs")],
 observe=["encoded bytes","decoded messages"], technique=INP,
 note="Complete enumeration of the stated message alphabet through the public encoder and decoder.")

prop("C14", "Malformed input is rejected, never misread or fatal",
 "Decoding any text either yields the one message it denotes - request iff it has a method and an id, notification iff a method and no id, response iff an id and a result or error - or reports an error; it never panics and never invents an id, method or payload. Unknown methods and wrongly typed parameters are reported as errors rather than taken for another message.",
 ["inputs"],
 "For every JSON object over the member alphabet (each member absent, null, wrong type, or valid), every truncation of valid messages, and every single-byte corruption at structural positions.",
 "Tests check a handful of malformed strings.",
 ["src/shared/stdio.rs","src/shared/protocol_helpers.rs","src/types/jsonrpc.rs"],
 [("classification by present members","src/shared/stdio.rs")],
 observe=["decoder result"], technique=INP,
 note="Complete enumeration of member-value combinations and of truncations/corruptions of a message corpus, against a reference classifier.")

prop("C15", "Stdio framing is independent of how bytes arrive, and detects truncation",
 "The messages received over standard input are those written, whatever the boundaries at which the bytes arrive and whatever the letter case or order of the headers. End of input on a message boundary is reported as closed, a stream cut anywhere else yields an error or closure and never a message, and what is written to standard output is exactly one frame per sent message with the correct length.",
 ["inputs","fault_sequences"],
 "For every split of a multi-message byte stream into up to three chunks, every truncation point, and the header alphabet.",
 "The stdio tests exercise only the pure encoder; none reads from a real pipe.",
 ["src/shared/stdio.rs"],
 [("header and body readers","src/shared/stdio.rs")],
 observe=["messages received by a child process","bytes it writes"], technique="fault and split enumeration on the real transport over pipes against a reference framer",
 note="Real process with real pipes; every split and truncation point of the corpus, single and paired.", level="fault_enumeration")

prop("C16", "Event streams decode the same however they are chunked, and round-trip",
 "Feeding an event stream to the parser in any chunking yields the same events as feeding it whole, with LF or CRLF line ends, and these are the events the server-sent-events format defines. Encoding an event and parsing the result returns the same id, type, retry and data.",
 ["inputs"],
 "For every event stream over the line alphabet up to the bound, every split into chunks, and every event over the field alphabet.",
 "Tests and property tests feed a few fixed streams and splits, mostly ASCII.",
 ["src/shared/sse_parser.rs"],
 [("line buffer and event builder","src/shared/sse_parser.rs")],
 observe=["parsed events"], technique=INP,
 note="Complete enumeration of streams up to the bound and all 2-splits, against an independent reference parser.")

prop("C17", "Sessions: limits, expiry and destruction hold under concurrency",
 "The number of live sessions never exceeds the configured maximum, a session id returned by creation is valid until the session expires or is destroyed and never after (neither when validated nor when presented with a request), updates are never lost, and authentication state is exactly what was last set. This holds for every interleaving of concurrent operations.",
 ["schedules","histories"],
 "For every sequence of operations and clock advances up to the bound, and every interleaving of two threads up to the preemption bound.",
 "Tests call the manager sequentially with the real clock; no interleaving or expiry boundary is explored.",
 ["src/shared/session.rs"],
 [("concurrent session map","src/shared/session.rs")],
 observe=["manager queries"], technique=SCHED,
 note="Real OS threads serialized by the explorer with preemption at every lock acquisition; virtual clock.")

prop("C18", "HTTP session protocol: each request is admitted exactly when allowed",
 "Over any sequence of HTTP exchanges, a session comes into being only through an accepted initialization or by opening an event stream without one, is usable only with its own id until it is deleted, and every request is answered with the status its headers, body, session and protocol version call for. A rejected request changes nothing, and in stateless mode no session id is ever required or issued.",
 ["histories","configurations","inputs"],
 "For every sequence of requests from the exchange alphabet (methods, headers, bodies, session ids, versions) up to the bound, in each server mode.",
 "The HTTP tests each follow one scripted exchange; sequences across sessions and modes are not enumerated.",
 ["src/server/streamable_http_server.rs"],
 [("session table and header validation","src/server/streamable_http_server.rs")],
 observe=["HTTP status, headers and bodies","session callbacks"], technique=SM,
 note="Exhaustive exchange sequences against the real HTTP server over loopback, compared with a reference state machine.")

prop("C19", "Event replay returns exactly what was missed, in order",
 "Asking the event log for what followed a known event returns exactly the later events of that stream, in order, each once, with the content that was stored; an event that was never stored or has been discarded does not yield events that precede it. Size and age limits discard oldest first and never more than needed.",
 ["histories","schedules"],
 "For every sequence of store, replay, expire and cleanup operations over two streams up to the bound, and every two-thread interleaving up to the preemption bound.",
 "Tests store a few events and replay once.",
 ["src/shared/event_store.rs","src/server/streamable_http_server.rs"],
 [("ordered event log with limits","src/shared/event_store.rs"),("stream event map","src/server/streamable_http_server.rs")],
 observe=["replayed events"], technique=SCHED,
 note="Exhaustive sequences against a list model; serialized real threads with preemption at locks; virtual clock.")

prop("C20", "Resumption never reuses a sequence number or skips an event",
 "Sequence numbers handed out while recording traffic strictly increase over the life of a session, also across resumption, and resuming from a token returns exactly the events recorded after that token was taken. An unknown or expired token is refused.",
 ["histories","schedules"],
 "For every sequence of record, tokenize, resume and clock-advance operations up to the bound.",
 "Tests take one token and resume once.",
 ["src/shared/event_store.rs"],
 [("sequence counter and resumption state","src/shared/event_store.rs")],
 observe=["recorded sequence numbers","resumed events"], technique=SM,
 note="Exhaustive sequences against a log model under a virtual clock.")

prop("C21", "Debounced notifications: nothing lost, nothing duplicated",
 "Every notification submitted for debouncing or batching comes out exactly once - or, where merging is disabled, the latest per subject does - within the configured waiting time or at an explicit flush or stop. Notifications on one subject keep their order and a batch never exceeds its limit.",
 ["histories","schedules"],
 "For every sequence of submit, flush, stop and clock-advance up to the bound, under explored schedules.",
 "Tests sleep in real time around one or two submissions.",
 ["src/server/notification_debouncer.rs"],
 [("pending table and flush task","src/server/notification_debouncer.rs")],
 observe=["output channel"], technique=SCHED,
 note="Exhaustive sequences in virtual time against a reference model, under explored schedules.")

prop("C22", "Message batching and debouncing lose and duplicate nothing",
 "Every message added to a batcher is received in exactly one batch, in order, when the batch is full or its time is up; every key given to a debouncer is emitted once per quiet period with its latest message. This holds for every arrival order and timing.",
 ["histories","schedules"],
 "For every sequence of add, receive, flush and clock-advance up to the bound, under explored schedules.",
 "Tests use real sleeps and one arrival pattern.",
 ["src/utils/batching.rs"],
 [("pending buffers and timers","src/utils/batching.rs")],
 observe=["output channels"], technique=SCHED,
 note="Exhaustive sequences in virtual time against a reference model, under explored schedules.")

prop("C23", "Reconnection follows its policy: attempts, delays and circuit",
 "Reconnection makes at most the configured number of attempts, waits between them according to the configured growth and cap, stops at the first success, and reports a state that matches what happened. After repeated failures the circuit refuses attempts until its timeout, and counters account for every attempt.",
 ["histories","configurations","fault_sequences"],
 "For every configuration of the alphabet and every success/failure sequence of the connect operation and clock advance up to the bound.",
 "Tests run two or three real-time scenarios.",
 ["src/shared/reconnect.rs"],
 [("retry loop, delay computation, circuit","src/shared/reconnect.rs")],
 observe=["connect invocations and their virtual times","reported state and statistics"], technique=SM,
 note="Exhaustive outcome sequences x configurations in virtual time against a reference policy.")

prop("C24", "Recovery: bounded retries, right result, circuit breaker obeys its states",
 "An operation under a retry policy runs at most once plus the configured retries, stops at the first success and returns that success or the last error, with the configured delays. A circuit breaker opens exactly after the configured run of failures, lets nothing through while open, and closes again only after the configured successes.",
 ["histories","configurations","fault_sequences"],
 "For every outcome sequence and clock advance up to the bound, for every strategy and configuration of the alphabet.",
 "Tests run one scenario per strategy.",
 ["src/error/recovery.rs"],
 [("retry loops and breaker state","src/error/recovery.rs")],
 observe=["operation invocations","returned results","admission decisions"], technique=SM,
 note="Exhaustive sequences in virtual time against a reference automaton.")

prop("C25", "Middleware runs in order and stops at the first failure",
 "A message passing a middleware chain is shown to each member in the order added, each seeing the previous ones' changes, until one fails; then no later member runs and the failure is reported. A chain without failures leaves exactly the composed changes.",
 ["configurations","inputs"],
 "For every chain up to the bound over the behaviour alphabet, in each direction.",
 "Tests use one logging middleware.",
 ["src/shared/middleware.rs"],
 [("chain iteration","src/shared/middleware.rs")],
 observe=["recorded middleware calls","resulting message"], technique=SM,
 note="All chains up to the bound, compared with function composition.")

prop("C26", "OAuth grants are single-use, bound to their client, and revocable",
 "An authorization code yields tokens at most once and only to the client, redirect address and verifier it was issued for, before it expires; a refresh token yields new tokens at most once and kills the token it replaces. An access token validates, with the identity and scopes granted, exactly from issue until expiry, refresh or revocation - in every interleaving of concurrent requests.",
 ["histories","schedules","inputs"],
 "For every sequence of authorize, exchange, refresh, revoke, validate and clock-advance up to the bound, and every interleaving of two concurrent requests.",
 "Tests follow the happy path and two rejections; no concurrency, no expiry.",
 ["src/server/auth/oauth2.rs"],
 [("code, token and refresh tables","src/server/auth/oauth2.rs")],
 observe=["issued tokens","validation results"], technique=SCHED,
 note="Exhaustive sequences against a reference provider with a virtual clock; bounded schedules of concurrent pairs.")

prop("C27", "Access is granted only to valid credentials with the required scopes",
 "A request is let through as authenticated only if its credential is valid for the configured scheme, anonymous access happens only where configured, and a scope requirement admits exactly the identities whose scopes satisfy it. Combining checks admits a request exactly when the combination rule says so.",
 ["inputs","configurations"],
 "For every credential, scope set, requirement and composition of the alphabet up to the bound.",
 "Tests check a few accept and reject cases.",
 ["src/server/auth/middleware.rs"],
 [("authentication and scope checks","src/server/auth/middleware.rs")],
 observe=["authentication result"], technique=INP,
 note="Complete enumeration of credentials x scopes x requirements x compositions against a decision table.")

prop("C28", "URI templates expand per their operators and match what they produce",
 "Expanding a template yields, for every operator, the standard expansion of the given values with undefined variables omitted and reserved characters encoded where the operator requires it; ill-formed expressions are rejected. A URI produced by a template from non-empty values matches that template and every match gives back (encoded) values of the single-variable expressions that lead to that URI.",
 ["inputs"],
 "For every template over the operator/variable/literal alphabet up to the bound and every assignment of awkward values.",
 "Tests check one example per operator.",
 ["src/shared/uri_template.rs"],
 [("expression parser, expander and matcher","src/shared/uri_template.rs")],
 observe=["expanded URIs","match results"], technique=INP,
 note="Complete enumeration against an independent reference implementation of the standard's string-valued subset.")

prop("C29", "Accelerated JSON and byte routines agree with the plain ones",
 "The accelerated parser accepts exactly the inputs the plain JSON parser accepts and yields the same value, the accelerated printers produce text that parses back to the same value, and each accelerated byte routine returns what its one-byte-at-a-time definition returns. This holds for every length, alignment and byte content.",
 ["inputs"],
 "For every input over the byte/token alphabet at every length and offset around the vector width.",
 "Tests check short ASCII inputs, mostly below one vector.",
 ["src/simd/mod.rs","src/utils/json_simd.rs"],
 [("32-byte vector loops with scalar tails","src/simd/mod.rs")],
 observe=["returned values"], technique=INP,
 note="Complete enumeration of the stated input alphabet at all lengths/offsets against scalar definitions.")

prop("C30", "Errors keep their code, message and data across the wire",
 "An error converted to its wire form and back keeps its category, code, message and data, every standard code maps to itself in both directions, and a well-formed response carrying an error is never read as a result or the reverse.",
 ["inputs"],
 "For every error kind, every code in and around the reserved ranges, and presence of data.",
 "Tests check some constructors and two codes.",
 ["src/error/mod.rs","src/types/jsonrpc.rs"],
 [("code mapping and conversions","src/error/mod.rs")],
 observe=["converted errors"], technique=INP,
 note="Complete enumeration of kinds and codes including the whole reserved range.")

prop("C31", "Request context stays with its request",
 "Code running for a request sees that request's context and no other's, at every await and under every interleaving of concurrent requests, and none outside; a child context keeps the trace and identity and links to its parent. Sending a context through headers and reading it back preserves the trace, parent link, request, user, session and baggage.",
 ["schedules","inputs"],
 "For every interleaving of nested concurrent contexts up to the bound, and every presence combination of the propagated fields.",
 "Tests check one task and one header set.",
 ["src/shared/context.rs"],
 [("task-local context and header codec","src/shared/context.rs")],
 observe=["current context at each step","headers"], technique=SCHED,
 note="Exhaustive schedules of concurrent tasks and complete enumeration of header combinations.")

prop("C32", "WebSocket connections deliver every message once, in order, both ways",
 "Messages a peer sends over a WebSocket connection are received once each in order, and messages sent to it arrive once each in order, on the client and the server side and whatever the interleaving of the two directions; text that is not a message is ignored without disturbing its neighbours. The configured limits (message and frame size, unmasked frames, connection attempts) are kept, a new connection takes over from the old one, and after closure both ends say so.",
 ["histories","fault_sequences","configurations"],
 "For every sequence of peer frames (valid, invalid, fragmented, oversized, unmasked, ping, binary, close) and local sends, closings and reconnections up to the bound.",
 "Tests check creation and a refused connect; no message crosses a connection.",
 ["src/server/transport/websocket.rs","src/shared/websocket.rs"],
 [("connection tasks and channels","src/server/transport/websocket.rs")],
 observe=["frames seen by a raw peer","messages received"], technique=SM,
 note="Exhaustive frame/send sequences over loopback against a reference queue; timing inside the kernel is not controlled.")

prop("C33", "HTTP client transport returns what the server answered, in its session",
 "The HTTP client transport hands over every message contained in the server's answers - plain JSON, JSON batches, or event streams - once and in order, carries the session id and protocol version the server assigned on every later request, and reports error statuses as errors. End to end against the SDK's own server, every call gets its own answer.",
 ["histories","inputs"],
 "For every sequence of answer shapes from the alphabet up to the bound, and every sequence of calls against the real server in each mode.",
 "Tests script single exchanges.",
 ["src/shared/streamable_http.rs","src/server/streamable_http_server.rs"],
 [("response decoding and session headers","src/shared/streamable_http.rs")],
 observe=["received messages","request headers seen by a scripted server"], technique=SM,
 note="Exhaustive answer-shape sequences against a scripted loopback server, and call sequences end to end.")

prop("C34", "Completion offers exactly the matching candidates",
 "Completing an argument returns exactly the configured candidates that match what was typed, and for files exactly the directory entries with the typed prefix and an allowed extension, sorted and resolvable from what was typed.",
 ["inputs","configurations"],
 "For every partial input over the alphabet and every directory layout of the corpus.",
 "Tests check one static list.",
 ["src/types/completable.rs"],
 [("candidate filters","src/types/completable.rs")],
 observe=["returned candidates"], technique=INP,
 note="Complete enumeration of partial inputs over fixture directories against a reference filter.")

prop("C35", "Discovery and token exchange follow the server's answers, within limits",
 "Provider discovery makes at most the configured number of attempts, retries only what may succeed later, and returns the metadata the server sent or an error; a token exchange sends the grant's fields once and returns exactly the server's token or its error.",
 ["fault_sequences","inputs"],
 "For every sequence of server answers (success, malformed, client error, server error, dropped connection) up to the bound.",
 "Tests construct the client; none talks to a server.",
 ["src/client/auth.rs"],
 [("retry loop and response decoding","src/client/auth.rs")],
 observe=["requests seen by a scripted server","returned results"], technique="fault enumeration on the real client against a scripted loopback server",
 note="Every answer sequence up to the bound.", level="fault_enumeration")

prop("C36", "File changes under watch are announced once for registered resources",
 "While a resource watcher runs, a change (creation, modification, removal, renaming) of the file behind a registered resource, under the watched directory, matching a watch pattern and no ignore pattern, is announced as resource-updated once the file has been quiet for the debounce time - once per burst of changes, however many - and promptly then. Reading a file, or a change of an unregistered, ignored or non-matching file, is not announced. The registered table is exactly what was added and not removed, up to the configured limit, and no history or slow receiver leaves the watcher stuck.",
 ["histories","schedules"],
 "For every sequence of file operations, registrations, waits and stops up to the bound, and every schedule of watcher, receiver and registering tasks up to the deviation bound.",
 "Tests only construct the watcher and add one resource; no test sees an event go through it.",
 ["src/server/resource_watcher.rs"],
 [("debounce table and pattern filter","src/server/resource_watcher.rs"),("registered table and its limit","src/server/resource_watcher.rs")],
 observe=["notification channel","resource listing"], technique=SCHED,
 note="Events enter where the notify crate delivers them (its backend is replaced by one the harness drives on a virtual clock); a few histories also run against the real inotify backend. Bursts beyond the event queue's 1000 entries and restarting a stopped watcher are outside.")

prop("C37", "Log entries come out once, with the identity of the request they are about",
 "Every entry logged through the correlated logging facility produces exactly one event, at the entry's level, carrying exactly its message, fields, error and the identity (request, trace, span, user, session) of the request context in force when it was made - none when there is none. A correlated operation's span carries its request's identity and encloses exactly what is logged inside it, under every interleaving of concurrent requests; a configured minimum level lets through exactly the entries at or above it.",
 ["schedules","inputs","configurations"],
 "For every level, context, field set and nesting from the alphabet, and every schedule of concurrent requests up to the deviation bound.",
 "Tests build one entry and read its fields; none looks at what a subscriber receives.",
 ["src/shared/logging.rs"],
 [("entries and their levels","src/shared/logging.rs"),("spans of operations and the correlation layer","src/shared/logging.rs")],
 observe=["events and spans seen by a tracing subscriber","what an initialized process writes"], technique=SCHED,
 note="Every combination against a recording subscriber, concurrent requests under all schedules within the bound, and every configuration in a process of its own.")

prop("C38", "A value built step by step holds exactly what was set",
 "Whatever settings are given to a builder, in whatever order and however often, the built value holds the last value given for each setting and the defaults for all others, and its wire form says exactly that: input requests, completable arguments, servers (identity, capabilities, the handler that answers each name), and the ready-made authentication and capability values. A batch converted to and from its wire form keeps its requests, their order and whether it was a single request.",
 ["histories","inputs"],
 "For every sequence of builder calls up to the bound and every subset of the optional fields.",
 "Tests set each option once, in one order.",
 ["src/types/elicitation.rs","src/types/completable.rs","src/server/mod.rs","src/types/auth.rs","src/types/capabilities.rs","src/shared/batch.rs"],
 [("builders","src/types/elicitation.rs"),("server builder","src/server/mod.rs"),("authorization header and capability questions","src/types/auth.rs")],
 observe=["built values and their JSON","answers of the built server"], technique=SM,
 note="Exhaustive sequences of builder calls against a last-value-wins reference.")
