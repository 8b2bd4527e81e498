#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=hook)))

p("C01", "SSE decoding follows the event-stream rules for any text and any chunking",
  "Feeding a stream of text to the SSE decoder yields exactly the events the field rules define (data lines joined by newlines, default event type, id and retry fields, comments ignored, dispatch on a blank line, LF or CRLF line ends), and the last event id it reports is the one last received. The result depends only on the concatenated text, never on how it was split into chunks. No text makes the decoder panic.",
  ["inputs", "histories"], "every text and every way of cutting it into chunks",
  "Tests feed a few ASCII streams cut at convenient places; the cut inside a line end, a multi-byte character or a field name, and the rare field syntax, are never all tried.",
  ["src/shared/sse_parser.rs"], [("SseParser::feed / process_line / dispatch_event", "src/shared/sse_parser.rs")], ["SseParser::feed", "SseParser::last_event_id"],
  state=[("buffer", "text after the last complete line", "SseParser"), ("current_*", "fields of the event under construction", "SseParser")])

p("C02", "An encoded SSE event decodes to itself",
  "Writing an event in the event-stream text format and decoding that text gives back exactly one event with the same id, event type, data and retry value, for any event whose id and type contain no line breaks. Events written one after another decode to the same sequence.",
  ["inputs"], "every event (any data text made of LF-separated lines) and every sequence of events",
  "Tests print one event with one- or two-line data; empty data, data that starts or ends with a line break and data that looks like a field are not tried.",
  ["src/shared/sse_parser.rs"], [("Display for SseEvent", "src/shared/sse_parser.rs"), ("SseParser::feed", "src/shared/sse_parser.rs")], ["SseEvent::to_string", "SseParser::feed"])

p("C03", "stdio framing delivers every message intact and in order",
  "A message written with length-prefixed framing and read back is the same message, for any sequence of messages on one stream and however the bytes arrive. A malformed header section (no or unreadable length), a truncated body or a body that is not a message gives an error, never a panic, a hang or a different message.",
  ["inputs", "histories"], "every header section, body and split of the byte stream",
  "Tests round-trip one or two hand-written messages in memory; header spelling, extra headers, several frames and partial reads are not enumerated.",
  ["src/shared/stdio.rs"], [("StdioTransport::serialize_message / parse_message", "src/shared/stdio.rs"), ("StdioTransport::read_headers / parse_content_length / read_message_body", "src/shared/stdio.rs")],
  ["Transport::send", "Transport::receive"], hook="framing functions that are private or tied to the process's stdin")

p("C04", "JSON-RPC envelopes survive the wire with identity and kind intact",
  "Serialising any request, response or notification and parsing the text gives back the same message: the same kind, the same id (string ids stay strings, numeric ids stay numbers), method, parameters, and result or error. A message is classified as request, notification or response only by the presence of its id, method, and result or error members, and a response carries exactly one of result and error.",
  ["inputs"], "every id (string or 64-bit number), kind of message and small payload",
  "Tests serialise a handful of literals; ids that look like the other kind, boundary numbers and member combinations are not all tried.",
  ["src/types/jsonrpc.rs", "src/shared/transport.rs", "src/shared/stdio.rs"], [("RequestId / JSONRPCRequest / JSONRPCResponse / RawMessage", "src/types/jsonrpc.rs"), ("TransportMessage", "src/shared/transport.rs")],
  ["serde round trip", "RawMessage::message_type", "StdioTransport::parse_message"])

p("C05", "Error codes and details survive conversion to and from the wire",
  "Converting any error code to its number and back gives the same code, every number maps to a code (a number of the protocol's own server range, -32099 to -32000, that has no name maps to the internal-error code), and an error received from a peer keeps its code, message and data. An error turned into a wire error carries the protocol code, message and data it was built with, or the internal-error code when it has none.",
  ["inputs"], "all 2^32 codes, every error kind",
  "Tests look at a dozen named codes; ranges and boundary values between them are sampled at most once.",
  ["src/error/mod.rs", "src/types/jsonrpc.rs"], [("ErrorCode::from_i32 / as_i32, Error::from_jsonrpc_error", "src/error/mod.rs"), ("From<Error> for JSONRPCError", "src/types/jsonrpc.rs")],
  ["ErrorCode::from_i32", "Error::from_jsonrpc_error", "JSONRPCError::from"])

p("C06", "Every MCP method name routes to its own typed request and back",
  "Each typed request or notification is written under its own protocol method name and parsing that wire form gives back the same typed value with the same parameters and id; absent or null parameters read as empty ones, and a name used in both directions reads as the client's request. A method name outside the protocol, or parameters that do not fit the method, give an error and never a different method.",
  ["inputs"], "every request and notification type with symbolic parameters, every other method name up to the bound",
  "Tests parse a few methods with one literal each; the whole table of names in both directions, and near-miss names, are not covered.",
  ["src/shared/protocol_helpers.rs", "src/types/protocol.rs"], [("parse_request / create_request / parse_notification / create_notification", "src/shared/protocol_helpers.rs")],
  ["parse_request", "create_request", "parse_notification", "create_notification"])

p("C07", "Protocol payload types keep their content through serialisation",
  "Serialising any protocol payload (content blocks, tools, prompts, resources, roots, progress tokens, capabilities, sampling and elicitation messages, auth data) and parsing the text gives back the same payload, under the camel-case member names and type tags of the protocol. Absent optional members are omitted rather than written as null, and members the type does not know are ignored.",
  ["inputs"], "every combination of present and absent optional members with symbolic text and numbers",
  "Tests use one literal per type; the 2^n combinations of optional members and the variants inside each other are not covered.",
  ["src/types/protocol.rs", "src/types/capabilities.rs", "src/types/auth.rs", "src/types/elicitation.rs", "src/types/completable.rs"], [("serde derives and attributes on the protocol types", "src/types")],
  ["serde_json::to_string / from_str of the public types"])

p("C08", "A response completes exactly the request it answers, once",
  "Among any set of pending requests, a response completes the one pending request with its id (and, when transports are told apart, its transport) with exactly that response, at most once. Every other pending request stays pending, a response nobody waits for completes nothing, and a cancelled request is never completed.",
  ["histories", "schedules"], "every history of registrations, responses and cancellations over several ids and transports, up to the bound",
  "Tests register one or two requests and complete them in order; interleaved histories with reused ids and several transports are not explored.",
  ["src/shared/protocol.rs"], [("Protocol::register_request / complete_request / complete_request_for_transport / cancel_request", "src/shared/protocol.rs")],
  ["the receiver handed out by register_request"], state=[("pending_requests", "id to waiting sender and transport", "Protocol")])

p("C09", "A session is accepted only between its creation and its expiry or removal",
  "A session is accepted exactly while it exists and its expiry instant (its creation plus the timeout) has not passed; once it has been destroyed or has expired, no request that presents its id is accepted again. Session ids are unique, one session's operations never change another's data, authentication state or expiry, and the configured maximum number of sessions is respected.",
  ["histories", "inputs"], "every history of create, use, authenticate, destroy and clean-up with arbitrary elapsed times, up to the bound",
  "Tests sleep for one fixed time; the boundary instants and the order of expiry, use and clean-up across sessions are not explored.",
  ["src/shared/session.rs"], [("SessionManager", "src/shared/session.rs"), ("SessionMiddleware::process", "src/shared/session.rs")],
  ["SessionManager::validate_session / get_session / update_session / cleanup_expired", "SessionMiddleware::process"],
  state=[("last_activity", "when the session was last used", "Session"), ("sessions", "the live sessions", "SessionManager")])

p("C10", "Event replay returns exactly the later events, in order, and respects bounds",
  "Asking an event store for the events after a given event returns every retained later event exactly once, in the order stored, up to the limit asked for, and nothing at or before that event; an event no longer retained (or unknown) counts as earlier than all. After each store it holds no more than its configured number of events, dropping the oldest first, and none of the oldest past their maximum age. A resumption token resumes its own session, with that session's later events only, until it expires, and never after.",
  ["histories", "inputs"], "every history of stores, token operations and queries with arbitrary times, up to the bound",
  "Tests store a few events and query once; retention boundaries, expiry instants and interleaved sessions are not explored.",
  ["src/shared/event_store.rs"], [("InMemoryEventStore", "src/shared/event_store.rs"), ("ResumptionManager", "src/shared/event_store.rs")],
  ["EventStore::get_events_since / get_events_for_session / cleanup_expired", "ResumptionManager::resume_from_token"],
  state=[("events", "retained events in order", "InMemoryEventStore"), ("tokens", "issued resumption tokens", "InMemoryEventStore")])

p("C11", "Reconnection attempts, delays and state follow the configured policy",
  "Reconnecting makes at most the configured number of attempts (until a reset), whatever the circuit breaker is set to, stops at the first success, and waits between attempts a delay that never exceeds the configured maximum, never shrinks as attempts grow when jitter is off, and stays within the jitter fraction when it is on. After the configured number of consecutive failures the circuit opens and no attempt is made until its timeout has passed; a success resets the counters. No configuration or attempt number makes the delay computation panic.",
  ["inputs", "fault_sequences", "configurations"], "every configuration, attempt number, random draw and sequence of connection outcomes up to the bound",
  "Tests check two or three attempts of one configuration with wall-clock sleeps.",
  ["src/shared/reconnect.rs"], [("ReconnectManager", "src/shared/reconnect.rs"), ("ReconnectConfig", "src/shared/reconnect.rs")],
  ["ReconnectManager::reconnect_with", "ReconnectManager::state"], state=[("failure_count", "consecutive failures", "ReconnectManager")])

p("C12", "URI templates expand by RFC 6570 and match what they expand",
  "Expanding a template substitutes every variable with its percent-encoded value by the rules of its operator and leaves literal text untouched, and a missing variable expands to nothing. An address a template of single-variable expressions expands to (with non-empty values, label values without dots) is matched by it, with values that expand back to that address; an address is matched only if the template's literal parts are in it, and the values are the decoded text in their places. No template or address text makes parsing, expansion or matching panic.",
  ["inputs"], "every template of the bounded shapes, variable value and address text",
  "Tests use a fixed list of template and value pairs; reserved characters, empty values, adjacent expressions and regex metacharacters in literals are sampled at best.",
  ["src/shared/uri_template.rs"], [("UriTemplate::new / expand / match_uri", "src/shared/uri_template.rs")], ["UriTemplate::expand", "UriTemplate::match_uri"])

p("C13", "Middleware runs in order and an error stops the chain",
  "Every request, response, send and receive passes through each registered middleware exactly once, in the order they were added, each seeing what the one before it left. The first middleware that fails stops the chain with its error, and no later one runs.",
  ["inputs", "fault_sequences", "histories"], "every chain up to the bound, every direction, every choice of failing member and of what each one changes",
  "Tests build one chain with succeeding members only.",
  ["src/shared/middleware.rs"], [("MiddlewareChain", "src/shared/middleware.rs")], ["MiddlewareChain::process_*"])

p("C14", "Request context propagates faithfully and parses any headers safely",
  "A child context keeps its parent's trace, session, user and custom data and names the parent as its parent; writing a context to headers and reading them back gives the same trace, user, session and request identifiers. Any header values at all give a context or none, never a panic, a task sees exactly the context it was run with, and what it logs carries that context's identifiers and no other's.",
  ["inputs", "schedules"], "every context content and every header text up to the bound",
  "Tests use well-formed generated identifiers only.",
  ["src/shared/context.rs", "src/shared/logging.rs"], [("RequestContext::child / to_headers / from_headers / with_context", "src/shared/context.rs"), ("LogEntry::new / log, CorrelatedLogger::new / from_context", "src/shared/logging.rs")], ["RequestContext accessors", "to_headers", "from_headers"])

p("C15", "A batch yields one matching response per request, in request order",
  "Processing a batch of requests yields exactly one response per request, carrying that request's id, in the order of the requests, whatever order the handlers finish in, whichever of them fail or time out. No more handlers run at once than the configured limit, and a batch parses and serialises as the list of its members (a single message as itself); an empty batch gives an empty answer.",
  ["schedules", "inputs", "fault_sequences"], "every batch up to the bound, every completion order, every pattern of failures and timeouts",
  "Tests run one schedule with sleeping handlers; completion orders and failure patterns are not enumerated.",
  ["src/shared/batch.rs", "src/utils/parallel_batch.rs", "src/server/batch.rs"], [("BatchRequest / BatchResponse", "src/shared/batch.rs"), ("process_batch_parallel", "src/utils/parallel_batch.rs"), ("Server batch handling", "src/server/batch.rs")],
  ["process_batch_parallel", "BatchRequest serde"])

p("C16", "Batching and debouncing neither lose, duplicate nor reorder messages",
  "Every message given to the batcher comes out in exactly one batch, in the order given, no batch exceeds the configured size, and a partial batch comes out once its wait time passes. The debouncer emits, after its quiet period, the latest message of each key exactly once and never an older one.",
  ["schedules", "histories"], "every interleaving of arrivals, receives, flushes and timer expiry up to the bound",
  "Tests wait for real timers around one arrival pattern.",
  ["src/utils/batching.rs"], [("MessageBatcher", "src/utils/batching.rs"), ("MessageDebouncer", "src/utils/batching.rs")], ["MessageBatcher::receive_batch", "MessageDebouncer::receive"])

p("C17", "The server answers every request once, from the right handler",
  "Every request gets exactly one response with the request's own id: the result of the handler registered under the requested name called with the request's arguments, or an error when there is none or it fails. Initialisation agrees to the protocol version asked for when it is supported and otherwise names a supported one. No request is answered by another handler or panics the server, a message that cannot be read does not stop it from answering later ones, and it ends when its connection does.",
  ["inputs", "histories"], "every request type, id and name up to the bound, in every order of a session, with and without a handler",
  "Tests send a few requests to one server configuration.",
  ["src/server/mod.rs"], [("Server::run / handle_request and its per-method handlers", "src/server/mod.rs")], ["what the transport is given for each message"],
  state=[("initialized / client_capabilities", "handshake state", "Server")])

p("C18", "Cancelling a request cancels exactly that request",
  "Cancelling a request trips the token its handler holds, wakes anything waiting on it, stays tripped, and affects no other request. A token that was never cancelled is never reported as cancelled, a finished or cancelled request's token is forgotten, and the cancellation notification carries the request's id and reason.",
  ["histories", "schedules"], "every history of token creation, cancellation and completion over several ids, every interleaving with a waiter, up to the bound",
  "Tests create and cancel one token.",
  ["src/server/cancellation.rs"], [("CancellationManager", "src/server/cancellation.rs")], ["CancellationToken", "CancellationManager::is_cancelled"],
  state=[("tokens", "request id to token", "CancellationManager")])

p("C19", "Resource subscriptions notify exactly the current subscribers",
  "A change to a resource notifies exactly the connections subscribed to its address at that moment, once each, and reports how many were notified. Subscribing twice has the effect of once, unsubscribing or removing a connection ends exactly its own subscriptions, and the listings always agree with the subscriptions in force.",
  ["histories"], "every history of subscribe, unsubscribe, disconnect and notify over several connections and resources, up to the bound",
  "Tests run one linear history with one or two connections.",
  ["src/server/subscriptions.rs"], [("SubscriptionManager", "src/server/subscriptions.rs")], ["notification sender", "SubscriptionManager listings"],
  state=[("subscriptions / client_subscriptions", "the two indexes that must agree", "SubscriptionManager")])

p("C20", "Registered roots are exactly those added and not removed",
  "The root list contains exactly the valid roots registered and not since unregistered, in registration order, with their names; only file addresses are accepted, and each unregistration ends exactly its own registration. Every change that takes effect notifies that the list changed, once, and a call that changes nothing does not.",
  ["histories", "inputs"], "every history of register and unregister over symbolic addresses, up to the bound",
  "Tests register one or two fixed roots.",
  ["src/server/roots.rs"], [("RootsManager", "src/server/roots.rs")], ["RootsManager::get_roots", "notification sender"])

p("C21", "Every elicitation is answered once, with its own answer",
  "A request for user input finishes with exactly the response given for its own id, or with an error once its time is up or it is cancelled; no response, timeout or cancellation of one request affects another, and nothing stays pending after a request has finished. Responses to unknown or finished requests are refused, and so is a second request under an id that is still waiting.",
  ["schedules", "histories"], "every order of requests, responses, cancellations and timeouts over several ids, up to the bound",
  "Tests run one request and one outcome at a time.",
  ["src/server/elicitation.rs"], [("ElicitationManager", "src/server/elicitation.rs")], ["ElicitationManager::elicit_input / handle_response / cancel_elicitation / pending_count"],
  state=[("pending", "id to waiting sender", "ElicitationManager")])

p("C22", "Debounced notifications arrive once each, with the latest content",
  "Every notification submitted is delivered, with merging off superseded by later ones of the same subject, with merging on delivered one by one up to the configured number (beyond it the latest replaces the one before), never delivered twice, and what is delivered last for a subject is what was submitted last. Subjects are kept apart, and a notification waits no longer than its configured interval after the last submission.",
  ["schedules", "histories"], "every interleaving of submissions, timers and flushes over several subjects, up to the bound",
  "Tests sleep around a single burst.",
  ["src/server/notification_debouncer.rs"], [("NotificationDebouncer", "src/server/notification_debouncer.rs")], ["output channel of the debouncer"],
  state=[("pending", "subject to pending notification", "NotificationDebouncer")])

p("C23", "Authorization codes are single-use, time-bound and bound to their client",
  "An authorization code is exchanged for a token at most once, not after it expires, only by the client and redirect address it was issued for, and only with the verifier that matches its challenge when one was given. The token grants exactly the user, client and scopes of that authorization, and any failed exchange grants nothing. An authorization request is valid only for a registered client, one of its redirect addresses, an allowed response type and supported scopes.",
  ["histories", "inputs"], "every history of grants and exchanges with arbitrary codes, clients, addresses, verifiers and times, up to the bound",
  "Tests exchange one code successfully and a wrong one once.",
  ["src/server/auth/oauth2.rs"], [("InMemoryOAuthProvider::create_authorization_code / exchange_code", "src/server/auth/oauth2.rs")], ["OAuthProvider::exchange_code"],
  hook="PKCE verification is private", state=[("authorization_codes", "issued codes", "InMemoryOAuthProvider")])

p("C24", "Access tokens are valid only until revoked, replaced or expired",
  "An access token is accepted exactly from its issue until it is revoked, replaced by a refresh or past its expiry, and then reports the user, client and scopes it was issued for. A refresh token yields a new token for the same user, client and scopes at most once, nothing is issued for an unknown one, and no interleaving of token operations blocks for ever.",
  ["histories", "schedules", "inputs"], "every history and interleaving of issue, validate, refresh and revoke with arbitrary times, up to the bound",
  "Tests run each operation once in sequence.",
  ["src/server/auth/oauth2.rs"], [("InMemoryOAuthProvider::create_access_token / refresh_token / revoke_token / validate_token", "src/server/auth/oauth2.rs")], ["OAuthProvider methods"],
  state=[("access_tokens / refresh_tokens", "live tokens", "InMemoryOAuthProvider")])

p("C25", "Authentication admits only requests that prove what is required",
  "A request is admitted only with a well-formed bearer credential whose token is valid at that moment, and required scopes are present in full (or at least one, where configured so). A missing or malformed header, an invalid token, a missing scope or wrong client credentials is refused, and a combination of checks admits only when its configured rule is met.",
  ["inputs", "configurations"], "every header text, token scope set, required scope set and configuration up to the bound",
  "Tests use one valid and one invalid header.",
  ["src/server/auth/middleware.rs"], [("BearerTokenMiddleware / ScopeMiddleware / ClientCredentialsMiddleware / CompositeMiddleware", "src/server/auth/middleware.rs")], ["AuthMiddleware::authenticate"])

p("C26", "Streamable HTTP admits a message only under a live session and version",
  "In stateful mode a JSON-RPC message other than initialisation is processed exactly when it presents the id of a live session (none gives 400, unknown gives 404) and, if it names a protocol version, one that is supported and is the session's own; initialisation without a session gets a fresh session id, and one naming a session is refused. A deleted session is never accepted again, in stateless mode no session is asked for, and unacceptable content or accept headers are refused.",
  ["inputs", "histories", "configurations"], "every combination of headers, session history and mode up to the bound",
  "Tests post a few requests to a live socket with fixed headers.",
  ["src/server/streamable_http_server.rs"], [("validate_headers / process_init_session / validate_non_init_session / validate_protocol_version / handle_delete_session", "src/server/streamable_http_server.rs")],
  ["HTTP status and headers of each response"], hook="handlers are private", state=[("sessions", "live sessions", "ServerState")])

p("C27", "Streamable HTTP replays exactly the missed events of a stream",
  "The server gives each event it sends its own id and stores it under that id. Asked for what follows an event id, the store replays exactly the later events of that event's stream once each in order; an unknown id is an error. A client that lost its event stream can open it again and then receives exactly what followed the event it names, and what is new, once each under the same ids, and nothing of another session.",
  ["histories", "inputs"], "every history of stores over several streams and every replay position, up to the bound",
  "Tests store three events in one stream.",
  ["src/server/streamable_http_server.rs"], [("InMemoryEventStore::store_event / replay_events_after / get_stream_for_event", "src/server/streamable_http_server.rs"), ("handle_get_sse / build_response", "src/server/streamable_http_server.rs")], ["EventStore::replay_events_after", "the bodies of POST and GET responses"], hook="handlers are private")

p("C28", "The client acts only when initialised and permitted, and matches replies",
  "A client operation other than initialisation is sent only after a successful handshake and, when the server (or, for roots changes, the client itself) did not declare the capability it needs, is refused without sending anything. What an operation sends has the method and parameters of the call under a fresh id; it takes only the response carrying its own id and returns the server's result, or an error when the server answers with an error, something else, or not at all.",
  ["inputs", "histories", "fault_sequences"], "every capability set, operation, state and peer answer up to the bound",
  "Tests script one reply per operation.",
  ["src/client/mod.rs"], [("Client::ensure_initialized / assert_capability / send_request", "src/client/mod.rs")], ["what the transport is given", "what the operation returns"])

p("C29", "Retries and circuit breaking follow their policy",
  "A retried operation runs until its first success and at most the configured number of retries more, with the configured waits, and the last error is reported when all fail. The error of the first run decides, by the policy, whether and how it is retried or handed to the fallback registered for the operation. A circuit breaker lets calls through while closed, opens after the configured number of consecutive failures, refuses calls while open without running them, and after its timeout lets calls through again, closing after the configured number of successes and opening again at a failure.",
  ["fault_sequences", "configurations", "histories"], "every sequence of outcomes, error kinds and elapsed times under every policy, up to the bound",
  "Tests drive one failure sequence per policy.",
  ["src/error/recovery.rs"], [("RecoveryPolicy / RecoveryExecutor / with_retry", "src/error/recovery.rs"), ("CircuitBreaker", "src/error/recovery.rs")], ["how often the operation runs and what is returned"],
  state=[("state / failure_count / success_count", "breaker state", "CircuitBreaker")])

p("C30", "Accelerated text and JSON routines agree with the plain ones",
  "The vectorised and fast-path routines give the same answer as the straightforward ones for every input: UTF-8 validity, searches for whitespace, escapes and patterns, JSON parsing, serialisation and pretty printing, masking, base64, run lengths, checksums and length checks. No input makes them read outside the buffer, hang or panic.",
  ["inputs"], "every byte string up to lengths that cross the vector width",
  "Tests compare a few ASCII literals; lengths around the vector width and multi-byte text at a block edge are not tried.",
  ["src/simd/mod.rs", "src/utils/json_simd.rs"], [("simd routines", "src/simd/mod.rs"), ("parse_json_fast / serialize_json_fast / pretty_print_fast", "src/utils/json_simd.rs")], ["return values"])

p("C31", "Runtime changes to a server's handlers take effect exactly",
  "After a tool or prompt is added at run time it is there and listed under its name with the handler it was added with, and after it is removed it is not; other entries, the server's own included, are untouched, and reloading a configuration leaves exactly its tools and prompts. Each change that takes effect is announced once to every listener with the capabilities then on offer (the server's own with all changes so far), and removing what is not there reports so and is not announced.",
  ["histories"], "every history of additions and removals over several names and kinds, up to the bound",
  "Tests add and remove one entry.",
  ["src/server/dynamic.rs"], [("DynamicServerManager", "src/server/dynamic.rs")], ["DynamicServerManager's listings", "what capability listeners are told"])

p("C32", "Completion offers exactly the matching candidates",
  "Completing a partial value offers exactly the configured candidates whose value or label starts with it, each once with its own label, description and data, in their configured order; the has-more flag and total tell the truth about what was left out (nothing is). No partial value makes it fail or panic.",
  ["inputs"], "every candidate list and partial value up to the bound",
  "Tests complete one prefix over one list.",
  ["src/types/completable.rs"], [("CompletionProvider implementations", "src/types/completable.rs")], ["CompletionProvider::complete"])

p("C33", "The resource watcher reports exactly the paths its patterns select",
  "A changed file is reported exactly when it matches an include pattern and no exclude pattern, under the address of that file, after its quiet period and once per burst. Several files changing together are each reported.",
  ["inputs", "histories"], "every relative path and pattern set up to the bound, every burst of events",
  "Tests touch real files under one pattern.",
  ["src/server/resource_watcher.rs"], [("ResourceWatcher::matches_patterns and its debounce loop", "src/server/resource_watcher.rs")], ["updates sent to the server"], hook="pattern matching is private")

p("C34", "The streamable HTTP client keeps session and stream state across requests",
  "Every request of the streamable HTTP client carries the session id and protocol version given last (by the caller or an accepted answer), the configured headers and the access token; closing ends the session. A message is posted as one JSON-RPC message, and a refused or unanswered one is an error. Every message of a JSON answer, batch or event stream is delivered once, in order and unchanged, those of a stream as they come, wherever it is cut or lost; the last event id is the one seen last and is named when a stream is resumed, and a replaced or closed stream delivers nothing more.",
  ["histories", "fault_sequences"], "every sequence of operations, server answers, cuts and connection failures",
  "Tests run against a live socket with two answers, each in one piece.",
  ["src/shared/streamable_http.rs"], [("StreamableHttpTransport", "src/shared/streamable_http.rs")], ["HTTP requests sent", "messages received"], hook="cfg(pmcp_vp) stand-in for the HTTP client (src/vp_http.rs)")

p("C35", "OIDC discovery and token requests ask exactly what was asked for",
  "Discovery asks for the issuer's well-known document, tries again only when the server could not be reached, after the configured wait and at most as often as configured (at least once), and returns the document answered or an error. A code exchange or token refresh posts one form with exactly that grant and the client's credentials, never again, and returns the token answered or an error that carries the server's text.",
  ["inputs", "fault_sequences"], "every sequence of HTTP answers, every grant",
  "Tests only build clients; no answer is ever served.",
  ["src/client/auth.rs"], [("OidcDiscoveryClient / TokenExchangeClient", "src/client/auth.rs")], ["HTTP requests sent", "results returned"], hook="cfg(pmcp_vp) stand-in for the HTTP client (src/vp_http.rs)")

p("C36", "A WebSocket connection delivers each message once and reports closure",
  "Each message sent over a WebSocket client or server connection reaches the other side once, in order and unchanged, and each one said by the other side is received so; other frames are ignored (pings to the server answered) and lose nothing. Closing delivers what was sent before and tells the other side; once either side has closed or is lost, sending and receiving fail instead of hanging and the transport is not connected. Connecting makes at most the attempts allowed, waits doubling up to the limit, and a later connection is not ended by the end of one before it. A server connection accepts messages and frames within its configured limits and ends at one beyond them.",
  ["histories", "schedules", "fault_sequences"], "every sequence of frames, sends and closures, every outcome of connecting",
  "Tests check construction and state flags only.",
  ["src/shared/websocket.rs", "src/server/transport/websocket.rs"], [("WebSocketTransport / WebSocketServerTransport", "src/shared/websocket.rs")], ["Transport::send / receive", "frames sent"], hook="cfg(pmcp_vp) stand-in for tokio-tungstenite and the listener (src/vp_ws.rs)")

p("C37", "The HTTP client transport gives each message its answer and every event once",
  "A message sent over the HTTP transport is posted once, as JSON-RPC, with the configured headers; its answer is received once, and one that is refused, unreadable, missing or not complete within the time limit is an error. Every message of its event stream is received once, in order and unchanged, as it comes, wherever the stream is cut, lost or ended. The transport is connected from opening the stream until its end or closing, and receives nothing from a closed stream.",
  ["histories", "fault_sequences"], "every answer, status, delay, cut and connection failure",
  "Tests check configuration and one refused connection only.",
  ["src/shared/http.rs"], [("HttpTransport", "src/shared/http.rs")], ["HTTP requests sent", "messages received"], hook="cfg(pmcp_vp) stand-in for the HTTP client (src/vp_http.rs)")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
