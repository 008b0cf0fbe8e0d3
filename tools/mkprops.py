#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are reviewable in one place)."""
import json, os, sys
L = "libiqxmlrpc/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [L + f for f in files],
         "mechanism": [{"name": n, "where": L + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": L + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- HTTP server
prop("S01", "Request framing does not depend on how the bytes arrive",
 "For a request made of a header block, the first blank line (CRLF or bare LF line ends, one kind throughout) and exactly the declared number of body bytes, "
 "the server runs the same method with the same arguments and returns the same response however those bytes are cut into arriving pieces. "
 "The client likewise receives the identical response bytes however small the pieces are in which the server is able to write them.",
 ["inputs", "schedules"], "all requests, all cuts of the byte stream into pieces (down to single bytes and around internal buffer sizes), all partial-write patterns, any position in a persistent connection",
 "The tests send each request with one write over loopback, so one segmentation per request is ever seen, and responses fit the socket buffer.",
 ["http.cc", "http_server.cc", "server_conn.cc"],
 [("incremental packet reader", "http.cc: Packet_reader::read_packet/read_header"), ("partial write continuation", "http_server.cc: handle_output")],
 ["bytes received by a raw socket client", "arguments seen by a registered method"],
 [("header/content caches", "bytes of the request received so far", "http.h: Packet_reader")])

prop("S02", "Each complete request is answered exactly once, on its own connection",
 "For any number of simultaneous connections with one outstanding request each, every complete request produces exactly one final response, "
 "on the connection it came from and carrying the result of that very request, and its method body runs exactly once if the request is valid and sees the address of the peer that sent it. "
 "No connection ever receives bytes belonging to another connection's response.",
 ["schedules", "histories"], "all interleavings of arrivals, executions and writes over several connections, serial and pooled execution, sequences of requests on persistent connections",
 "client-test is a single sequential client; client-stress only counts failures and sees a handful of schedules.",
 ["server.cc", "server_conn.cc", "http_server.cc", "executor.cc", "reactor_impl.h"],
 [("connection carried with the executor", "executor.cc: Executor::schedule_response"), ("input is disarmed while a request executes", "http_server.cc: handle_input")],
 ["bytes received by raw socket clients", "executions counted in registered methods"])

prop("S03", "Unacceptable HTTP requests get their status, run nothing, end the connection",
 "A request that is not a POST gets 405, one with a header line lacking a colon or an unreadable length gets 400, a missing length 411, an unknown expectation 417, and under strict checking a non text/xml type 415 (any one of them if several apply). "
 "The method named in such a request never runs, the status always reaches the peer (even one that has already finished sending), and the connection is then closed.",
 ["inputs", "configurations", "schedules"], "all combinations of defects in a request header, both verification levels, all segmentations, peers that stop sending early",
 "No test sends a malformed HTTP request to a server.",
 ["http.cc", "http_errors.h", "server_conn.cc", "http_server.cc"],
 [("header validators", "http.cc: namespace validator, Header::parse"), ("error response then close", "http_server.cc: handle_input catch")],
 ["bytes received by a raw socket client", "executions counted in registered methods"])

prop("S04", "The request size limit is exact and has no memory",
 "With a limit of N bytes set, a request whose header block, blank line and body total N bytes or more is never executed and is answered 413, after which the connection is closed; a smaller request is never refused for its size. "
 "The decision does not depend on segmentation or on earlier requests of the connection, and without a limit no request is refused for size.",
 ["inputs", "histories", "configurations"], "all sizes around the limit, split between header and body in any way, all segmentations, after any sequence of previous requests",
 "The limit is not set in any server test.",
 ["http.cc", "server.cc", "server_conn.cc"],
 [("size accounting per request", "http.cc: Packet_reader::check_sz, clear")],
 ["bytes received by a raw socket client", "executions counted in registered methods"],
 [("bytes of the current request", "total received since the request began", "http.h: Packet_reader::total_sz")])

prop("S05", "A connection stays open exactly when its last request asked for it",
 "After a final response the connection stays open and serves the next request exactly when the request asked for keep-alive and was not refused as bad HTTP; otherwise the server closes it, and only after the last byte of the response has been handed over. "
 "The Connection header of the response tells which of the two happens.",
 ["histories", "inputs"], "all sequences of persistent and non-persistent requests, faults, refusals and interim responses on a connection; all partial-write patterns",
 "One test toggles keep-alive once against a well-behaved server and only checks that calls succeed.",
 ["server_conn.cc", "http_server.cc", "http.cc"],
 [("keep-alive flag per request", "server_conn.cc: read_request/schedule_response"), ("close after complete write", "http_server.cc: handle_output")],
 ["bytes and end of stream seen by a raw socket client"])

prop("S06", "Expect: 100-continue gets one interim response per request",
 "A request announcing 100-continue whose sender waits for it before sending the body receives exactly one interim 100 response (one whose sender does not wait, at most one), before the body is needed and before its final response, for every such request on a persistent connection. "
 "Requests that do not announce it never receive an interim response, and the final response is the same as without the announcement.",
 ["histories", "schedules"], "all sequences of announcing and plain requests on a connection, all cuts of header and body",
 "No test sends an Expect header to a server.",
 ["http.cc", "server_conn.cc", "http_server.cc", "https_server.cc"],
 [("interim response bookkeeping", "http.cc: Packet_reader::expect_continue/set_continue_sent")],
 ["bytes received by a raw socket client"],
 [("continue flag", "interim response already sent for the current request", "http.h: Packet_reader")])

prop("S07", "No method runs without passing authentication",
 "When an authentication plugin is installed, a method runs only if the plugin accepted exactly the user name and password presented, or accepted anonymous access when none were presented; every other request runs nothing and is answered 401, or with a fault if its credentials cannot be decoded. "
 "A method sees the accepted user name as its caller and no name for anonymous or unauthenticated calls, whatever was presented earlier on the same connection.",
 ["inputs", "histories", "configurations"], "all credential forms (absent, valid, wrong, other scheme, malformed, colons, empty parts, case of the scheme), plugin policies, sequences on a persistent connection, serial and pooled execution",
 "Tests try one good, one bad and no credentials with one plugin, one request per connection.",
 ["server.cc", "http.cc", "auth_plugin.cc", "method.h"],
 [("authenticate before dispatch", "server.cc: authenticate, schedule_execute"), ("credential decoding", "http.cc: Request_header::get_authinfo")],
 ["calls seen by the plugin", "executions and caller names seen by methods", "statuses seen by a raw client"])

prop("S08", "A peer denied by the firewall never gets service and cannot harm it",
 "A connection the firewall does not grant gets the firewall's message (nothing if it is empty) and is closed by the server; nothing it sends ever reaches a method. "
 "Granted connections are served as if there were no firewall, and no behaviour of denied peers stops the server or uses up its descriptors.",
 ["histories", "fault_sequences"], "all sequences of granted and denied connections, denied peers that send, stay, close or reset at any time",
 "The firewall is not exercised by any test.",
 ["acceptor.cc", "firewall.h", "socket.cc"],
 [("grant before connection creation", "acceptor.cc: Acceptor::accept")],
 ["bytes and end of stream seen by raw clients", "executions counted in methods", "open descriptors of the process"])

prop("S09", "One failing peer or method never disturbs other clients or stops the server",
 "Whatever a peer does (disconnects or resets at any point, sends garbage, stops reading or writing) and whatever a method throws, the serving loop keeps running, other connections get their normal responses, and new connections are accepted. "
 "A failed connection is released, and interrupted system calls are not visible to clients.",
 ["fault_sequences", "schedules"], "all points of a connection's life at which the peer fails, all exception kinds from methods, interrupted polls, serial and pooled execution",
 "Tests never break a connection in the middle and only throw a few exception kinds.",
 ["reactor_impl.h", "http_server.cc", "server.cc", "executor.cc", "reactor_poll_impl.cc"],
 [("exceptions of a connection end only that connection", "reactor_impl.h: invoke_servers_handler"), ("catch-all around execution", "server.cc: schedule_execute; executor.cc")],
 ["whether the serving loop returned or threw", "responses on the other connections"])

prop("S10", "A stop request is never lost and a stopped server can serve again",
 "Once a stop is requested - from another thread, from inside a method or before serving starts - the serving loop returns without needing any network activity, in every interleaving. "
 "Serving can then be started again on the same server object and handles new requests; a stop already honoured does not stop the next run.",
 ["schedules", "histories"], "all interleavings of the stop request with the loop, the pool and network events; repeated start/stop sequences",
 "test_server_stop starts and stops once per run with sleeps in between.",
 ["server.cc", "reactor_interrupter.cc", "reactor_impl.h", "method.cc"],
 [("flag then wake-up", "server.cc: set_exit_flag, work"), ("wake-up socket", "reactor_interrupter.cc")],
 ["return of the serving loop", "service after restart"],
 [("exit flag", "stop requested", "server.cc: Server::Impl")])

# ---------------------------------------------------------------- pool
prop("C01", "Pooled execution loses, duplicates and delays no request",
 "With a pool of W workers every accepted request is executed by exactly one worker and its response is sent without any further network activity, in every interleaving of workers, arrivals and the serving loop. "
 "As long as fewer than W methods are running, an accepted request starts without waiting for a running one to finish, also after workers have been added.",
 ["schedules"], "all interleavings of queue, workers, wake-ups and the serving loop, including spurious wake-ups; methods that block arbitrarily long",
 "The pooled test run sees only the schedules the OS happens to produce with one client.",
 ["executor.cc", "reactor_impl.h", "reactor_interrupter.cc", "server.cc"],
 [("request queue with condition variable", "executor.cc: register_executor, Pool_thread"), ("wake-up after registering the response", "executor.cc: ~Pool_executor")],
 ["executions and responses", "quiescent states of the process"],
 [("request queue", "accepted, not yet started", "executor.h: Pool_executor_factory")])

prop("C02", "Destroying the pool always terminates and accounts for every request",
 "Destroying a worker pool (before its server) returns in every interleaving, whether workers are idle, starting, executing or requests are still queued. "
 "When it has returned no worker runs any more and each method object handed to the pool has been released exactly once, executed at most once.",
 ["schedules"], "all interleavings of destruction with worker start-up, execution and queued requests",
 "The tests never destroy a pool with work in flight and cannot provoke the interleavings.",
 ["executor.cc", "executor.h"],
 [("shutdown flag and broadcast", "executor.cc: destruction_started, Pool_thread, ~Pool_executor_factory")],
 ["return of the destructor", "construction/destruction of method objects"])

prop("C03", "Threads inside the library never race for memory",
 "Whatever a server with a worker pool is doing - accepting, executing, answering, logging, being stopped or interrupted from other threads, getting more workers, being destroyed - any two accesses of its threads to the same memory inside the library, one of which changes it, are ordered by synchronisation between them. "
 "The same holds for threads that use different objects of the library or share an address.",
 ["schedules"], "all interleavings of the serving thread, workers, threads that stop, interrupt or enlarge the pool, and of threads using the library independently",
 "Unsynchronised accesses rarely meet in time, and when they do the result usually looks right; no test runs with a race detector.",
 ["reactor_impl.h", "executor.cc", "server.cc", "inet_addr.cc"],
 [("table of handlers under a lock", "reactor_impl.h: Reactor"), ("request queue and shutdown flag under locks", "executor.cc: Pool_executor_factory"), ("exit flag", "server.cc: Server::Impl")],
 ["memory accesses and synchronisation of the library's threads"])

# ---------------------------------------------------------------- dispatch
prop("D01", "Calls reach the first dispatcher that knows the method",
 "A call runs the most recently registered method of that exact name, else the method supplied by the first added dispatcher that knows it, else it fails with fault code -32601. "
 "With introspection enabled, system.listMethods returns exactly the registered names and those of every dispatcher, and without it that name is unknown.",
 ["histories", "inputs"], "all sequences of registrations, re-registrations and added dispatchers, all names called",
 "Tests use one dispatcher and fixed names.",
 ["dispatcher_manager.cc", "builtins.cc", "method.h"],
 [("dispatcher chain", "dispatcher_manager.cc: create_method/get_methods_list")],
 ["which method ran", "fault codes and listMethods results seen by a client"])

prop("D02", "Interceptors nest last-in-first-out around every call, each once",
 "Every executed call passes through all installed interceptors, the last pushed being the outermost, each entered exactly once and left in reverse order, before reaching the method; one that does not yield suppresses everything inside it. "
 "What an interceptor changes in the result, and what is thrown inside, is seen by the enclosing ones and finally by the client.",
 ["programs", "histories"], "all stacks of interceptors that pass, swallow, alter, replace or throw before/after yielding; serial and pooled execution",
 "One pass-through interceptor is installed in the tests.",
 ["method.h", "method.cc", "server.cc", "executor.cc"],
 [("nested interceptor chain", "method.h: Interceptor::nest/yield; server.cc: push_interceptor")],
 ["events recorded by interceptors and methods", "response seen by the client"])

prop("D03", "What a method throws reaches the caller as the matching fault",
 "A Fault thrown by a method or interceptor arrives at the caller as a fault response with the same code and text; any other exception (except the library's own HTTP error exceptions) arrives as a fault response carrying its message, never as a success and never as no response. "
 "Requests that are not valid XML-RPC get a fault (-32700 for broken XML, -32600 for a wrong structure) and run nothing, and a normal return never arrives as a fault.",
 ["programs", "inputs", "configurations"], "all exception kinds and messages, broken bodies, serial and pooled execution, plain and TLS transport",
 "Tests throw two kinds of exception with one message each.",
 ["executor.cc", "server.cc", "except.h", "response.cc"],
 [("exception to fault mapping", "executor.cc: execute/process_actual_execution; server.cc: schedule_execute")],
 ["response body seen by the client"])

prop("D04", "X-headers travel unchanged in both directions of the API",
 "The X- headers a method sees are exactly those the client set for the connection overlaid by those of the call (call wins), with names compared case-insensitively and values free of line breaks and outer blanks unchanged. "
 "Headers not starting with X- can neither be set nor read this way, and nothing leaks from one call or connection to another.",
 ["inputs", "histories"], "all maps of header names and values in all letter cases, sequences of calls with and without per-call headers on persistent connections",
 "Tests check a couple of fixed header sets.",
 ["xheaders.cc", "http.cc", "client_conn.cc", "server.cc"],
 [("X- filter and lower-casing", "xheaders.cc"), ("overlay order", "client_conn.cc: process_session")],
 ["headers seen by methods", "header lines seen by a raw peer"])

# ---------------------------------------------------------------- client
prop("K01", "A call returns the response to its own request or throws",
 "Every client call either returns the value or fault that the server sent in answer to that very call, or throws; it never returns the answer to an earlier call, also when calls share a persistent connection and earlier ones timed out, were cut off or failed. "
 "After a call has thrown, the same client object can make further calls that succeed as soon as the server answers properly.",
 ["histories", "fault_sequences"], "all sequences of calls against servers that answer, answer late, answer partially, close, reset, send errors or garbage, with keep-alive on or off",
 "Tests never let a call fail and then reuse the client.",
 ["client.cc", "client_conn.cc", "http_client.cc", "https_client.cc"],
 [("connection cache", "client.cc: Auto_conn"), ("one packet per session", "http_client.cc: do_process_session")],
 ["outcome of each call", "bytes exchanged with a scripted server"],
 [("cached connection", "persistent connection reused by the next call", "client.cc: Client_base::Impl")])

prop("K02", "Responses are understood however their bytes arrive",
 "For any complete HTTP response with a declared length, the outcome of the call (value, fault, HTTP error or parse error) is the same however the response bytes are cut into arriving pieces, and the request reaches the server intact however small the pieces are in which it can be written. "
 "Response sizes at and around internal buffer sizes are no exception.",
 ["inputs", "schedules"], "all responses, all cuts into pieces, all sizes, all partial-write patterns; plain and TLS transport",
 "The server under test writes each response at once; the known flaky file test hits one such size by chance.",
 ["http_client.cc", "https_client.cc", "http.cc", "client_conn.cc"],
 [("incremental packet reader", "http.cc: Packet_reader"), ("read loop", "http_client.cc: handle_input/handle_output")],
 ["outcome of each call against a scripted server"])

prop("K03", "Failures surface as the matching exception, and timeouts always fire",
 "A call whose server answers with a status other than 200 throws the HTTP error with that code, one whose response is not valid HTTP or XML-RPC throws, a closed or reset connection throws a network error, and a server silent for the configured number of seconds makes the call throw a timeout. "
 "A call never hangs once its timeout is set and never succeeds on a truncated response.",
 ["fault_sequences", "inputs"], "all points at which the server falls silent, closes, resets or sends something wrong, with and without timeouts",
 "Tests check one timeout and no other failure.",
 ["http_client.cc", "client_conn.cc", "connector.cc", "https_client.cc"],
 [("timeout on every wait", "http_client.cc: do_process_session; connector.cc"), ("status check", "client_conn.cc: process_session")],
 ["exception class and code of each call", "virtual time at which it is thrown"])

prop("K04", "The client opens, reuses and closes connections as configured",
 "With keep-alive on, consecutive successful calls use one connection; with it off every call opens its own and closes it when done; switching it off or setting a proxy closes the kept connection and destroying the client closes everything. "
 "No connection or descriptor outlives a failed call or a failed connection attempt, and a connection is never used for two calls at the same time.",
 ["histories", "fault_sequences"], "all sequences of calls, option changes, failures and client destruction",
 "Tests cannot see how many connections or descriptors are used.",
 ["client.cc", "connector.cc", "connection.cc", "http_client.cc"],
 [("connection cache policy", "client.cc: Auto_conn, set_keep_alive")],
 ["connections seen by a scripted server", "open descriptors of the process"])

prop("K05", "What the client puts on the wire is what was configured",
 "Each call sends one POST whose target is the configured URI (absolute form through an HTTP proxy), with the configured virtual host and server port, Connection according to keep-alive, Basic credentials exactly when a user name is set, a Content-Length equal to the body, and a body that is an XML-RPC document denoting exactly the called name and arguments. "
 "Changing options affects the following calls and only those.",
 ["inputs", "histories", "configurations"], "all URIs, hosts, credentials, header maps, option changes between calls, direct and proxied",
 "Tests do not look at the bytes of a request.",
 ["client_conn.cc", "http.cc", "http_client.cc", "request.cc"],
 [("request header construction", "client_conn.cc: process_session; http.cc: Request_header"), ("proxy target", "http_client.cc: decorate_uri")],
 ["bytes received by a scripted server"])

# ---------------------------------------------------------------- values
prop("V01", "Values survive the trip through XML unchanged",
 "Any value built from the supported types - nested arrays and structs, any 32/64-bit integers, booleans, finite doubles, text of any XML-representable characters including blanks and markup, arbitrary binary data, dates, nil - equals itself after being written as a request or response and read back. "
 "The same holds for method names, parameter lists, member names, fault codes and fault texts, and with string tags omitted (except for text of only white space).",
 ["inputs"], "all values up to the explored depth and width, all text shapes (empty, blank, markup, control-like, non-ASCII, very long)",
 "Tests round-trip a few hand-written values.",
 ["value_type_xml.cc", "value_parser.cc", "parser2.cc", "request.cc", "response.cc", "xml_builder.cc"],
 [("writer visitor", "value_type_xml.cc"), ("value builder", "value_parser.cc")],
 ["dump and parse functions of requests and responses"])

prop("V02", "The parser accepts exactly XML-RPC documents and denotes their value",
 "A document following the XML-RPC grammar (any of the supported type tags, white space between elements, empty elements, comments between elements, attributes and namespace prefixes ignored) is accepted and yields the value it denotes; an empty integer denotes the configured default if there is one. "
 "A document that breaks the element structure, lacks a required part, is truncated or has an unreadable scalar is rejected with an exception and yields no value (stray text between elements may be ignored instead), and no document makes the parser crash, hang or lose memory.",
 ["inputs"], "all element trees over the XML-RPC tags up to the explored size, all truncations and single edits of valid documents",
 "Tests parse about twenty documents.",
 ["parser2.cc", "value_parser.cc", "request_parser.cc", "response_parser.cc"],
 [("builder state machines", "value_parser.cc, request_parser.cc, response_parser.cc: StateMachine tables")],
 ["parse functions of requests and responses"])

prop("V03", "Copies of values are independent and typed access is checked",
 "Copying or assigning a value, array or struct yields an equal but independent one: changing either afterwards never shows in the other, for any sequence of insertions, assignments (also of a part of itself), swaps, erasures and clearings. "
 "Reading a value as another type, an index out of range or a missing member throws and changes nothing, and every value is released exactly once.",
 ["programs"], "all sequences of container operations over a small pool of values, including aliasing assignments",
 "Tests use containers in a few fixed ways.",
 ["value.cc", "value_type.cc", "value_type.h", "value_type.inl"],
 [("clone on copy, copy-and-swap", "value.cc, value_type.cc")],
 ["public container operations", "memory checker"])

prop("V04", "Base64 and date codecs are exact inverses and reject what they cannot read",
 "Encoding any bytes yields canonical padded base64, decoding it (with any white space inserted) yields the bytes back, and text that is not base64 quadruples is rejected with an exception. "
 "A date text of the form YYYYMMDDThh:mm:ss with a year from 1900 and fields in range is read field by field and written back identically; fields out of range or a different shape are rejected.",
 ["inputs"], "all byte strings up to the explored length, all single-character edits of encodings, all field values around their limits",
 "Tests encode and decode a few strings and dates.",
 ["value_type.cc", "value_type.h"],
 [("base64 encode/decode", "value_type.cc: Binary_data"), ("date parsing", "value_type.cc: Date_time")],
 ["binary and date value types"])

prop("V05", "No document makes the parser read or expand anything outside itself",
 "Parsing a document never opens a file or a network connection and never puts the content of an external or internal entity definition into a value; such references contribute no text or the document is rejected. "
 "The number of characters in the parsed result never exceeds the length of the document.",
 ["inputs"], "all documents with internal/external general and parameter entities, referenced in text, names and attributes, nested definitions, external DTDs",
 "No test contains a document type declaration.",
 ["parser2.cc"],
 [("entity substitution off, no network", "parser2.cc: Parser::Impl")],
 ["file and socket system calls during parsing", "parsed values"])

# ---------------------------------------------------------------- TLS, resources, reactor
prop("T01", "TLS peers are only talked to after verification said yes",
 "When a verifier for client certificates is installed, a server runs no method and answers nothing on a connection whose certificate the verifier did not accept, or that shows none when one is required; when a verifier for the server is installed, a client call sends no request and returns nothing unless it accepted the server's certificate. "
 "The verdict is taken when the connection is made; a verifier that throws counts as a refusal, and connections that pass are served normally.",
 ["configurations", "fault_sequences"], "all verifier verdicts (accept, refuse, throw), required or optional or absent certificates, client and server side, sequences of connections",
 "The TLS tests do not run in this environment and use no refusing verifier.",
 ["ssl_lib.cc", "ssl_connection.cc", "https_server.cc", "https_client.cc"],
 [("verification mode and callback", "ssl_lib.cc: prepare_verify, iqxmlrpc_SSL_verify")],
 ["executions in methods", "outcome of handshakes and calls"])

prop("T02", "HTTPS serves exactly as HTTP does",
 "Over TLS a server gives the same responses, persistence, interim responses, refusals and isolation between connections as over plain connections, for every cut of the plaintext into TLS records and of the records into network pieces. "
 "The end of a connection after its last response is announced to the peer; peers that fail the handshake, close with or without notification, or send plain text are dropped without affecting others.",
 ["schedules", "inputs", "fault_sequences"], "all sequences of requests over TLS, all cuts of records, all points of failure of the peer, serial and pooled execution",
 "The TLS tests fail in this environment; when they run they see one segmentation.",
 ["ssl_connection.cc", "https_server.cc", "https_client.cc", "ssl_lib.cc"],
 [("reactive TLS state machine", "ssl_connection.cc: Reaction_connection::switch_state")],
 ["plaintext received by a raw TLS client", "executions counted in methods"],
 [("TLS connection state", "which operation to retry when the socket is ready", "ssl_connection.h: Reaction_connection::state")])

prop("R01", "Descriptors are released when connections and objects end",
 "Each connection a server accepted is closed once its exchange is over or its peer is gone, exactly once, and destroying a stopped server with no open connections releases every descriptor it had opened; no descriptor the library does not own is ever closed or used. "
 "However many connections come and go, the number of open descriptors returns to its starting value.",
 ["histories", "fault_sequences"], "all sequences of connections ending normally, by error, refusal, reset or firewall, server restarts and destruction",
 "Tests do not look at descriptors.",
 ["connection.cc", "acceptor.cc", "reactor_interrupter.cc", "connector.cc", "http_server.cc", "reactor_impl.h"],
 [("close in the connection destructor", "connection.cc: ~Connection"), ("terminate, unregister, finish", "reactor_impl.h: invoke_event_handler")],
 ["descriptor table of the process", "close calls"])

prop("E01", "The reactor calls a handler only for what it registered for, and only then",
 "A handler registered with a reactor is called for input or output only when that event was armed for it as the wait began (or an event was faked for it) and its descriptor is ready, hang-ups and errors counting as ready for output; it is called again as long as the condition lasts, and is never called after it was unregistered or finished. "
 "A handler that asks to terminate is unregistered and finished exactly once, exceptions of handlers that want them caught end only that handler, and a wait that times out reports so and calls nobody.",
 ["programs", "schedules"], "all sequences of register/unregister/fake/wait operations by several handlers, also from inside handlers, all readiness patterns, interrupted and timed-out waits",
 "The reactor is only exercised indirectly.",
 ["reactor_impl.h", "reactor.h", "reactor_poll_impl.cc"],
 [("handler table and dispatch", "reactor_impl.h: handle_events, invoke_event_handler")],
 ["calls received by user-defined handlers"])

prop("N01", "Addresses given by name are used only as the name service answered",
 "Whenever an address made from a host name and a port is used - asked for its socket address, called by a client, listened on by a server - the use either takes an IP address that a lookup of that very name answered, together with that port, or throws a network error because a lookup failed meanwhile. "
 "A failed lookup leaves nothing behind: later uses, and uses of copies in any thread, look the name up again and work as soon as it is answered.",
 ["histories", "schedules", "fault_sequences"], "all sequences of failing and changing lookups, uses of an address and of its copies one after another and at the same time from several threads, clients and servers made from them",
 "Tests only use localhost, which always resolves, from one thread.",
 ["inet_addr.cc", "acceptor.cc", "connector.cc", "socket.cc"],
 [("lookup on first use, remembered and shared by copies", "inet_addr.cc: Impl::init_sockaddr, get_sockaddr")],
 ["socket address returned", "address a server listens on", "outcome of client calls"],
 [("remembered socket address", "result of the last successful lookup", "inet_addr.cc: Impl::sa")])

prop("L01", "Every message a method logs is a line of its own, exactly once",
 "While a log stream is set, each message a method hands to the server's log has been written and flushed to it when the hand-over returns, exactly once, as a line of its own that no other message is mixed with, however many methods log at the same time. "
 "With no log set nothing is written, and logging never changes what callers receive.",
 ["schedules", "histories"], "all interleavings of methods logging from several worker threads with each other and with errors the server itself reports, log switched on and off between requests",
 "No test reads the log, and mixed lines need threads that meet inside one write.",
 ["server.cc", "method.cc"],
 [("message written to the user's stream", "server.cc: Server::log_err_msg")],
 ["contents of the log stream after each write", "responses received by raw socket clients"])

prop("P01", "Threads using different objects do not influence each other",
 "When several threads each use only their own values, requests, responses, clients and servers of the library, every step of every thread gives exactly the result it gives when that thread runs alone. "
 "This holds for the very first uses in the process as well as for later ones, as long as no thread changes the library's process-wide settings.",
 ["schedules", "programs"], "all interleavings, down to single memory accesses of the library, of threads that encode and decode values and dates, build and parse documents and make calls on objects they do not share",
 "Tests use the library from one thread at a time except inside a server, and hidden shared state only shows when two threads meet inside one library function.",
 ["value_type.cc", "value.cc", "http.cc", "parser2.cc", "client.cc"],
 [("values and codecs", "value_type.cc: Binary_data, Date_time"), ("document building and parsing", "parser2.cc; xml_builder.cc"), ("header construction", "http.cc: Response_header, Request_header")],
 ["results of the calls each thread makes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
