#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

p("C01", "Response header compression is lossless for every conforming client",
  "For every sequence of response header lists sent on one connection, a conforming RFC 7541 decoder whose dynamic table obeys the size the client announced (4096 octets by default) recovers exactly the same names and values in the same order. This holds for any octets in names and values, any string length and any number of distinct headers seen before.",
  ["inputs", "histories"], "all sequences of header lists over an alphabet that forces every representation, every table occupancy and every announced table size",
  "Tests encode at most two lists on a fresh table; indices above 62, eviction, 8-bit octets and announced sizes are never reached.",
  ["lib/hpack/header_block_encoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/hpack/int_encoder.cpp", "lib/hpack/bit_writer.h", "lib/http2_conn.cpp"],
  [("HeaderBlockEncoder::encode", "lib/hpack/header_block_encoder.cpp"), ("DynamicTable", "lib/hpack/dynamic_table.cpp")],
  ["bytes of HEADERS/CONTINUATION payloads sent by the server"],
  [("encoder dynamic table", "what the client's decoder is assumed to hold", "lib/http2_conn.h")])
p("C02", "Request header blocks decode exactly as RFC 7541 says, or are rejected",
  "For every sequence of header blocks received on a connection, decoding yields exactly the header list an RFC 7541 decoder yields, with the dynamic table carried from block to block. A block that refers to index 0 or a non-existent entry, is truncated, has an integer above 32 bits or over five continuation octets, a string longer than 4096 octets after decoding, a table size above 65536, or a header list above 1 MiB (32 octets added per field), is rejected and yields no header at all.",
  ["inputs", "histories"], "all short octet strings and all sequences of structured blocks up to a depth",
  "Tests decode about a dozen hand-picked blocks; the space of malformed and stateful blocks is unbounded.",
  ["lib/hpack/header_block_decoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/hpack/int_decoder.cpp", "lib/hpack/byte_reader.cpp", "lib/hpack/header_static_table.h"],
  [("HeaderBlockDecoder::decode", "lib/hpack/header_block_decoder.cpp")], ["decoded header list or error"],
  [("decoder dynamic table", "entries the client may refer to", "lib/http2_conn.h")])
p("C03", "Huffman string coding is exact and its malformed forms are rejected",
  "Every octet string encoded by the server's Huffman coder is the RFC 7541 Appendix B encoding padded with fewer than 8 one-bits, and decodes back to the same octets. A received Huffman string that contains the EOS symbol, has more than 7 bits of padding, or has padding that is not all ones is rejected.",
  ["inputs"], "all octet strings up to a length, every symbol pair, and every received bit string up to a length",
  "Tests decode each symbol once and one invalid code; adjacency of symbols, padding and EOS are not enumerated.",
  ["lib/hpack/huffman_tree.cpp", "lib/hpack/huffman_codes.h", "lib/hpack/bit_reader.h", "lib/hpack/bit_writer.h"],
  [("HuffmanTree::decode", "lib/hpack/huffman_tree.cpp"), ("HUFFMAN_CODES", "lib/hpack/huffman_codes.h")], ["decoded string or error", "encoded octets"])
p("C04", "HPACK integers are coded exactly over the whole 32-bit range",
  "For every prefix size from 1 to 8 and every 32-bit value, the encoder produces the RFC 7541 representation and the decoder returns that value, consuming exactly its octets and ignoring the bits above the prefix. A truncated representation, a value above 2^32-1 and a representation of more than five continuation octets are each reported as an error, never as a value.",
  ["inputs"], "all prefix sizes times all values (thorough: the full 32-bit range) and all short octet strings",
  "Tests check about ten values.",
  ["lib/hpack/int_decoder.cpp", "lib/hpack/int_encoder.cpp", "lib/hpack/byte_reader.cpp"],
  [("IntegerDecoder::decode", "lib/hpack/int_decoder.cpp"), ("IntegerEncoder::encode", "lib/hpack/int_encoder.cpp")], ["return values"])
p("C05", "The HPACK dynamic table keeps RFC size accounting and eviction order",
  "After every sequence of insertions, lookups and size changes, the table holds exactly the most recently inserted headers that fit (each counted as name length + value length + 32), newest first, its reported size is their sum and never exceeds the current maximum, and an entry larger than the maximum leaves it empty. Lookups return the newest matching entry's position or nothing.",
  ["histories"], "all operation sequences up to a depth on tables of small and default maximum size",
  "Tests run six fixed sequences of at most four operations.",
  ["lib/hpack/dynamic_table.cpp"], [("DynamicTable::insert / set_max_table_size / find", "lib/hpack/dynamic_table.cpp")], ["count(), size(), get(), find(), find_name()"],
  [("table_", "entries, newest first", "lib/hpack/dynamic_table.h")])
p("C06", "What the server does is independent of how the client's bytes are segmented",
  "For every client byte stream, the requests handed to handlers and the bytes the server sends are the same however the stream is cut into reads, including cuts inside the preface, a frame header or a payload, one byte at a time, many frames in one burst larger than any internal buffer, and an end-of-stream that arrives together with the last bytes. A request that was completely received before the client closed its sending side is still answered.",
  ["inputs", "schedules"], "every placement of one and two cuts (and byte-by-byte delivery) in a set of client scripts, with would-block between any two reads, plus burst sizes around the buffer limits",
  "The HTTP/2 connection code is not even compiled by the tests that run; system tests send whole frames.",
  ["lib/http2_conn.cpp", "lib/http2_frames.h", "lib/transports/tcp_transport.cpp"],
  [("fill_read_buffer / try_read_frame / read_preface", "lib/http2_conn.cpp")], ["socket bytes", "handler invocations"],
  [("read buffer", "bytes not yet parsed", "lib/http2_conn.h")])
p("C07", "No response byte is lost, repeated or reordered under back-pressure",
  "For every pattern of partial writes and would-block results on the socket, the client receives exactly the byte sequence it would have received from a socket that accepts everything at once, and the connection stays open and usable. When the socket becomes writable again the remaining bytes are sent without any further action by the client.",
  ["schedules", "fault_sequences"], "every write call answered in full, partially (several lengths) or with would-block, up to a bound on deviations",
  "No test exercises a short write.",
  ["lib/http2_conn.cpp", "lib/http2_server.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp", "lib/pollers/epoll_poller.cpp"],
  [("flush_write_buffer", "lib/http2_conn.cpp"), ("WantWrite handling", "lib/http2_server.cpp")], ["socket bytes"],
  [("write buffer", "bytes accepted but not yet sent", "lib/http2_conn.h")])
p("C08", "Every request gets exactly one well-formed response on its own stream",
  "For every response a handler returns, the client sees on the request's stream one header block that starts with :status and carries the handler's headers plus server and x-powered-by (and content-length equal to the body size when there is a body), then exactly the body bytes, with END_STREAM set on the last frame and nowhere else, and no frame payload above 16384 octets. No stream ever gets a second response, a request without :path or :method gets a well-formed 400, and distinct requests are answered in order.",
  ["inputs", "histories"], "all body sizes around frame boundaries, header block sizes around 16384, status codes, and short request sequences including trailers and missing pseudo-headers",
  "Integration and system tests do not run here and use two body sizes.",
  ["lib/http2_conn.cpp", "lib/http2_frames.h"],
  [("process_frame / process_request / write_data_response / write_headers_response", "lib/http2_conn.cpp")], ["frames sent per stream"])
p("C09", "Connection-level HTTP/2 control frames are answered exactly as the protocol says",
  "After a valid client preface the server's first frame is SETTINGS; thereafter each non-ACK SETTINGS gets exactly one SETTINGS ACK, each non-ACK PING exactly one PING ACK with the same 8 octets, in order, and ACKs, WINDOW_UPDATE, PRIORITY, RST_STREAM, DATA and unknown frame types produce no frame and do not disturb later requests. A client GOAWAY ends the connection after the answers to everything received before it have been delivered; a wrong preface gets no HTTP/2 response.",
  ["histories", "inputs"], "all sequences of frames from an alphabet of control and request frames up to a depth",
  "h2spec is not run; no test sends PING or unknown frames.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.cpp", "lib/http2_frames.h"], [("process_frame", "lib/http2_conn.cpp"), ("read_preface", "lib/http2_conn.cpp")], ["frames sent"])
p("C10", "Malformed input never corrupts memory and ends only its own connection",
  "For every byte sequence a client can send, the server neither crashes, reads or writes outside its buffers, nor stops making progress. A frame longer than 16384 octets, SETTINGS whose length is not a multiple of 6, a WINDOW_UPDATE or PING of the wrong length, a HEADERS frame too short for its padding or priority fields, HEADERS on stream 0 or an even stream, a misplaced CONTINUATION, or an undecodable header block makes the server send GOAWAY(PROTOCOL_ERROR) naming the last request stream it processed and then close; no handler runs for anything that follows.",
  ["inputs"], "every frame type, flag combination and short payload, in every connection phase, alone and after valid traffic",
  "One test sends one oversized frame.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.cpp", "lib/http2_frame_reader.h", "lib/hpack/header_block_decoder.cpp"],
  [("try_read_frame / process_frame / close", "lib/http2_conn.cpp"), ("Http2FrameReader", "lib/http2_frame_reader.h")], ["sanitizer reports", "frames sent", "socket closed"])
p("C11", "A request means the same however its header block is framed",
  "For every request, adding padding or priority fields to its HEADERS frame, or cutting its header block at any points into HEADERS and CONTINUATION frames, leaves the request the handler sees, the response, and the decoding of all later requests on the connection unchanged. Any other frame between HEADERS without END_HEADERS and the end of its block is a connection error.",
  ["inputs"], "every cut position (one and two cuts), every pad length class, priority on and off, for requests that use and modify the dynamic table",
  "One unit test strips a priority field.",
  ["lib/http2_frame_reader.h", "lib/http2_conn.cpp"], [("headers_block", "lib/http2_frame_reader.h"), ("process_frame", "lib/http2_conn.cpp")], ["handler invocations", "frames sent"])
p("C12", "A failing handler costs its request a 500 and nothing else",
  "Whatever a route handler or middleware throws while processing a request, that request is answered with status 500, the connection stays open, every other request on this and on other connections is answered as if the failure had not happened, and the server keeps running.",
  ["histories", "fault_sequences"], "all sequences of requests to succeeding handlers and handlers throwing different kinds of object, on one and two connections, up to a depth",
  "One integration test (not run here) throws one runtime_error.",
  ["lib/http2_conn.cpp", "lib/http2_server.cpp"], [("process_request try/catch", "lib/http2_conn.cpp")], ["frames sent", "handler invocations"])
p("C13", "DATA is sent exactly as far as the client's flow-control windows allow",
  "At every moment the DATA octets the server has sent on a stream, and on the connection, do not exceed the window the client has granted so far through the initial window size (65535 by default), SETTINGS (which also changes the windows of open streams, possibly below zero) and WINDOW_UPDATE. Whenever both windows of a waiting response body have room and the socket accepts data, the server sends on without further action by the client, so every body arrives whole and ends with END_STREAM once enough has been granted. A stream waiting for its window does not hold up other streams, a stream the client resets gets no more DATA, and a client's GOAWAY does not cut off bodies that still wait.",
  ["inputs", "histories"], "all histories of opened streams, SETTINGS, WINDOW_UPDATE, RST_STREAM and GOAWAY up to a depth, all combinations of announced window, body size and grants around the boundaries, blocked sockets",
  "No test inspects windows; clients used in tests announce very large ones.",
  ["lib/http2_conn.cpp"], [("send_pending_bodies / process_window_update / process_setting", "lib/http2_conn.cpp")], ["DATA frames sent"],
  [("pending_bodies_", "the unsent part of response bodies, with the stream's window", "lib/http2_conn.h"), ("connection_window_, initial_stream_window_", "what the client has granted", "lib/http2_conn.h")])
p("C14", "Connections are tracked, capped at 128 and released exactly once",
  "In every interleaving of connects, traffic, disconnects and resets, each accepted socket is closed exactly once, stays registered with the poller exactly while it is open, and is never read, written or served after its close or confused with a later connection that reuses its descriptor. At most 128 connections are served at a time, a connection beyond that is closed at once without disturbing the others, and a freed slot is usable by the next client.",
  ["schedules", "histories"], "all interleavings of events of up to three clients up to a depth, and all orders of events around the capacity limit",
  "One system test (not run here) opens 130 connections in one order.",
  ["lib/http2_server.cpp", "lib/tcp_listener.cpp", "lib/socket_fd.cpp", "lib/pollers/epoll_poller.cpp", "lib/transports/tcp_transport.cpp"],
  [("establish_conn / handle_incoming_connection / handle_connection_events", "lib/http2_server.cpp"), ("SocketFd ownership", "lib/socket_fd.cpp")], ["accept/close/epoll_ctl calls", "bytes per connection"],
  [("connections_", "open connections by descriptor", "lib/http2_server.h")])
p("C15", "Idle connections are closed after 5 seconds and active ones are not",
  "A connection on which no byte has been received or sent for more than 5 seconds (counting from accept, in every phase including before the TLS handshake or preface completes) is closed within one poll interval after that. Once any TLS handshake is done, a connection with a byte received or sent at least every 5 seconds is never closed for inactivity, whatever other connections do.",
  ["schedules", "histories"], "all sequences of time steps and activity events up to a depth, on one and two connections in every phase",
  "Two system tests (not run here) wait 7 real seconds in one phase each.",
  ["lib/http2_server.cpp", "lib/http2_conn.cpp"], [("reap_idle_connections", "lib/http2_server.cpp"), ("has_timed_out / update_last_activity", "lib/http2_conn.cpp")], ["close calls against a virtual clock"])
p("C16", "A failing system call costs at most the connection it concerns",
  "If any single system call made on behalf of accepting or serving a client fails with any error the operating system can return (and for any pair of such failures), the server does not terminate, keeps accepting, and serves every other connection correctly; the affected socket is either served or closed, never leaked. In particular no client can terminate the process by disconnecting while the server writes to it.",
  ["fault_sequences"], "every occurrence of accept, fcntl, setsockopt, getpeername, epoll_ctl, epoll_wait, read, write, shutdown and close in a two-client run, times its errno values, singly and in pairs",
  "No test injects a failure.",
  ["lib/http2_server.cpp", "lib/tcp_listener.cpp", "lib/transports/tcp_transport.cpp", "lib/pollers/epoll_poller.cpp", "lib/socket_fd.cpp"],
  [("error branches", "lib/tcp_listener.cpp"), ("handle_incoming_connection", "lib/http2_server.cpp")], ["start() not returning or throwing", "bytes per connection", "open descriptors"])
p("C17", "A stop request always ends the server promptly",
  "Wherever a stop request arrives, before start, while idle, between any two system calls of the event loop, inside a request handler, with responses half written, or while clients send without pause, start() returns without waiting for more than one further poll interval, and the listening socket is closed. Without a stop request start() does not return.",
  ["schedules"], "stop injected at every system call and every handler invocation of a set of runs",
  "Tests stop an idle server once.",
  ["lib/http2_server.cpp"], [("user_req_termination_ loop", "lib/http2_server.cpp")], ["start() returning", "poll calls after stop"])
p("C18", "Both event pollers report exactly the readiness the kernel has",
  "After every sequence of registering, changing and removing interests, and of peers writing, draining, closing and resetting, a poll returns every registered descriptor that is ready for something it asked for, with read, write, hangup and error flags matching the kernel's, and nothing that was not asked for or was removed; interests can be changed and descriptors re-registered after removal or after being closed and reused. No event is lost when more descriptors are ready at once than the initial buffer holds.",
  ["histories"], "all operation sequences up to a depth on two descriptors of different kinds, for the epoll and the poll implementation, plus ready counts around powers of two",
  "No unit test touches a poller.",
  ["lib/pollers/epoll_poller.cpp", "lib/pollers/poll_poller.cpp", "lib/pollers/poller.cpp", "lib/pollers/poller.h"],
  [("EPollPoller::set/remove/poll", "lib/pollers/epoll_poller.cpp"), ("PollPoller", "lib/pollers/poll_poller.cpp")], ["poll() results"])
p("C19", "TLS connections carry the same bytes as cleartext ones and fail in isolation",
  "Over TLS the requests delivered and the response bytes are those of the same exchange in cleartext, for every segmentation of the ciphertext and every back-pressure pattern. Garbage, truncation, an abrupt close or a bad record on one TLS connection, in any phase, never changes what happens on another connection.",
  ["schedules", "fault_sequences"], "all cut positions of ciphertext flights, bounded back-pressure patterns, and all interleavings of a faulty and a healthy connection up to a depth",
  "TLS code has no test that runs here; system tests use one healthy client at a time.",
  ["lib/transports/tls_transport.cpp", "lib/transports/tls_context.cpp", "lib/http2_conn.cpp", "lib/http2_server.cpp"],
  [("TlsTransport", "lib/transports/tls_transport.cpp")], ["decrypted bytes at the client"])
p("C20", "The server never silently runs without the TLS it was asked for",
  "A server is constructed without error exactly when it is configured for cleartext, or its certificate and key paths both name existing, loadable files that match each other; every other configuration fails at construction. A TLS server sends no HTTP/2 bytes outside TLS, and selects the protocol h2 whatever ALPN list the client offers, and a cleartext server never speaks TLS.",
  ["configurations", "inputs"], "every combination of cleartext flag, certificate state and key state, and every ALPN list from a small alphabet",
  "One integration test (not run here) checks three configurations.",
  ["lib/server_config.cpp", "lib/transports/tls_context.cpp", "lib/http2_server.cpp", "app/args.cpp"],
  [("ServerConfiguration::validate", "lib/server_config.cpp"), ("TlsContext", "lib/transports/tls_context.cpp")], ["constructor result", "negotiated protocol"])
p("C21", "Static file serving never reveals anything outside its root",
  "For every request path, a static mapping responds with file content only if the file, after resolving every symbolic link and dot segment the way the operating system does, lies inside the mapped directory; this includes absolute paths, dot segments through existing or non-existing directories, symbolic links to files and directories, doubled slashes, embedded NUL, and sibling directories whose name starts with the root's name. HEAD reveals no metadata of such files either.",
  ["inputs"], "all paths of up to five segments over an adversarial segment alphabet on a prepared directory tree, for several root spellings",
  "Four unit cases; symbolic links are never tested.",
  ["lib/file_reader.cpp", "lib/static_file_handler.cpp"], [("FileReader::sanitize_path", "lib/file_reader.cpp"), ("StaticFileHandler::handle", "lib/static_file_handler.cpp")], ["response status, headers and body"])
p("C22", "Static files are served completely, with matching HEAD, type and status",
  "For every readable regular file under the root and every way to spell its path inside the root (with or without a query string), GET returns 200, exactly the file's bytes and the content type of its extension, and HEAD returns the same status, content-type and the file's size as content-length, with no body. The bare prefix, with or without a trailing slash or query string, serves index.html; a missing or unreadable file or a directory yields 404, and a path leaving the root or one that cannot be resolved (a link loop, a directory that may not be searched) 403 or 404, for GET and HEAD alike.",
  ["inputs"], "all paths over a segment alphabet, all known extensions and case/dot variants, file sizes around buffer boundaries, GET and HEAD, with and without query strings",
  "Integration tests (not run here) fetch one file.",
  ["lib/static_file_handler.cpp", "lib/file_reader.cpp"], [("get_relative_path / file_response", "lib/static_file_handler.cpp"), ("read_file / get_mime_type / get_file_size / is_readable", "lib/file_reader.cpp")], ["response status, headers and body"])
p("C23", "Routing picks the first exact route, then a static mapping, else 404",
  "For every set of registered routes and static mappings and every request, the handler that runs is the first registered route whose path and method both equal the request's; otherwise, for GET and HEAD only, a static mapping whose URL prefix the path starts with; otherwise the answer is 404. No other handler runs, and registration order of unrelated entries does not matter.",
  ["configurations", "inputs"], "all registration sequences up to a length over small path, method and prefix alphabets, times all requests over the same alphabets",
  "Unit tests register four routes and look one up.",
  ["lib/router.cpp", "lib/static_file_handler.cpp"], [("Router::get_handler", "lib/router.cpp")], ["handler invoked", "response"])
p("C24", "Every middleware wraps every request, outermost first, exactly once",
  "For every sequence of registered middlewares, each request (to a route, a static file or nothing) passes through each of them exactly once, in registration order on the way in and reverse order on the way out, each seeing the inner one's response, and the outermost one's response is the one returned. Middlewares registered before or after routes behave the same.",
  ["configurations", "inputs"], "all sequences of up to four middlewares of different kinds (pass through, rewrite, short-circuit, throw) interleaved with route registration, times all request kinds",
  "Unit tests use one middleware.",
  ["lib/router.cpp"], [("Router::add_middleware / get_handler", "lib/router.cpp")], ["call trace", "response"])
p("C25", "The access log has exactly one truthful, unforgeable line per answered request",
  "Each answered request appends exactly one line to the access log, in Combined Log Format, with the client address, the method and path that were actually used to route it, the status and body size actually sent, and the referrer and user agent, each '-' if absent. No octets a client can put in a header make a line break, end a quoted field early, or produce anything that parses as another entry or other field values.",
  ["inputs"], "all header value strings up to a length over an alphabet of hostile octets, in each logged field, plus duplicate and missing headers and request sequences",
  "No test that runs reads the access log.",
  ["lib/access_log.cpp", "lib/http2_conn.cpp", "lib/system_clock.cpp"], [("AccessLog::log_request", "lib/access_log.cpp")], ["log file content"])
p("C26", "The status page counts every request and every status code exactly",
  "With the status page enabled, after any sequence of requests (routed, static, unknown, or failing with an exception), the page reports the number of requests received including its own, and for each status code exactly the number of earlier requests answered with it, and is served as uncacheable HTML with status 200. The uptime it shows is the time since the server started, and its latency the mean time taken per request, whatever the wall clock does.",
  ["histories"], "all request sequences up to a depth over handlers with different outcomes",
  "No test that runs touches the status page.",
  ["app/server_stats.cpp", "app/status_page.cpp"], [("ServerStats::middleware", "app/server_stats.cpp"), ("StatusPage::add_status_page", "app/status_page.cpp")], ["page body"])
p("C27", "Command-line options configure exactly the server they describe",
  "For every combination of the standalone server's options, the server it starts uses the given port, log level (named in any case), transport (TLS unless cleartext is requested), certificate and key, writes the access log if and only if one was named, whatever the log level, serves the static mapping, status page and test routes if and only if they were requested, and answers unknown paths with the custom 404 page (status 404, no body for HEAD) if and only if one was given; an invalid option value or unusable TLS configuration ends the process with an error instead of a server.",
  ["configurations"], "every combination of the options over small value sets, with probe requests against the resulting server",
  "The application is not linked by the build that runs here; system tests use two option sets.",
  ["app/main.cpp", "app/args.cpp", "app/test_routes.cpp", "app/status_page.cpp"], [("Args::register_opts / to_server_config", "app/args.cpp"), ("run_server", "app/main.cpp")], ["process exit status", "responses to probes"])
p("C28", "Termination signals stop the standalone server cleanly and broken pipes do not",
  "SIGINT or SIGTERM delivered at any point of the server's run after start-up, once or repeatedly until its listening socket is closed, makes it stop serving and the process exit normally with status 0. SIGPIPE caused by a client connection never stops the server; only a broken standard output or standard error does.",
  ["schedules", "fault_sequences"], "each signal raised at every system call of a set of runs, with standard output and error intact or broken",
  "No test that runs delivers a signal.",
  ["app/signal_handler.cpp", "app/main.cpp", "lib/http2_server.cpp"], [("SignalHandler", "app/signal_handler.cpp")], ["exit status", "server continuing to answer"])
p("C29", "No client can make the server hold unbounded memory, and closing frees it all",
  "Whatever a client sends and whatever it leaves unread, the memory held for its connection stays below a fixed bound (16 MiB plus the bodies of at most 100 unfinished responses) and does not grow with how long the connection lasts or how much has been sent; in particular a compressed header block cannot make the server hold more than a fixed multiple of 1 MiB. Once a connection has ended in any way, or the server object is gone, all memory and descriptors held for it are released.",
  ["inputs", "histories"], "all pairs of connection lives over an alphabet of lives x ways to end; all flood units x client behaviours (reading, not reading) x windows, measured at two lengths; all shapes of compressed header lists",
  "Unit tests do not measure memory.",
  ["lib/http2_conn.cpp", "lib/http2_server.cpp", "lib/hpack/header_block_decoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/transports/tls_transport.cpp", "lib/socket_fd.cpp"],
  [("Http2Connection (read, write and header block buffers, pending bodies)", "lib/http2_conn.cpp"), ("HeaderBlockDecoder::decode", "lib/hpack/header_block_decoder.cpp"), ("TlsTransport::~TlsTransport", "lib/transports/tls_transport.cpp")], ["heap in use", "open descriptors"])
p("C30", "Every answered request yields exactly one trace span telling what was served",
  "Unless OTEL_SDK_DISABLED is 'true', each answered request yields exactly one span, named http_request and started when its header block is complete, with http.status_code equal to the status sent and, if the request has a method and a path, http.method, http.target and ion.client_ip equal to those it was routed by and came from; no other frame or header fragment starts a span, and a header block that is not answered yields at most one, without a status. The span is the only open and current one while the handler runs, every log line written then (and no other) carries its trace id, and none is open or current when the server waits.",
  ["inputs", "histories"], "all sequences of events to a depth on two connections, all method and path strings from a hostile alphabet, all pairs of cuts of a request's arrival, all telemetry settings x log levels of the application",
  "No test that runs links the connection code or the tracing API.",
  ["lib/http2_conn.cpp", "app/trace_id_flag.cpp", "app/main.cpp", "app/telemetry.cpp"],
  [("Http2Connection::process_frame (HEADERS) / process_request", "lib/http2_conn.cpp"), ("TraceIdFlag::format", "app/trace_id_flag.cpp"), ("configure_telemetry", "app/main.cpp")], ["exported spans", "log lines"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
