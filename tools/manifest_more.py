"""Techniques of the checks that run on the simulated kernel, and what is not claimed."""
EX = "exhaustive exploration of the real server in a simulated kernel: "
T = {
 "C01": ("bounded exhaustive enumeration of response-header histories on the real encoder and, through the real server in a simulated kernel, of whole connections with client table sizes, checked step by step by an RFC 7541 reference decoder", True, []),
 "C06": (EX + "every cut of each byte stream into reads (all single and pairwise cuts, one octet at a time, all coalescings), each run compared with the unsegmented one and a reference server", True, []),
 "C07": (EX + "every placement of partial writes and would-block results up to a bound, the bytes received compared with an unlimited socket's", True, []),
 "C08": (EX + "all request sequences up to a depth over an alphabet of response shapes, checked by a strict client parser and a reference server", True, []),
 "C09": (EX + "all sequences of control frames up to a depth, checked frame by frame against a reference protocol machine", True, []),
 "C10": (EX + "all frame types x lengths x flags x streams x payload patterns in every protocol phase and all short frame sequences, under sanitizers and a reference protocol machine", True, []),
 "C11": (EX + "all cuts of header blocks into CONTINUATION frames, paddings and priorities, and all interruptions, against the unframed reference", True, []),
 "C12": (EX + "all placements of all failures in handlers and middleware in multi-request, multi-connection scenarios", True, []),
 "C13": (EX + "all histories of opened streams, SETTINGS, WINDOW_UPDATE, RST_STREAM and GOAWAY to a depth, all products of announced window x body size x grants, and blocked sockets, checked at every step against the client's own books of what it granted", True, []),
 "C14": (EX + "all pairs and triples of client behaviours x all interleavings of their steps x batch groupings x report orders, and all ways around the 128-connection limit, each run checked against per-connection reference servers", True, []),
 "C15": (EX + "virtual time; all sequences of time gaps and progress up to a depth in every connection phase, with idle and busy companions; TLS connections stalled at every 16th octet of the handshake", True, []),
 "C16": (EX + "every system call x every error, singly and in pairs (deviation-bounded), in 5 multi-client scenarios with probe clients, cleartext and TLS", True, []),
 "C17": (EX + "a stop request at every kernel call and handler call of 5 scenarios, before start, and under clients that send without pause", True, []),
 "C18": ("exhaustive enumeration of all operation sequences to a depth on both real pollers and the real kernel, compared with poll(2) after every step; the same run also replays all operation sequences to a depth on the simulated kernel and the real one", False, ["poll(2) on a single descriptor reports the kernel's readiness"]),
 "C19": (EX + "every cut of the client's ciphertext into reads, send-buffer sizes, and all interleavings of a faulty connection (by phase and failure) with a healthy one, each compared with the same exchange in cleartext", True, ["the OpenSSL client in mc/tlsc.cpp is a correct TLS peer"]),
 "C20": ("exhaustive enumeration of configurations (transport flag x certificate state x key state) and ALPN lists x TLS versions on the real server in a simulated kernel", True, ["the OpenSSL client in mc/tlsc.cpp is a correct TLS peer"]),
 "C21": ("exhaustive enumeration of request paths over an adversarial component alphabet and of request/tree-change histories to a depth, on the real handler over a real directory tree, judged by what the kernel resolves", True, ["stat(2)/open(2) on the scratch tree is the truth about which file a path names"]),
 "C22": ("exhaustive enumeration of request paths, names, sizes and request/tree-change histories on the real handler and through the real server, judged by what the kernel resolves", True, ["stat(2)/open(2) on the scratch tree is the truth about which file a path names"]),
 "C23": ("exhaustive enumeration of registration sequences (and registration/lookup interleavings) to a depth x all requests over the alphabet on the real router, compared with the defining rule", True, []),
 "C24": ("exhaustive enumeration of middleware/route registration sequences and registration/request interleavings to a depth on the real router and server, traces compared with the defining composition", True, []),
 "C25": (EX + "all one- and two-octet strings and all sequences of hostile pieces to a length in every logged field, and all event sequences to a depth on two connections; the log is re-read by a strict Combined Log Format parser", True, []),
 "C26": (EX + "all request sequences to a depth, one and two connections; every status page compared with a running count", True, []),
 "C27": ("exhaustive enumeration of the product of option values (port, transport, static mapping, pages, log level, access log, spelling), of TLS file states by option and environment, and of invalid values: the application's real main() runs in a simulated kernel and the server it starts is probed", True, ["the OpenSSL client in mc/tlsc.cpp is a correct TLS peer"]),
 "C28": (EX + "the application's real main() with termination signals at every kernel call (singly, in pairs; thorough: triples) under 5 loads, clients that break off at every point, and standard streams that break at every wait", True, []),
 "C29": (EX + "all pairs of connection lives x endings, all flood units x client readings x windows, all shapes of compressed header lists, in cleartext and TLS; every allocation and descriptor is accounted for", True, []),
 "C30": (EX + "all sequences of events to a depth on two connections, all hostile method and path strings, all pairs of cuts of a request, and the application's main() under all telemetry settings, log levels and transports; every span, attribute, scope and log line is recorded and compared with what was answered", True, ["the recording stand-in for the OpenTelemetry API (stubs/opentelemetry) treats spans and scopes as the real API does"]),
}
NA = {}
