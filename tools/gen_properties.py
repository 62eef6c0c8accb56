#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file; run after editing the list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TREE = "src/handler/tree_router.rs"; MR = "src/handler/method_router.rs"; RT = "src/handler/routing.rs"
RESP = "src/response.rs"; INST = "src/server/instance.rs"

p("C01", "A request is dispatched to a handler if and only if a registered route matches",
  "For every route table and every request path and method, a handler runs if and only if some registered route (static segments equal to the decoded path's segments, a variable standing for exactly one segment, a sequence for one or more) with that method matches the path. Exactly one handler runs, exactly once, and it is one registered for a matching route and that method. This does not depend on whether hyperlink search is enabled.",
  ["inputs", "programs", "configurations"], "all route tables (static, variable, sequence, overlapping, prefix routes), all methods, all request paths, both hyperlink settings",
  "The unit tests route a dozen hand-picked paths over tables that hardly overlap; backtracking, prefix nodes without handlers and method misses inside overlapping routes are never combined.",
  [TREE, MR, RT], [("depth first search over the route tree", TREE + " HandleRequest::handle_request"), ("method lookup", MR + " handle_request")],
  ["which handler ran, how often, and the client-visible response"])
p("C02", "Route precedence: static before variable before sequence, whatever the order",
  "When several registered routes match a request, the one that handles it is determined by comparing them segment by segment from the left: a static segment wins over a variable, a variable over a sequence, and a sequence takes as few segments as it can; a better route whose node does not accept the method gives way to the next best. Which handler wins does not depend on the order of registration, on the builder calls used, or on the hyperlink setting.",
  ["inputs", "programs", "configurations"], "all sets of overlapping routes, all registration orders, all matching paths",
  "Tests contain no table with three overlapping alternatives, never permute registration order, and never combine precedence with a method miss.",
  [TREE, MR], [("branch stack order", TREE + " handle_request")], ["which handler ran"])
p("C03", "Route variables capture exactly the segments they stand for",
  "A handler sees, for each named variable of the route it was registered under, exactly the decoded path segment it matched, and for each named sequence exactly the matched segments joined by a slash, byte for byte and also when they are not UTF-8. Unnamed variables and sequences, static segments and other routes contribute no entries, and each handler sees the names from its own registration even when routes share the same tree positions under different names.",
  ["inputs", "programs"], "all routes mixing named and unnamed variables and sequences, shared nodes with different names, all byte paths",
  "Tests check variables on single-route tables with ASCII paths; backtracking out of other branches, multi-sequence splits and name sharing are not sampled.",
  [RT, TREE, "src/handler/variables.rs"], [("captured segment markers", RT + " RouteState"), ("name list carried by the builder context", "src/handler/variables.rs")],
  ["variables seen by the handler"])
p("C04", "All ways of building a router are equivalent; later registrations win",
  "A router built through any mix of whole-path calls, nested builders, collecting from a list, looking up existing nodes, or merging separately built routers under a prefix behaves exactly like the flat list of (method, full route, handler) registrations it stands for, with a later registration of the same method and route position replacing the earlier one. Merging keeps every non-conflicting route of both routers and prepends the prefix's variables to the merged routes' variables. No route string makes building panic, except that on_route refuses more than one segment, changing nothing.",
  ["programs", "inputs"], "all construction programs over the builder API and all route strings, including empty segments and redundant slashes",
  "Tests build each table one way and merge two or three fixed tables; equivalence over construction programs is not something samples show.",
  [TREE, MR, "src/handler/mod.rs", "src/handler/variables.rs"], [("builder", TREE + " Builder"), ("Merge and ApplyContext", "src/handler/mod.rs")],
  ["dispatch behaviour and variables of the finished router"])
p("C05", "A request nobody handles is answered with an error status and an empty body",
  "If no handler accepts a request, the client gets exactly one response with an empty body and a 4xx status: 404 when no part of the router has anything at the path, 405 when the path's only matching route exists but not for that method. A request some handler does accept is sent with status 200 unless that handler (or a fallback's triggering error) set another one: rejections by other candidates along the way leave no trace in status, variables or body.",
  ["inputs", "programs", "configurations"], "all routers and requests, handled or not",
  "Tests look at rejection only through plain 404s of single routers with mock responses.",
  [INST, TREE, MR, "src/handler/mod.rs"], [("default status on rejection", INST + " handle"), ("405 on method miss", MR), ("404 on path miss", TREE)],
  ["bytes on the connection"])
p("C06", "Composed routers behave as the composition of their parts",
  "For any nesting of tree, method, status, optional, fallback, shared and boxed routers: the method router picks by method, the status router by the current status, an empty option rejects with 404, and the fallback combinator runs its secondary exactly when the primary rejects. The secondary then sees the request as the primary got it (same path from the start, same headers, body, variables and hyperlinks) plus the error status; a rejected request is never lost or handled twice.",
  ["programs", "inputs"], "all router compositions over the provided combinators and all requests",
  "Tests cover each combinator alone with one or two inputs; state leaking from a rejecting primary into the secondary needs nested combinators.",
  ["src/handler/or_else.rs", "src/handler/status_router.rs", MR, TREE, "src/handler/mod.rs"], [("Result<(), Environment> rejection protocol", "src/handler/mod.rs HandleRequest")],
  ["handler invocations and the environment each one sees"])
p("C07", "Hyperlinks list exactly what is reachable next from the matched nodes",
  "With hyperlink search on, a handler below a method-based tree router sees, without duplicates, one link per other method of each router position its path matches, and one per static child label, variable child and sequence child of those positions, and nothing else; with it off it sees none. Where routers are nested, a position lists what its item lists for itself instead of only methods: a handler one link, a method router the links of its parts with their methods, fallback and status routers those of all their parts, an absent optional none, an inner tree those of its root's item and one per child of its root; what is outside of any tree sees none. Link comparison is a total order consistent with equality.",
  ["inputs", "programs", "configurations"], "all route tables and matching paths",
  "Tests check the links of a handful of fixed trees.",
  [TREE, MR, "src/context/hypermedia.rs"], [("link collection", TREE + " handle_request"), ("Ord for Link", "src/context/hypermedia.rs")],
  ["hyperlinks seen by the handler"])
p("C08", "Request targets are split and percent-decoded losslessly",
  "For a request target in origin form, the handler sees as path the part before the first '?' or '#', percent-decoded as raw bytes exactly once ('+' untouched, malformed escapes left alone), as query the parameters between '?' and '#', and as fragment the decoded rest, absent if there is no '#'. Routing uses the decoded path, where one leading and one trailing slash are insignificant and inner empty segments are kept.",
  ["inputs"], "all byte strings a client can send as request target",
  "Tests parse five ASCII targets.",
  [INST, RT], [("target parsing", INST + " parse_path"), ("segmenting", RT + " Route for [u8]")], ["path, query, fragment and route seen by the handler"])
p("C09", "Absolute-form, asterisk and invalid targets are handled as HTTP says",
  "A request in absolute form is dispatched exactly like the origin-form request for the same path and query, with the same path, query and fragment seen by the handler, and its Host header is the host and port named in the target even if a different Host header was sent. An asterisk target is recognised as such by all views of the path; it reaches the context filters but no handler and gets an empty success response unless a filter aborts; an authority-form target (as in CONNECT) gets 400 without reaching filters or handlers.",
  ["inputs", "configurations"], "all request-target forms, hosts, ports, conflicting Host headers",
  "Tests call the URL parser on five URLs and never look at hosts, asterisk or invalid targets through the server.",
  [INST], [("parse_url and Host override", INST)], ["what the handler and the filters see; response status"])
p("C10", "Query strings and form bodies decode to the right parameters",
  "In a query string or urlencoded body, every non-empty '&'-separated parameter yields one entry: the name is what precedes the first '=' and the value what follows it up to a second '=', '+' read as space, percent escapes decoded once to raw bytes, a missing value read as empty, and the last of several equal names winning. Encoding any map of byte-string names and values in this format and parsing it back returns the same map, whether sent in the target or the body.",
  ["inputs"], "all byte strings; all maps of byte strings to byte strings",
  "Tests parse three fixed strings.",
  ["src/utils.rs", "src/context/body.rs", INST], [("parse_parameters", "src/utils.rs")], ["parameters seen by the handler"])
p("C11", "The request body reaches the handler unchanged and complete",
  "A handler reading the body gets exactly the bytes the client sent as content, whether sent with a length or chunked, however the bytes are split on the wire and whatever read sizes the handler uses; multipart form data yields exactly the sent fields in order. The body never yields bytes beyond its end, and a truncated body is never presented as complete when its framing says otherwise.",
  ["inputs", "schedules"], "all bodies, framings, wire fragmentations and read patterns",
  "No test reads a real body at all; the unit tests use a mock that is always empty.",
  ["src/context/body.rs", INST], [("BodyReader over the connection reader", "src/context/body.rs")], ["bytes read by the handler"])
p("C12", "Requests on one connection do not bleed into each other",
  "On a persistent connection, every pipelined or successive request is parsed from where the previous one ended and answered in order with its own response, regardless of how much of the previous body its handler read, of rejections, filter aborts or empty responses. No byte of one request's body is ever taken for another request, and no state (headers, variables, filter storage, status) carries over.",
  ["histories", "inputs"], "all sequences of requests on a connection and all handler read behaviours",
  "Tests never send two requests on a connection.",
  [INST, "src/context/body.rs", RESP], [("fresh context and response per request", INST + " handle"), ("unread body", "src/context/body.rs")], ["sequence of requests seen by handlers and responses on the wire"])
p("C13", "Possibly-UTF-8 strings behave as byte strings with a valid UTF-8 view",
  "A possibly-UTF-8 string behaves exactly as the byte string pushed into it so far, whether built by constructors, conversions or pushes: equality, ordering and hashing against itself and against str, String, slices and vectors agree with those of the bytes, in both operand orders. It reports being UTF-8 exactly when the bytes are valid UTF-8, its UTF-8 views and conversions are always valid and lossless in that case and the standard lossy conversion otherwise, through any sequence of pushes and buffer edits.",
  ["inputs", "histories"], "all byte strings and all operation sequences",
  "Tests push a few characters; comparison operators against foreign types are untested.",
  ["src/context/maybe_utf8.rs"], [("MaybeUtf8 and Buffer", "src/context/maybe_utf8.rs")], ["public API results"])
p("C14", "The global store is a map from types to values",
  "The global data store returns for each type exactly the value last stored for it and nothing for a type never stored, inserting returns the value it replaces, and each stored value is dropped exactly once. This holds whichever of the constructors (empty, boxed, tuples) and however many types are involved, and when it is read concurrently.",
  ["histories", "inputs", "schedules"], "all operation sequences over many types",
  "Tests store two or three types once.",
  ["src/server/config.rs"], [("Global with its None/One/Many representations", "src/server/config.rs")], ["returned references and values, drop counts"])
p("C15", "Parameter maps behave as maps from byte strings",
  "A parameter collection behaves as a map from byte-string names to byte-string values: lookups by str, String or bytes agree, insertion and removal return the previous value, text access is lossy but never fails, and typed access parses the whole text, telling a missing name apart from an unparsable value and falling back to the given default in both cases. Collecting, extending and converting to and from maps preserve all entries, the last of equal names winning.",
  ["inputs", "histories"], "all operation sequences, names, values and target types",
  "Tests read a couple of ASCII parameters.",
  ["src/context/parameters.rs"], [("Parameters", "src/context/parameters.rs")], ["public API results"])
p("C16", "The path check accepts no path that leaves the served directory",
  "If the file path check accepts a path, then joining it to any directory gives a path inside that directory (disregarding symbolic links): it is relative and contains no parent component in any position. Every relative path without parent components is accepted, and a rejection names an offending component.",
  ["inputs"], "all paths, including non-UTF-8, repeated separators, dots in every position",
  "Tests check a handful of paths.",
  ["src/file.rs"], [("component scan", "src/file.rs check_path")], ["verdict and reported component"])
p("C17", "File extensions map to the registered MIME types",
  "Looking up a file extension gives exactly the MIME type the project's Apache mime.types data registers for it, with the right top-level and sub type, and nothing for an unknown extension. Rendering the result gives the registered type string.",
  ["inputs"], "all extensions in the data file and all strings outside it",
  "Tests check one or two extensions out of about a thousand.",
  ["build/mime.rs", "src/file.rs"], [("generated perfect hash table", "build/mime.rs"), ("ext_to_mime", "src/file.rs")], ["returned MIME value"])
p("C18", "Files are sent whole, with the right length and type, or not at all",
  "Sending a readable regular file delivers exactly the bytes from the file's current position to its end, with their exact count as Content-Length and the type chosen for the extension (or octet-stream), bypassing response filters. If it cannot be opened as a file (missing, a directory, no permission) nothing has been sent, the response comes back usable with its status and headers, and the default handling answers 404 for a missing file, and 500 otherwise, which it logs.",
  ["inputs", "fault_sequences"], "all file contents and sizes, extensions, file cursors, and failures to open",
  "No test sends a file.",
  [RESP, "src/file.rs"], [("SendResponse for Path and File", RESP), ("FileError recovery", RESP)], ["bytes on the connection; returned errors"])
p("C19", "Every request gets exactly one well-formed response carrying what was sent",
  "For every request that is parsed, exactly one complete, correctly framed HTTP response goes out, whatever way the handler finishes it (sending data, chunked or raw writing, explicit end, dropping it, or moving it to another place), with the status and headers set at that point. A response with known size carries exactly the sent bytes and their count as Content-Length even if the handler set another length; an untouched response is an empty 200. (Responses whose body HTTP itself forbids, and transfer codings set by hand, are outside.)",
  ["inputs", "programs"], "all handler behaviours over the response API, all statuses, headers and data",
  "Tests use a mock response that writes nothing.",
  [RESP, INST], [("send_sized", RESP), ("Drop for Response", RESP)], ["bytes on the connection"])
p("C20", "Streaming a response preserves the byte stream",
  "Data written to a chunked or raw response through any mix of its send calls, the standard writer interface, buffered writers, formatting and copying, in pieces of any size including empty ones, arrives as exactly the concatenation of the pieces in order; each write reports the amount of caller data consumed and each send the amount written. Chunked responses are terminated exactly once, explicitly or when dropped, and an error is reported as an error and never as a panic, also when operations are tried after a failure. Ending a stream after a failure that a send swallowed says so.",
  ["inputs", "histories", "fault_sequences"], "all write sequences and segmentations, connection failures at any byte, filter failures at any piece",
  "No test writes to a real chunked or raw response.",
  [RESP], [("Chunked", RESP), ("Raw", RESP)], ["bytes on the connection; return values"])
p("C21", "Response filters see all data once, in order, and their output is what is sent",
  "Response filters are asked to begin in order and to end in reverse order, once each; every piece of data, whether sent by the handler or added by a filter, passes once through each filter that comes after its origin, in order, and what comes out of the last one is exactly what is sent, with the status and headers as the filters left them. The body is the same whether the handler sends it at once or in chunks (for filters that treat pieces independently), raw responses bypass the filters, and filters share per-request storage with the handler and context filters and with no other request.",
  ["inputs", "programs", "configurations"], "all filter stacks and all handler write sequences",
  "No test installs a response filter.",
  [RESP, "src/filter.rs"], [("filter_headers, filter_content, filter_end", RESP)], ["filter call trace; bytes on the connection"])
p("C22", "Filter aborts stop data and are reported, never swallowed or fatal",
  "When a response filter aborts with an error at any point (begin, write or end), the error reaches the handler's checked send call as a filter error carrying the message (an unchecked one logs it), no later filter is asked about that piece and the aborted piece is not sent. A silent abort drops just that piece (at the beginning or end, what the filters asked after it would have added), for sized and chunked responses alike, without error; neither makes the server panic, and the connection still carries at most one response for the request.",
  ["inputs", "fault_sequences", "programs"], "all filter stacks with aborts at every call",
  "No test has a filter that aborts.",
  [RESP, "src/filter.rs"], [("ResponseAction handling", RESP)], ["return values; filter call trace; bytes on the connection"])
p("C23", "Context filters run in order before the handler and can stop it",
  "Context filters run once each in their configured order, each seeing the request as its predecessors left it, and the handler (and routing) sees the result, including the rewritten path, method, headers, query and body. The first abort stops all later filters and the handler and its status is answered with an empty body, still passing the response filters; storage filled by context filters, also before an abort, reaches the response filters of the same request only.",
  ["inputs", "configurations"], "all filter stacks, modifications and abort positions",
  "No test installs a context filter.",
  [INST, "src/filter.rs"], [("modify_context", INST)], ["filter trace; what the handler sees; response"])
p("C24", "Configured defaults are in every response unless overridden",
  "Every response carries the configured server name, the configured content type and the current date in HTTP format, whether it comes from a handler, a rejection, a filter abort or a bad target, unless the handler or a filter replaces or removes that header, in which case exactly the replacement is sent. Each header occurs once, and unset options take their defaults (server name rustful, text/html in UTF-8).",
  ["inputs", "configurations"], "all server configurations and outcomes of requests",
  "No test looks at response headers produced by the server.",
  [INST, "src/server/mod.rs"], [("default headers", INST + " handle")], ["response headers on the connection"])
p("C25", "Sending options, results and errors picks the documented status",
  "Sending a present optional value sends the value and leaves the status alone; an absent one sends an empty 404. Sending a result sends the success value with 200 or the error value with 500, an I/O error value sends its text with 404 only for not-found, and these rules nest; content-producing functions used as handlers send what they return. A value of a user's own type is asked to send itself once, and if it fails, sending handles its error once while trying to send hands it out.",
  ["inputs", "programs"], "all nested values of the sendable types and all prior statuses",
  "No test sends composite values through a response.",
  [RESP, "src/handler/mod.rs"], [("SendResponse impls", RESP), ("ContentFactory", "src/handler/mod.rs")], ["status and body on the connection"])
p("C26", "Connections are kept alive exactly as configured",
  "Without keep-alive configured every response closes its connection; with it, a connection is closed after a response exactly when the client asked for it or when, at the time the request arrives, fewer than the configured number of worker threads are free (this connection's counting as busy), and every such response says so in its Connection header. The count of busy threads follows connections exactly over any history of connections, requests, closings and handler panics, so the policy never drifts.",
  ["histories", "schedules", "configurations"], "all interleavings of connections opening, requesting, closing and failing",
  "No test starts a server.",
  [INST], [("threads_in_use counter and force_close", INST)], ["Connection headers and connection closing"], None,
  [("threads_in_use", "connections currently being served", INST)])
p("C27", "Concurrent requests are isolated and each is answered exactly once",
  "Under any number of concurrent clients up to and beyond the thread count, each request runs its handler exactly once and its response goes to the client that sent it, containing only data derived from that request and the shared global state, and the shared router, filters and global data are used without data races. Up to the configured number of threads, requests make progress independently: a handler that blocks does not stop others.",
  ["schedules", "histories", "configurations"], "all interleavings of client requests over all worker threads",
  "No test starts a server or runs two requests at once.",
  [INST, "src/server/mod.rs", RESP, "src/context/mod.rs"], [("ServerInstance shared between worker threads", INST)], ["client-side request/response log matched with handler-side log; race reports"])
p("C28", "A panicking handler hurts only its own request",
  "If a handler or filter panics, the server keeps serving: other connections are unaffected, worker capacity and the busy-thread count recover, and later requests behave as before. The client of the panicking request gets an error response (5xx) or a closed connection, never a success response the handler did not send, and never a partial response that looks complete.",
  ["fault_sequences", "histories"], "panics at any point of handling, any number of times, concurrently with other requests",
  "No test lets a handler panic in a running server.",
  [INST, RESP], [("Drop for Response", RESP), ("connection accounting", INST)], ["responses on the wire; later behaviour of the server"])
p("C29", "No safe use of the API causes undefined behaviour",
  "No sequence of calls to the safe public API, and no request a client can send, makes the library read or write memory it must not, produce invalid values such as non-UTF-8 strings, drop stored values twice, or race on memory.",
  ["inputs", "histories", "schedules"], "all safe API call sequences and all requests",
  "Tests run without sanitizers and observe results, not memory.",
  ["src/context/maybe_utf8.rs", "src/server/config.rs", RESP, RT], [("unsafe blocks", "src/context/maybe_utf8.rs, src/server/config.rs")], ["interpreter and sanitizer reports"])
p("C30", "Hostile bytes never crash request handling or break response framing",
  "Whatever bytes arrive on a connection, in whatever fragmentation and with end of stream at any point, the server does not panic or hang: it answers each complete valid request with one well-formed response in order and closes the connection when the stream cannot be understood. Handlers are never run for a request whose head was not received completely.",
  ["inputs", "fault_sequences"], "all byte streams, truncations and write failures",
  "Tests never feed bytes to the server.",
  [INST, RESP, "src/context/body.rs"], [("request handling entry point", INST + " handle")], ["bytes on the connection; panics; handler log"])
p("C31", "Mock contexts and responses behave like real ones for handler tests",
  "A handler or router run against a mock context and mock response sees the same method, path, headers, routing and variables as in a real request for that path, an empty body, and can use every response operation (sending, chunked, raw, writer interface, status and headers) without panicking and without being told that writing failed.",
  ["inputs", "programs"], "all routes, paths and handler programs",
  "Tests use mocks to test routers, but nothing checks that mocks agree with real requests.",
  [RESP, "src/context/mod.rs", "src/context/body.rs"], [("MaybeMock", RESP), ("Context::mock", "src/context/mod.rs")], ["what the handler sees and the results of its calls"])
p("C32", "The server listens where and as it was told",
  "The listening address is exactly the configured host: a bare port means all IPv4 interfaces, changing the port keeps everything else of an IPv4 or IPv6 address, textual addresses parse as socket addresses, and the running server reports and answers on that address, through plain or wrapped (secure) transport, using the configured number of threads (or, if none is configured, five for every four processor cores) and the global data.",
  ["inputs", "configurations"], "all addresses, ports, thread counts and transports",
  "Tests never convert a host or start a server.",
  ["src/server/config.rs", INST, "src/server/mod.rs"], [("Host conversions", "src/server/config.rs"), ("run and run_https", INST)], ["socket address of the listener; responses"])
p("C33", "What builders know reaches every part built or merged below them",
  "However routers are composed and built (insertion, sections, many, paths, fallbacks, statuses, methods, variable wrappers, in any nesting and order), every part that is built or merged below a place is told the names of all variables on the whole path to it, in order, and the user's own build context values in force there, whether it was created there or built separately and merged in later; merging prepends the names of the outer path to those the part had already. Building and merging lose, duplicate and misplace no part that was added.",
  ["programs", "configurations"], "all compositions of routers and all orders of building and merging them",
  "Tests build a few fixed routers by hand and look at where requests go, never at what parts are told.",
  ["src/handler/mod.rs", "src/handler/tree_router.rs", "src/handler/method_router.rs", "src/handler/status_router.rs", "src/handler/or_else.rs", "src/handler/variables.rs"], [("BuilderContext, ApplyContext and Merge", "src/handler")], ["the context handed to parts; the parts reachable in the built router"])
p("C34", "The route state follows a path exactly, with variables and snapshots",
  "A route state stepped to the end of a path visits its segments in order (of one path or of a list of paths, without a leading and a trailing slash): getting shows the current segment; skipping, keeping and fusing go one segment on each; it is empty exactly at the end. Going back to a snapshot restores the position and the number of variables kept by then, so that what is done from there replaces what was done before. At the end of the path the variables are, for each name in the order of the keeps, the segments kept or fused for it joined by slashes; skipped segments and empty names give none. Clones are independent of each other.",
  ["histories", "inputs"], "all paths and all sequences of operations on the route state",
  "Tests use the route state only through the tree router.",
  [RT], [("RouteState, Route and VariableIter", RT)], ["return values of the route state; variables collected"])
p("C35", "Handlers of every form behave as plain ones",
  "A function, a closure, a shared (Arc) handler, a boxed handler, any nesting of these, and each of them as an optional value that is present, are interchangeable with a handler type that does the same: they are called once per request with the same context, body, variables, hyperlinks and response, through a router or as the whole server, and from the handler of a hyperlink, and the client gets the same response. Wrapping a handler in an Arc or a Box keeps its description; functions and closures have none.",
  ["inputs", "programs"], "all handlers, nestings of wrappers, routers and requests",
  "No test serves a request with a closure, an Arc or a box and compares.",
  ["src/handler/mod.rs"], [("impl Handler for F, Arc<T>, Box<Handler>", "src/handler/mod.rs")], ["what handlers see; responses; descriptions"])
p("C36", "Conversions of contents and errors keep everything",
  "Whatever can be sent (slices, vectors and strings of bytes or text, owned or borrowed) becomes data with exactly those bytes, and goes back to bytes or, when it is valid UTF-8, to the same string, and otherwise hands back the same bytes. The errors of sending keep what failed: their text, cause and description are those of the I/O error or the filter's message, converting one to an I/O error keeps its kind and text, and a file that could not be opened gives back the response with everything that was set on it, usable for another answer.",
  ["inputs"], "all contents and all errors",
  "No test converts data or inspects an error.",
  [RESP], [("Data, Error, FileError", RESP)], ["converted values; error texts, kinds and causes; bytes on the connection"])
p("C37", "The content type macro means what is written",
  "A content type written with the macro has exactly the written main type, sub type and parameters, in the written order: names of the known types and attributes mean those types, and texts (constants or computed ones) mean what the same text means when a content type is parsed. Such a content type is sent as written wherever it is set: as the server's default, or as the response's or the stream's own.",
  ["inputs", "programs"], "all names, texts and parameter lists",
  "Tests and documentation compile a few types and look at none of them on the wire.",
  ["src/macros.rs"], [("content_type! and MimeHelper", "src/macros.rs")], ["the content type value; the Content-Type header on the wire"])
p("C38", "What is over leaves nothing behind",
  "Once a request, response, connection, router or server object of the library is gone, whatever its history (complete, refused, aborted, failed half way, panicked, or left by the peer), the memory and files it took are given back: repeating the same work does not make the process grow, and neither does an endless series of different requests.",
  ["histories", "inputs", "fault_sequences"], "all requests, responses and ways in which they can end",
  "Tests end with their process; nothing measures what they leave.",
  [RESP, INST, "src/context/mod.rs", "src/file.rs", RT], [("Drop for Response, Chunked and Raw", RESP), ("request handling", INST)], ["live bytes of a counting allocator; open files of the process"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
