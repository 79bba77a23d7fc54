#!/usr/bin/env python3
# Source of properties.jsonl (kept as a program so that long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HC = "pillowcore/HttpConnection.cpp"
p("C01", "A request is parsed the same however its bytes are split on the wire",
  "For every well-formed HTTP request without a transfer coding, requestReady is emitted exactly once, and only when the last byte of the request has arrived, with method, URI, path, query string, fragment, version, every header (in order, any number of them) and the content equal to what was sent. The result does not depend on how the bytes are divided into reads, on short reads, or on what is already buffered. 'Expect: 100-continue' with a content-length gets exactly one interim '100 Continue' before the content is awaited, if the client speaks HTTP/1.1.",
  ["inputs", "schedules"], "all requests from the component grammar (methods, URI shapes, header counts across the inline capacity, sizes across the buffer thresholds) x all 1-, 2- and 3-way splits, byte-by-byte delivery, and every subset of split points for a minimal request",
  "The unit tests feed a handful of requests, nearly all in one piece or in two, with few headers.",
  [HC, "pillowcore/parser/parser.c", "pillowcore/ByteArrayHelpers.h"],
  [("incremental parse over the accumulated request buffer", HC + " processInput/parser_http_field"), ("header references turned into raw-data byte arrays", HC + " setupRequestHeaders"), ("content phase", HC + " transitionToReceivingContent")],
  [("request buffer", "all bytes of the current request and of pipelined successors", HC)])
p("C02", "Malformed and oversized requests are rejected once and never delivered",
  "A byte stream that is not a valid HTTP request head, a head longer than 32 KB, a negative content-length, content-lengths that differ, a content-length that is unparsable or over 128 MB, or a transfer coding (none is supported) gets exactly one error response (400; 413 for the too large or unparsable length, 501 for the transfer coding) with 'Connection: close', after which the connection is closed. requestReady is never emitted for such a request nor for anything after it, every earlier pipelined request is still delivered and answered, and the outcome does not depend on how the bytes are split. A request that respects the limits is never rejected.",
  ["inputs", "schedules"], "all single-byte replacements, deletions and insertions (every byte value) of base requests, all content-length forms and combinations of content-lengths and transfer codings, head sizes around 32 KB and 128 MB lengths, each at several splits and after 0-2 valid requests",
  "Tests try two malformed requests; the accepted language is a table-driven automaton whose every byte/position combination matters.",
  [HC, "pillowcore/parser/parser.c"],
  [("parser error and header limit check", HC + " processInput"), ("content-length validation", HC + " transitionToReceivingContent"), ("error response then flush and close", HC + " writeRequestErrorResponse")])
p("C03", "Every response is a well-framed HTTP message that carries exactly the given body",
  "For every status, header set, body and way of writing a response (whole, or headers then content pieces then end), the bytes sent are one HTTP message: a status line with the request's HTTP version and a three digit code (500 when the given code is not a known one), the caller's headers, and a body a conforming client decodes to exactly the accepted content. The body is framed by a Content-Length equal to the declared or actual length (of any size), by chunked coding (only for HTTP/1.1 requests that asked for it, without a Content-Length), or by closing the connection. A response to HEAD, and one with status 204 or 304, carries the same headers and no body byte, and content that would exceed the declared length is refused without corrupting the stream.",
  ["inputs", "programs"], "all products of request method/version, status codes, header subsets (Content-Length valid/invalid/zero/oversized, Transfer-Encoding, Content-Type, Connection, other headers, large headers), body sizes and piece sequences up to the bound",
  "Tests check a few dozen fixed strings; combinations of overrides, HEAD, versions and sizes around the buffer reuse thresholds are not reached.",
  [HC, "pillowcore/private/ByteArray.h", "pillowcore/HttpHelpers.cpp"],
  [("header block construction", HC + " writeHeaders"), ("content accounting and chunk framing", HC + " writeContent/endContent"), ("append fast path", "pillowcore/private/ByteArray.h")])
p("C04", "The advertised keep-alive decision is the one the connection follows",
  "After a response, the connection stays open for another request exactly when the client asked for it (HTTP/1.1 without the connection option 'close', or HTTP/1.0 with the option 'keep-alive', whatever the letter case and whichever other options are listed with it, in one or several Connection headers), the server did not answer with the option 'close', and the end of the response is delimited by its length or by chunking; otherwise it closes. The Connection header sent tells the client so (absent meaning keep-alive for HTTP/1.1 and close for HTTP/1.0), and a closing connection closes its device only after all response bytes have left the output buffer, without accepting any further request.",
  ["inputs", "schedules", "configurations"], "all products of request version, request Connection value, response Connection value, response framing and method, crossed with all ways the output device drains (immediately, in steps, never)",
  "Tests cover selected pairs; they use sockets or buffers that drain at once, and rarely send a further request to see what the connection really does.",
  [HC],
  [("keep-alive negotiation", HC + " writeHeaders"), ("flush before close", HC + " transitionToFlushing/drain"), ("downgrade when length unknown", HC + " transitionToSendingContent")])
p("C05", "Pipelined and successive requests are served one at a time, in order",
  "When requests follow each other on a connection, whether or not a client waits for the response, each is delivered exactly once, in order, and only after the previous response is complete; the output is the concatenation of the responses in request order. No byte of one request's data or response state (body, parameters, headers, HEAD or keep-alive or chunked status, content-length) leaks into another's. This holds for handlers that answer inside the signal or later, for every arrival timing, and for any number of requests in one read.",
  ["schedules", "histories", "inputs"], "all sequences of up to 3 requests from an alphabet of request kinds x response kinds x synchronous/asynchronous answering x all interleavings of segment arrivals with response steps",
  "Tests pipeline one or two GETs with one arrival order; the defects live in re-entrant completion and buffer hand-over.",
  [HC],
  [("re-entrant processing of buffered input on completion", HC + " transitionToCompleted"), ("request buffer hand-over", HC + " transitionToCompleted"), ("response reset", HC + " transitionToSendingHeaders")])
p("C06", "Connection lifecycle signals and states are exact under any call order",
  "Whatever order the application calls the response methods in and wherever input, drain or a close falls in between, the connection follows Receiving -> SendingHeaders -> SendingContent -> Completed -> (Receiving | Flushing -> Closed); requestReady, requestCompleted (at most one per delivered request, none for an aborted one) and closed (exactly once) are emitted at those transitions. A response method called in a state where it makes no sense changes no state, sends no byte and emits no signal. After closing, no further signal or write happens and the input and output devices are closed.",
  ["programs", "schedules"], "all sequences, up to the depth bound, of response API calls, input deliveries, drains, device closes and close() calls from every state, including calls made inside signal handlers",
  "Tests call each misuse once from one state.",
  [HC],
  [("state guards", HC + " write*/endContent/close"), ("transitions", HC + " transitionTo*")],
  [("connection state", "public state() value", "pillowcore/HttpConnection.h State")])
p("C07", "Request data stays valid and unchanged while the request is being served",
  "From requestReady until requestCompleted or closed has been delivered, every request accessor (raw and decoded fields, headers, content, parameters) keeps returning the same value, however many further bytes arrive, are pipelined, or are split, and whatever part of the response has been written. No access by the library or by a handler within that window touches freed or foreign memory.",
  ["schedules", "inputs"], "all request kinds (with query, fragment, many headers, content below and above the buffer thresholds) x all arrivals of further data between response steps, under AddressSanitizer",
  "Tests look at the accessors right after requestReady only.",
  [HC, "pillowcore/ByteArrayHelpers.h"],
  [("raw-data views into the request buffer", HC + " transitionToSendingHeaders"), ("no reading while sending", HC + " processInput")])
p("C08", "Query parameters and percent-decoding follow the query string exactly",
  "The request parameters are the '&'-separated pairs of the query string, in order, split at the first '=', with every well-formed %XX escape decoded and the result read as UTF-8; the decoded URI, path, query string and fragment are the percent-decoded raw ones. Parameter lookup is case-insensitive, returns the first match or a null string, and setting a parameter replaces the first match or appends. Parameters of one request never appear in another.",
  ["inputs"], "all query strings over a 7-symbol alphabet up to the length bound, lengths around the 1024-byte decode buffer and 16 parameters, all short sequences of set/get operations, and pairs of successive requests",
  "Tests decode a few examples.",
  [HC, "pillowcore/ByteArrayHelpers.h"],
  [("lazy parameter parsing", HC + " requestParams"), ("percent decoding", "pillowcore/ByteArrayHelpers.h percentDecode")])
p("C09", "A reused connection object behaves exactly like a fresh one",
  "After a connection object is closed at any point of an exchange and initialised again on another device, it serves the new device exactly as a newly created object would: same requests delivered, same bytes sent, same signals, with nothing left over from the previous use, and without invalid memory accesses. This includes data that was already waiting on the new device.",
  ["histories", "schedules"], "all ordered histories of up to 3 sessions from an alphabet of ways to end a session (mid head, mid content, request error, pending handler, mid response, chunked, HEAD, flushing, after a request larger than the retained buffer, pipelined leftovers), each followed by every probe session, compared with a fresh object",
  "Tests reuse a connection once, after a clean close.",
  [HC, "pillowcore/HttpServer.cpp"],
  [("re-initialisation", HC + " initialize"), ("server reserve pool", "pillowcore/HttpServer.cpp putConnection/takeConnection")])
p("C10", "The server answers every client on its own connection, however many come and go",
  "Over TCP and local sockets, for any interleaving of clients connecting, sending whole or partial requests, disconnecting and being answered (at once or later, in any order), each complete request of a connected client is delivered once and its response reaches that client only. No client's disconnect, error or number of simultaneous or successive connections (also beyond the internal reserve) disturbs another client or stops later ones from being served.",
  ["schedules", "histories"], "all interleavings of client actions for up to 3 clients to the depth bound, plus populations and churn around the reserve size of 25, on real loopback TCP and local sockets",
  "Tests open one to a few clients in lockstep.",
  ["pillowcore/HttpServer.cpp", HC],
  [("connection reserve", "pillowcore/HttpServer.cpp takeConnection/putConnection"), ("socket ownership", "pillowcore/HttpServer.cpp incomingConnection/connection_closed")])
p("C11", "The file handler never serves anything outside its public directory",
  "For every request path (with '..', '.', empty segments, percent escapes, encoded separators, symbolic links, names that merely extend the public directory's name), the file handler sends file content only if the path resolves to a regular file inside the public directory; otherwise it declines the request (403 for an unreadable file) and sends nothing. With no public path, or one that does not exist, it never serves anything, and every readable regular file inside the directory is served.",
  ["inputs", "configurations"], "all paths of up to the bound of segments over an adversarial segment alphabet, in several encodings, on a scratch tree with sibling directories and symlinks, for several public path spellings, against an independent resolver",
  "Tests try two escape attempts.",
  ["pillowcore/HttpHandler.cpp"],
  [("canonical path containment check", "pillowcore/HttpHandler.cpp HttpHandlerFile::handleRequest")])
p("C12", "File responses are complete, typed, cacheable and streamed in bounded memory",
  "A served file arrives byte for byte with its exact length and the MIME type of its extension, for any size, buffer size and pace at which the client reads; small files carry an ETag that depends on content only, and a matching If-None-Match gets 304 without a body. Files larger than the buffer are streamed without ever holding more than about one buffer of unsent content. A HEAD request, a client that disconnects midway, or a pipelined next request never receives, corrupts or hangs on bytes of a file transfer.",
  ["inputs", "schedules"], "all file sizes around multiples of the buffer size x buffer sizes (also below the 512 minimum) x all drain schedules up to the bound x method x pipelined follow-up x disconnect point",
  "Tests stream one file with a device that drains fully.",
  ["pillowcore/HttpHandler.cpp", "pillowcore/HttpHelpers.cpp"],
  [("incremental transfer", "pillowcore/HttpHandler.cpp HttpHandlerFileTransfer::writeNextPayload"), ("ETag and 304", "pillowcore/HttpHandler.cpp HttpHandlerFile::handleRequest")])
p("C13", "The router picks the first matching route and binds its parameters",
  "A request goes to the first route, in order of addition, whose path pattern matches the whole decoded request path and whose method is empty or equal to the request's method (ignoring case; the '_method' parameter overrides it only when enabled); ':name' segments and '*name' splats are bound, each under its own name, to the text they matched. Everything else in a pattern is literal text. If no pattern matches the request is declined or answered 404, and if patterns match but no method does it is declined or answered 405 with an Allow header listing the methods, as configured. All target kinds (handler, slot, function, static response) are invoked exactly once; when the target declines or no longer exists the request is declined, so that it can still be answered by someone else.",
  ["inputs", "programs", "configurations"], "all route tables of up to the bound from a pattern alphabet x methods x all request paths of up to the bound over a segment alphabet x router settings, against an independent matcher",
  "Tests use one fixed table with a few paths.",
  ["pillowcore/HttpHandlerSimpleRouter.cpp"],
  [("pattern compilation", "pillowcore/HttpHandlerSimpleRouter.cpp pathToRegExp"), ("dispatch", "pillowcore/HttpHandlerSimpleRouter.cpp handleRequest")])
p("C14", "Handler stacks offer a request to each handler in turn until one takes it",
  "A stack passes a request to its handlers in the order they were added, stops at the first that accepts it, and accepts exactly when one of them does; nested stacks behave like their flattening. The fixed handler always answers with its current status and content, the 404 handler with a 404 naming the path, and the function handler calls its function once and declines when it has none.",
  ["configurations", "programs"], "all handler trees up to the size bound over accepting, declining, logging, fixed, 404 and function leaves (and non-handler children) x request kinds x reconfiguration sequences",
  "Tests build one stack per scenario.",
  ["pillowcore/HttpHandler.cpp"],
  [("child traversal", "pillowcore/HttpHandler.cpp HttpHandlerStack::handleRequest")])
p("C15", "The access log has one truthful entry per request, in the order of events",
  "In completed mode the log holds exactly one line per completed request of a connection that went through the handler, written at completion, with that request's method, URI, version, response status and length. In trace mode it holds a BEGIN line per request, an END line per completed request and one CLOSE line per closed connection, in order of occurrence and each naming the right request. Logging works for any number of interleaved connections, reuse of connection objects, pipelined requests, mode changes and destruction of connections, device or handler, and never accesses invalid memory.",
  ["histories", "schedules"], "all sequences up to the bound of begin/complete/abort/close/reuse/destroy events over two connections and both modes, under AddressSanitizer",
  "Tests log two requests in one order.",
  ["pillowcore/HttpHandler.cpp"],
  [("signal-driven entries", "pillowcore/HttpHandler.cpp HttpHandlerLog::requestCompleted/requestClosed"), ("per connection timers", "pillowcore/HttpHandler.cpp _requestTimerMap")])
HCL = "pillowcore/HttpClient.cpp"
p("C16", "The response parser decodes any response identically however it is split",
  "For every valid HTTP/1.x response (any status, header set, content-length, chunked with trailers, close-delimited, bodiless), the parser reports the same status, version, header list, content, keep-alive decision (from all options its Connection headers list) and number of consumed bytes for every division of the bytes into injected pieces, stops exactly at the end of each message, and completes a close-delimited message at end of input. Malformed responses (also those whose content length or chunk size is no number, does not fit, or is given twice and differs) are reported as errors at every split, and a parser that has been cleared, or moves on to the next message, keeps nothing of the previous one.",
  ["inputs", "schedules", "histories"], "all responses of the component grammar x all 1-, 2- and 3-way splits and byte-by-byte x sequences of messages, aborted messages and clears",
  "Tests inject a few fixed responses in one or two pieces.",
  [HCL, "pillowcore/parser/http_parser.c", "pillowcore/HttpClient.h"],
  [("header accumulation over callbacks", HCL + " parser_on_header_field/pushHeader"), ("pausing at message end", HCL + " parser_on_message_complete")])
p("C17", "Each client request finishes exactly once, with the right outcome",
  "Every request accepted by the client ends with exactly one finished signal: without error and with the complete response if the server sent one (also when its end is marked by the server closing the connection, and after any number of interim responses, 1xx other than 101), and otherwise with the error that tells what happened (refused or broken connection, closed before the full response, invalid response, aborted). Requests made inside the client's signals, after an abort, an error, a redirect, a keep-alive expiry or a server-closed connection are served like on a fresh client, on the reused connection when it is still usable, and nothing of an earlier response (headers, content, decoding, error) shows in a later one. A followed redirection repeats the request at the resolved location, with GET and without content after a 303 (HEAD stays HEAD).",
  ["histories", "fault_sequences", "schedules"], "all sequences of up to the bound of exchanges from an alphabet of response scripts, server closes at every response byte position, abort points and re-entrant requests, on real loopback sockets",
  "Tests exercise each situation once, mostly on a fresh client.",
  [HCL],
  [("exchange state machine", HCL + " request/device_readyRead/messageComplete/device_error/abort"), ("pending request while parsing", HCL + " _pendingRequest")])
p("C18", "Compressed content is delivered decoded, whatever its size and split",
  "When a response's Content-Encoding is gzip, the client delivers exactly the decompressed bytes, for every payload, framing and division into reads; the concatenation of incrementally consumed content equals the whole. Content that is not actually valid gzip is passed through instead of being lost, content without that header is never altered, and one response's decoding never affects another's, whichever way the earlier one ended.",
  ["inputs", "schedules", "histories"], "all payloads of a size/compressibility grid around the inflate buffer size x framings x all split points of short bodies and a grid for long ones x preceding exchange outcomes",
  "Tests decode one small and one stored gzip file.",
  [HCL],
  [("streaming inflate", HCL + " GunzipContentTransformer::transform"), ("decoder selection", HCL + " headersComplete"), ("decoder disposal", HCL + " messageComplete")])
p("C19", "Requests written by the client are what a server parses back",
  "Every request written by the request writer or the client is one valid HTTP/1.1 request whose method, target (path and query, '/' when the URL has none), headers in order, Host (with a non-default port) and content (with its length) are the given ones; a conforming server, in particular this library's own, parses back exactly those. This holds for any sizes and for any sequence of requests through the same writer or client, with no residue from an earlier one.",
  ["inputs", "histories"], "all products of method, URL shape, header lists and content sizes around the 4096/8192/16384 thresholds, and all ordered pairs of such requests on one writer, parsed by an independent parser and by the library's server side",
  "Tests compare a few literal strings.",
  [HCL],
  [("request building and buffer reuse", HCL + " HttpRequestWriter::write"), ("URI and Host construction", HCL + " sendRequest")])
p("C20", "Flow-controlled reading loses, duplicates and reorders no content",
  "With any read buffer size, consumption pattern and server sending pattern, the content a client hands out through consumption is exactly the response content in order, the exchange finishes once all is consumed, and unconsumed buffered content stays within the documented bound. Consuming never stalls a response for which data has arrived, and consumption on one response never affects the next.",
  ["schedules", "inputs"], "all interleavings up to the bound of server sends, event processing and consumption for a grid of buffer sizes and body sizes, content-length and chunked",
  "One test checks one buffer size with one consumption pattern.",
  [HCL],
  [("bounded reads", HCL + " device_readyRead"), ("resuming after consumption", HCL + " consumeContent")])
p("C21", "Network replies report the exchange faithfully and never share a busy connection",
  "Through the network access manager, any number of concurrent and successive HTTP requests to any hosts each produce one reply that finishes once, with the response's status, headers, content, cookies and redirection target, or with a non-zero error matching what happened, readable from the reply afterwards. Each request carries its own method, headers, content and the cookie jar's cookies, and a connection is reused only when its previous exchange is over and only for the same host and port.",
  ["histories", "schedules", "fault_sequences"], "all histories up to the bound of request starts (operations x two servers), server answers in any order, server failures, reply aborts and deletions, on real loopback sockets",
  "Tests run one request at a time or two in a fixed order.",
  [HCL],
  [("idle client pool", HCL + " NetworkAccessManager::createRequest/client_finished"), ("reply bridging", HCL + " NetworkReply")])
p("C22", "The proxy relays requests and responses unchanged and always ends the exchange",
  "For every request and every upstream response (any status including errors, with or without content, length-delimited, chunked or close-delimited), the client receives the upstream's status, end-to-end headers and exactly its content, and the upstream receives the client's method, path, query, headers and content. If the upstream cannot be reached or fails before its headers, the client gets 503; if it fails later, the response visibly ends (connection closed) instead of hanging; a client that leaves mid-way disturbs no other exchange.",
  ["inputs", "fault_sequences", "histories"], "all products of request shapes x upstream response shapes x failure points, and pipelined or concurrent exchanges up to the bound, on real loopback sockets",
  "Tests proxy a few well-behaved exchanges.",
  ["pillowcore/HttpHandlerProxy.cpp"],
  [("reply pipe", "pillowcore/HttpHandlerProxy.cpp HttpHandlerProxyPipe"), ("request forwarding", "pillowcore/HttpHandlerProxy.cpp createProxiedReply")])
p("C23", "Script handlers see the request faithfully and their failures become errors",
  "A script function receives the request's method, URI, path, query, fragment, headers, parameters and content, and its boolean result decides whether the request is taken. Any script failure before a response was started (an exception of any kind, a missing file or function, a syntax error) gives a 500 and the handler stays usable, and a file-backed handler uses the current script: it loads on first use, again once its file or function name was set to another, and, with auto-reload, after the file changed (also back to an older one). Header values and content are what the request carried, the other fields are percent-decoded.",
  ["programs", "histories", "inputs"], "all script bodies of a behaviour alphabet x request shapes, and all sequences up to the bound of file edits, failures and requests",
  "Tests cover one script error and one reload.",
  ["pillowcore/HttpHandlerQtScript.cpp"],
  [("call and error mapping", "pillowcore/HttpHandlerQtScript.cpp handleRequest"), ("loading and reloading", "pillowcore/HttpHandlerQtScript.cpp HttpHandlerQtScriptFile")])
p("C24", "Header collections and protocol helpers compute what they promise",
  "Header lookup finds the first (or all) values of a field ignoring ASCII letter case and nothing else, and tests of a field's value hold exactly when some header of that field has that value ignoring case; parsing of a raw 'Field: value' literal, concatenation and appending of collections (also onto themselves) preserve every header in order. Number formatting, status texts, HTTP dates and MIME types are right for every value of their domains.",
  ["inputs"], "all pairs of strings over the ASCII bytes (every byte value in every position of short strings), all header lists up to the bound, all status codes, every day of several calendar cycles, and integers around every power of two and ten",
  "Tests try a few values each.",
  ["pillowcore/HttpHeader.cpp", "pillowcore/ByteArrayHelpers.h", "pillowcore/HttpHelpers.cpp"],
  [("case-insensitive comparison", "pillowcore/ByteArrayHelpers.h asciiEqualsCaseInsensitive"), ("collection operations", "pillowcore/HttpHeader.cpp"), ("dates, status texts, MIME", "pillowcore/HttpHelpers.cpp")])
p("C25", "Over TLS, the server gives the same guarantees as over plain sockets",
  "An HTTPS server completes the handshake with its certificate and then delivers each request and response exactly as a plain server does, however application data is divided into TLS records; a client that fails or abandons the handshake never produces a request and disturbs no other client.",
  ["schedules", "inputs", "fault_sequences"], "request/response kinds x record boundaries x abandonment points, on loopback",
  "Tests do one exchange.",
  ["pillowcore/HttpsServer.cpp"],
  [("connection set-up after encryption", "pillowcore/HttpsServer.cpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
