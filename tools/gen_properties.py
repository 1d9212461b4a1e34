#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it to regenerate the file).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Requests are isolated from each other",
  "Everything a handler can observe about its request (route parameters, matched route, request object, per-request store, form and cookie values, written flag and status) and everything the client receives is determined by that request and the engine's configuration alone. No value belonging to another request, concurrent or earlier, completed or aborted by a panic, is ever visible, even though per-request contexts are recycled. In particular a route without parameters sees no parameters, and each request starts with an empty per-request store, an unwritten response and an unparsed form.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent requests on one engine, every preceding request history (including 404s, panics and aborted bodies), every recycling behaviour of the context pool",
  "The existing tests send one request at a time to a fresh engine, so a context is never recycled between different routes and two requests never overlap.",
  ["engine.go", "context.go", "environ.go", "params.go", "query.go", "content.go"],
  [("context taken from a pool and reset per request", "engine.go:ServeHTTP"), ("reset of per-request state", "context.go:reset"), ("fresh per-request store", "engine.go:ServeHTTP")],
  [("ctxPool", "recycled contexts", "engine.go"), ("Params/Environ/endNode/parsedParams", "per-request state carried by the context", "context.go")],
  ["handler-visible context API", "client-visible response"])

p("C02", "Handlers run in order, at most once, scoped to their group",
  "For every dispatched request the handlers run in the order: engine-wide Before handlers, router-level middleware, middleware of each enclosing group from outermost to innermost, then the route's own handlers, and each runs at most once. The chain advances when a handler returns without having written a response or when it explicitly continues, code after an explicit continue runs in reverse order, and once a response has been written no further handler is started implicitly. Middleware given to a group applies to every route of that group and to no route outside it; a request that matches no route runs the Before handlers followed by the not-found handlers when such handlers are configured.",
  ["schedules", "programs", "configurations", "fault_sequences"],
  "every nesting of groups and middleware, every combination of continue/write/return/panic decisions by the handlers, under every interleaving of concurrent requests sharing the chains",
  "Tests check a single flat middleware at most and never look at the order of nested or interrupted chains, nor at two requests in the same chain at once.",
  ["context.go", "router.go", "engine.go", "option.go"],
  [("chain cursor and continue", "context.go:run/Next"), ("assembly of the handler list from the router tree", "router.go:getRoute/Group/Use/Before"), ("Before + not-found chain", "router.go:Handler")],
  [("index", "position in the chain", "context.go")],
  ["order of handler entries and exits"])

p("C03", "Dispatch depends only on the route table and the request",
  "A request is dispatched to the route chosen by its method and by segment-wise precedence (literal, then constrained, then named, then catch-all, registration order within a class, with backtracking), receives exactly the parameters that route declares with the text the path carries at those places, and reports that route's full path. Which route is chosen never depends on earlier or concurrent requests nor on whether the static fast path is enabled. Requests that match nothing get 404 (or the not-found handlers), unknown methods get 405 and unsupported protocol forms get 406, and none of them reaches a route handler.",
  ["schedules", "histories", "configurations", "inputs"],
  "every route table, request path and method, every order and interleaving of requests on the shared route tree, fast path on or off",
  "Tests match fewer than twenty hand-picked paths, each on a private tree with one route and one lookup.",
  ["tree.go", "router.go", "engine.go"],
  [("tree construction in precedence order", "tree.go:addEndNode/addSubNode"), ("backtracking match", "tree.go:matchNextSegment/matchEndNode/matchSubNode"), ("static fast path", "engine.go:ServeHTTP/buildTree"), ("protocol and method gate", "engine.go:ServeHTTP")],
  [("routers/routersStatic", "immutable match structures shared by all requests", "engine.go")],
  ["route reached, parameters, full path, status"])

p("C04", "A panicking request is contained",
  "With the recovery middleware in the chain, a panic at any point of the handlers behind it (including while reading the body, parsing a form, or writing to a broken connection) never reaches the server; if nothing had been sent the client gets exactly one 500, otherwise the status already sent stands. In stable mode the text of the panic is never sent to the client. With or without the recovery middleware, a panicking request leaves the engine fully usable: later and concurrent requests behave as if it had never happened.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "a panic at every step of every handler position, before, during and after output and body input, interleaved with other requests",
  "No existing test makes a handler panic.",
  ["m_recovery.go", "engine.go", "context.go", "content.go"],
  [("deferred recover turning a panic into a 500", "m_recovery.go:Recovery"), ("context is not recycled when a panic unwinds through the engine", "engine.go:ServeHTTP")],
  [("written/status", "whether a status has been committed", "context.go")],
  ["panic escaping to the server", "client-visible status and body", "behaviour of later requests"])

p("C05", "One status per response, and the reported one is the one sent",
  "Whatever combination of response helpers, direct writes, redirects, file serving, static serving and middleware a request goes through, at most one status line is sent to the connection and the first one wins. From that moment the framework reports the response as written with exactly the status the client was sent, and before it as unwritten, so later handlers are not started and wrapping middleware (logger, recovery) act on the true status. This holds also when writes fail part-way or the client has gone.",
  ["programs", "fault_sequences", "schedules"],
  "every sequence of output operations by every handler of a chain, with the connection failing at every byte offset",
  "Tests only look at a recorder that tolerates duplicate status lines, and never combine two outputs in one request.",
  ["context.go", "content.go", "m_static.go", "m_recovery.go", "m_logger.go"],
  [("first-writer-wins status", "context.go:WriteHeader/Write"), ("output helpers built on the context", "content.go"), ("static file handler", "m_static.go:StaticAdvance")],
  [("written/status", "committed response state", "context.go")],
  ["status lines seen by the connection", "Written()/Status()"])

p("C06", "Response helpers deliver what they were asked to deliver",
  "Each response helper (text, HTML, raw data, JSON, XML, redirects, streams) makes the client receive the given status, the content type that helper stands for, and exactly the given content. When the connection fails, the client has received a prefix of that content and helpers that return an error return one; a stream whose source fails returns that failure after delivering exactly what the source had produced.",
  ["fault_sequences", "inputs", "schedules"],
  "every content, status and helper, with the connection accepting only the first n bytes for every n, sources producing arbitrary fragment sizes and failing anywhere, and other requests interleaved",
  "No existing test checks a response header or an error returned by a helper; a recorder shows headers that a real connection would never have sent.",
  ["content.go", "context.go", "render.go"],
  [("helper sets content type and commits status, then writes", "content.go:String/Data/HTMLRaw/JSON/XML"), ("stream copy", "content.go:Stream"), ("content sniffing on first write", "context.go:Write")],
  (), ["status, headers and bytes at the connection", "helper results"])

p("C07", "Request bodies reach handlers intact",
  "A handler that reads the request body gets exactly the bytes the client sent, in order and complete, however the connection fragments them and whichever middleware (in particular the request logger) is installed. If the body cannot be read to its end, because the client disconnects or the connection errors at any byte, the handler's read reports a failure; a cut-off body is never presented as a complete one.",
  ["fault_sequences", "inputs", "schedules"],
  "every body content and size (including larger than the logger's capture limit), every fragmentation, every failure offset, under concurrent requests",
  "Existing tests never run the logger on a request with a body, and never use a body that fails.",
  ["m_logger.go", "content.go"],
  [("logger reads ahead and re-provides the body", "m_logger.go:Logger"), ("body accessors", "content.go:BodyBytes/BodyString/ReadCloser")],
  (), ["bytes and error returned to the handler"])

p("C08", "Binding never accepts a damaged or misread body",
  "Binding a request (JSON, XML, form, multipart, query, header) either fills the target with exactly the values the complete input carries, defaults included, after its validation rules pass, or it fails visibly (an error, or a panic for unparsable forms). It never succeeds on a body that was cut off or whose reading failed before the document's end, never stores a number that is not the one in the input, and never lets a concurrent bind of another request influence the result.",
  ["fault_sequences", "inputs", "schedules"],
  "every document, fragmentation and failure offset, concurrent binds sharing the validator and decoder caches",
  "Existing tests bind complete in-memory bodies one at a time; no read ever fails and no numeric value is out of range.",
  ["binding/json.go", "binding/xml.go", "binding/form.go", "binding/map_form.go", "binding/mapping.go", "binding/validator.go", "binding/query.go", "binding/header.go", "content.go"],
  [("decoder over the request body, then validation", "binding/json.go, binding/xml.go"), ("form parse and field mapping", "binding/form.go, binding/map_form.go"), ("dispatch on method and content type", "content.go:Bind, binding/binding.go")],
  [("Validator", "process-wide validator with caches", "binding/validator.go")],
  ["bound object and error"])

p("C09", "Static files come only from the configured file system",
  "A static route answers only with content of the file the request names inside the configured file system: full, range and conditional responses are byte-exact, HEAD has no body, missing or unopenable files give 404, a directory answers with its index file from that same file system, and a not-modified answer is given only for the version the client named. A file-system failure (open, stat, seek, read, at any byte) never yields a response that looks complete but carries other bytes. Every file opened for a request is closed by the time the request ends, on every path including panics.",
  ["fault_sequences", "inputs", "histories", "schedules"],
  "every file tree, path, conditional or range header and modification history, every file-system operation failing at every point, concurrent requests and changing files",
  "The existing test requests two existing files and only checks that the status is not 404; the file system never fails and no directory is requested.",
  ["m_static.go", "content.go", "util.go"],
  [("open/stat/serve through the file-system interface", "m_static.go:StaticAdvance"), ("entity tags", "util.go:GenerateETag")],
  (), ["bytes at the client", "open/close calls at the file system"])

p("C10", "A saved upload is an exact copy or an error",
  "Saving an uploaded file reports success only if the destination then holds exactly the uploaded bytes (any previous longer content gone) and the operating system accepted all of them, including at close. Any failure to open, read, write (short write, full disk) or close is returned as an error. Both files are closed on every path.",
  ["fault_sequences", "inputs", "schedules"],
  "every upload size and memory/disk threshold, every disk operation failing at every byte offset, pre-existing destination content, concurrent uploads",
  "No existing test saves an upload, and none injects a disk failure.",
  ["content.go"],
  [("open destination with truncation, copy, close", "content.go:SaveUploadedFile")],
  (), ["destination bytes, returned error, open handles"])

p("C11", "A stalled or failed request never blocks the others",
  "A request that stalls anywhere (in a handler, reading a slow body, writing to a slow client, opening a slow file, emitting its log line) never prevents other requests on the same engine, or the construction of another engine, from completing. Once injected faults stop, every request completes within a bounded number of its own steps.",
  ["schedules", "fault_sequences"],
  "every point at which one or more requests stop making progress, every set of other requests",
  "Existing tests never have two requests in flight.",
  ["engine.go", "context.go", "m_logger.go", "m_static.go", "router.go"],
  [("no lock is held while request code, I/O or logging runs", "engine.go:ServeHTTP")],
  (), ["completion of the other requests"])

p("C12", "The access log tells the truth",
  "With the logger enabled every request whose chain returns through it produces exactly one access record, carrying that request's own method, URL, client address, trace id, body (for logged JSON bodies) and, when a status had been sent by the time the chain returned to the logger, that status, together with a duration that covers the request's handling and is never negative. Records of concurrent requests are never mixed, merged or lost, and a failing or slow log sink does not change any response. With logging closed there is no record and the chain is unaffected.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of requests around the logger, every handler outcome (normal, recovered panic, write failure), clock advances, log-sink failures",
  "Existing tests never inspect log output.",
  ["m_logger.go", "m_recovery.go", "util.go"],
  [("measure, continue, then one formatted record", "m_logger.go:Logger")],
  (), ["records at the log sink", "responses"])

p("C13", "Cross-origin grants follow the configuration per request",
  "For every request passing the CORS middleware the response grants cross-origin access exactly as the configuration decides for that request's own origin, method and requested headers: an origin that is not allowed is never named or granted, credentials, exposed headers and cache age appear only as configured. Preflight requests are answered with 204 and reach no handler, other requests continue along the chain with the grant headers sent together with the status. The decision is never influenced by other requests.",
  ["schedules", "configurations", "inputs"],
  "every configuration and request origin, every interleaving of requests with different origins through one middleware instance",
  "No existing test exercises the CORS middleware.",
  ["m_cors.go"],
  [("per-request decision over the shared configuration", "m_cors.go:CORS")],
  (), ["response headers at the client"])

p("C14", "Engines in one process do not affect each other",
  "Building, configuring or using one engine never changes how another engine in the same process answers: each keeps its own routes, not-found handling, static fast path and upload memory limit (32 MB when none is configured), whether the other engine was built before, after or while requests are being served. Building two engines from one router gives two engines that answer alike.",
  ["histories", "schedules", "configurations"],
  "every order and interleaving of engine construction and request handling on several engines",
  "Existing tests never look at one engine after another has been built.",
  ["router.go", "option.go", "content.go", "engine.go", "binding/form.go"],
  [("per-engine options", "router.go:Handler, option.go"), ("upload memory limit applied when a multipart form is parsed", "content.go:ParseFormOrMultipartForm")],
  [("multipart memory limit", "must be per engine", "content.go, binding/form.go")],
  ["where uploads are held, responses of each engine"])

p("C15", "Serving concurrently is free of data races",
  "While an engine serves any number of requests concurrently, through its router, middlewares, helpers, binding and static serving, no two of them access the same memory without synchronisation where one access is a write. The same holds between serving on one engine and constructing another.",
  ["schedules"],
  "every interleaving of concurrent requests and engine construction",
  "Existing tests are single-threaded; the race detector alone cannot see overlap that never happens.",
  ["engine.go", "tree.go", "context.go", "m_cors.go", "m_logger.go", "m_static.go", "router.go", "binding/validator.go"],
  [("immutable route structures after construction", "router.go:Handler, engine.go:buildTree"), ("contexts owned by one request at a time", "engine.go:ServeHTTP")],
  (), ["happens-before analysis of every memory access under the simulated schedule"])

p("C16", "Downloads are byte-exact or visibly failed",
  "Serving or downloading a named file and sending an attachment deliver exactly the file's bytes (or the requested range) with the disposition and file name asked for. A file that cannot be opened, examined or is a directory is reported to the caller as an error with nothing sent, and content that fails part-way never yields a response that looks complete. The file is closed on every path.",
  ["fault_sequences", "inputs", "schedules"],
  "every file, range and disposition, every file operation or connection write failing at every point",
  "No existing test downloads a file.",
  ["content.go", "util.go"],
  [("open, stat, headers, serve", "content.go:Download"), ("attachment over a seekable reader", "content.go:Attachment"), ("serve file through the context", "content.go:ServeFile/File")],
  (), ["bytes and headers at the client, returned error, open handles"])

p("C17", "Form and query access is consistent and never hides a bad body",
  "Within one request all form and query accessors (single, array, map, defaulted, typed) agree on one parse of the query string and the body, in whatever order, number, handler or fragmentation they are used: present values are returned trimmed, absent ones as empty or the given default, body values before query values. If the query or body cannot be parsed or read completely the first access fails visibly instead of reporting values as absent.",
  ["fault_sequences", "inputs", "schedules", "histories"],
  "every form content, access order, body fragmentation and failure offset, on contexts recycled from requests with other forms",
  "No existing test calls the accessors.",
  ["query.go", "content.go"],
  [("parse once per request, then read", "content.go:ParseFormOrMultipartForm, query.go")],
  [("parsedParams", "whether this request's form was parsed", "context.go")],
  ["accessor results"])

p("C18", "Advanced responses (flush, hijack) keep the response state true",
  "In the extended build, flushing commits the response: if no status was sent before, 200 is sent with the headers set so far, and from then on the response counts as written with that status. After a connection has been hijacked the framework sends nothing more on it on behalf of that request, and no later handler is started implicitly. Middleware wrapping such handlers (recovery, logger) neither sends a second status nor reports a different one.",
  ["programs", "schedules", "fault_sequences"],
  "every combination of flush, hijack, write, panic and middleware in a chain, under concurrent requests",
  "The extended build is not compiled by the existing tests.",
  ["response_advanced.go", "context.go", "m_recovery.go"],
  [("advanced response interface exposed through the context", "response_advanced.go")],
  (), ["operations reaching the connection"])

# pure functions of their input: stated for completeness, not simulation targets
p("C20", "Typed accessors convert exactly",
  "Typed accessors for parameters, cookies and per-request values return the standard conversion of the text, and a failed conversion yields the type's zero value (or the error in the variants that return one).",
  ["inputs"], "every input text and type",
  "Existing tests do not call them; the set of texts is unbounded.",
  ["params.go", "cookie.go", "environ.go"], [("strconv wrappers", "params.go, cookie.go")])
p("C21", "Malformed route tables are rejected at construction",
  "Registering the same method and pattern twice, a nil or unsupported handler, an empty handler list, a pattern without leading slash or with a trailing slash, or an ill-formed constraint panics while the router is built, and never silently drops or alters a route.",
  ["programs", "inputs"], "every registration sequence",
  "Existing tests register only valid tables.",
  ["router.go", "tree.go", "util.go"], [("checks at registration", "router.go:add/handle/Handler, tree.go:analyzePattern")])
p("C22", "Client address, protocol and content type are derived from headers",
  "The client address is the real-ip header, else the first forwarded address, else the peer address; protocol, content type, ajax and websocket detection are fixed functions of the request headers.",
  ["inputs"], "every header combination", "Existing tests do not call them.",
  ["util.go", "content.go"], [("header inspection", "util.go:requestRealIp, content.go")])
p("C23", "Cookies are emitted with the requested attributes",
  "Setting a cookie adds one response cookie with the given name, value, age, path, domain, security flags and same-site mode.",
  ["inputs"], "every argument combination", "Existing tests do not call it.",
  ["cookie.go"], [("argument mapping", "cookie.go:SetCookie")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
