import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
p("C01","Request paths resolve to exactly the right route",
 "For any legal set of registered routes and any request path, the request is served by the route chosen by precedence (at each segment a literal beats a `:name:verb` parameter, which beats a plain `:name` parameter, with backtracking out of a choice that cannot complete; a `*:name` wildcard is used only when nothing below its parent matches, the deepest such wildcard first), and it gets the not-found response when no registered pattern matches (the path of a route group is itself a registered pattern). The handler sees the pattern of the chosen route, and exactly that pattern's parameters with the exact segment texts (for a wildcard, all remaining segments joined by `/`). Redundant slashes, dot segments and surrounding spaces in the request path do not change the outcome.",
 ["inputs","configurations","programs"],"every legal set of route patterns (in any registration order and nesting) and every request path",
 "Test_UrlRoute and friends sample a dozen URLs on one hand-written route tree; precedence, backtracking and parameter capture interact over all trees and paths.",
 ["router.go","router_util.go"],[("tree descent with backtracking","router.go: (*route).match"),("tree construction","router.go: (*route).configRoutes"),("path normalisation","router_util.go: splitRoutePath"),("route info","router.go: calcPath, paramList.values")],
 ["response body/status of ServeHTTP","RouteInfo injected into the action"],[("route tree","registered patterns","router.go: route")])
p("C02","Route registration accepts legal route sets and rejects conflicts",
 "Registering routes fails loudly exactly when a position already has a parameter (or wildcard) with a different name, when a wildcard is not the last segment, or when the nested path given is empty or `/`, and every other set of patterns is accepted. Registering a pattern again, in the same or a later registration call, extends the existing route: methods declared later are added, replace the same method, and leave all other methods and routes as they were.",
 ["inputs","configurations","programs"],"every sequence of registration calls over patterns of literals, parameters, verb parameters and wildcards",
 "Four tests cover one conflicting pair each; merging and conflict detection depend on the whole set and its order.",
 ["router.go","router_util.go"],[("conflict checks and node reuse","router.go: (*route).configRoutes"),("root path rejected","router.go: Router")],["panic / no panic of Routers()","responses afterwards"])
p("C03","The HTTP method selects exactly the declared action",
 "On a matched route the action run is the one declared for the request method (compared case-insensitively); HEAD without its own declaration uses the current GET declaration; otherwise the declaration for all methods is used (for a controller object, its method named after the request method if it has one, else its fallback action), otherwise the catch-all declaration. If none of these exists the not-found response is produced and no action runs. A declaration whose action the handler lacks (a controller object without that exported method, any named action on a function, or a value that is neither) is refused when it is made or registered; no other is.",
 ["inputs","configurations","programs"],"every combination of per-method, all-method and catch-all declarations, controller shape, custom action names and request method spelling",
 "Test_Action_Method checks one declaration per method; the precedence between declarations and controller shapes is not covered.",
 ["router.go","router_action.go","router_method.go"],[("method dispatch","router.go: (*routeRoot).handle"),("declaration","router.go: (*route).configRoutes"),("method to action name","router_method.go: method.action")],["which action ran"])
p("C04","Each action runs with exactly its configured filters, in order",
 "For every action, the application's filters run first (each distinct one once), then the filters of each enclosing route from outermost to innermost and those of the method declaration, each distinct one of these once at its first position, minus the filters exempted by an enclosing route or by that method; a filter given as a maker is made anew for every request. An exemption or an added filter of one route or method never changes the filters of a sibling, an ancestor, or the application; application-wide filters cannot be exempted.",
 ["configurations","programs"],"every nesting of routes with filters and exemptions on routes and methods",
 "Test_Filter checks a single chain; composition, deduplication and exemption must hold for every nesting and be free of aliasing between siblings.",
 ["router.go","router_filter.go","app.go"],[("append with dedupe / remove","router_filter.go: filters.append, filters.remove"),("inheritance","router.go: (*route).configRoutes")],["execution order log of filters and action"])
p("C05","The handler chain runs each step once and stops after a response",
 "Handlers (filters, then the action) run strictly in order, each at most once per request; a handler that yields control to the rest of the chain regains it only after every later handler that runs has finished. Once a handler has returned with the response started, no handler that it did not explicitly yield to is run, and as long as no response is started every handler runs.",
 ["inputs","programs","histories"],"every chain of handlers, each of which may yield before, after or between writing a status or body, across application, route and not-found chains",
 "Test_Filter_Context covers one onion of three filters; double execution or skipping shows only for particular combinations of yielding and writing across the two nested chains.",
 ["context.go","router.go","app.go"],[("index-driven loop","context.go: run, Next, handler"),("nested chain","context.go: newNestContext")],["enter/exit log of every handler"])
p("C06","Controllers run on a fresh copy with converted path parameters",
 "Each request to a controller object runs on its own copy of the registered prototype, with prototype field values preserved, injected fields filled from that request's scope, and nothing a request writes to its controller visible to any other request. The positional arguments of the action are the path parameters in path order converted to the declared types; a missing or unconvertible parameter yields the zero value and extra parameters are ignored.",
 ["inputs","histories","programs"],"every action signature over the supported scalar types, every path parameter text, every request sequence",
 "Test_StructAction passes one int parameter; conversion edge values, arity mismatches and cross-request leakage are not sampled.",
 ["router_action.go","app_util.go"],[("fresh struct + Apply","router_action.go: callStructFunc"),("conversion","app_util.go: convertStringAsType")],["arguments and field values seen by the action"])
p("C07","Values returned by an action become the response",
 "With the generic output filter installed, an action's returned values become the response if and only if nothing was written before: a trailing int is the status and the value before it (or the last value) the body, rendered by its kind (text, bytes, reader, handler, or self-writing result). A closable reader used as the body is closed, however reading it ends (exhausted, an error, a panic). An action returning nothing or nil as body leaves the body empty, and the status defaults to 200.",
 ["inputs","programs"],"every supported return signature and value, with and without an earlier write by a filter or by the action",
 "No test runs the output filter; every return kind has its own rendering path.",
 ["router_action_out.go"],[("output filter","router_action_out.go: GenericOutFilter")],["status line and body received by the client"])
p("C08","The response head is committed once, after hooks in reverse order",
 "For every sequence of status, body, flush and hook-registration calls a handler makes, the client receives exactly one response head: the last status set before the head is committed (200 if none), with headers as they stand after the before-write hooks have run exactly once, in reverse registration order, ahead of the head; it is committed no later than the end of the request and nothing changes it afterwards. The body is the concatenation of the writes, a flush lets everything written before it leave for the client, and the reported status, size and written state always agree with what was sent (or, before that, set). On a connection a handler has taken over, no head is sent.",
 ["inputs","histories"],"every sequence of WriteHeader, Write, Flush, Hijack, Before and header changes, including none",
 "No test touches the response writer besides Hijack; ordering effects appear only over call histories.",
 ["response.go","app.go"],[("once-guarded commit","response.go: Write"),("deferred status","response.go: WriteHeader"),("final flush","app.go: ServeHTTP")],["calls seen by the underlying http.ResponseWriter"],[("status/size/hooks","writer state","response.go: responseWriter")])
p("C09","A panicking handler never takes down or corrupts other requests",
 "With the recovery filter outermost, a panic anywhere later in the chain is contained to its request: the client gets status 500 if no status had been set (with an HTML report only in development mode), otherwise the status and body already set stay as they are; exactly one error record is logged. The server goes on serving, and later requests behave as if the panicking request had not happened.",
 ["inputs","fault_sequences","histories"],"every panic position (filter before/after yielding, provider, action), panic value, prior response state and run mode",
 "No test exercises the recovery filter.",
 ["recovery.go","context.go"],[("deferred recover","recovery.go: RecoveryFilter")],["status, body, log output, later responses"])
p("C10","Dependencies resolve by type and name from the nearest scope",
 "A requested dependency (found, injected into a field, or passed as argument) receives the value of the most recent registration for its type and name in the nearest enclosing scope that has one (for a provider function, the result remembered in the requesting scope, if there is one), and different types or names are never confused. If there is none, or the provided value cannot be assigned, an error is reported rather than a wrong or missing value; a struct's untagged or excluded fields are never touched.",
 ["programs","configurations","histories"],"every set of registrations of values and providers over types (named, unnamed, interface) and names in a chain of scopes, and every query",
 "inject tests look up a handful of types in two scopes.",
 ["inject/inject.go","inject/inject_provider.go"],[("keying","inject/inject_provider.go: createName"),("scope chain","inject/inject.go: get"),("field injection","inject/inject.go: apply")],["found values and errors"])
p("C11","Providers run at most once per scope until replaced",
 "Within one scope, a provider function runs at most once no matter how many lookups, injections or calls depend on it, and all of them get the same result until it is registered anew in that scope, after which the new provider's result is used; a provider from an outer scope runs separately for each inner scope that uses it and its result is visible only there. Functions that are directly invoked run on every invocation, whatever their result type, and never disturb remembered results.",
 ["programs","histories"],"every history of registrations, lookups, field injections and direct invocations over a chain of scopes",
 "Test_InvokeCache checks one provider once; memoisation errors need particular histories across scopes.",
 ["inject/inject.go","inject/inject_provider.go"],[("per-scope cache","inject/inject_provider.go: invoke"),("invalidation","inject/inject.go: ProvideAs")],["provider run counters and identities of results"],[("caches","results per scope","inject/inject.go: injector")])
p("C12","Dependency resolution always terminates; cycles and gaps are errors",
 "Resolving any dependency graph terminates: if everything reachable is registered and acyclic it succeeds, and if a needed registration is missing or the needed providers form a cycle it returns an error instead of hanging, crashing or calling a provider without its arguments. Apart from results already remembered in the scope, whether it succeeds does not depend on earlier lookups, on the order of lookups, or on other scopes having used the same providers.",
 ["programs","histories"],"every dependency graph over a chain of scopes with overrides, and every order of lookups",
 "Test_CycleDependencies tries one cycle; shadowed providers in inner scopes and earlier successful lookups change what the resolver sees.",
 ["inject/inject_provider.go"],[("cycle status","inject/inject_provider.go: invoke")],["success / error of Find, Apply, Invoke"])
p("C13","Concurrent requests are isolated from one another",
 "Whatever the interleaving of concurrent requests to one application, each request's handlers observe only that request's own request object, response writer, route information, context, provider results and controller copy, and each response equals the one the request would get if run alone. Application-scope registrations stay unchanged by serving requests.",
 ["schedules","programs"],"every interleaving of handler, provider and action steps of concurrently served requests",
 "All tests serve requests one at a time; leakage needs overlapping requests.",
 ["app.go","context.go","router_action.go","inject/inject_provider.go"],[("per-request injector with the application as parent","app.go: ServeHTTP"),("fresh controller","router_action.go: callStructFunc")],["per-request observations and responses"])
p("C14","The worker pool bounds concurrency and loses no accepted task",
 "For every schedule, at most the configured number of tasks run at once, every task submitted while the pool is open runs exactly once, submission blocks only while the pool is full, and waiting returns only after all previously accepted tasks have completed. Nothing deadlocks, and after waiting, an open pool can be used again.",
 ["schedules","programs"],"every interleaving of submitters, tasks, waiters and closers for every pool size",
 "TestWorker runs one free schedule with sleeps; lost or duplicated tasks and deadlocks need particular interleavings.",
 ["utils/worker.go"],[("semaphore channel + wait group","utils/worker.go: RunTask, done, Wait")],["start/end events of tasks, returns of calls"],[("pools","slots in use","utils/worker.go: Worker")])
p("C15","A failing task closes the worker pool and is reported by Wait",
 "When tasks return errors, the pool stops accepting tasks, tasks already accepted still complete, and the next wait that covers a failed task returns the error of the failure that closed the pool, once. Tasks submitted after the pool is closed (by a failure or explicitly) never run, and explicit closing by itself produces no error.",
 ["schedules","programs","fault_sequences"],"every interleaving of submissions, successes, failures, closes and waits",
 "TestWorkerWaitErr sleeps long enough to hide every race between completion and error recording.",
 ["utils/worker.go"],[("close on first error","utils/worker.go: run, close"),("error hand-over","utils/worker.go: Wait")],["Wait results and task executions"])
p("C16","Configuration lookups follow environment, file, then parent order",
 "The value of `section::key` is the non-empty environment variable derived from it, otherwise the layer's own non-empty value, otherwise that of its parent layers in order, otherwise the default asked for, if any, otherwise empty; a file yields exactly the sections, keys and values its INI text denotes (comments, quoting, byte-order mark, auto-numbered keys, last assignment wins) and malformed text is refused. Loading leaves no file open, whatever the file holds, and a file that cannot be read is refused. The classic loader gives later files (override over app over default, mode-specific over generic, listed directory over working directory, explicit files last) precedence, and reports each file it cannot use.",
 ["inputs","configurations"],"every chain of layers, INI text, environment and file set",
 "config tests read two fixed files (and fail without fixtures).",
 ["config/config.go","utils/helpers/config.go"],[("lookup chain","config/config.go: Find"),("parser","config/config.go: loadFromReader"),("file order","utils/helpers/config.go: LoadConfigFiles")],["Find, ListSection, errors"])
p("C17","Configuration binding assigns exactly the converted values",
 "Binding configuration into variables or tagged structs (nested sections, embedded structs, pointers) sets each bound variable of a supported kind to the converted configured value, and leaves it untouched when the key is absent or empty; unparsable values give the kind's zero value, lists are split on commas with blanks dropped, and no input crashes it. Untagged and excluded fields are never modified. The application's own settings come from the environment or built-in defaults and are bound in the same way when a configuration is imported, a configuration imported later changes only what it names, and the application is in the mode its settings name.",
 ["inputs","configurations"],"every scalar kind, boundary value and struct shape",
 "Test_ConfigBind and Test_StructValue bind single sample values.",
 ["config.go","app_util.go","config/config_parse.go"],[("bind","config.go: (*Config).Bind"),("conversion","app_util.go: convertStringAsType, StrTo"),("struct walk","config/config_parse.go: Decode, parseSection")],["values after binding"])
p("C18","The unified parameter view merges query, route and body exactly",
 "A request's unified parameter values are, for each name, the query values followed by the route values followed by the body form values, each exactly as sent and exactly once, for url-encoded and multipart bodies alike, and the per-source views contain exactly their own source. Uploaded files are readable with their exact content by the handlers that run after parsing, and none is left on disk once the request is over.",
 ["inputs"],"every query string, route parameters and form or multipart body with overlapping names",
 "params tests build the parameter object by hand and do not run the parser.",
 ["params/params.go"],[("merging","params/params.go: calcValues"),("parsing","params/params.go: ParseParams, ParamsParser")],["Values, Query, Route, Form, Files"])
p("C19","Parameter binding is exact or yields the zero value",
 "Binding a parameter to a scalar, time, pointer, slice, map or struct type gives the exact value the text denotes, or the type's zero value when it is missing, unparsable or out of the type's range (a pointer is nil exactly when its parameter is missing, and otherwise points to what its element type binds to; a missing collection is empty); it never wraps, truncates, crashes or touches unrelated fields. Indexed list elements land at their index (indexes which are unreasonably large, negative or no numbers are ignored) and un-indexed ones are appended in order. A JSON body binds to exactly its value, numbers kept as written if so asked; an invalid one is an error and an empty one changes nothing.",
 ["inputs"],"every supported target type and every parameter text and key shape",
 "params tests bind one well-formed sample per type and do not pass today.",
 ["params/binder.go","params/params.go"],[("binders by kind","params/binder.go: Bind and KindBinders"),("struct binding","params/params.go: bindValuesToStruct")],["bound values"])
p("C20","Signed values verify only as issued and never after tampering",
 "A signed value decodes, under the same key, to exactly the text and time it was issued with, and no altered, truncated, re-combined or foreign-key value decodes as valid. Empty text or an empty key can neither be signed nor verified.",
 ["inputs","histories"],"every text, key, time and every alteration or recombination of issued values an attacker can make",
 "utils_test and remember_test decode unmodified values and one wrong key.",
 ["sessions/utils.go"],[("HMAC encode/decode","sessions/utils.go: EncodeSecureValue, DecodeSecureValue")],["decode results"])
p("C21","Sessions keep their data per client until destroyed or expired",
 "A client presenting its session cookie gets the same session id and exactly the data last saved under it until the session is destroyed, regenerated, or its lifetime passes; any absent, forged or expired cookie yields a fresh, empty session with a new id and cookie. Regenerating moves the data to a new id and invalidates the old one, destroying removes data and cookie, unsaved changes are never lost by a failed save that is retried, and backend failures never crash and are reported whenever data could not be read, saved or moved. No call keeps a pooled back-end connection once it has returned.",
 ["histories","fault_sequences","inputs"],"every history of start, set, delete, flush, touch, regenerate, destroy, clock advance and backend failure by several clients",
 "sessions tests follow one scripted happy path and need live databases.",
 ["sessions/manager.go","sessions/provider.go"],[("cookie to session","sessions/manager.go: Start, ReadSidFromRequest"),("store","sessions/provider.go: sessData, sessProvide")],["session ids, values, cookies, errors"],[("sessions","saved data by id","sessions/provider.go")])
p("C22","Remember-me cookies identify only the user they were issued to",
 "A remember-me cookie is accepted, and yields its user key and verification hash, only if it was issued as a remember-me cookie by this server and is within its lifetime; the hash verifies only for that same user key and that user's current salt, within the lifetime. Any other cookie value, including valid cookies of other kinds, is rejected.",
 ["inputs","histories"],"every history of issuing, salt change, clock advance, alteration and swapping of cookies between users and purposes",
 "remember_test checks the happy path and an expired case.",
 ["sessions/remember.go"],[("nested signed values","sessions/remember.go: HasRemember, ValidRemember, WriteRemember")],["HasRemember, ValidRemember results"])
p("C23","All cache back ends behave as one expiring key-value map",
 "Through every back end a key returns the last value stored under it (in text form), incremented and decremented as asked, until it is deleted, cleaned or its timeout since the last set or touch passes (positive seconds; default one minute when zero or absent; never when negative), and from then on behaves as never stored: lookups miss, and touch, delete and arithmetic report a missing key, and a garbage collection leaves nothing of it and touches nothing else. Keys with different names never affect each other, a back-end failure is reported and never mistaken for a miss, and values and timeouts of any size in range work alike. A call keeps none of the back end's pooled connections once it has returned, failed or not.",
 ["histories","inputs","fault_sequences"],"every history of operations and clock advances over several keys on each back end, with and without back-end failures",
 "The test needs live servers and scripts one history without time passing.",
 ["caches/caches.go","caches/provider_memcache.go","caches/provider_redis.go","caches/provider_mgo.go"],[("timeouts","caches/caches.go: getTimeoutDur"),("memcached","caches/provider_memcache.go"),("redis","caches/provider_redis.go"),("mongodb","caches/provider_mgo.go")],["results of every call"],[("map","key to value and deadline","back end")])
p("C24","Static serving exposes exactly the files under its directory",
 "The static filter answers only GET and HEAD (unless told otherwise) below its prefix and outside its skipped prefixes, and lets every other request pass through untouched. A request it answers gets exactly the content of the file the remaining path names inside the served directory (a directory redirects, on the same host, to its slash form, and that serves its index or 404), else, when the path names nothing, the configured fallback file, else 404; no path ever yields content from outside the directory, and no file stays open afterwards.",
 ["inputs","configurations"],"every prefix, skip list, fallback option, directory tree, method and request path, including dot-dot, encoded and repeated-slash paths",
 "Test_WrongPath tries one traversal.",
 ["static-serve/static.go"],[("path mapping","static-serve/static.go: ServeFilter")],["status, body, location, pass-through, open descriptors"])
p("C25","Compression never changes what the client decodes",
 "With the compression filter installed (once or more than once), a client that accepts gzip decodes exactly the bytes the handlers wrote, with the status they set, and a client whose Accept-Encoding does not mention gzip receives them unmodified and unlabelled; a compressed response is labelled as such and as varying with Accept-Encoding (besides what it varied with already), carries no stale length and announces the type a handler chose or else the one the first bytes have, and an uncompressed or empty one is not mis-decodable. After a flush the client can decode everything written so far. This holds for every pattern of writes, flushes, panics and other filters around it.",
 ["inputs","programs"],"every sequence of handler writes, sizes, header settings, panic points and accept headers",
 "Test_GzipAll checks headers of a 404 only.",
 ["gzip/gzip.go","recovery.go"],[("writer swap","gzip/gzip.go: All, gzipResponseWriter")],["decoded body, status, headers"])
p("C26","Every request carries one consistent request id",
 "With the request-log filter, each request has one id: the client's own when its length is 10 to 32, otherwise a new one of such length (which decodes to the time it was made and no other request is given), then as rewritten by the configured filter; the same id is in the request seen by later handlers, in the response head whatever handlers do to that header, in the request-scoped logger by injection and by context, and on every record logged for the request. Each request logs one begin record, which names its method, URL and client (the address a proxy names in X-Real-Ip, else the first in X-Forwarded-For, else the peer's), and, when its chain returns, one end record with the final status and size, in that order, and concurrent requests never share or mix ids or records.",
 ["inputs","schedules","programs"],"every incoming id, option set, handler behaviour and overlap of requests",
 "reqlogger tests only check the client address helper.",
 ["request-logger/logger.go","request-logger/reqid.go"],[("id choice and propagation","request-logger/logger.go: ReqLoggerFilter"),("header hook","request-logger/logger.go: Before")],["response headers, log records, injected loggers"])
p("C27","The logger emits exactly the enabled records, one line each",
 "A record is printed exactly when its severity is at or above both the logger's and the global threshold, as one print call carrying its severity tag, the current prefix and the complete message; in flat mode the printed record is a single line whatever the message contains. Changing settings affects only later records, and running a function under the logger's guard reports a panic as one record and returns its value.",
 ["inputs","histories"],"every sequence of setting changes and records of every severity, message and argument shape",
 "There are no logger tests.",
 ["log.go"],[("threshold and format","log.go: write, writef, print"),("guard","log.go: Recover")],["lines given to the printer"])
p("C28","API errors are immutable values; API responses carry their status",
 "Deriving an error with other data or message leaves the original and every previously derived error unchanged and keeps status and code; error equality depends on exactly status and code. Writing an API response or error sends its status (200 by default) and its body (JSON with its content type, or the raw text, bytes or stream), no body for 204, and a body that cannot be encoded still produces a well-formed error reply; a stream is closed once sent, and only failures are logged.",
 ["inputs","histories"],"every derivation history of errors and every body kind and status",
 "There are no tests of this package.",
 ["utils/apires/error.go","utils/apires/raw.go","utils/apires/res.go"],[("copy on derive","utils/apires/error.go: WithData, WithMsg"),("writers","utils/apires/res.go: Write, utils/apires/raw.go: Write")],["JSON of errors, status and body received"])
p("C29","Typed context values are found by exactly their type and name",
 "A value stored in a context is found, through that context and all derived from it, by its own type and extra name and by no other; the most recently stored one wins and outer contexts are unaffected. A pointer found is the very one stored; a nil pointer stored is found and leaves the target unchanged. Looking up what was not stored reports not-found and leaves the target unchanged.",
 ["programs","histories"],"every tree of derived contexts storing values of different types (named, unnamed, interface, pointer) under different names, and every lookup",
 "Test_Context stores two values.",
 ["utils/context.go"],[("key derivation","utils/context.go: ctxValueToKey")],["lookup results"])
p("C30","Session collection keeps running at its interval",
 "Starting session collection collects at once and from then on every time its interval has passed, forever, whether or not a collection failed; an interval below one minute, or none, means one hour, so that collection never runs without a pause.",
 ["histories","inputs"],"every interval, any number of loops and failures, any amount of time",
 "There are no tests of it.",
 ["sessions/manager.go"],[("loop","sessions/manager.go: GC")],["number of collections by time"])
p("C31","A request's client address, host, scheme and URI behind proxies",
 "The client address is that of X-Real-Ip, else the first in X-Forwarded-For, else the connection's (loopback as 127.0.0.1), whole and without port, for IPv4 and IPv6 alike; the host is that of X-Forwarded-Host, else of the request, without port. Scheme and URI are the forwarded ones, else the request's own, and the rebuilt URL consists of exactly these, with path and query as sent. Asking changes nothing of the request.",
 ["inputs"],"every combination of proxy headers and connection addresses with IPv4, IPv6, ports, lists and encoded paths",
 "There are no tests of it.",
 ["params/real.go"],[("the functions","params/real.go: RealIp, RealHost, RealProto, RealURI, RealURL")],["their results"])
p("C32","Conversions between texts and values are exact or report an error",
 "Converting a text, or a value by way of its text, to a basic type gives exactly the value the text denotes, or an error when it denotes none or one out of the type's range; a value asked for as its own type is itself, and a missing or composite value is an error. The text made of a value denotes that value, in the base or to the number of decimals asked for, numbers written in an alphabet read back as they were, and random texts have the length and letters asked for. A list flag holds the non-blank items of the comma-separated texts it was set from, in order.",
 ["inputs"],"every text and value of every basic and named type, every limit",
 "Only a few conversions are tested.",
 ["utils/converter.go","utils/converter_value_to.go","utils/rand.go","app_util.go"],[("conversions","utils/converter.go: StrTo, ToStr; utils/converter_value_to.go: Value; app_util.go: StrTo, ToStr"),("numbers","utils/rand.go: NumberEncode, NumberDecode")],["results and errors"])
p("C33","The classic set-up recovers, logs and answers every request",
 "In an application put together by the classic helpers, a request is logged as begun and, unless it panics, as ended with its status, between which all it logs carries its id; results of actions are written; a panic anywhere, also in a hook's filter, or a handler whose dependencies nothing provides, is answered with 500 (with its text in development mode only) unless a response was begun, and recorded exactly once, under the request's id if it has one. Loggers found by injection or in the context are the request's, else the application's or global one, and records have the form the run mode or the options ask for.",
 ["programs","inputs"],"every set of hook filters, application filters and actions which answer, return, log, replace the context's logger or panic, in every run mode",
 "There are no tests of the helpers.",
 ["utils/helpers","recovery.go","request-logger/logger.go","router_action_out.go"],[("set-up","utils/helpers/filters.go: LoadClassicFilters; log.go: UseGlobalLogger, GetLogger, WithLogger; providers.go")],["response","records on the standard error"])
p("C34","Running an application serves it at its configured address",
 "Running an application serves it at exactly the address and port configured at that time (set on the application, imported, of the environment when it was made, or built in) through the handler its server has, until that server is shut down or closed, and requests in progress at a shutdown are still answered in full. Run announces address and mode in one record, returns the server's error (at once when it cannot listen there or has been shut down before) and records it as an emergency; outside development mode no record is coloured. A run which failed leaves the application fit to be run again.",
 ["schedules","histories","inputs"],"every order of running, requesting, shutting down and closing several applications, with every mix of settings",
 "No test runs an application.",
 ["app.go","config.go"],[("run","app.go: Run"),("settings","config.go: newConfig; app.go: ImportConfig")],["who answers at an address","what Run returns","log records"])
p("C35","The context of a request reaches every handler",
 "The context a handler is given is a Go context which carries the values, the deadline and the cancellation of the incoming request's context and those of the contexts put in its place, and so does the request the handler is given; the application's context (and through it what is provided) is found in it unless a handler replaced it by an unrelated one. A handler which replaces the context changes it for itself and for the handlers after it in its chain; the chain of a route (or of what is not found) starts with the application's context and follows it until it replaces its own, which never changes the application's. A request provided in place of another is the one later handlers get. No request sees anything of another's context.",
 ["programs","histories"],"every sequence of handlers which look at, replace, bound and cancel their contexts and requests",
 "No test uses the context of a request.",
 ["context.go","app.go"],[("request context","app.go: ServeHTTP"),("replacing, nested chain","context.go: ReplaceContext, GetContext, newNestContext")],["values, cancellation and deadline seen by each handler"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
