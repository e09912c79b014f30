#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Route resolution is exact, prioritised and backtracking",
 "For every set of declared routes and every request path (after cleaning `//`, `.`, `..` and a trailing slash), the request is served by a declared route whose pattern matches the whole path, and goes to the not-found handlers exactly when no declared pattern matches. "
 "When several match, the choice is made segment by segment from the left: a literal segment beats a parameter with a verb suffix (`:id:verb`), which beats a plain parameter (`:id`), which beats a wildcard tail (`*:rest`, at least one segment), and a choice that leads to no declared route is undone in favour of the next one. "
 "Declaring two different parameter names at the same position, or a wildcard that is not last, panics at declaration.",
 ["configurations", "inputs"], "every set of up to N declared routes over a small segment alphabet, in every declaration order and nesting, and every request path up to a length bound over that alphabet plus unknown, empty and dot segments",
 "The route tests check one fixed tree with about twenty URLs; which route wins depends on interactions between sibling subtrees, declaration order and the path, which only enumeration of small trees reaches.",
 ["router.go", "router_util.go"],
 [("segment-wise matching with fallback order", "router.go: route.match"), ("tree construction and conflict panics", "router.go: route.configRoutes"), ("path cleaning", "router_util.go: splitRoutePath")],
 [("route tree", "declared patterns", "router.go: route")], ["http response of Strip.ServeHTTP", "RouteInfo.Path seen by the handler"])

prop("C02", "Captured route parameters and positional arguments are exact",
 "The handler that serves a request sees exactly the parameters of the matched pattern: names in pattern order (also one used again), each with the path segment it stands for (without the verb suffix, or the whole remaining tail for a wildcard), and the matched pattern itself; nothing captured while trying other patterns is visible. "
 "A struct action receives the captured values in pattern order as its positional arguments, converted to the declared type, and a value that does not convert, or an argument with no captured value, arrives as the type's zero value without failing the request.",
 ["configurations", "inputs"], "every small route tree and path as for route resolution, and every action signature over a set of argument types with every captured string from a corner-case set",
 "Tests read one value from a handful of hand-written routes; leaks from abandoned alternatives need particular sibling patterns.",
 ["router.go", "router_action.go", "app_util.go"],
 [("parameter lists built per alternative", "router.go: route.match"), ("RouteInfo provided per request", "router.go: routeRoot.handle"), ("argument conversion", "router_action.go: callStructFunc; app_util.go: convertStringAsType")],
 [], ["RouteInfo in the request injector", "arguments of struct actions"])

prop("C03", "Method dispatch picks the declared handler for the method",
 "On the matched route, the handler declared for the request's method (compared case-insensitively) serves it; else HEAD is served by the GET handler; else a catch-all declared with All serves it (for a struct: the method named after the HTTP method if it has one, else its configured action); else one declared with Any serves it, always through its one action; else the not-found handlers run. "
 "A struct's action is invoked on a fresh copy of the declared struct for every request, so that nothing one request stores in it is seen by another.",
 ["configurations", "inputs", "histories"], "every combination of explicit, All and Any declarations (function, struct with or without method-named actions, named action) on one route, every request method and letter case, and every sequence of two requests",
 "Tests request a few methods on three fixed declarations; precedence between the forms and per-request freshness of the struct are not enumerated.",
 ["router.go", "router_method.go", "router_action.go", "router_util.go"],
 [("method lookup order", "router.go: routeRoot.handle"), ("method to action name", "router_method.go: method.action"), ("fresh controller per request", "router_action.go: callStructFunc")],
 [], ["which handler ran, through Strip.ServeHTTP"])

prop("C04", "Filters run exactly where they are in scope, in order",
 "A request to a handler runs the application's global filters in registration order, then the filters of each enclosing router from the outermost inwards, then those of the handler's method, each distinct filter at most once among the global ones and once among the others (its first position counts). An exemption at a scope or method leaves out the filters that scope declares or inherits; a scope further in may declare them again. "
 "Filters or exemptions of one router or method never affect a sibling's, whatever the order of declaration; global filters always run, also for requests no route matches.",
 ["configurations", "inputs"], "every placement of up to F distinct filters and exemptions over a three-level router tree with siblings and two methods per node, global filters included",
 "The filter test has one hand-built tree; interference between siblings depends on how many filters the enclosing scope has and in which order siblings were declared.",
 ["router_filter.go", "router.go", "router_util.go", "app.go"],
 [("filters accumulated downwards", "router.go: route.configRoutes"), ("copying removal of exempted filters", "router_filter.go: filters.remove"), ("de-duplicating append", "router_filter.go: filters.append")],
 [("filters", "ordered filter list of a scope", "router_filter.go: filters")], ["order in which filters ran, through Strip.ServeHTTP"])

prop("C05", "The handler chain nests, short-circuits and never runs a handler twice",
 "A handler that asks for the next one resumes only after every later handler has finished; a handler that does not ask is followed by the later ones once it returns, unless the response has been started by then, in which case no later handler runs. "
 "For every placement of calling next, writing, setting a status and panicking, each filter and the action run at most once per request, in declared order, across the global and the route-level part of the chain alike.",
 ["programs", "inputs"], "every chain of up to N handlers (global and route level, action included), each one of a set of behaviours: return, write, set status, next before/after either, next twice, panic",
 "Tests use one chain of well-behaved filters; the behaviour for mixes of next, early writes and double next in both parts of the chain is not sampled.",
 ["context.go", "router.go", "app.go"],
 [("index-driven loop stopping once written", "context.go: context.run"), ("explicit continuation", "context.go: context.Next"), ("nested chain for the matched route", "context.go: newNestContext")],
 [("index", "next handler of the chain", "context.go: context")], ["sequence of enter/leave events of handlers"])

prop("C06", "Recovery contains every panic and answers 500 only if nothing was sent",
 "With the recovery filter installed, no panic raised by a later filter or by the action (any value, at any point, before or after the response was started) escapes from serving the request; if no status or body was set before the panic the client receives status 500 (also when no logger can be resolved), otherwise exactly what had been set. "
 "In development mode the 500 carries an HTML page showing the panic value and the stack as escaped text, in other modes no body of its own, and never the length or encoding announced for the body that did not come; the panic is logged once, and the log and the page name the source line that panicked. Later requests to the same application are unaffected.",
 ["programs", "fault_sequences", "configurations"], "every chain position, every point relative to status/body writes, several panic values, each run mode, with and without request logger and gzip, followed by a further request",
 "No test covers recovery; the outcome depends on the position of the panic relative to writes and other filters.",
 ["recovery.go", "response.go", "context.go"],
 [("deferred recover around the rest of the chain", "recovery.go: RecoveryFilter")], [], ["http response", "absence of a panic from Strip.ServeHTTP", "log output"])

prop("C07", "The response head is sent once, with the last status set before the body",
 "For every sequence of setting status, writing, flushing, registering before-hooks and reading status/size by handlers, the underlying connection receives exactly one response head, before any body byte and no later than the end of the request, carrying the last status set before that moment (200 if none). "
 "Hooks registered before the head is sent run exactly once each, last registered first, while headers can still be changed; the bytes written reach the client unchanged and in order; the reported status is the one sent and the reported size is the number of body bytes; after a successful hijack nothing more is sent, and after a refused one the response goes on as before.",
 ["programs"], "every sequence of up to L operations from {status s1, status s2, write, empty write, flush, add hook, add hook that sets the status or a header, hijack}, spread over the handlers of a chain",
 "Tests look at the final code of simple requests; ordering of head, hooks, flush and repeated status changes needs operation sequences.",
 ["response.go", "app.go"],
 [("deferred head with once", "response.go: responseWriter.Write"), ("status recording", "response.go: responseWriter.WriteHeader"), ("final flush of the head", "app.go: Strip.ServeHTTP")],
 [("status/size/beforeFuncs", "recorded status, byte count and pending hooks", "response.go: responseWriter")], ["calls received by the underlying http.ResponseWriter"])

prop("C08", "gzip is transparent: the client always decodes exactly what was written",
 "With the gzip filter at any position in the chain, whatever a handler, result, recovery page or not-found handler writes, the client obtains exactly those bytes after undoing the announced encoding: a response announced as gzip is one complete gzip stream, any other is verbatim, with the encoding its handler announced, and after a flush the client can read everything written until then. "
 "Compression is announced only if the client accepts gzip (a zero quality means it does not), and then no stale Content-Length is sent and the response varies on the accepted encoding as well as on what it varied on before, its other headers staying as they were set; a handler behind the filter can take over the connection exactly if the server supports it. (Not covered: a filter outside the gzip filter that appends to a response already compressed and finished, and a handler that itself announces gzip.)",
 ["programs", "configurations", "inputs"], "every order of {gzip, recovery, result filter, request logger, static files} with handlers from {write in pieces, status only, nothing, return a result, panic, not found} and a set of Accept-Encoding values",
 "The test checks only that the header appears; whether the stream is complete depends on the order of filters and on who writes the body.",
 ["gzip/gzip.go", "response.go", "recovery.go", "router_action_out.go"],
 [("compressing writer provided to later handlers", "gzip/gzip.go: All"), ("stream closed when the filter returns", "gzip/gzip.go: gzipResponseWriter.close")],
 [], ["headers and body received by the client"])

prop("C09", "Dependency resolution delivers the right instance, once per scope",
 "For every history of registering providers and resolving values in a tree of injectors, a value is supplied by the nearest registration for exactly that type and name, looking first in the injector itself and then outwards, with the latest registration in a scope replacing earlier ones; providers run lazily, at most once per resolving injector until re-registered, and their dependencies, of which a variadic parameter is one of its slice type, are resolved from the injector that asked; filling a struct sets exactly its tagged fields and those of the structs in it, three levels deep. "
 "A missing dependency, or a value that cannot be assigned to what was asked for, is reported as an error without running the dependent function and without panicking, and invoking a function always executes exactly that function.",
 ["histories", "programs"], "every sequence of up to L operations from {register value/function (plain, named, as interface), find, invoke, apply, exists} on two nested injectors over a small set of types, unnamed types included",
 "Tests resolve from a fixed registration set; stale caches and wrong scope show only after particular sequences of registering and resolving.",
 ["inject/inject.go", "inject/inject_provider.go"],
 [("registration by type and name", "inject/inject.go: ProvideAs; inject_provider.go: createName"), ("scoped lookup", "inject/inject.go: injector.get"), ("per-injector instance cache", "inject/inject_provider.go: providerInfo.invoke")],
 [("values", "providers of a scope", "inject/inject.go: injector"), ("caches", "instances already built for a scope", "inject/inject.go: injector")], ["results of Find/Invoke/Apply", "which providers ran"])

prop("C10", "Circular dependencies are always reported, never followed",
 "For every directed graph of up to N providers of different types or names, in one or two nested injectors and after any history of earlier resolutions, resolving one from which a cycle is reachable along dependencies returns an error, and resolving one from which none is reachable and whose dependencies are all registered succeeds. "
 "In neither case does resolution hang or crash the process.",
 ["programs", "histories"], "every dependency graph on up to N provider types, every placement in parent or child injector, every short history of resolutions before it",
 "One test has a two-element cycle on a fresh injector; earlier successful resolutions change the state the detection relies on.",
 ["inject/inject_provider.go", "inject/inject.go"],
 [("in-progress marks per resolution", "inject/inject_provider.go: providerInfo.invoke")],
 [("invokeStatus", "providers visited by the current resolution", "inject/inject.go: invokeStatus")], ["error or success of Invoke/Find/Apply"])

prop("C11", "Concurrent requests are isolated and free of data races",
 "When several requests are served at once by one application, each one's response, parameters, injected values, request id, log prefix and struct action are exactly those it would have if it were served alone, for every interleaving of their processing. "
 "The framework's own code performs no unsynchronised conflicting memory access while serving them.",
 ["schedules"], "every interleaving of two requests (from a set of request pairs covering routing, injection, parameters, configuration, logging, results, static files, gzip and recovery) up to a preemption bound over all synchronisation operations and callbacks, with a race detector that does not see the scheduler",
 "Tests are sequential; a shared mutable field shows only if two requests are interleaved at one particular point.",
 ["app.go", "context.go", "router.go", "router_action.go", "inject/inject.go", "inject/inject_provider.go", "params/params.go", "request-logger/logger.go", "response.go"],
 [("per-request context, injector and writer", "app.go: Strip.ServeHTTP"), ("fresh struct per request", "router_action.go: callStructFunc"), ("atomic completion counter of shared providers", "inject/inject_provider.go: providerInfo.invoke")],
 [], ["responses", "race detector reports"])

prop("C12", "A bounded worker runs every accepted task once, within its limit",
 "For every interleaving, a worker of limit n never has more than n tasks running, runs every task accepted before it is closed exactly once, and Wait returns only after all tasks accepted before it was called have finished. "
 "Submitting from outside running tasks, waiting and closing never deadlock, and a worker that was not closed can be used again after Wait.",
 ["schedules", "programs"], "every interleaving (all of them for small programs, up to a preemption bound for larger ones) of submitting, waiting and closing goroutines and of the task bodies, for limits 1 and 2 and up to 4 tasks of either supported kind",
 "The tests run one schedule chosen by the runtime, with sleeps; lost completions and early returns need specific interleavings.",
 ["utils/worker.go"],
 [("slots as a buffered channel", "utils/worker.go: RunTask, done"), ("completion count", "utils/worker.go: RunTask, Wait"), ("closed flag under lock", "utils/worker.go: Close, run")],
 [("pools", "occupied slots", "utils/worker.go: Worker"), ("closed", "no more tasks are accepted", "utils/worker.go: Worker")], ["start/finish events of tasks", "return of Wait"])

prop("C13", "A worker's first task error stops intake and is reported by Wait",
 "For every interleaving, if a task accepted before Wait was called fails and the worker had not been closed before, Wait returns an error returned by one of the failed tasks, and no task submitted after Wait has returned it is run; if no task failed, Wait returns nil (with several callers of Wait, the first that covers the failure reports it). "
 "After Close has returned, no further task is accepted, while tasks already accepted still run to completion, and closing twice, or closing during task failures, is harmless.",
 ["schedules", "programs"], "every interleaving as for the bounded worker, with each task succeeding or failing and Close called at every point",
 "The error test uses one schedule; the window between a task's completion and the recording of its error is not reachable by timing.",
 ["utils/worker.go"],
 [("error recorded once under lock", "utils/worker.go: run"), ("intake check", "utils/worker.go: RunTask")],
 [("err", "first error", "utils/worker.go: Worker")], ["result of Wait", "which tasks ran"])

prop("C14", "The three cache back ends obey one cache contract",
 "For every sequence of operations, each of the memcached, Redis and MongoDB providers behaves like one map with expiry: get returns the text of the value (text, bytes, boolean or number) last set and not deleted, cleaned or expired, otherwise the missed-key error; has agrees with get; incr and decr change an integer, to a result of at least 0, by the given amount, default 1, and fail on a value that is no number, changing nothing; touch, delete, incr and decr of a missing key give the missed-key error and do not create it. "
 "An entry set or touched with a positive timeout lives exactly that many seconds however long, with none given or zero one minute, and with a negative one indefinitely; garbage collection removes no live entry; and every operation gives back the connection it used.",
 ["histories", "configurations"], "every sequence of up to L operations over two keys, a set of values (string, integer, bytes) and timeouts (default, short, over 30 days, never), time advances and garbage collections, on each back end",
 "The cache tests need live servers and do not run here; they follow one script and never cross expiry boundaries.",
 ["caches/caches.go", "caches/provider_memcache.go", "caches/provider_redis.go", "caches/provider_mgo.go", "utils/converter.go"],
 [("timeout policy", "caches/caches.go: getTimeoutDur, getTimeoutDurEx"), ("back-end command mapping", "caches/provider_*.go")],
 [], ["results of the CacheProvider operations"])

prop("C15", "Cache failures surface as errors and keys never mix",
 "If the back end fails at any point of an operation (refused connection, error reply, connection cut before or after the request took effect), the operation returns an error that is not the missed-key error and has at most its own intended effect; operations after the failure behave normally again and no connection is kept. "
 "An operation on one key never reads or changes another key, and providers with different key prefixes (neither beginning with the other) on the same server never see each other's entries; only clean may empty the whole server. A key that a back end does not take is refused by every operation with an error of its own, never as missing, and changes nothing.",
 ["fault_sequences", "histories"], "every sequence of up to L operations with a fault of every kind injected at every request, on each back end, two keys and two prefixes",
 "No test injects a fault or uses two prefixes.",
 ["caches/provider_memcache.go", "caches/provider_redis.go", "caches/provider_mgo.go"],
 [("error mapping", "caches/provider_*.go: handleError"), ("key prefix", "caches/provider_*.go")],
 [], ["results of the CacheProvider operations", "contents of the back end"])

prop("C16", "A session keeps exactly what was saved under its cookie until it ends",
 "For every history of requests by several clients, a request that carries a client's latest session cookie sees exactly the values that client last flushed, no other client's and, under another key prefix, no other application's; unflushed changes are never visible to later requests, a flush without changes alters nothing, and values keep their kind (text, integer, boolean, list of texts). "
 "A session whose cookie is older than the session lifetime, or whose stored data expired or was destroyed, is seen as empty; starting one with no valid cookie issues a new unpredictable id in a cookie with the configured name, domain, secure flag and age, and starting one with a valid cookie sets none.",
 ["histories"], "every sequence of up to L session operations (start, set, delete, clean, flush, touch, destroy, time passing) by two clients, on each back end",
 "The session tests need live servers, do not run here and follow one script.",
 ["sessions/manager.go", "sessions/provider.go", "sessions/utils.go", "sessions/store_dummy.go"],
 [("sid from signed cookie", "sessions/manager.go: ReadSidFromRequest, Start"), ("load and save", "sessions/provider.go: Read, save"), ("dirty flag", "sessions/provider.go: sessData.Flush")],
 [("changed/closed", "whether values must be saved", "sessions/provider.go: sessData")], ["SessionStore contents per request", "Set-Cookie headers"])

prop("C17", "Changing or ending a session is safe, also when the back end fails",
 "After a session is successfully regenerated, its values are available under the new cookie only and the old cookie no longer reaches them; after it is destroyed neither cookie does and the client is told to drop it. "
 "If the back end fails at any point, regenerating, starting and flushing return the error instead of panicking or reporting success, a regeneration refused at any step leaves the values under the old cookie, no session shows another's values, and changes whose flush failed are saved by the next successful flush; collections of the expired, once started, go on at their interval even after one fails, and no manager is made without a secret key.",
 ["histories", "fault_sequences"], "every sequence of up to L operations including regenerate and destroy, with a fault of each kind at each back-end request",
 "No test exercises regenerate with faults or checks the old identifier afterwards.",
 ["sessions/manager.go", "sessions/provider.go"],
 [("copy then destroy", "sessions/provider.go: Regenerate"), ("cookie rewriting", "sessions/manager.go: Regenerate, Destroy")],
 [], ["results of the session operations", "contents of the back end"])

prop("C18", "Signed values are accepted only as issued",
 "A signed value decodes, under the key it was made with, to exactly the text and creation time it was made from, for every non-empty text; under any other key (keys that differ only in trailing zero bytes are one HMAC key), or if the signed text, time or signature is changed in any way, it is rejected. "
 "In particular no rearrangement, truncation or recombination of parts of issued values is accepted as a text and time that were never issued together.",
 ["inputs", "histories"], "every text up to a length over an alphabet containing separators, digits, escapes and multi-byte characters, with several times and keys, and every single mutation (replace, delete, insert, move the boundary between fields, recombine two issued values) of the decoded and encoded form",
 "Tests round-trip one value and try one wrong key.",
 ["sessions/utils.go"],
 [("HMAC over text and time", "sessions/utils.go: EncodeSecureValue, DecodeSecureValue")],
 [], ["result of decoding", "session id accepted from a request"])

prop("C19", "Remember-me cookies authenticate only the user and salt they were issued for",
 "A remember-me cookie yields exactly the user key it was issued for and validates only with that user key and the salt used then, and only within the configured lifetime; once the salt changes it no longer validates. "
 "Session cookies, tampered, foreign-key or expired cookies are never reported as a remembered user, and no other signed value ever validates.",
 ["inputs", "histories"], "every combination of user keys and salts over a separator-rich alphabet, cookie kinds, keys, ages around the lifetime and single mutations",
 "Tests issue one cookie and validate it once.",
 ["sessions/remember.go", "sessions/utils.go"],
 [("nested signed value", "sessions/remember.go: createRememberCookieValue"), ("lookup and validation", "sessions/remember.go: HasRemember, ValidRemember")],
 [], ["results of HasRemember and ValidRemember"])

prop("C20", "INI files mean what they say, or fail to load",
 "Every text is either rejected with an error or read as a sequence of lines: blank and comment lines (`#`, `;`) ignored, `[name]` opening a section (an empty name is an error), and `key=value` or `key: value` assigning in the current section (the default one at first), surrounding space trimmed, later assignments overriding, keys `-` numbered from 1 after each section line, backquote or triple-quote delimiters around keys and values removed, other lines an error. "
 "The result does not depend on line endings, a byte-order mark, a final newline or how the input is chunked while reading, and loading never panics.",
 ["inputs"], "every sequence of up to N lines from a set of line shapes and every string up to a length over the significant characters, with every variant of line ending, mark and read chunking",
 "The configuration tests need a data file that is missing and do not run; they read one file.",
 ["config/config.go"],
 [("line parser", "config/config.go: loadFromReader")],
 [], ["error or values returned by Find and ListSection"])

prop("C21", "Configuration lookup layers environment, file and parents in order",
 "A setting is the non-empty environment variable derived from its section and name, else the non-empty value in the nearest file of the chain that has one, else empty or the caller's default; names are qualified by `section::name` and never leak between sections. "
 "Binding converts the found value to the destination's type, leaves the destination untouched if there is none, never panics on any value, and decoding into a struct fills exactly the tagged fields; loading configuration files applies override files over application files over default files, mode-specific over general ones of the same directory, and explicitly added files over all, and a file that cannot be loaded, unless it is an optional one that does not exist, is reported in the log; a list flag holds the trimmed non-empty parts of every text given, in order.",
 ["configurations", "inputs"], "every assignment of a setting to environment, child, parent and grandparent (absent, empty, value), every destination type with corner-case values, and every subset of configuration files",
 "Tests cover one two-level chain, and loading of file sets is untested.",
 ["config/config.go", "config/config_parse.go", "config.go", "app_util.go", "utils/helpers/config.go"],
 [("lookup with fallback", "config/config.go: Find"), ("typed binding", "config.go: Config.Bind"), ("struct decoding", "config/config_parse.go: Decode"), ("file precedence", "utils/helpers/config.go: LoadConfigFiles")],
 [("parent", "next configuration to ask", "config/config.go: config")], ["values found or bound"])

prop("C22", "Request parameters are unified and bound faithfully",
 "The unified parameters of a request hold for every name exactly the values from the query string, then the route, then the body form, and the per-source views hold only their own source. "
 "Binding a name yields the parsed value for every supported destination (booleans, sized integers, floats, texts, times, pointers, slices with and without index, nested structs, maps) and the zero value if it is absent, malformed or out of the destination's range; a binder or time format the application adds for a type applies wherever such a value is bound; it never panics, whatever the request contains. A malformed body or query loses neither the well-formed parameters of the other sources nor the handler, and uploaded files can be read by the handler as sent and leave nothing behind.",
 ["inputs", "configurations"], "every placement of up to three name/value pairs over query, route and body (urlencoded and multipart) and methods, and every destination type with every value string of a corner-case set in every naming shape",
 "The parameter tests need packages that do not build here and bind a few well-formed values.",
 ["params/params.go", "params/binder.go"],
 [("source parsing and merging", "params/params.go: ParseParams, calcValues"), ("binders by type and kind", "params/binder.go"), ("struct binding by tag", "params/params.go: BindValuesToStruct")],
 [], ["Params provided to a handler"])

prop("C23", "Conversions between text and numbers are exact or fail",
 "Every supported value (booleans, all integer and float sizes, texts, byte slices, and pointers to them for the framework's own conversion) converted to text and back to its type is unchanged, and converting any text to a sized type yields its exact value if it is in the type's full range and an error otherwise, never a truncated value. "
 "Strict accessors of a dynamic value return the held value when it has that type; a text read as a list has exactly the parts between its delimiters, in order and trimmed.",
 ["inputs"], "every integer type's boundary values and all short digit strings with signs, spaces and bases, all 8-bit values, corner-case floats, over every conversion entry point",
 "No test covers the converters beyond config defaults.",
 ["app_util.go", "utils/converter.go", "utils/converter_value_to.go"],
 [("text to type", "app_util.go: StrTo; utils/converter.go: StrTo"), ("type to text", "app_util.go: ToStr; utils/converter.go: ToStr"), ("dynamic values", "utils/converter_value_to.go: Value")],
 [], ["results of the conversion functions"])

prop("C24", "Static serving never leaves its directory and serves the right file",
 "For every request path, the static filter answers with the exact content of the regular file at that path below its directory (the path after the prefix, dot segments resolved within the directory), with a directory's index page, with a redirect that only appends a slash to a directory path on the same host, with the configured fallback file, or with not found; no content from outside the directory is ever sent. "
 "Requests whose path is outside the prefix, has a skipped prefix, or whose method is neither GET nor HEAD (unless any method is allowed) pass through untouched, and no file stays open after the request.",
 ["inputs", "configurations"], "every path of up to N segments over names, dot, dot-dot, empty, encoded and prefix look-alike segments, for every combination of prefix, fallback, skip and method options",
 "The tests need a data directory that is missing; only one traversal is tried.",
 ["static-serve/static.go"],
 [("prefix stripping", "static-serve/static.go: ServeFilter"), ("rooted directory", "static-serve/static.go: http.Dir"), ("fallback file", "static-serve/static.go: ServeFilter")],
 [], ["http response", "open file descriptors"])

prop("C25", "Every request gets one request id, consistent everywhere, and a log pair",
 "With the request logger installed, a request's id is the client's if that is 10 to 32 characters long and otherwise a new one of its own, and the same id appears in the request seen by handlers, in the response header, in the injected loggers and the logger carried by the request's context, and in the request's log lines. "
 "Every request that completes normally logs exactly one begin line, first, with method, host, URL and client address, and one end line, last, with the status and size actually sent, and responses carry the response-time header.",
 ["inputs", "programs"], "every id length around the limits, every handler behaviour (write, status only, nothing, change the id header, write through gzip), every filter hook and option combination, and pairs of requests",
 "Tests check only the address helper.",
 ["request-logger/logger.go", "request-logger/reqid.go", "log.go"],
 [("id choice and propagation", "request-logger/logger.go: ReqLoggerFilter"), ("header set when the head is sent", "request-logger/logger.go: Before hook")],
 [], ["log output", "response headers"])

prop("C26", "The logger prints every enabled message once, whole and at its level",
 "A message is printed exactly once if its level is enabled by both the logger's and the global threshold and not at all otherwise, in one print call carrying the level's own tag, the logger's prefix (with the request id for request loggers) and the formatted text; a flat logger's output is a single line for every message. The line that a message is said to come from, if asked for, and the first of its stack are those of the logging call or of the caller of it asked for. Every frame of a stack whose source file can be read shows the text of its own line. "
 "Colour adds only escape sequences, running a function under the logger's recovery returns the panic value (nil if none) and logs it once with a stack that has the line which panicked, and no option changes which messages are printed.",
 ["inputs", "configurations"], "every combination of level, thresholds, prefix, prefix parser, colour, flat, line and stack options with messages containing newlines, format verbs and no arguments, through every logging method",
 "No test covers the logger.",
 ["log.go"],
 [("threshold check", "log.go: baseLogger.write, writef"), ("line assembly", "log.go: baseLogger.print"), ("request prefix", "log.go: reqLogger.SetPrefix")],
 [], ["arguments of the log printer"])

prop("C27", "An action's result becomes exactly the response it stands for",
 "With the result filter installed, when an action that wrote nothing returns a result, the response has the returned status (200 if none) and the returned text, bytes, stream, handler's output or API result as its body, streams being closed exactly once; an action that wrote its own response is left alone, and nil or unsupported results add nothing and never panic. "
 "API results send their status whatever the kind of body: structured bodies as JSON with the JSON content type, raw bodies verbatim, no body for 204, an error object with the same code, message and data it was built with; deriving an error from another leaves the original unchanged, and failing to encode a body or to read a stream is logged once, nothing else is.",
 ["inputs", "programs"], "every action signature over result kinds (text, bytes, reader, closer, handler, API result, error, nil, struct, integer) alone or followed by a status, as function and struct action, in each run mode",
 "No test covers results or the API package.",
 ["router_action_out.go", "utils/apires/res.go", "utils/apires/raw.go", "utils/apires/error.go"],
 [("result interpretation", "router_action_out.go: GenericOutFilter"), ("JSON writing", "utils/apires/res.go: writeJsonBody"), ("raw writing", "utils/apires/raw.go: RawBody.Write")],
 [], ["http response"])

prop("C28", "Context values are found by type and name, innermost first",
 "For every sequence of storing values in nested contexts, looking up a type and name returns the innermost value stored under exactly that type and name, as value or pointer as asked, and the not-found error if there is none; values of other types or names, unnamed composite types included, are never returned or confused, and no lookup of a stored type panics. "
 "The request's own context can be found this way in every handler, also after the context was replaced by a derived one, and the logger found in a context is the innermost one given to it or else the global one.",
 ["histories", "inputs"], "every nesting of up to L stores over a set of types (struct, pointer, interface, named basic, slices, maps) and names, followed by a lookup of each type in each form",
 "Tests store and find two types.",
 ["utils/context.go", "app.go", "context.go"],
 [("typed key", "utils/context.go: ctxValueToKey"), ("assignment by form", "utils/context.go: CtxFindValue")],
 [], ["results of lookups"])

prop("C29", "Generated identifiers decode, are well-formed and do not repeat",
 "Encoding any non-negative decimal number and decoding it with the same alphabet returns the number, for every alphabet of at least two distinct characters; random strings have exactly the requested length and only characters of the requested alphabet, every one of which can occur. "
 "Session ids are 20 characters of the session alphabet, request ids decode to the process number and the time they were made, malformed request ids decode to zeros without failing, and ids made by one process in sequence do not repeat.",
 ["inputs"], "all numbers up to a bound and powers around every digit boundary up to 2^80, alphabets of several sizes, all lengths up to a bound, and every truncation or single change of a request id",
 "No test covers these codecs.",
 ["utils/rand.go", "sessions/utils.go", "request-logger/reqid.go"],
 [("mixed-radix codec", "utils/rand.go: NumberEncode, NumberDecode"), ("random strings", "utils/rand.go: RandomCreateBytes"), ("ids", "sessions/utils.go: CreateSid; request-logger/reqid.go: NewReqId, DecodeReqId")],
 [], ["results of the functions"])

prop("C30", "Client address, host, protocol and URL follow the forwarding headers",
 "The client address is the real-IP header if set, else the first forwarded-for entry, else the connection's address, always without port and without surrounding space, for IPv4 and IPv6 alike; the host is the forwarded host if set, else the request's host, without port; the protocol is the forwarded one, else the URL's, else http; the URI is the original URI header if set, else the request's. "
 "The full URL combines exactly these four, or fails if the URI cannot be parsed, and the request logger reports the same client address.",
 ["inputs", "configurations"], "every combination of the headers (absent, IPv4, IPv6 bare and bracketed, with port, list, spaces) with IPv4 and IPv6 connection addresses",
 "One test covers the logger's helper with a few IPv4 values.",
 ["params/real.go", "request-logger/logger.go"],
 [("header precedence", "params/real.go"), ("logger's address", "request-logger/logger.go: realIp")],
 [], ["results of the functions", "request log line"])

prop("C31", "Pieces of a declaration can be reused without affecting each other",
 "Method handlers, routers, filter and exemption lists are values: deriving from one (another action, filter or exemption added) leaves the original and everything else derived from it unchanged, and one piece placed in several routers or applications means in each place exactly what it would mean if it had been written out there. "
 "Applications are independent: replacing the filters of one by those of another copies them, and filters or routes added later to either do not appear in the other.",
 ["programs", "histories"], "every sequence of derivations from a set of base pieces, every placement of shared pieces into up to three routers, and every sequence of filter operations on up to three applications, each followed by requests to every piece",
 "Tests declare every handler where it is used; sharing spare capacity of a list shows only for particular orders and lengths.",
 ["router_method.go", "router.go", "router_filter.go", "app_util.go"],
 [("derivation copies", "router_method.go: Filter, Exempt, Action"), ("replacement copies", "app_util.go: ReplaceFilters")],
 [], ["sequence of filters and actions that run per request"])

prop("C32", "Invalid declarations are refused when made; accepted ones never panic",
 "A declaration that cannot work (a handler that is neither function nor struct, a missing or misplaced action method, a value that is no filter, a parameter or wildcard name in conflict with another at the same place, a segment after a wildcard, a provided value that is nil or neither pointer nor function, a binding destination that is no pointer to a supported type, and the like) is refused by a panic when it is made; a valid one is not. "
 "Routes made from accepted declarations never panic when requested by any method, and what was declared before a refused declaration keeps working.",
 ["inputs", "histories"], "every combination of handler value, declaring method, action name, filter and nesting; every pair of filter values at every place; every sequence of paths over conflicting segments; every sequence of other declaring calls over valid and invalid values",
 "Tests check a few valid declarations and hardly any invalid ones.",
 ["router_method.go", "router.go", "router_filter.go", "router_action.go", "inject/inject.go", "inject/inject_provider.go", "params/params.go", "params/binder.go", "config.go", "config/config_parse.go", "static-serve/static.go", "utils/context.go", "utils/helpers/filters.go"],
 [("handlers", "router_method.go"), ("paths", "router.go"), ("providers", "inject/inject.go: Provide, ProvideAs"), ("destinations", "params/params.go: Bind; config.go: Config.Bind")],
 [], ["whether a declaration panics", "http responses"])

prop("C33", "The classic set-up assembles the documented stack",
 "An application set up by the classic helpers runs recovery outermost, then the filters added by before-all hooks in their order, then the request logger, then the result filter, whatever the run mode, logger options and hooks: panics anywhere below are answered with 500 and logged exactly once, every request that gets past the hooks is logged by one begin line and, unless it panics, one end line with its status, and results of actions become responses. "
 "The logger's options follow the run mode unless given, and handlers, the injected loggers and the request's context all log with the request's id; with the global logger installed it is the application's logger. "
 "Run listens on the configured address, logs the address and the mode, serves until the listener fails, and logs that failure once at emergency level.",
 ["configurations", "programs"], "every run mode, logger option, combination of hooks, kind of request and server address",
 "No test runs the helpers or Run.",
 ["utils/helpers/filters.go", "utils/helpers/providers.go", "utils/helpers/log.go", "app.go", "default.go"],
 [("classic filters", "utils/helpers: LoadClassicFilters"), ("listening", "app.go: Strip.Run")],
 [], ["http responses", "lines of the log", "listener"])

prop("C34", "Concurrent cache operations take effect one at a time",
 "However the operations of several users on one key overlap - users with providers of their own on the same server or sharing one - each takes effect at one moment between its call and its return, so all results and all later reads are those of the operations done one after another in some order: no increment is lost, of several deletes of one entry exactly one succeeds and the others report the missed key, no operation but set makes an entry (in particular, an incr or touch never revives one that was deleted or expired meanwhile, nor leaves one that never expires), and a lifetime is the one of the set or touch that came last. "
 "Every operation comes to an end whatever the others do.",
 ["schedules", "histories"], "every order in which the requests of 2 or 3 users with 1 or 2 operations each (get, has, set, touch, delete, incr, decr) can reach the server, from an absent, a live and an expiring entry, on each back end",
 "A test runs the operations one after another; the outcomes that break need another client's request between two requests of one operation.",
 ["caches/provider_memcache.go", "caches/provider_redis.go", "caches/provider_mgo.go"],
 [("one operation", "caches/provider_*.go: Set, Touch, Delete, Incr, Decr"), ("transaction", "caches/provider_redis.go: incr, tryIncr")],
 [], ["results of the CacheProvider operations", "what is read afterwards, before and after the entries expire"])

prop("C35", "Requests that run at once do not damage each other's sessions",
 "However the requests of several clients overlap, of one session or of different ones, starting, flushing, touching, destroying and regenerating a session each take effect at one moment: a request starts with exactly what some other one last saved under its id, complete, never with a part or nothing in between; requests that only read, touch or flush without changes never undo what another one saves, and never make a session that was destroyed or expired; regenerating hands the new id all values, for one request that regenerates among any that read; requests of different sessions have no effect on each other; and a lifetime counts from the last save or touch. "
 "Which values are taken along when one request regenerates a session that another saves, destroys or regenerates at the same moment is open.",
 ["schedules", "histories"], "every order in which the requests to the server of 2 or 3 requests that each do one of 8 things to one of two sessions can be processed, on each back end",
 "The session tests need live servers, do not run here and run one request at a time.",
 ["sessions/manager.go", "sessions/provider.go"],
 [("load and save", "sessions/provider.go: Read, save, Flush"), ("touch", "sessions/provider.go: Touch"), ("regenerate", "sessions/provider.go: Regenerate")],
 [("changed/closed", "whether values must be saved", "sessions/provider.go: sessData")], ["values of the sessions each request starts", "what the sessions hold afterwards, before and after they expire"])

prop("C36", "Test assertions fail exactly when what they claim does not hold",
 "NoError, Nil, NotNil, True and False of strip.Assert pass exactly when what they claim holds - nil pointers, maps, slices, channels and functions in an interface count as nil, zero and empty values do not - and never panic. The first one that does not hold fails the test and ends it at once: nothing after it runs, nothing before it is lost. The message names the file and line of the failing call, with its text, and NoError shows the error.",
 ["inputs", "histories"], "every assertion on every kind of value, and every test of up to 3 assertions",
 "No test looks at a failing assertion: a failure of it would be a failure of the suite.",
 ["assert.go", "app_util.go"],
 [("assertions", "assert.go: Assert"), ("place", "assert.go: callerInfo; app_util.go: FileSource")],
 [], ["whether the test fails and where it stops", "what it prints"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
