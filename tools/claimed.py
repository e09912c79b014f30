SCHED = "stateless model checking of the real code: a controlled scheduler enumerates every interleaving %s"
CLAIMED['C01'] = (ENUM % "route set, declaration order, nesting and request path", "Exhaustive for the stated pattern alphabets, set sizes and path lengths; larger route sets are not covered. Trusts the reference resolver, a flat restatement of the documented priorities.")
CLAIMED['C02'] = (ENUM % "route set and path, and every argument type, text and declaration shape", "Exhaustive for the stated route spaces, 31 argument types and 46 texts.")
CLAIMED['C03'] = (ENUM % "set of method declarations (functions and struct actions) and request method", "Exhaustive for the stated declaration shapes and methods.")
CLAIMED['C04'] = (ENUM % "placement of filters and exemptions over a router tree and declaration order", "Exhaustive for the stated tree, number of filters and declarations.")
CLAIMED['C05'] = (ENUM % "chain of handler behaviours over the global and the route-level part", "Exhaustive for chains of the stated length and handler behaviours.")
CLAIMED['C06'] = (ENUM % "chain, panic position and value, run mode and neighbouring filter", "Exhaustive for the stated chains; panicking before-hooks are excluded.")
CLAIMED['C07'] = (ENUM % "sequence of response operations over a chain of handlers", "Exhaustive for operation sequences of the stated length.")
CLAIMED['C08'] = (ENUM % "order of filters, handler behaviour and Accept-Encoding value", "Exhaustive for the stated filters, handlers and header values; the decoder is the standard library's.")
CLAIMED['C09'] = (ENUM % "sequence of injector operations on nested injectors", "Exhaustive for the stated number of operations, types and scopes. Trusts the reference injector.")
CLAIMED['C10'] = (ENUM % "dependency graph of providers over injector scopes and history of resolutions", "Exhaustive for the stated number of providers and scopes; an unreported cycle shows as a crash of the worker process.")
CLAIMED['C11'] = (SCHED % "of 2-3 requests up to a preemption bound, under the race detector", "Exhaustive for the stated request kinds, scheduling points and preemption bounds; the source is instrumented at build time (go build -overlay). A race is seen only in code that the request kinds execute.")
CLAIMED['C12'] = (SCHED % "of submitting, waiting and task goroutines at the granularity of shared-memory statements, up to a preemption bound", "Exhaustive for the stated client programs; sequentially consistent memory.")
CLAIMED['C13'] = (SCHED % "of submitting, waiting and task goroutines at the granularity of shared-memory statements, up to a preemption bound", "Exhaustive for the stated client programs; sequentially consistent memory; one waiter per error.")
CLAIMED['C18'] = (ENUM % "text, time and key, every edit and every recombination of issued values", "Exhaustive for the stated alphabets, lengths and edit distances; HMAC-SHA1 is trusted. Built with a virtual clock (go build -overlay).")
CLAIMED['C19'] = (ENUM % "user, salt, age, cookie kind, every edit of a cookie and every short history", "Exhaustive for the stated users, salts, ages and histories; HMAC-SHA1 is trusted. Built with a virtual clock (go build -overlay).")
CLAIMED['C20'] = (ENUM % "text over the significant characters and every sequence of line shapes, in every form and chunking", "Exhaustive for the stated lengths and shapes. Trusts the reference reader.")
CLAIMED['C21'] = (ENUM % "assignment of a setting to layers, destination type and value, and subset of configuration files", "Exhaustive for the stated layers, values, types and files.")
CLAIMED['C22'] = (ENUM % "distribution of parameters over query, route and body, every destination type, text and name shape, and every odd parameter name", "Exhaustive for the stated numbers of parameters, types, texts, shapes and name lengths. Trusts strconv as the meaning of number texts.")
CLAIMED['C23'] = (ENUM % "text up to a length and around every limit, every 8 and 16 bit value, and (thorough) every float32", "Exhaustive for the stated alphabets, lengths, values and types; 32 and 64 bit integers and float64 are covered at their boundaries. The oracle is exact integer and rational arithmetic.")
CLAIMED['C24'] = (ENUM % "request path over a segment alphabet with every prefix, method and option, on a real directory tree", "Exhaustive for the stated segments, path lengths and options on one tree, with open file descriptors observed after every request. Symbolic links are outside the property.")
CLAIMED['C28'] = (ENUM % "tree of nested contexts with typed and named values, every lookup in each of them, and every way the handlers of a request replace its context", "Exhaustive for the stated number of stores, types, names and handlers. Contexts derived from the strip.Context itself instead of GetContext are excluded.")
CLAIMED['C30'] = (ENUM % "combination of forwarding headers, connection addresses, hosts, protocols and URIs in every written form", "Exhaustive for the stated values. Trusts net/url as the meaning of a URI.")
CLAIMED['C29'] = (ENUM % "alphabet, number, byte of the random source, clock reading and malformed id", "Exhaustive for the stated alphabets, numbers, random bytes and id lengths; sequences of ids at the stated clock readings. Built with a virtual clock and a controlled random source.")
CLAIMED['C26'] = (ENUM % "level, pair of thresholds, message, option and short history of setter calls, through every logging method", "Exhaustive for the stated messages, options and numbers of setter calls; the source position in a line and the frames of a stack are not judged.")
CLAIMED['C25'] = (ENUM % "client id, request shape, sequence of handler operations, chain of inner filters and logger option", "Exhaustive for the stated id lengths, operations, filters and options. Built with a virtual clock (go build -overlay).")
CLAIMED['C27'] = (ENUM % "kind of result, own response, status, action kind, run mode and filter place, and every short derivation of errors", "Exhaustive for the stated results, statuses and derivations; encoding/json is trusted.")
CLAIMED['C31'] = (ENUM % "sequence of derivations, placement of shared pieces in routers, and operations on several applications", "Exhaustive for the stated numbers of derivations, routers and operations.")
CLAIMED['C32'] = (ENUM % "combination of declaration kind and value, sequence of conflicting paths, and sequence of declaring calls", "Exhaustive for the stated values and lengths. Nil functions and provider lists not ending in a function are excluded as filters and handlers.")
CLAIMED['C33'] = (ENUM % "run mode, logger option, hooks, kind of request and server address", "Exhaustive for the stated options, hooks, requests and addresses; times and source positions in log lines are not judged.")

FAKES = " The servers are in-process implementations of the memcached, Redis and MongoDB protocols on a virtual clock, reached through the real client libraries; they are trusted to behave as documented."
CLAIMED['C14'] = (ENUM % "sequence of cache operations, time advances and collections on each back end", "Exhaustive for the stated operations and history length." + FAKES)
CLAIMED['C15'] = (ENUM % "sequence of cache operations with a fault of every kind at every request of each", "Exhaustive for the stated operations, history length and number of faults." + FAKES)
CLAIMED['C16'] = (ENUM % "sequence of session operations of two clients and time advances on each back end, and cookie configuration", "Exhaustive for the stated operations, history length and configurations." + FAKES)
CLAIMED['C17'] = (ENUM % "sequence of session operations with a fault of every kind at every back-end request", "Exhaustive for the stated operations, history length and number of faults." + FAKES)
CLAIMED['C34'] = ("stateless model checking of the real code: every order in which the server can get the requests of concurrent operations, a linearizability check on each", "Exhaustive for the stated users, operations and interruptions; each request to the server is one step." + FAKES)
CLAIMED['C35'] = ("stateless model checking of the real code: every order in which the server can get the requests of concurrent sessions, a linearizability check on each", "Exhaustive for the stated requests and interruptions; each request to the server is one step." + FAKES)
CLAIMED['C36'] = (ENUM % "assertion, value and short test", "Exhaustive for the stated values and numbers of assertions; tests run under the standard library's testing.Main. Values of kind unsafe.Pointer are not judged.")
