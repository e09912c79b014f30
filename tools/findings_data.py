FIXED += [
 ("C01","a path that is only a prefix of declared routes must not hide matching param or wild routes","with routes /a/b and /:id, GET /a ran the not-found handlers instead of /:id"),
 ("C02","pass the arguments of the struct action that is actually called","All(struct) calling a method named after the HTTP method got the arguments of another method (panic)"),
 ("C23","convert texts to uint in its full range","StrTo.Uint and Value.Uint rejected values of 2^32 and above"),
 ("C02","converting a text to an unsupported slice type must not panic","a struct action or bound setting of type []int panicked"),
 ("C02","converting a text to a pointer type must yield that type","a struct action with a *int argument panicked"),
 ("C04","recognise the same inject.Provide filter when exempting and de-duplicating","a filter given as inject.Provide could not be exempted and ran twice when declared twice"),
 ("C07","send the recorded status when the response is flushed","flushing before the first write sent status 200 instead of the one set, and ran no hooks"),
 ("C07","a status set after the header was sent must not be reported","a status set after the head was sent was reported as the response's status"),
 ("C08","announce gzip only for a body that is compressed, and end the compression with the filter","responses without body or written outside the gzip filter were announced as gzip but not, or not completely, compressed"),
 ("C08","do not compress when the client refuses gzip with a zero quality","gzip was used although the client refused it with q=0"),
 ("C27","a result that can not be nil, like a string, must not panic","an action returning a string made the result filter panic"),
 ("C27","send the status of a raw result whatever its body is","the status of a raw API result was not sent"),
]
FIXED += [
 ("C10","detect dependency cycles by what is being resolved, not by what was once resolved","a cycle among providers that had once been resolved in another scope recursed without end"),
 ("C09","Invoke must run the function even if its result type is provided, and leave the provided instance alone","Invoke of a function whose result type was cached returned the cache without running it"),
 ("C09","convert a dependency to the parameter type like Find and Apply do","a function taking a T where *T is provided panicked"),
 ("C09","Apply must report a value that can not be assigned","Apply left a field empty without an error"),
 ("C09","do not mix up the providers of unnamed types","providers of []string and map[string]int replaced one another"),
]
FIXED += [
 ("C13","Worker.Wait must not miss the error of a task","Wait returned nil although a task it waited for had failed"),
 ("C12","a task of an unsupported type must not block Worker.Wait for ever","after RunTask of an unsupported type Wait never returned"),
 ("C12","submitting a task while Worker.Wait returns must not panic","WaitGroup is reused before previous Wait has returned"),
 ("C11","concurrent requests must not share the memory limit variable of the params parser","data race between requests in the params provider"),
 ("C11","writing a result that requests share must not change it","data race, and a changed status, when a handler returns the same *apires.ResBody to concurrent requests"),
]
FIXED += [
 ("C18","sign text and time of a value separately, so that no digits move between them","the signature of ('a', 1600000000000000000) also signed ('a1', 600000000000000000) and ('', ...), so digits could be moved between text and time"),
 ("C19","a signed value without user and salt is no remember cookie","HasRemember returned ok with an empty user for a session cookie"),
]
FIXED += [
 ("C21","use the default of a setting also without a configuration","Config.Find(name, default) returned an empty text when no configuration was imported"),
 ("C21","a list flag holds the parts of a text, not the text","SliceValue.Set(\"a,b\") held \"a,b\" twice"),
]
FIXED += [
 ("C22","keep the form free of the query, and the query and route if the form is malformed","Params.Form of an urlencoded request held the query too (doubling it in the unified view), and a malformed form lost query and route parameters"),
 ("C22","bind a number out of the range of its type to zero","300 bound to an int8 gave 44"),
 ("C22","correct the format of times without seconds","\"2006-01-02 15:04\" did not bind to a time"),
 ("C22","keep the digits of the numbers when binding a map from JSON","{\"k\": 10000000} bound to a map[string]int gave 0"),
 ("C22","a large index in a parameter name must not exhaust the memory or panic","x[9223372036854775807]=1 bound to a slice panicked, x[999999999]=1 allocated gigabytes"),
 ("C22","binding a field of an embedded struct pointer must not panic","x.Name=1 bound to a struct with an embedded *T holding Name panicked"),
 ("C22","an embedded pointer to an unexported struct must not panic","BindValuesToStruct of a struct with an embedded pointer to an unexported struct panicked"),
]
FINDINGS += [
 ("C22","upload-spilled","an uploaded file larger than max_memory cannot be opened by the handler: ParamsParser removes the temporary files before the handler runs (open .../multipart-N: no such file or directory)"),
]
FIXED += [
 ("C23","an unsigned number too large for an int64 must not become negative","utils.ToInt64(uint64(1)<<63) was -1<<63 without an error"),
 ("C23","print the value that has no text form, not an empty byte slice","utils.ToStr of a struct printed []byte(nil)"),
 ("C23","an empty text or byte slice is an empty text, and an array of bytes must not panic","strip.ToStr of a *string holding \"\" printed an address, of []byte{} printed [], of [2]byte panicked"),
]
FIXED += [
 ("C24","the redirect to a directory must not name another host","GET //sub for a directory sub was redirected to //sub/, which is the host sub"),
 ("C24","close the fallback file after it is served","every request answered with the TryFilesThen file left it open"),
 ("C24","a directory named like the index page is not found","GET /d/ with a directory d/index.html passed through as if outside the static files"),
]
FIXED += [
 ("C28","values of unnamed or equally named types in a context must not be confused","a []string stored in a context was found when looking for a []int, map or func (panic)"),
 ("C28","looking up the value of a nil pointer in a context must not panic","after CtxWithValue(ctx, &p) with a nil p of type *T, CtxFindValue into a T panicked"),
]
FIXED += [
 ("C30","client address and host without port also for IPv6, and the same address in the request log","RemoteAddr [::1]:1234 gave 127.0.0.1, X-Forwarded-For 2001:db8::1 gave 2001, X-Real-Ip kept port and space, Host [::1]:80 gave [, and the request log disagreed"),
 ("C30","keep the escapes of the original URI in the full URL","X-Original-URI /a%2Fb gave the full URL http://host/a/b"),
 ("C29","a random string over an alphabet of 256 bytes must not panic","integer divide by zero"),
]
FIXED += [
 ("C27","a nil pointer returned as an interface is no result and must not panic","an action func() error returning a nil *apires.ResError panicked (500 instead of an empty 200)"),
 ("C27","close the stream of a raw body also without content or if reading it panics","RawWith(stream, 204) never closed the stream"),
]
FIXED += [
 ("C14","a memcached entry with a timeout over 30 days must not expire at once","memcached: set(k, v, 31 days), get(k): missed key (memcached takes the number for a date in 1970)"),
 ("C14","incr and decr by a negative amount on memcached","memcached: set(k, 9), decr(k, -2), get(k): 0"),
 ("C14","touching a redis entry to live indefinitely must not delete it","redis: set(k, v), touch(k, -1), get(k): missed key"),
 ("C14","incr and decr of a missing redis key must not create it","redis: incr(k) of a missing key created it with value 1 and no expiry"),
 ("C14","an expired mongo entry is missing for touch, delete, incr and decr too","mongo: set(k, 9, 5s), 6s pass, touch(k) or incr(k): success, and get(k) found the value again after touch"),
]
FINDINGS += [
 ("C14","memcached-decr-pads","memcached: set(k, 9), incr(k), decr(k), get(k) gives \"9 \": memcached pads a decremented number that loses a digit with a space, and strip hands it on"),
]
FIXED += [
 ("C17","a failure of the back end while regenerating a session must not panic","Regenerate with the back end down: nil pointer dereference at sess.Sid()"),
 ("C17","changes of a session whose flush failed are saved by the next flush","Set, Flush fails, Flush again: nil, and nothing saved"),
 ("C17","a session is not regenerated if its old id could not be destroyed","Regenerate with a failing delete reported success while the old cookie still reached the values"),
 ("C17","sessions created with the same initial values must not share them","two clients regenerated with the same params map saw each other's Set"),
]
FIXED += [
 ("C16","a list of texts saved in a session can be read as such","Set(k, []string{\"a\"}), Flush, next request: Get(k).MustSliceString() is nil"),
]

FIXED += [
 ("C16","dummy sessions created with the same initial values must not share them","two dummy sessions made with one values map: Set on one shows in the other, Delete changes the caller's map"),
]
FIXED += [
 ("C09","registrations of different types that are written alike must not replace each other","two types of the same name declared in two functions, or []*template.Template of two packages: the later registration replaced the earlier one and Find failed with \"unsupport value assignable from `*p.T` to `*p.T`\""),
]
FIXED += [
 ("C06","escape the panic value in the html page of the recovery filter","in development mode a panic with the text <script>alert(1)</script> put that markup into the page"),
 ("C06","a panic is answered with status 500 also if there is no logger","with a logger that can not be resolved a panic was answered with status 200 and an empty body"),
]
FIXED += [
 ("C31","method handlers derived from one another must not replace each other's filters","base := Get(h).Filter(x); a := base.Filter(f); b := base.Filter(g): a ran g instead of f"),
 ("C31","filters added after ReplaceFilters must not replace those of the other application","ReplaceFilters(a, b); a.Filter(f); b.Filter(g): a ran g instead of f"),
 ("C32","calling a function with variadic arguments must not panic","an accepted action func (c T) Get(ids ...string) panicked at every request"),
 ("C32","an empty static directory must be refused, not serve the working directory","ServeFilter(\"\", \"\") served the files of the working directory: the check for an empty directory came after filepath.Abs"),
 ("C32","BindValuesToStruct must refuse a struct that it can not change","BindValuesToStruct(T{}) was accepted and bound nothing"),
]
FIXED += [
 ("C06","the recovery filter shows the function that panicked","a handler calling panic(\"x\") was missing from the logged stack and from the development page, which began at its caller's caller"),
 ("C26","the logger's recovery shows the function that panicked","Recover(func() { f() }) with f panicking logged the caller of Recover as the place and a stack from there on"),
]
FIXED += [
 ("C34","incr and decr on Redis do not create a key that vanishes meanwhile","incr sent EXISTS, then INCRBY: an entry deleted or expired in between was made anew, counting from 0 and never expiring"),
]
FIXED += [
 ("C17","keep the session when regenerating it fails","Regenerate read the moved session back after destroying the old one: if that read failed, the error was returned, no new cookie set, and the values were out of reach"),
]
FIXED += [
 ("C01","keep the spaces of request paths","the spaces at the ends of a request path were cut off before routing: GET /a%20 was served by the route /a"),
 ("C02","keep the spaces of request paths","the spaces at the ends of a request path were cut off before routing: GET /users/bob%20 gave the handler of /users/:name the name bob"),
]
FIXED += [
 ("C14","keep float32 and large unsigned values in the mongo cache","set(k, float32(0.1)) then get(k) on MongoDB gave 0.10000000149011612 (0.1 on the other back ends), and set(k, uint64(1)<<63) failed there only"),
 ("C22","keep values bound to structs embedded in embedded pointers","type T struct{ *O }, type O struct{ *P }, type P struct{ D string }: D=v bound to a T left O nil, the value was lost, also with P embedded by value"),
]

FINDINGS += [
 ("C22","early-filter","if a filter of the application has asked for *params.Params before the route is known, the handler gets the same Params without the parameters of the route (sp.Filter(func(p *params.Params) {}), route /:id, GET /7: p.Get(\"id\") is empty)"),
]

FIXED += [
 ("C08","keep what a handler's response varies on when it is compressed","with gzip a handler's Vary: Origin was replaced by Vary: Accept-Encoding: a cache may then answer one origin with the response meant for another"),
 ("C06","do not send the length and encoding of another body with the answer to a panic","a handler that set Content-Length: 7 and Content-Encoding: br and then panicked: the 500 page was sent with both, cut off and declared as brotli"),
]
