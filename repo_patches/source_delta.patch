From a8db6e6480ce47cffab195cc1742939d196eed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 01/74] fix: a path that is only a prefix of declared routes
 must not hide matching param or wild routes

---
 router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router.go b/router.go
index 06636af..9b3de2c 100755
--- a/router.go
+++ b/router.go
@@ -239,6 +239,10 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 				*params = append(*params, newParams...)
 			}
 		}
+		if rt != nil && !rt.isEnd {
+			// only a prefix of declared routes, try the other kinds
+			rt = nil
+		}
 	}
 
 	// second match paramRoutes
-- 
2.43.0


From fe6fa5592f48bbb766ee63c13cd5f5089de25631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 02/74] fix: pass the arguments of the struct action that is
 actually called

---
 router_action.go | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..8be8313 100755
--- a/router_action.go
+++ b/router_action.go
@@ -14,10 +14,6 @@ type routerController struct {
 	typ   reflect.Type
 	kind  reflect.Kind
 	pTyp  reflect.Type
-
-	// struct action
-	actionIn  []reflect.Type
-	actionOut []reflect.Type
 }
 
 func makeRouterController(value interface{}) (rc routerController) {
@@ -51,26 +47,13 @@ func (r *routerController) ensureHasAction(action string) {
 		return
 	}
 
-	m := reflect.New(r.typ).MethodByName(action)
-	if m.IsValid() {
-		r.cacheStructAction(m.Type())
+	if r.actionFuncExists(action) {
 		return
 	}
 
 	panic(fmt.Sprintf("controller action `%s.%s` not exists", r.typ, action))
 }
 
-func (r *routerController) cacheStructAction(typ reflect.Type) {
-	r.actionIn = make([]reflect.Type, typ.NumIn())
-	for i := 0; i < typ.NumIn(); i++ {
-		r.actionIn[i] = typ.In(i)
-	}
-	r.actionOut = make([]reflect.Type, typ.NumOut())
-	for i := 0; i < typ.NumOut(); i++ {
-		r.actionOut[i] = typ.Out(i)
-	}
-}
-
 func (r *routerController) actionFuncExists(action string) bool {
 	_, ok := r.pTyp.MethodByName(action)
 	return ok
@@ -111,11 +94,17 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	method, ok := r.controller.pTyp.MethodByName(action)
+	if !ok {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
+
+	// the first one is the receiver
+	actionIn := method.Type.NumIn() - 1
 
-	in := make([]reflect.Value, 0, len(actionIn))
-	for i := 0; i < len(actionIn); i++ {
-		typ := actionIn[i]
+	in := make([]reflect.Value, 0, actionIn)
+	for i := 0; i < actionIn; i++ {
+		typ := method.Type.In(i + 1)
 		value := reflect.Value{}
 
 		if len(params) > i {
@@ -133,10 +122,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
 	newStruct := reflect.New(r.controller.typ)
 	if val := indirectValue(r.controller.val); val.IsValid() {
 		newStruct.Elem().Set(val)
-- 
2.43.0


From c1123682bdaa48adf3307cf7a89af88ee8a3c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 03/74] fix: convert texts to uint in its full range

---
 app_util.go                 | 2 +-
 utils/converter_value_to.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..162e74f 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, strconv.IntSize)
 	if err != nil {
 		return 0, err
 	}
diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..603275d 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, strconv.IntSize)
 	return uint(value), err
 }
 
-- 
2.43.0


From 73df79c0130b36c7c6ce06c2b6b1eb54304e9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 04/74] fix: converting a text to an unsupported slice type
 must not panic

---
 app_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app_util.go b/app_util.go
index 162e74f..ac1d7ee 100755
--- a/app_util.go
+++ b/app_util.go
@@ -241,6 +241,8 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 				}
 			}
 			v = final
+		default:
+			return
 		}
 	default:
 		return
-- 
2.43.0


From f805bcf642f31d1ce92744eb5f9fd9d1b874dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 05/74] fix: converting a text to a pointer type must yield
 that type

---
 app_util.go | 12 +++++++++++-
 config.go   |  4 ----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/app_util.go b/app_util.go
index ac1d7ee..34966d5 100755
--- a/app_util.go
+++ b/app_util.go
@@ -250,11 +250,21 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 
 	val := reflect.ValueOf(v)
 	if val.Type().ConvertibleTo(iTyp) {
-		value = val.Convert(iTyp)
+		value = pointTo(val.Convert(iTyp), typ)
 	}
 	return
 }
 
+// pointers to the value, as many as the type asks for
+func pointTo(val reflect.Value, typ reflect.Type) reflect.Value {
+	if typ.Kind() != reflect.Ptr {
+		return val
+	}
+	ptr := reflect.New(typ.Elem())
+	ptr.Elem().Set(pointTo(val, typ.Elem()))
+	return ptr.Convert(typ)
+}
+
 var (
 	dunno     = []byte("???")
 	centerDot = []byte("·")
diff --git a/config.go b/config.go
index 8b41b67..1227053 100755
--- a/config.go
+++ b/config.go
@@ -84,10 +84,6 @@ func (c *Config) Bind(ptr interface{}, name string) {
 		elm := val.Elem()
 		val = convertStringAsType(value, elm.Type())
 		if elm.CanSet() && val.IsValid() {
-			if elm.Kind() == reflect.Ptr {
-				elm.Set(reflect.New(elm.Type().Elem()))
-				elm = elm.Elem()
-			}
 			elm.Set(val)
 		}
 	}
-- 
2.43.0


From a5dde10bb3f5130589646306bf47318dff583711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 06/74] fix: recognise the same inject.Provide filter when
 exempting and de-duplicating

---
 router_filter.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/router_filter.go b/router_filter.go
index 12bc16c..a15f521 100755
--- a/router_filter.go
+++ b/router_filter.go
@@ -18,7 +18,7 @@ func (h filters) append(values ...*filter) filters {
 outFor:
 	for _, f := range values {
 		for _, v := range h {
-			if v.value == f.value {
+			if v.same(f) {
 				continue outFor
 			}
 		}
@@ -33,7 +33,7 @@ func (h filters) remove(values ...*filter) filters {
 		exempt := false
 	innerFor:
 		for _, f := range values {
-			if v.value == f.value {
+			if v.same(f) {
 				exempt = true
 				break innerFor
 			}
@@ -96,6 +96,14 @@ type filter struct {
 	value reflect.Value
 }
 
+// same filter value, a provider slice is the same if it is the same slice
+func (f *filter) same(o *filter) bool {
+	if f.value.Kind() == reflect.Slice && o.value.Kind() == reflect.Slice {
+		return f.value.Pointer() == o.value.Pointer() && f.value.Len() == o.value.Len()
+	}
+	return f.value == o.value
+}
+
 func newFilter(value reflect.Value, fun FilterFunc) *filter {
 	return &filter{
 		fun:   fun,
-- 
2.43.0


From 9ebb3e317288abcfa5b099e21c55e00165891012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 07/74] fix: send the recorded status when the response is
 flushed

---
 response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response.go b/response.go
index 3ba24d6..571fc91 100755
--- a/response.go
+++ b/response.go
@@ -116,6 +116,8 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		// flush sends the header, it must be the recorded one
+		rw.Write(nil)
 		flusher.Flush()
 	}
 }
-- 
2.43.0


From bff20a1e4148f00c373565c3a6e5bd40fd67fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 08/74] fix: a status set after the header was sent must not be
 reported

---
 response.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/response.go b/response.go
index 571fc91..794ca56 100755
--- a/response.go
+++ b/response.go
@@ -48,6 +48,9 @@ type responseWriter struct {
 
 	once sync.Once
 
+	// header have sent, status is final
+	sent bool
+
 	hijacked bool
 }
 
@@ -56,6 +59,9 @@ func (rw *responseWriter) WriteHeader(s int) {
 	if s == 0 {
 		panic("http status code can not be zero")
 	}
+	if rw.sent {
+		return
+	}
 	rw.status = s
 }
 
@@ -66,6 +72,7 @@ func (rw *responseWriter) Write(b []byte) (int, error) {
 		if rw.status == 0 {
 			rw.status = http.StatusOK
 		}
+		rw.sent = true
 
 		if rw.hijacked {
 			return
-- 
2.43.0


From 629618600f0cb8b1c4aa7ff0483cc46a2441a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 09/74] fix: announce gzip only for a body that is compressed,
 and end the compression with the filter

---
 gzip/gzip.go | 54 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 05bf01e..e399c32 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -27,12 +27,12 @@ func All() interface{} {
 			return
 		}
 
-		headers := rw.Header()
-		headers.Set(HeaderContentEncoding, "gzip")
-		headers.Set(HeaderVary, HeaderAcceptEncoding)
-
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
-		defer gzw.close()
+		defer func() {
+			gzw.close()
+			// outer handlers can still respond if nothing have been written
+			ctx.ProvideAs(rw, (*http.ResponseWriter)(nil))
+		}()
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
 
 		ctx.Next()
@@ -47,18 +47,46 @@ type gzipResponseWriter struct {
 }
 
 func (g *gzipResponseWriter) Write(p []byte) (int, error) {
+	g.start(p)
+	if g.gzw == nil {
+		return g.ResponseWriter.Write(p)
+	}
+	return g.gzw.Write(p)
+}
+
+func (g *gzipResponseWriter) Flush() {
+	g.start(nil)
+	if g.gzw != nil {
+		g.gzw.Flush()
+	}
+	g.ResponseWriter.Flush()
+}
+
+// announce gzip only when the body is really compressed
+func (g *gzipResponseWriter) start(p []byte) {
 	g.one.Do(func() {
-		g.gzw = gzip.NewWriter(g.ResponseWriter)
+		// not called if the header was already sent
+		g.Before(func(rw strip.ResponseWriter) {
+			headers := rw.Header()
+			if headers.Get(HeaderContentEncoding) != "" {
+				// encoded by handler
+				return
+			}
 
-		// delete content length after we know we have been written to
-		g.Header().Del(HeaderContentLength)
+			headers.Set(HeaderContentEncoding, "gzip")
+			headers.Set(HeaderVary, HeaderAcceptEncoding)
 
-		if len(g.Header().Get(HeaderContentType)) == 0 {
-			g.Header().Set(HeaderContentType, http.DetectContentType(p))
-		}
-	})
+			// delete content length after we know we have been written to
+			headers.Del(HeaderContentLength)
 
-	return g.gzw.Write(p)
+			if len(headers.Get(HeaderContentType)) == 0 {
+				headers.Set(HeaderContentType, http.DetectContentType(p))
+			}
+
+			g.gzw = gzip.NewWriter(g.ResponseWriter)
+		})
+		g.ResponseWriter.Write(nil)
+	})
 }
 
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
-- 
2.43.0


From 2dce54827d6fb1c49e0027322f663540e9d2f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 10/74] fix: do not compress when the client refuses gzip with
 a zero quality

---
 gzip/gzip.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index e399c32..d3020bf 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -23,7 +24,7 @@ const (
 // All returns a Handler that adds gzip compression to all requests
 func All() interface{} {
 	return func(rw http.ResponseWriter, req *http.Request, ctx strip.Context) {
-		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), "gzip") {
+		if !acceptGzip(req.Header.Get(HeaderAcceptEncoding)) {
 			return
 		}
 
@@ -40,6 +41,25 @@ func All() interface{} {
 	}
 }
 
+// gzip is listed in the header, and not with a zero quality
+func acceptGzip(header string) bool {
+	for _, coding := range strings.Split(header, ",") {
+		params := strings.Split(coding, ";")
+		if !strings.EqualFold(strings.TrimSpace(params[0]), "gzip") {
+			continue
+		}
+		for _, param := range params[1:] {
+			kv := strings.SplitN(param, "=", 2)
+			if len(kv) == 2 && strings.EqualFold(strings.TrimSpace(kv[0]), "q") {
+				q, err := strconv.ParseFloat(strings.TrimSpace(kv[1]), 64)
+				return err == nil && q > 0
+			}
+		}
+		return true
+	}
+	return false
+}
+
 type gzipResponseWriter struct {
 	strip.ResponseWriter
 	gzw *gzip.Writer
-- 
2.43.0


From 37642ff39f0adcdbf8afff6ee32b589eeda5e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 11/74] fix: a result that can not be nil, like a string, must
 not panic

---
 router_action_out.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..4aa6314 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,10 +66,18 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() {
 			return
 		}
 
+		switch body.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map,
+			reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+			if body.IsNil() {
+				return
+			}
+		}
+
 		itf := body.Interface()
 		switch src := itf.(type) {
 		case ActionResult:
-- 
2.43.0


From 332d9c09bdbf0fcfbfe0728bcade8aace97a8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 12/74] fix: send the status of a raw result whatever its body
 is

---
 utils/apires/raw.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..adc5c95 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -22,12 +22,14 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 		return
 	}
 
-	if r.Body == nil {
-		return
+	switch r.Body.(type) {
+	case nil, string, []byte, io.Reader:
+		rw.WriteHeader(r.Status)
 	}
 
 	var err error
 	switch v := r.Body.(type) {
+	case nil:
 	case string:
 		_, err = rw.Write([]byte(v))
 	case []byte:
-- 
2.43.0


From f58d979760588e5c303f99900fa2603b18b92c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 13/74] fix: detect dependency cycles by what is being
 resolved, not by what was once resolved

---
 inject/inject.go          |  4 ++++
 inject/inject_provider.go | 14 +++-----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..07786d5 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -57,6 +57,10 @@ func (m invokeStatus) set(name string) {
 	m[name] = false
 }
 
+func (m invokeStatus) unset(name string) {
+	delete(m, name)
+}
+
 type invokeCache map[string][]reflect.Value
 
 type injector struct {
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..b393d56 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -32,8 +31,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -130,14 +127,9 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
-	// on process
+	// on process until this call ends
 	status.set(p.name)
+	defer status.unset(p.name)
 
 	if p.value != nil {
 		out = []reflect.Value{p.val}
@@ -153,7 +145,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
-- 
2.43.0


From 22198772e5d62114a57329c416bbe3d00e2b8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 14/74] fix: Invoke must run the function even if its result
 type is provided, and leave the provided instance alone

---
 inject/inject.go          | 8 +++++---
 inject/inject_provider.go | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 07786d5..f4cdade 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -176,14 +176,16 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
+
+	// the function itself is not a provider of the type it returns:
+	// run it always, never use or replace the cached instance of that type
+	info.name = ""
+
 	out, err := info.invoke(inj, status)
 
 	if err != nil {
 		return nil, fmt.Errorf("provider invoke err: %v", err)
 	}
-
-	// remove exists cache of provider
-	delete(inj.caches, info.name)
 	return out, nil
 }
 
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index b393d56..df36cd9 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -169,7 +169,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.ptyp.NumOut() > 0 {
+	if p.name != "" {
 		inj.caches[p.name] = out
 	}
 	return
-- 
2.43.0


From 676d2a237402b9ca025d2c9e6f8fe40e9e55dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 15/74] fix: convert a dependency to the parameter type like
 Find and Apply do

---
 inject/inject_provider.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index df36cd9..2f9b1c1 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -137,7 +137,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 	}
 
 	in := make([]reflect.Value, 0, len(p.deps))
-	for _, dep := range p.deps {
+	for i, dep := range p.deps {
 		prov := inj.get(dep)
 		if prov == nil {
 			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
@@ -164,7 +164,11 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 			}
 		}
 
-		in = append(in, ot[0])
+		arg := reflect.New(p.ptyp.In(i)).Elem()
+		if err = assignValue(ot[0], arg); err != nil {
+			return
+		}
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From 13566df674270ba09d6567a9496dc743fc5161ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 16/74] fix: Apply must report a value that can not be assigned

---
 inject/inject.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index f4cdade..1a480fc 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -243,7 +243,9 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				if err := assignValue(out[0], field); err != nil {
+					return err
+				}
 			}
 
 			continue
-- 
2.43.0


From 88c89402f70e2997eb42f7729b26750698cafb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 17/74] fix: do not mix up the providers of unnamed types

---
 inject/inject_provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 2f9b1c1..f1c5c66 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -181,6 +181,10 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 // create unique name of type
 func createName(typ reflect.Type, name string) string {
+	if typ.Name() == "" {
+		// a type literal like []string
+		return typ.String() + ":" + name
+	}
 	return typ.PkgPath() + ":" + typ.Name() + ":" + name
 }
 
-- 
2.43.0


From 24c82788677d0c25a22186e179c22392b4ef6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 18/74] fix: Worker.Wait must not miss the error of a task

---
 utils/worker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..d39eecd 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -49,23 +49,23 @@ func (w *Worker) run(task interface{}) {
 	switch t := task.(type) {
 	case func():
 		t()
-		w.done()
+		w.done(nil)
 	case func() error:
-		err := t()
-		w.done()
-		if err != nil {
-			w.rw.Lock()
-			if !w.closed {
-				w.close()
-				w.err = err
-			}
-			w.rw.Unlock()
-		}
+		w.done(t())
 	}
 }
 
-func (w *Worker) done() {
+func (w *Worker) done(err error) {
 	<-w.pools
+	if err != nil {
+		// before the task counts as finished, or Wait could miss it
+		w.rw.Lock()
+		if !w.closed {
+			w.close()
+			w.err = err
+		}
+		w.rw.Unlock()
+	}
 	w.wg.Done()
 }
 
-- 
2.43.0


From b7dcb4cb4db273ac2148bed66dbbb1015f53ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 19/74] fix: a task of an unsupported type must not block
 Worker.Wait for ever

---
 utils/worker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/worker.go b/utils/worker.go
index d39eecd..0818d01 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -52,6 +52,8 @@ func (w *Worker) run(task interface{}) {
 		w.done(nil)
 	case func() error:
 		w.done(t())
+	default:
+		w.done(nil)
 	}
 }
 
-- 
2.43.0


From cb4effe07f17832fd2112faca7a7cfa399c82c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 20/74] fix: submitting a task while Worker.Wait returns must
 not panic

---
 utils/worker.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 0818d01..d2a2fbe 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -11,10 +11,14 @@ import (
 // woker 在 wait 结束后，可以再次使用 RunTask 增加 task
 type Worker struct {
 	rw     sync.RWMutex
-	wg     sync.WaitGroup
-	err    error
 	closed bool
 
+	// tasks accepted and not finished, and the first error
+	mu      sync.Mutex
+	idle    *sync.Cond
+	pending int
+	err     error
+
 	// 这个场景只考虑限制并发，不考虑 goroutine 复用
 	pools chan bool
 }
@@ -25,7 +29,9 @@ func (w *Worker) RunTask(task interface{}) {
 		w.rw.RUnlock()
 		return
 	}
-	w.wg.Add(1)
+	w.mu.Lock()
+	w.pending++
+	w.mu.Unlock()
 	w.pools <- true
 	w.rw.RUnlock()
 
@@ -33,9 +39,13 @@ func (w *Worker) RunTask(task interface{}) {
 }
 
 func (w *Worker) Wait() (err error) {
-	w.wg.Wait()
+	w.mu.Lock()
+	for w.pending > 0 {
+		w.idle.Wait()
+	}
 	err = w.err
 	w.err = nil
+	w.mu.Unlock()
 	return
 }
 
@@ -64,11 +74,18 @@ func (w *Worker) done(err error) {
 		w.rw.Lock()
 		if !w.closed {
 			w.close()
+			w.mu.Lock()
 			w.err = err
+			w.mu.Unlock()
 		}
 		w.rw.Unlock()
 	}
-	w.wg.Done()
+	w.mu.Lock()
+	w.pending--
+	if w.pending == 0 {
+		w.idle.Broadcast()
+	}
+	w.mu.Unlock()
 }
 
 func (w *Worker) close() {
@@ -81,6 +98,7 @@ func (w *Worker) close() {
 
 func NewWorker(nums int) *Worker {
 	wk := new(Worker)
+	wk.idle = sync.NewCond(&wk.mu)
 	wk.pools = make(chan bool, nums)
 	return wk
 }
-- 
2.43.0


From 322d8da4b3d862ee807966f0971d751951fcc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 21/74] fix: concurrent requests must not share the memory
 limit variable of the params parser

---
 params/params.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/params/params.go b/params/params.go
index 9d98e45..36e47b1 100755
--- a/params/params.go
+++ b/params/params.go
@@ -243,8 +243,6 @@ func (p *Params) calcValues() url.Values {
 }
 
 func ParamsParser() interface{} {
-	var maxMemory int64
-
 	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
 		params := new(Params)
 		params.req = req
@@ -257,11 +255,10 @@ func ParamsParser() interface{} {
 			params.Route = *routeInfo
 		}
 
+		var maxMemory int64
+		config.Bind(&maxMemory, "max_memory")
 		if maxMemory == 0 {
-			config.Bind(&maxMemory, "max_memory")
-			if maxMemory == 0 {
-				maxMemory = DefaultMaxMemory
-			}
+			maxMemory = DefaultMaxMemory
 		}
 
 		err := ParseParams(params, maxMemory)
-- 
2.43.0


From de1fd78138edd3c0ce37a81c9b6979a928aba0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 22/74] fix: writing a result that requests share must not
 change it

---
 utils/apires/raw.go | 14 ++++++++------
 utils/apires/res.go | 16 +++++++++-------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index adc5c95..8d015a2 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,18 +13,20 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// a result may be shared by concurrent requests, do not change it
+	status := r.Status
+	if status == 0 {
+		status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
 	switch r.Body.(type) {
 	case nil, string, []byte, io.Reader:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 	}
 
 	var err error
@@ -41,7 +43,7 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 			c.Close()
 		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..2b0108a 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,21 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// a result may be shared by concurrent requests, do not change it
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From 2a9df5ac52b01c26ced471360434b9a456e144bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 23/74] fix: sign text and time of a value separately, so that
 no digits move between them

---
 sessions/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..d3ab681 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -52,7 +52,7 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 	}
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
+	_, err = h.Write([]byte(vRaw + COOKIE_VALUE_SPLIT + vCreated))
 	if err != nil {
 		return
 	}
@@ -75,7 +75,7 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	if _, err := h.Write([]byte(raw + COOKIE_VALUE_SPLIT + timeValue)); err != nil {
 		return
 	}
 
-- 
2.43.0


From a0b109bd11e7c2df84ad4b3f668c0708ea3d36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 24/74] fix: a signed value without user and salt is no
 remember cookie

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From 99f56fd41f1c55240a9012f0b1901a6e23c6b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 25/74] fix: use the default of a setting also without a
 configuration

---
 config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index 1227053..770f8b9 100755
--- a/config.go
+++ b/config.go
@@ -59,14 +59,14 @@ func newConfig() *Config {
 }
 
 func (c *Config) Find(name string, defaultValue ...string) string {
+	value := ""
 	if c.Configer != nil {
-		value := c.Configer.Find(name)
-		if value == "" && len(defaultValue) > 0 {
-			return defaultValue[0]
-		}
-		return value
+		value = c.Configer.Find(name)
+	}
+	if value == "" && len(defaultValue) > 0 {
+		return defaultValue[0]
 	}
-	return ""
+	return value
 }
 
 func (c *Config) Bind(ptr interface{}, name string) {
-- 
2.43.0


From 2b026c441e951b3fba6257c45f0948a13b426c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 26/74] fix: a list flag holds the parts of a text, not the
 text

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..b27681a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0


From ff9844fc383dcefe4d026a4ce283d3738952e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 27/74] fix: keep the form free of the query, and the query and
 route if the form is malformed

---
 params/params.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/params/params.go b/params/params.go
index 36e47b1..1a476a2 100755
--- a/params/params.go
+++ b/params/params.go
@@ -54,30 +54,27 @@ func ParseParams(params *Params, maxMemory int64) error {
 	}
 
 	// Parse the body depending on the content type.
+	var err error
 	switch contentType {
 	case "application/x-www-form-urlencoded":
 		// Typical form.
-		if err := req.ParseForm(); err != nil {
-			return err
-		} else {
-			params.Form = req.Form
-		}
+		err = req.ParseForm()
+		params.Form = req.PostForm
 
 	case "multipart/form-data":
 		// Multipart form.
 		if maxMemory <= 0 {
 			maxMemory = DefaultMaxMemory
 		}
-		if err := req.ParseMultipartForm(maxMemory); err != nil {
-			return err
-		} else {
+		err = req.ParseMultipartForm(maxMemory)
+		if req.MultipartForm != nil {
 			params.Form = req.MultipartForm.Value
 			params.Files = req.MultipartForm.File
 		}
 	}
 
 	params.Values = params.calcValues()
-	return nil
+	return err
 }
 
 // Bind looks for the named parameter, converts it to the requested type, and
-- 
2.43.0


From 1b0b347b7e96e7cafd4b36670e1ac64f52c7ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 28/74] fix: bind a number out of the range of its type to zero

---
 params/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..d7f790a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -66,7 +66,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			intValue, err := strconv.ParseInt(val, 10, 64)
+			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -81,7 +81,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			uintValue, err := strconv.ParseUint(val, 10, 64)
+			uintValue, err := strconv.ParseUint(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -96,7 +96,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			floatValue, err := strconv.ParseFloat(val, 64)
+			floatValue, err := strconv.ParseFloat(val, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
-- 
2.43.0


From 795d5d91adec81c5a8c150c5d39212177627686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 29/74] fix: correct the format of times without seconds

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index d7f790a..6f3b515 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -47,7 +47,7 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From 1d7234a42dd413fef6342cc8a0d2459adb42f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 30/74] fix: keep the digits of the numbers when binding a map
 from JSON

---
 params/binder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 6f3b515..d6b6d6e 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -343,7 +343,11 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 	)
 	if v := params.Values.Get(name); v != "" {
 		raw := make(map[string]interface{})
-		_ = json.Unmarshal([]byte(v), &raw)
+		if json.Valid([]byte(v)) {
+			dec := json.NewDecoder(strings.NewReader(v))
+			dec.UseNumber()
+			_ = dec.Decode(&raw)
+		}
 		for key, value := range raw {
 			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
 		}
-- 
2.43.0


From 3c9cc354aa51e9370b942b0e881fef5efcd78c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 31/74] fix: a large index in a parameter name must not exhaust
 the memory or panic

---
 params/binder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index d6b6d6e..3650dbd 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -205,6 +205,9 @@ func init() {
 	TimeFormats = append(TimeFormats, DEFAULT_DATE_FORMAT, DEFAULT_DATETIME_FORMAT, DEFAULT_DATETIME_FORMAT_SECOND, time.RFC3339)
 }
 
+// The largest index of a slice element, elements with a larger one are ignored.
+const maxSliceIndex = 16000
+
 // Used to keep track of the index for individual keyvalues.
 type sliceValue struct {
 	index int           // Index extracted from brackets.  If -1, no index was provided.
@@ -235,6 +238,11 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		}
 		subKeyIndex := rightBracket + 1
 
+		// An index beyond any reasonable list would only exhaust the memory.
+		if index > maxSliceIndex {
+			return
+		}
+
 		// Handle the indexed case.
 		if index > -1 {
 			if index > maxIndex {
-- 
2.43.0


From ad8c7156d52b24262392572b893be8b0fbf43f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 32/74] fix: binding a field of an embedded struct pointer must
 not panic

---
 params/binder.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 3650dbd..7b7c709 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -309,6 +309,28 @@ func nextKey(key string) string {
 	return key[:fieldLen]
 }
 
+// fieldByName returns the exported field of the struct, and creates the embedded structs on the
+// way to it, or returns the zero Value if there is none that can be reached.
+func fieldByName(value reflect.Value, name string) reflect.Value {
+	field, ok := value.Type().FieldByName(name)
+	if !ok || field.PkgPath != "" {
+		return reflect.Value{}
+	}
+	for _, i := range field.Index {
+		if value.Kind() == reflect.Ptr {
+			if value.IsNil() {
+				if !value.CanSet() {
+					return reflect.Value{}
+				}
+				value.Set(reflect.New(value.Type().Elem()))
+			}
+			value = value.Elem()
+		}
+		value = value.Field(i)
+	}
+	return value
+}
+
 func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 	result := reflect.New(typ).Elem()
 	fieldValues := make(map[string]reflect.Value)
@@ -325,7 +347,7 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		if _, ok := fieldValues[fieldName]; !ok {
 			// Time to bind this field.  Get it and make sure we can set it.
-			fieldValue := result.FieldByName(fieldName)
+			fieldValue := fieldByName(result, fieldName)
 			if !fieldValue.IsValid() {
 				continue
 			}
-- 
2.43.0


From c670275a220aab52ff0552389d236bd0fe1fc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 33/74] fix: an embedded pointer to an unexported struct must
 not panic

---
 params/params.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 1a476a2..2abf771 100755
--- a/params/params.go
+++ b/params/params.go
@@ -166,6 +166,9 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 				var newField reflect.Value
 				if field.IsNil() {
+					if !field.CanSet() {
+						continue
+					}
 					newField = reflect.New(ftyp.Type.Elem())
 				} else {
 					newField = field
@@ -180,7 +183,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					// save pointer
 					pointerMap[pointer] = true
 				}
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+				if ok := p.bindValuesToStruct(inf, pointerMap); ok && field.CanSet() {
 					field.Set(newField)
 				}
 
-- 
2.43.0


From 412a10f2791b4cc839c922f77ee0eaaf7ed6017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 34/74] fix: an unsigned number too large for an int64 must not
 become negative

---
 utils/converter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..912aaef 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -4,6 +4,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -190,7 +191,11 @@ func ToInt64(value interface{}) (d int64, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		d = val.Int()
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		d = int64(val.Uint())
+		u := val.Uint()
+		if u > math.MaxInt64 {
+			return 0, fmt.Errorf("ToInt64 %d is out of range", u)
+		}
+		d = int64(u)
 	default:
 		err = fmt.Errorf("ToInt64 need numeric not `%T`", value)
 	}
-- 
2.43.0


From 04e5e4b340a214eda7f80930e60417d337a3d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 35/74] fix: print the value that has no text form, not an
 empty byte slice

---
 utils/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index 912aaef..28f2f25 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -178,7 +178,7 @@ func ToStr(value interface{}, args ...int) (s string) {
 			// TODO should use reflect rewrite
 			s = string(v)
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
-- 
2.43.0


From e10f039e380112efc9786e663a9357dfe8d72bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 36/74] fix: an empty text or byte slice is an empty text, and
 an array of bytes must not panic

---
 app_util.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/app_util.go b/app_util.go
index 34966d5..4f22bf6 100755
--- a/app_util.go
+++ b/app_util.go
@@ -169,10 +169,13 @@ func ToStr(value interface{}) (s string) {
 		s = val.String()
 	case reflect.Array, reflect.Slice:
 		if val.Type().Elem().Kind() == reflect.Uint8 {
-			s = string(val.Bytes())
+			b := reflect.New(val.Type()).Elem() // the bytes of an array must be addressable
+			b.Set(val)
+			s = string(b.Bytes())
+		} else {
+			s = fmt.Sprint(value)
 		}
-	}
-	if s == "" {
+	default:
 		s = fmt.Sprint(value)
 	}
 	return s
-- 
2.43.0


From af50da7b339f5becebd00bd7367d6ced982834a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 37/74] fix: the redirect to a directory must not name another
 host

---
 static-serve/static.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..42f5f42 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -107,7 +107,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					Path:     "/" + strings.TrimLeft(req.URL.Path, "/") + "/",
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From 39bc517d6215ebb1c580857cde9b4a6f2fe1bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 38/74] fix: close the fallback file after it is served

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 42f5f42..fc00c38 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -138,6 +138,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From f5428e031eab8abf87ef465d548b884203b046ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 39/74] fix: a directory named like the index page is not found

---
 static-serve/static.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index fc00c38..e7383c7 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -123,7 +123,10 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 			defer f.Close()
 
 			fi, err = f.Stat()
-			if err != nil || fi.IsDir() {
+			if err == nil && fi.IsDir() {
+				err = os.ErrNotExist
+			}
+			if err != nil {
 				return
 			}
 		}
-- 
2.43.0


From b02ae58d216386464afbfb2b75c0cd9ba4a42562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 40/74] fix: values of unnamed or equally named types in a
 context must not be confused

---
 utils/context.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..5aeae1d 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -12,13 +12,28 @@ var (
 
 type key string
 
+// typedKey tells apart the types that have the same name, or none
+type typedKey struct {
+	key key
+	typ reflect.Type
+}
+
+func ctxValueToTypedKey(value interface{}, extraNames ...string) typedKey {
+	k := ctxValueToKey(value, extraNames...)
+	typ := reflect.TypeOf(value).Elem()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	return typedKey{k, typ}
+}
+
 func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxValueToTypedKey(value, extraName...)
 	return context.WithValue(ctx, k, value)
 }
 
 func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) error {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxValueToTypedKey(value, extraName...)
 	inf := ctx.Value(k)
 	tarElm := reflect.ValueOf(value).Elem()
 	if !tarElm.CanSet() {
-- 
2.43.0


From ca7488141daf3ade49ac3d7bf9d539b1918c9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 41/74] fix: looking up the value of a nil pointer in a context
 must not panic

---
 utils/context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/context.go b/utils/context.go
index 5aeae1d..368a768 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -47,6 +47,9 @@ func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) e
 		return nil
 	}
 	elm := val.Elem()
+	if elm.Kind() == reflect.Ptr && elm.IsNil() && tarElm.Kind() != reflect.Ptr {
+		return nil
+	}
 	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
 		tarElm.Set(elm.Addr())
 	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
-- 
2.43.0


From c034a5628dfa479811f737586cc016809796ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 42/74] fix: client address and host without port also for
 IPv6, and the same address in the request log

---
 params/real.go           | 36 +++++++++++++++---------------------
 request-logger/logger.go | 18 ++----------------
 2 files changed, 17 insertions(+), 37 deletions(-)

diff --git a/params/real.go b/params/real.go
index 31493a9..8f7abe9 100755
--- a/params/real.go
+++ b/params/real.go
@@ -7,26 +7,24 @@ import (
 )
 
 func RealIp(req *http.Request) (realIp string) {
-	realIp = req.Header.Get("X-Real-Ip")
-	if realIp != "" {
-		return
+	forwarded := strings.Split(req.Header.Get("X-Forwarded-For"), ",")[0]
+	for _, addr := range []string{req.Header.Get("X-Real-Ip"), forwarded, req.RemoteAddr} {
+		if addr = strings.TrimSpace(addr); addr != "" {
+			return strings.Trim(stripPort(addr), "[]")
+		}
 	}
+	return "127.0.0.1"
+}
 
-	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
-	if len(ips) > 0 && ips[0] != "" {
-		rip := strings.Split(ips[0], ":")
-		realIp = rip[0]
-		return
+// stripPort removes the port of an address, IPv6 addresses with a port are in brackets
+func stripPort(addr string) string {
+	if idx := strings.LastIndex(addr, "]"); idx != -1 {
+		return addr[:idx+1]
 	}
-
-	ip := strings.Split(req.RemoteAddr, ":")
-	if len(ip) > 0 {
-		if ip[0] != "[" {
-			realIp = ip[0]
-			return
-		}
+	if strings.Count(addr, ":") == 1 {
+		return addr[:strings.Index(addr, ":")]
 	}
-	return "127.0.0.1"
+	return addr
 }
 
 func RealHost(req *http.Request) (host string) {
@@ -34,11 +32,7 @@ func RealHost(req *http.Request) (host string) {
 	if host == "" {
 		host = req.Host
 	}
-	parts := strings.Split(host, ":")
-	if len(parts) > 0 {
-		host = parts[0]
-	}
-	return
+	return stripPort(host)
 }
 
 func RealProto(req *http.Request) (proto string) {
diff --git a/request-logger/logger.go b/request-logger/logger.go
index e86c300..504f42b 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -3,11 +3,11 @@ package reqlogger
 import (
 	"fmt"
 	"net/http"
-	"strings"
 	"time"
 
 	"github.com/wujiu2020/strip"
 	"github.com/wujiu2020/strip/inject"
+	"github.com/wujiu2020/strip/params"
 	"github.com/wujiu2020/strip/utils"
 )
 
@@ -111,21 +111,7 @@ func ReqLoggerFilter(out strip.LogPrinter, opts ...LoggerOption) inject.Provider
 }
 
 func realIp(req *http.Request) string {
-	if ip := req.Header.Get(HeaderXRealIp); ip != "" {
-		return strings.TrimSpace(ip)
-	}
-
-	parts := strings.Split(req.Header.Get(HeaderXForwardedFor), ",")
-	if len(parts) > 0 && parts[0] != "" {
-		parts = strings.Split(parts[0], ":")
-		return strings.TrimSpace(parts[0])
-	}
-
-	host := req.RemoteAddr
-	if idx := strings.LastIndex(req.RemoteAddr, ":"); idx != -1 {
-		host = host[:idx]
-	}
-	return host
+	return params.RealIp(req)
 }
 
 func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger) *http.Request {
-- 
2.43.0


From 1447086881283e03cfaf18198ba959be210a748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 43/74] fix: keep the escapes of the original URI in the full
 URL

---
 params/real.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/params/real.go b/params/real.go
index 8f7abe9..32bf5f7 100755
--- a/params/real.go
+++ b/params/real.go
@@ -64,6 +64,8 @@ func RealURL(req *http.Request) (u *url.URL, err error) {
 	d.Scheme = RealProto(req)
 	d.Opaque = ins.Opaque
 	d.Path = ins.Path
+	d.RawPath = ins.RawPath
+	d.ForceQuery = ins.ForceQuery
 	d.RawQuery = ins.RawQuery
 	return &d, nil
 }
-- 
2.43.0


From ca87bccad93e10245937b8eaad50dad9aa59fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 44/74] fix: a random string over an alphabet of 256 bytes must
 not panic

---
 utils/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From d29e0962b368199e6b24ff3fd2270b83dc1f17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 45/74] fix: a nil pointer returned as an interface is no
 result and must not panic

---
 router_action_out.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/router_action_out.go b/router_action_out.go
index 4aa6314..1b4aec1 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,12 +66,17 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() {
+		if body.Kind() == reflect.Interface {
+			// a nil pointer held by an interface is nil as well
+			body = body.Elem()
+		}
+
+		if !body.IsValid() || !body.CanInterface() {
 			return
 		}
 
 		switch body.Kind() {
-		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map,
+		case reflect.Chan, reflect.Func, reflect.Map,
 			reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
 			if body.IsNil() {
 				return
-- 
2.43.0


From 591d0796b2788c943d9fd8fa16929d7e27b6c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 46/74] fix: close the stream of a raw body also without
 content or if reading it panics

---
 utils/apires/raw.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index 8d015a2..9b3a499 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -19,6 +19,12 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 		status = http.StatusOK
 	}
 
+	if _, ok := r.Body.(io.Reader); ok {
+		if c, ok := r.Body.(io.Closer); ok {
+			defer c.Close()
+		}
+	}
+
 	if status == http.StatusNoContent {
 		rw.WriteHeader(status)
 		return
@@ -39,9 +45,6 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 	case io.Reader:
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
-		if c, ok := r.Body.(io.Closer); ok {
-			c.Close()
-		}
 	default:
 		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
-- 
2.43.0


From dbb640e39383daf1b7450977fbcdd5c01bc41f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 47/74] fix: a memcached entry with a timeout over 30 days must
 not expire at once

---
 caches/provider_memcache.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..9a3b5e5 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,9 @@
 package caches
 
 import (
+	"math"
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
@@ -35,19 +38,17 @@ func (p *mcProvide) Get(key string) (value utils.StrTo, err error) {
 
 func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: mcExpiration(params...),
 	})
 	return
 }
 
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, mcExpiration(params...))
 	err = p.handleError(err)
 	return
 }
@@ -99,6 +100,20 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// memcached takes an expiration of more than 30 days as a unix timestamp
+func mcExpiration(params ...int) int32 {
+	timeout := getTimeoutDur(params...)
+	if timeout <= 30*24*time.Hour {
+		return int32(timeout.Seconds())
+	}
+
+	at := time.Now().Add(timeout).Unix()
+	if at > math.MaxInt32 {
+		return 0
+	}
+	return int32(at)
+}
+
 func (p *mcProvide) handleError(err error) error {
 	if err == memcache.ErrCacheMiss {
 		return ErrMissedKey
-- 
2.43.0


From 4a3c3f90104d978505d274dc23549f57e024e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 48/74] fix: incr and decr by a negative amount on memcached

---
 caches/provider_memcache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 9a3b5e5..b369947 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -66,9 +66,7 @@ func (p *mcProvide) Incr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-	_, err = p.Client.Increment(key, uint64(cnt))
-	err = p.handleError(err)
-	return
+	return p.incr(key, cnt)
 }
 
 func (p *mcProvide) Decr(key string, params ...int) (err error) {
@@ -77,9 +75,17 @@ func (p *mcProvide) Decr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-	_, err = p.Client.Decrement(key, uint64(cnt))
-	err = p.handleError(err)
-	return
+	return p.incr(key, -cnt)
+}
+
+// memcached only takes unsigned amounts
+func (p *mcProvide) incr(key string, cnt int) (err error) {
+	if cnt < 0 {
+		_, err = p.Client.Decrement(key, uint64(-cnt))
+	} else {
+		_, err = p.Client.Increment(key, uint64(cnt))
+	}
+	return p.handleError(err)
 }
 
 func (p *mcProvide) Has(key string) (bool, error) {
-- 
2.43.0


From cb5c95638def551a3ea4e05bd41f323b3192abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 49/74] fix: touching a redis entry to live indefinitely must
 not delete it

---
 caches/provider_redis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..ecee366 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -63,7 +63,7 @@ func (p *redisProvide) Set(key string, val interface{}, params ...int) (err erro
 
 func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
+	timeout := getTimeoutDurEx(params...)
 
 	conn, err := p.Client.Get()
 	if err != nil {
-- 
2.43.0


From d9f789aa4792cb568e11067295feb67579c13070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 50/74] fix: incr and decr of a missing redis key must not
 create it

---
 caches/provider_redis.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index ecee366..1ebba9b 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -110,17 +110,7 @@ func (p *redisProvide) Incr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-
-	conn, err := p.Client.Get()
-	if err != nil {
-		return
-	}
-	defer p.Client.Put(conn)
-
-	resp := conn.Cmd("INCRBY", key, cnt)
-	err = resp.Err
-	err = p.handleError(err)
-	return
+	return p.incr("INCRBY", key, cnt)
 }
 
 func (p *redisProvide) Decr(key string, params ...int) (err error) {
@@ -129,16 +119,28 @@ func (p *redisProvide) Decr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
+	return p.incr("DECRBY", key, cnt)
+}
 
+// redis creates a missing key, without expiration
+func (p *redisProvide) incr(cmd string, key string, cnt int) (err error) {
 	conn, err := p.Client.Get()
 	if err != nil {
 		return
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("DECRBY", key, cnt)
-	err = resp.Err
-	err = p.handleError(err)
+	exists, err := conn.Cmd("EXISTS", key).Int()
+	if err != nil {
+		err = p.handleError(err)
+		return
+	}
+	if exists == 0 {
+		err = ErrMissedKey
+		return
+	}
+
+	err = p.handleError(conn.Cmd(cmd, key, cnt).Err)
 	return
 }
 
-- 
2.43.0


From 373a6587d3932ff679c254488023f5cc53dbd240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 51/74] fix: an expired mongo entry is missing for touch,
 delete, incr and decr too

---
 caches/provider_mgo.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index 95d82b1..f971179 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -107,9 +107,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 		timeout := getTimeoutDurEx(params...)
 		expiredAt := time.Now().Add(timeout)
 
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.liveSelector(key), bson.M{
 			"$set": bson.M{
 				p.config.ExpiredAtField: expiredAt,
 			},
@@ -122,9 +120,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 
 func (p *mgoProvide) Delete(key string) (err error) {
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Remove(bson.M{
-			p.config.KeyField: key,
-		})
+		er := c.Remove(p.liveSelector(key))
 		return er
 	})
 	err = p.handleError(err)
@@ -138,9 +134,7 @@ func (p *mgoProvide) Incr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.liveSelector(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -158,9 +152,7 @@ func (p *mgoProvide) Decr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.liveSelector(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -217,6 +209,14 @@ func (p *mgoProvide) fetchValues(key string) (values map[string]interface{}, err
 	return values, err
 }
 
+// expired entries stay in the collection until they are collected
+func (p *mgoProvide) liveSelector(key string) bson.M {
+	return bson.M{
+		p.config.KeyField:       key,
+		p.config.ExpiredAtField: bson.M{"$gt": time.Now()},
+	}
+}
+
 func (p *mgoProvide) getValue(values map[string]interface{}) (value interface{}, ok bool) {
 	if values == nil {
 		return
-- 
2.43.0


From 8f43505b13dcda98fcacfc6dfc711f580ee53f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 52/74] fix: a failure of the back end while regenerating a
 session must not panic

---
 sessions/manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..95dfe36 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -116,9 +116,9 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	case ErrNotFoundSession:
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From 0b50e4d9eccf884b7ac80a45d397a7843bb663b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 53/74] fix: changes of a session whose flush failed are saved
 by the next flush

---
 sessions/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..5c8f4e8 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,12 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
+	if err := m.provider.save(m.store); err != nil {
+		return err
+	}
+
 	m.changed = false
-	return m.provider.save(m.store)
+	return nil
 }
 
 // destory session values in store
-- 
2.43.0


From fb82bef7d1bc82ae494ce562668b507d35b427e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 54/74] fix: a session is not regenerated if its old id could
 not be destroyed

---
 sessions/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 5c8f4e8..9e42183 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -187,7 +187,11 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
+	// the old sid must not reach the values any more
+	err = p.Destroy(old)
+	if err != nil && err != caches.ErrMissedKey {
+		return
+	}
 	return p.Read(sid)
 }
 
-- 
2.43.0


From 3c183033948d7de690604637d2c19f3d4a637537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 55/74] fix: sessions created with the same initial values must
 not share them

---
 sessions/provider.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 9e42183..c919134 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -23,15 +23,14 @@ type sessStore struct {
 
 func newSessStore(sid string, params ...map[string]interface{}) *sessStore {
 	store := &sessStore{
-		Sid: sid,
+		Sid:    sid,
+		Values: make(map[string]interface{}),
 	}
 
 	if len(params) > 0 {
-		store.Values = params[0]
-	}
-
-	if store.Values == nil {
-		store.Values = make(map[string]interface{})
+		for key, value := range params[0] {
+			store.Values[key] = value
+		}
 	}
 	return store
 }
-- 
2.43.0


From 2a63e061e6490782fa8283a0ea49aeaf959e29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 56/74] fix: a list of texts saved in a session can be read as
 such

---
 utils/converter_value_to.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 603275d..900ba65 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -197,7 +197,21 @@ func (v *Value) MustString() (ret string) {
 }
 
 func (v *Value) MustSliceString() (ret []string) {
-	ret, _ = v.value.([]string)
+	switch values := v.value.(type) {
+	case []string:
+		ret = values
+	case []interface{}:
+		// a list of texts read from a store
+		list := make([]string, len(values))
+		for i, value := range values {
+			text, ok := value.(string)
+			if !ok {
+				return
+			}
+			list[i] = text
+		}
+		ret = list
+	}
 	return
 }
 
-- 
2.43.0


From 1d182f5f58ff21f62603001c60ac187bc8fbdeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 57/74] fix: dummy sessions created with the same initial
 values must not share them

---
 sessions/store_dummy.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sessions/store_dummy.go b/sessions/store_dummy.go
index d2afaa9..52badb7 100755
--- a/sessions/store_dummy.go
+++ b/sessions/store_dummy.go
@@ -82,11 +82,13 @@ func (m *dummyStore) Touch() error {
 func NewDummySessionStore(sid string, values map[string]interface{}) SessionStore {
 	sess := &dummyStore{
 		sid:    sid,
-		values: values,
+		values: make(map[string]interface{}, len(values)),
 	}
 
-	if sess.values == nil {
-		sess.values = make(map[string]interface{})
+	for key, value := range values {
+		sess.values[key] = value
+	}
+	if values == nil {
 		sess.changed = true
 	}
 	return sess
-- 
2.43.0


From 33d7f25fb79119f14adc1aa038bde4532a2818a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 58/74] fix: registrations of different types that are written
 alike must not replace each other

---
 inject/inject.go          | 20 ++++++++++----------
 inject/inject_provider.go | 26 ++++++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 1a480fc..21fc867 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -43,29 +43,29 @@ type TypeProvider interface {
 }
 
 type provInvoker interface {
-	get(string) *providerInfo
+	get(provName) *providerInfo
 }
 
-type invokeStatus map[string]bool
+type invokeStatus map[provName]bool
 
-func (m invokeStatus) has(name string) bool {
+func (m invokeStatus) has(name provName) bool {
 	_, ok := m[name]
 	return ok
 }
 
-func (m invokeStatus) set(name string) {
+func (m invokeStatus) set(name provName) {
 	m[name] = false
 }
 
-func (m invokeStatus) unset(name string) {
+func (m invokeStatus) unset(name provName) {
 	delete(m, name)
 }
 
-type invokeCache map[string][]reflect.Value
+type invokeCache map[provName][]reflect.Value
 
 type injector struct {
 	// use for store provider
-	values map[string]*providerInfo
+	values map[provName]*providerInfo
 
 	// user for cache provider instance for current inject
 	caches invokeCache
@@ -75,7 +75,7 @@ type injector struct {
 
 func New() Injector {
 	return &injector{
-		values: make(map[string]*providerInfo),
+		values: make(map[provName]*providerInfo),
 		caches: make(invokeCache),
 	}
 }
@@ -179,7 +179,7 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 
 	// the function itself is not a provider of the type it returns:
 	// run it always, never use or replace the cached instance of that type
-	info.name = ""
+	info.name = provName{}
 
 	out, err := info.invoke(inj, status)
 
@@ -273,7 +273,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	return nil
 }
 
-func (inj *injector) get(name string) *providerInfo {
+func (inj *injector) get(name provName) *providerInfo {
 	// get provider in current injector
 	if prov := inj.values[name]; prov != nil {
 		return prov
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index f1c5c66..f03fe17 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -10,11 +10,21 @@ type Provide []Provider
 
 type Dep map[int]string
 
-type providerInfo struct {
+// name of a provider, types written alike are still different types
+type provName struct {
+	typ  reflect.Type
 	name string
+}
+
+func (n provName) String() string {
+	return n.typ.String() + ":" + n.name
+}
+
+type providerInfo struct {
+	name provName
 
 	// depends of this provider
-	deps []string
+	deps []provName
 
 	// type of injerct value
 	typ reflect.Type
@@ -79,7 +89,7 @@ func newProvider(obj Object) (info *providerInfo) {
 	}
 
 	numIn := info.ptyp.NumIn()
-	deps := make([]string, 0, numIn)
+	deps := make([]provName, 0, numIn)
 
 	for i := 0; i < numIn; i++ {
 		typ := indirectType(info.ptyp.In(i))
@@ -173,19 +183,15 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.name != "" {
+	if p.name.typ != nil {
 		inj.caches[p.name] = out
 	}
 	return
 }
 
 // create unique name of type
-func createName(typ reflect.Type, name string) string {
-	if typ.Name() == "" {
-		// a type literal like []string
-		return typ.String() + ":" + name
-	}
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+func createName(typ reflect.Type, name string) provName {
+	return provName{typ, name}
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From c013a0321070e716a166a639be3924b6328fd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 59/74] fix: escape the panic value in the html page of the
 recovery filter

---
 recovery.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery.go b/recovery.go
index a95df22..a8345b0 100755
--- a/recovery.go
+++ b/recovery.go
@@ -51,7 +51,7 @@ pre.message,
 </style>
 </head><body>
 <h1>PANIC: %s</h1>
-<pre class="message">%T: %#v</pre>
+<pre class="message">%s</pre>
 <div class="stack">%s</div>
 </body>
 </html>`
@@ -90,7 +90,9 @@ func RecoveryFilter() inject.Provider {
 				var body []byte
 				if config.RunMode.IsDev() {
 					rw.Header().Set("Content-Type", "text/html; charset=utf-8")
-					body = []byte(fmt.Sprintf(panicHtml, err, err, err, err, styleStack(stack)))
+					title := html.EscapeString(fmt.Sprintf("%s", err))
+					message := html.EscapeString(fmt.Sprintf("%T: %#v", err, err))
+					body = []byte(fmt.Sprintf(panicHtml, title, title, message, styleStack(stack)))
 					rw.Write(body)
 				}
 			}
-- 
2.43.0


From 0ae79309537446fd6e9196cdfe9e67549234e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 60/74] fix: a panic is answered with status 500 also if there
 is no logger

---
 recovery.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery.go b/recovery.go
index a8345b0..688118f 100755
--- a/recovery.go
+++ b/recovery.go
@@ -69,11 +69,10 @@ func RecoveryFilter() inject.Provider {
 				fErr := ctx.Find(&log, "")
 				if fErr != nil {
 					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\n%s", err, fErr, stack)
-					return
+				} else {
+					log.Errorf("PANIC: %#v\n%s", err, stack)
 				}
 
-				log.Errorf("PANIC: %#v\n%s", err, stack)
-
 				var rw http.ResponseWriter
 				ctx.Find(&rw, "")
 
-- 
2.43.0


From 4fca6b058e9795ba0ee486c5d340c82b6f0b1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 61/74] fix: method handlers derived from one another must not
 replace each other's filters

---
 router_method.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..a6cc469 100755
--- a/router_method.go
+++ b/router_method.go
@@ -51,17 +51,17 @@ func (h methodParams) Action(name string) MethodHandler {
 	rc.ensureHasAction(name)
 	h[0] = rc
 
-	h = append(h, action(name))
+	h = append(h[:len(h):len(h)], action(name))
 	return h
 }
 
 func (h methodParams) Filter(exempts ...interface{}) MethodHandler {
-	h = append(h, Filter(exempts...))
+	h = append(h[:len(h):len(h)], Filter(exempts...))
 	return h
 }
 
 func (h methodParams) Exempt(exempts ...interface{}) MethodHandler {
-	h = append(h, Exempt(exempts...))
+	h = append(h[:len(h):len(h)], Exempt(exempts...))
 	return h
 }
 
-- 
2.43.0


From 0a4fb8cd9ab23a3c3ced27e63f68441fda7b7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 62/74] fix: filters added after ReplaceFilters must not
 replace those of the other application

---
 app_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 4f22bf6..c51d378 100755
--- a/app_util.go
+++ b/app_util.go
@@ -12,7 +12,8 @@ import (
 )
 
 func ReplaceFilters(old, new *Strip) {
-	old.filters = new.filters
+	// later filters of one are not the other's
+	old.filters = new.filters[:len(new.filters):len(new.filters)]
 }
 
 type StrTo string
-- 
2.43.0


From 956108369b75332402c338bdd4c55f08599d42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 63/74] fix: calling a function with variadic arguments must
 not panic

---
 inject/inject_provider.go | 7 ++++++-
 router_action.go          | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index f03fe17..e9d5cd9 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -182,7 +182,12 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 	}
 
 	// invoke provider function
-	out = p.pval.Call(in)
+	if p.ptyp.IsVariadic() {
+		// the last dependency is the slice of the rest
+		out = p.pval.CallSlice(in)
+	} else {
+		out = p.pval.Call(in)
+	}
 	if p.name.typ != nil {
 		inj.caches[p.name] = out
 	}
diff --git a/router_action.go b/router_action.go
index 8be8313..c496900 100755
--- a/router_action.go
+++ b/router_action.go
@@ -132,8 +132,12 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		panic(err)
 	}
 
-	out := newStruct.MethodByName(action).Call(in)
-	return out
+	call := newStruct.MethodByName(action)
+	if method.Type.IsVariadic() {
+		// the last argument is the slice of the rest
+		return call.CallSlice(in)
+	}
+	return call.Call(in)
 }
 
 func (r *routerAction) writeResult(ctx Context, out []reflect.Value) {
-- 
2.43.0


From 9c388b5a3c27253a5531a34b533524fa88591be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 64/74] fix: an empty static directory must be refused, not
 serve the working directory

---
 static-serve/static.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index e7383c7..f199ff2 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -24,12 +24,12 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 		opt = opts[0]
 	}
 
-	directory, _ = filepath.Abs(directory)
-
 	if directory == "" {
 		panic("directory can not be empty")
 	}
 
+	directory, _ = filepath.Abs(directory)
+
 	dir := http.Dir(directory)
 
 	// Normalize the prefix if provided
-- 
2.43.0


From b8830184973b098b90f2624fef0966dac68fdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 65/74] fix: BindValuesToStruct must refuse a struct that it
 can not change

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 2abf771..920c01d 100755
--- a/params/params.go
+++ b/params/params.go
@@ -123,7 +123,7 @@ func (p *Params) BindValuesToStruct(dest interface{}) {
 	pointerMap := make(map[uintptr]bool)
 	val := reflect.ValueOf(dest)
 	elm := reflect.Indirect(val)
-	if val.Kind() != reflect.Ptr && elm.Kind() != reflect.Struct {
+	if val.Kind() != reflect.Ptr || elm.Kind() != reflect.Struct {
 		panic("need ptr of struct")
 	}
 	p.bindValuesToStruct(elm, pointerMap)
-- 
2.43.0


From 7b0fc18c3b5f5ed50b4b73f0ad3d15310acbab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 66/74] fix: the recovery filter shows the function that
 panicked

---
 recovery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery.go b/recovery.go
index 688118f..c953791 100755
--- a/recovery.go
+++ b/recovery.go
@@ -63,7 +63,7 @@ func RecoveryFilter() inject.Provider {
 	return func(ctx Context, config *Config) {
 		defer func() {
 			if err := recover(); err != nil {
-				stack := string(Stack(5))
+				stack := string(Stack(3)) // after the frame of panic itself
 
 				var log Logger
 				fErr := ctx.Find(&log, "")
-- 
2.43.0


From 7430960c3d269b0fa3db0fcdd91bc58e3a8990fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 67/74] fix: the logger's recovery shows the function that
 panicked

---
 log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log.go b/log.go
index 9e2dd25..3afd4d9 100755
--- a/log.go
+++ b/log.go
@@ -237,9 +237,9 @@ func (l *baseLogger) Recover(f func(), level ...Level) (err interface{}) {
 	defer func() {
 		if err = recover(); err != nil {
 			if len(level) > 0 {
-				l.write(level[0], err, LineOpt{Stack: true, Depth: 4})
+				l.write(level[0], err, LineOpt{Stack: true, Depth: 5 - l.depth}) // after the frame of panic itself
 			} else {
-				l.Error(err, LineOpt{Stack: true, Depth: 5})
+				l.write(LevelError, err, LineOpt{Stack: true, Depth: 5 - l.depth})
 			}
 		}
 	}()
-- 
2.43.0


From a07021ee4901e397273abc20cb76e786bd171fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 68/74] fix: incr and decr on Redis do not create a key that
 vanishes meanwhile

The key could be deleted or expire between EXISTS and INCRBY; Redis then made a new
one that never expires. Watch it in between.
---
 caches/provider_redis.go | 46 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index 1ebba9b..aa945bc 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -122,26 +122,62 @@ func (p *redisProvide) Decr(key string, params ...int) (err error) {
 	return p.incr("DECRBY", key, cnt)
 }
 
-// redis creates a missing key, without expiration
+// redis creates a missing key, without expiration: the key has to be there
+// until it is changed
 func (p *redisProvide) incr(cmd string, key string, cnt int) (err error) {
 	conn, err := p.Client.Get()
 	if err != nil {
 		return
 	}
-	defer p.Client.Put(conn)
+	defer func() {
+		if err != nil && err != ErrMissedKey {
+			// may be within a transaction
+			conn.Close()
+			return
+		}
+		p.Client.Put(conn)
+	}()
+
+	for {
+		var done bool
+		done, err = p.tryIncr(conn, cmd, key, cnt)
+		if done || err != nil {
+			err = p.handleError(err)
+			return
+		}
+	}
+}
 
+// not done if the key was changed meanwhile
+func (p *redisProvide) tryIncr(conn *redis.Client, cmd string, key string, cnt int) (done bool, err error) {
+	if err = conn.Cmd("WATCH", key).Err; err != nil {
+		return
+	}
 	exists, err := conn.Cmd("EXISTS", key).Int()
 	if err != nil {
-		err = p.handleError(err)
 		return
 	}
 	if exists == 0 {
+		conn.Cmd("UNWATCH")
 		err = ErrMissedKey
 		return
 	}
 
-	err = p.handleError(conn.Cmd(cmd, key, cnt).Err)
-	return
+	if err = conn.Cmd("MULTI").Err; err != nil {
+		return
+	}
+	if err = conn.Cmd(cmd, key, cnt).Err; err != nil {
+		return
+	}
+	resp := conn.Cmd("EXEC")
+	if resp.IsType(redis.Nil) {
+		return
+	}
+	replies, err := resp.Array()
+	if err != nil {
+		return
+	}
+	return true, replies[0].Err
 }
 
 func (p *redisProvide) Has(key string) (exists bool, err error) {
-- 
2.43.0


From deb85b002d9793dbb52ca0f0227e749ac145be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 69/74] fix: keep the session when regenerating it fails

---
 sessions/provider.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index c919134..614aa3e 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -161,14 +161,7 @@ func (p *sessProvide) Read(sid string) (sess SessionStore, err error) {
 		return
 	}
 
-	var values map[string]interface{}
-	err = p.conv.Unmarshal(value.Bytes(), &values)
-	if err != nil {
-		return
-	}
-	store := &sessStore{Sid: sid, Values: values}
-	sess = newSessData(p, store, false)
-	return
+	return p.open(sid, value)
 }
 
 // 为现有的session数据更换sid
@@ -181,6 +174,12 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
+	// not read again once the old sid is gone, that may fail
+	store, err := p.open(sid, value)
+	if err != nil {
+		return
+	}
+
 	err = p.cache.Set(sid, value, p.config.SessionExpire)
 	if err != nil {
 		return
@@ -191,7 +190,8 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 	if err != nil && err != caches.ErrMissedKey {
 		return
 	}
-	return p.Read(sid)
+	sess = store
+	return
 }
 
 func (p *sessProvide) Destroy(sid string) (err error) {
@@ -215,6 +215,18 @@ func (p *sessProvide) create(sid string, params ...map[string]interface{}) (sess
 	return
 }
 
+// open the session that was saved as value
+func (p *sessProvide) open(sid string, value utils.StrTo) (sess SessionStore, err error) {
+	var values map[string]interface{}
+	err = p.conv.Unmarshal(value.Bytes(), &values)
+	if err != nil {
+		return
+	}
+	store := &sessStore{Sid: sid, Values: values}
+	sess = newSessData(p, store, false)
+	return
+}
+
 func (p *sessProvide) save(store *sessStore) (err error) {
 	value, err := p.conv.Marshal(store.Values)
 	if err != nil {
-- 
2.43.0


From 96c125b36d6ba058fb91e54a1d2435d6afabdc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 70/74] fix: keep the spaces of request paths

---
 router_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router_util.go b/router_util.go
index 256a39d..66d31d1 100755
--- a/router_util.go
+++ b/router_util.go
@@ -59,7 +59,7 @@ func calcRouterArgs(handlers Handlers) routeArgs {
 
 func splitRoutePath(p string) []string {
 	// keep first value in []string is empty
-	p = path.Clean("/" + strings.TrimSpace(p))
+	p = path.Clean("/" + p)
 	splits := strings.Split(p, "/")
 
 	// return non-empty parts
-- 
2.43.0


From 1ba470b0f4af51e571c6ebccc2c5c32a38106ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:43 +0000
Subject: [PATCH 71/74] fix: keep float32 and large unsigned values in the
 mongo cache

---
 caches/provider_mgo.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index f971179..b191632 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -2,6 +2,7 @@ package caches
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/globalsign/mgo"
@@ -94,7 +95,7 @@ func (p *mgoProvide) Set(key string, val interface{}, params ...int) (err error)
 			p.config.KeyField: key,
 		}, bson.M{
 			p.config.KeyField:       key,
-			p.config.ValueField:     val,
+			p.config.ValueField:     mgoValue(val),
 			p.config.ExpiredAtField: expiredAt,
 		})
 		return er
@@ -235,6 +236,24 @@ func (p *mgoProvide) getValue(values map[string]interface{}) (value interface{},
 	return
 }
 
+// mgoValue turns values bson cannot hold as they are into the text the other
+// providers store for them
+func mgoValue(val interface{}) interface{} {
+	switch v := val.(type) {
+	case float32:
+		return utils.ToStr(v)
+	case uint:
+		if uint64(v) > math.MaxInt64 {
+			return utils.ToStr(v)
+		}
+	case uint64:
+		if v > math.MaxInt64 {
+			return utils.ToStr(v)
+		}
+	}
+	return val
+}
+
 func (p *mgoProvide) handleError(err error) error {
 	if err == mgo.ErrNotFound {
 		return ErrMissedKey
-- 
2.43.0


From 3ec49ed991aebb80bbefb0c807291a60e41b3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:44 +0000
Subject: [PATCH 72/74] fix: keep values bound to structs embedded in embedded
 pointers

---
 params/params.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/params/params.go b/params/params.go
index 920c01d..0b000f1 100755
--- a/params/params.go
+++ b/params/params.go
@@ -183,13 +183,18 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					// save pointer
 					pointerMap[pointer] = true
 				}
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok && field.CanSet() {
-					field.Set(newField)
+				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+					exits = true
+					if field.CanSet() {
+						field.Set(newField)
+					}
 				}
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				p.bindValuesToStruct(inf, pointerMap)
+				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+					exits = true
+				}
 			} else {
 				continue
 			}
-- 
2.43.0


From 445eeb89d08c378896eb4d85d429b842388e6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:33 +0000
Subject: [PATCH 73/74] fix: keep what a handler's response varies on when it
 is compressed

---
 gzip/gzip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index d3020bf..e2ae495 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -94,7 +94,7 @@ func (g *gzipResponseWriter) start(p []byte) {
 			}
 
 			headers.Set(HeaderContentEncoding, "gzip")
-			headers.Set(HeaderVary, HeaderAcceptEncoding)
+			headers.Add(HeaderVary, HeaderAcceptEncoding)
 
 			// delete content length after we know we have been written to
 			headers.Del(HeaderContentLength)
-- 
2.43.0


From ac2229cece7f730eb7bb6967ec7d56981253c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 74/74] fix: do not send the length and encoding of another
 body with the answer to a panic

---
 recovery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery.go b/recovery.go
index c953791..d1ca9e1 100755
--- a/recovery.go
+++ b/recovery.go
@@ -81,6 +81,10 @@ func RecoveryFilter() inject.Provider {
 					return
 				}
 
+				// meant for the body that does not come
+				rw.Header().Del("Content-Length")
+				rw.Header().Del("Content-Encoding")
+
 				// in prod mode only set status code
 				// fall back to other filter
 				rw.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0

