From 535b26032752ba82937a1ba2489cd57bd2b83739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 01/56] fix: routing falls back to parameter routes when a
 static node is only a prefix

---
 router.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router.go b/router.go
index 06636af..60391fa 100755
--- a/router.go
+++ b/router.go
@@ -239,6 +239,11 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 				*params = append(*params, newParams...)
 			}
 		}
+
+		// a node which only prefixes other routes is not a match
+		if rt != nil && !rt.isEnd {
+			rt = nil
+		}
 	}
 
 	// second match paramRoutes
-- 
2.43.0


From d4c60494fa80947a2281846bdbb68f8d238acb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 02/56] fix: HEAD defaulted to GET follows a later GET on the
 same path

---
 router.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 60391fa..e862fef 100755
--- a/router.go
+++ b/router.go
@@ -295,6 +295,9 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 func (r *route) configRoutes(args routeArgs) {
 	args.filters = args.filters.remove(args.exempts...)
 
+	// the action HEAD follows when it was only defaulted to GET
+	prevGet := r.action[GET]
+
 	var (
 		allMethod methodParams
 		allArgs   routeArgs
@@ -330,7 +333,7 @@ func (r *route) configRoutes(args routeArgs) {
 	}
 
 	// default use GET route for HEAD method
-	if r.action[HEAD] == nil && r.action[GET] != nil {
+	if r.action[HEAD] == prevGet && r.action[GET] != nil {
 		r.action[HEAD] = r.action[GET]
 	}
 
-- 
2.43.0


From 6f521afa051874e6f46e288c581790ef5d542250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 03/56] fix: struct actions are called with the inputs of the
 dispatched method

---
 router_action.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..7f759ef 100755
--- a/router_action.go
+++ b/router_action.go
@@ -111,11 +111,17 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	method, ok := r.controller.pTyp.MethodByName(action)
+	if !ok {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
+
+	// first input of the method is its receiver
+	numIn := method.Type.NumIn() - 1
 
-	in := make([]reflect.Value, 0, len(actionIn))
-	for i := 0; i < len(actionIn); i++ {
-		typ := actionIn[i]
+	in := make([]reflect.Value, 0, numIn)
+	for i := 0; i < numIn; i++ {
+		typ := method.Type.In(i + 1)
 		value := reflect.Value{}
 
 		if len(params) > i {
@@ -133,10 +139,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
 	newStruct := reflect.New(r.controller.typ)
 	if val := indirectValue(r.controller.val); val.IsValid() {
 		newStruct.Elem().Set(val)
-- 
2.43.0


From a443684247f79711efc7febe17884a3c1f675894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 04/56] fix: the output filter accepts text and other values
 which can not be nil

---
 router_action_out.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..28c6931 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,10 +66,18 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() {
 			return
 		}
 
+		// only some kinds can be nil, IsNil panics on others
+		switch body.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			if body.IsNil() {
+				return
+			}
+		}
+
 		itf := body.Interface()
 		switch src := itf.(type) {
 		case ActionResult:
-- 
2.43.0


From f41774efc67cc8d3f068d193e7f5dc173f14e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 05/56] fix: flushing commits the saved status after the before
 funcs

---
 response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response.go b/response.go
index 3ba24d6..a224799 100755
--- a/response.go
+++ b/response.go
@@ -116,6 +116,8 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		// commit saved status, before funcs must run ahead of the header
+		rw.Write(nil)
 		flusher.Flush()
 	}
 }
-- 
2.43.0


From 088e2db5ca7bacba4dcfe8ed85089d8fbc0cd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 06/56] fix: the status does not change once the header is sent

---
 response.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/response.go b/response.go
index a224799..6c39aa5 100755
--- a/response.go
+++ b/response.go
@@ -48,6 +48,9 @@ type responseWriter struct {
 
 	once sync.Once
 
+	// header has been sent
+	committed bool
+
 	hijacked bool
 }
 
@@ -56,6 +59,10 @@ func (rw *responseWriter) WriteHeader(s int) {
 	if s == 0 {
 		panic("http status code can not be zero")
 	}
+	// header already sent, status can not change anymore
+	if rw.committed {
+		return
+	}
 	rw.status = s
 }
 
@@ -66,6 +73,7 @@ func (rw *responseWriter) Write(b []byte) (int, error) {
 		if rw.status == 0 {
 			rw.status = http.StatusOK
 		}
+		rw.committed = true
 
 		if rw.hijacked {
 			return
-- 
2.43.0


From c92c322e3168bb496ecd0a53090ead3ec92840fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 07/56] fix: gzip leaves responses it did not compress
 unlabelled and usable

---
 gzip/gzip.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 05bf01e..f18818b 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -32,8 +32,12 @@ func All() interface{} {
 		headers.Set(HeaderVary, HeaderAcceptEncoding)
 
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
-		defer gzw.close()
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
+		defer func() {
+			gzw.close()
+			// the rest of the chain must not write to the closed stream
+			ctx.ProvideAs(rw, (*http.ResponseWriter)(nil))
+		}()
 
 		ctx.Next()
 		// for defer, gzw need close at the end of request
@@ -72,5 +76,9 @@ func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 func (g *gzipResponseWriter) close() {
 	if g.gzw != nil {
 		g.gzw.Close()
+		return
 	}
+
+	// nothing was compressed
+	g.Header().Del(HeaderContentEncoding)
 }
-- 
2.43.0


From 7b62e34af267ff2f53643dba4346385e334bf3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 08/56] fix: flushing a gzip response drops the stale length
 and flushes the stream

---
 gzip/gzip.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index f18818b..2469ccd 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -52,10 +52,7 @@ type gzipResponseWriter struct {
 
 func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 	g.one.Do(func() {
-		g.gzw = gzip.NewWriter(g.ResponseWriter)
-
-		// delete content length after we know we have been written to
-		g.Header().Del(HeaderContentLength)
+		g.open()
 
 		if len(g.Header().Get(HeaderContentType)) == 0 {
 			g.Header().Set(HeaderContentType, http.DetectContentType(p))
@@ -65,6 +62,20 @@ func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 	return g.gzw.Write(p)
 }
 
+// Flush starts the stream, the header sent with it announces compressed content
+func (g *gzipResponseWriter) Flush() {
+	g.one.Do(g.open)
+	g.gzw.Flush()
+	g.ResponseWriter.Flush()
+}
+
+func (g *gzipResponseWriter) open() {
+	g.gzw = gzip.NewWriter(g.ResponseWriter)
+
+	// delete content length after we know we have been written to
+	g.Header().Del(HeaderContentLength)
+}
+
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 	hijacker, ok := g.ResponseWriter.(http.Hijacker)
 	if !ok {
-- 
2.43.0


From 8fe6b59456692b3b02bc721ce2e5ad779f39b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 09/56] fix: gzip does not compress a response which has been
 started before it

---
 gzip/gzip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 2469ccd..98e0cdc 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -27,6 +27,12 @@ func All() interface{} {
 			return
 		}
 
+		// header may be sent already, too late to announce compression
+		if ctx.Written() {
+			ctx.Next()
+			return
+		}
+
 		headers := rw.Header()
 		headers.Set(HeaderContentEncoding, "gzip")
 		headers.Set(HeaderVary, HeaderAcceptEncoding)
-- 
2.43.0


From 649f53439a99cc2a2f8753d9259f4e6563f7eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 10/56] fix: unsigned values above 32 bits are converted

---
 app_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..c3a067e 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, 64)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From a305c30c6e16c1852aff0a9d5a7915b0de1d9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 11/56] fix: unsupported slice types are skipped by the
 conversion

---
 app_util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index c3a067e..bafcde9 100755
--- a/app_util.go
+++ b/app_util.go
@@ -242,7 +242,9 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 			}
 			v = final
 		}
-	default:
+	}
+
+	if v == nil {
 		return
 	}
 
-- 
2.43.0


From df9d21a0c57021c040dcdd0f272cecee1b540a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 12/56] fix: the form view of a url-encoded body does not
 repeat the query

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 9d98e45..134acc1 100755
--- a/params/params.go
+++ b/params/params.go
@@ -60,7 +60,7 @@ func ParseParams(params *Params, maxMemory int64) error {
 		if err := req.ParseForm(); err != nil {
 			return err
 		} else {
-			params.Form = req.Form
+			params.Form = req.PostForm
 		}
 
 	case "multipart/form-data":
-- 
2.43.0


From 618ec701bbce22892f01a9054cd3279bc05ce94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 13/56] fix: uploaded files stay readable until the request
 ends

---
 params/params.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/params/params.go b/params/params.go
index 134acc1..a2fcf35 100755
--- a/params/params.go
+++ b/params/params.go
@@ -269,23 +269,25 @@ func ParamsParser() interface{} {
 			log.Notice("parse params error", err)
 		}
 
-		// Clean up from the request.
-		defer func() {
-			// Delete temp files.
-			if req.MultipartForm != nil {
+		// Clean up temp files when the request ends.
+		if done := req.Context().Done(); done != nil && req.MultipartForm != nil {
+			go func() {
+				<-done
+
+				// Delete temp files.
 				err := req.MultipartForm.RemoveAll()
 				if err != nil {
 					log.Notice("error removing temporary files:", err)
 				}
-			}
 
-			for _, tmpFile := range params.tmpFiles {
-				err := os.Remove(tmpFile.Name())
-				if err != nil {
-					log.Notice("could not remove upload temp file:", err)
+				for _, tmpFile := range params.tmpFiles {
+					err := os.Remove(tmpFile.Name())
+					if err != nil {
+						log.Notice("could not remove upload temp file:", err)
+					}
 				}
-			}
-		}()
+			}()
+		}
 
 		return params
 	}
-- 
2.43.0


From a14255f4612c963d8dd573cb614fcde279c1e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 14/56] fix: numbers out of the range of the bound type bind as
 zero

---
 params/binder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..8f98e79 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -71,6 +71,9 @@ var (
 				return reflect.Zero(typ)
 			}
 			pValue := reflect.New(typ)
+			if pValue.Elem().OverflowInt(intValue) {
+				return reflect.Zero(typ)
+			}
 			pValue.Elem().SetInt(intValue)
 			return pValue.Elem()
 		}),
@@ -86,6 +89,9 @@ var (
 				return reflect.Zero(typ)
 			}
 			pValue := reflect.New(typ)
+			if pValue.Elem().OverflowUint(uintValue) {
+				return reflect.Zero(typ)
+			}
 			pValue.Elem().SetUint(uintValue)
 			return pValue.Elem()
 		}),
@@ -101,6 +107,9 @@ var (
 				return reflect.Zero(typ)
 			}
 			pValue := reflect.New(typ)
+			if pValue.Elem().OverflowFloat(floatValue) {
+				return reflect.Zero(typ)
+			}
 			pValue.Elem().SetFloat(floatValue)
 			return pValue.Elem()
 		}),
-- 
2.43.0


From 316c2565813e79637e49776ce7ecd5d800b7ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 15/56] fix: huge slice indexes do not exhaust memory or panic

---
 params/binder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index 8f98e79..16df63d 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -61,6 +61,9 @@ var (
 	// automatically attempted when binding a time.Time.
 	TimeFormats = []string{}
 
+	// Indexed slice elements above this index are ignored.
+	MaxSliceIndex = 65535
+
 	IntBinder = Binder{
 		Bind: ValueBinder(func(val string, typ reflect.Type) reflect.Value {
 			if len(val) == 0 {
@@ -244,6 +247,11 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		}
 		subKeyIndex := rightBracket + 1
 
+		// An index beyond all reason is not worth its memory.
+		if index > MaxSliceIndex {
+			return
+		}
+
 		// Handle the indexed case.
 		if index > -1 {
 			if index > maxIndex {
-- 
2.43.0


From b2da896ca638f4cf282b9f8bcaa3919566fc7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 16/56] fix: date and time without seconds are parsed with
 their minutes

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 16df63d..400f581 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -47,7 +47,7 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From 522b2a5da4d2a71bc2b8ee2a42b08351829d6484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 17/56] fix: embedded structs bind through nil and unexported
 embedded pointers

---
 params/params.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/params/params.go b/params/params.go
index a2fcf35..7c815dc 100755
--- a/params/params.go
+++ b/params/params.go
@@ -184,12 +184,17 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					pointerMap[pointer] = true
 				}
 				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
-					field.Set(newField)
+					if field.CanSet() {
+						field.Set(newField)
+					}
+					exits = true
 				}
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				p.bindValuesToStruct(inf, pointerMap)
+				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+					exits = true
+				}
 			} else {
 				continue
 			}
-- 
2.43.0


From 29de929fd7aaa6dee4a5a21c7c178a5ce15e4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 18/56] fix: integers in a json map parameter are bound exactly

---
 params/binder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 400f581..1bb345f 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -360,8 +360,15 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 	)
 	if v := params.Values.Get(name); v != "" {
 		raw := make(map[string]interface{})
-		_ = json.Unmarshal([]byte(v), &raw)
+		if json.Valid([]byte(v)) {
+			dec := json.NewDecoder(strings.NewReader(v))
+			dec.UseNumber() // keep integers exact
+			_ = dec.Decode(&raw)
+		}
 		for key, value := range raw {
+			if n, ok := value.(json.Number); ok && strings.ContainsAny(n.String(), ".eE") {
+				value, _ = n.Float64()
+			}
 			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
 		}
 	} else {
-- 
2.43.0


From 49dd6bf28c58ed47a5c0c82ecb2ea91f3159031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 19/56] fix: an invoked function was confused with the provider
 of its result type

---
 inject/inject.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..19ad2b0 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -172,6 +172,8 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
+	// the result of an invoked function is not a provided value of its type
+	info.name = ""
 	out, err := info.invoke(inj, status)
 
 	if err != nil {
-- 
2.43.0


From fdbca36b444ec47f566fa068e7aaadec728f109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 20/56] fix: cycle detection depended on earlier lookups,
 shadowed providers recursed forever

---
 inject/inject.go          |  4 ++++
 inject/inject_provider.go | 12 ++----------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 19ad2b0..54f0d48 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -57,6 +57,10 @@ func (m invokeStatus) set(name string) {
 	m[name] = false
 }
 
+func (m invokeStatus) unset(name string) {
+	delete(m, name)
+}
+
 type invokeCache map[string][]reflect.Value
 
 type injector struct {
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..f5a20aa 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -32,8 +31,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -130,14 +127,9 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
 	// on process
 	status.set(p.name)
+	defer status.unset(p.name)
 
 	if p.value != nil {
 		out = []reflect.Value{p.val}
@@ -153,7 +145,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
-- 
2.43.0


From e206cf987be2bab58aa2d0f8b7e51433f250a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 21/56] fix: Apply ignored values that can not be assigned to
 their field

---
 inject/inject.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index 54f0d48..dbce8a9 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -243,7 +243,9 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				if err := assignValue(out[0], field); err != nil {
+					return err
+				}
 			}
 
 			continue
-- 
2.43.0


From 65a4287f519e684556b0515fd6768814dcdff6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 22/56] fix: different unnamed types (and local types of one
 name) were confused when injecting

---
 inject/inject.go          | 46 +++++++++++++++++++--------------------
 inject/inject_provider.go | 20 ++++++++++++-----
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index dbce8a9..753af0e 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -43,29 +43,29 @@ type TypeProvider interface {
 }
 
 type provInvoker interface {
-	get(string) *providerInfo
+	get(provName) *providerInfo
 }
 
-type invokeStatus map[string]bool
+type invokeStatus map[provName]bool
 
-func (m invokeStatus) has(name string) bool {
+func (m invokeStatus) has(name provName) bool {
 	_, ok := m[name]
 	return ok
 }
 
-func (m invokeStatus) set(name string) {
+func (m invokeStatus) set(name provName) {
 	m[name] = false
 }
 
-func (m invokeStatus) unset(name string) {
+func (m invokeStatus) unset(name provName) {
 	delete(m, name)
 }
 
-type invokeCache map[string][]reflect.Value
+type invokeCache map[provName][]reflect.Value
 
 type injector struct {
 	// use for store provider
-	values map[string]*providerInfo
+	values map[provName]*providerInfo
 
 	// user for cache provider instance for current inject
 	caches invokeCache
@@ -75,7 +75,7 @@ type injector struct {
 
 func New() Injector {
 	return &injector{
-		values: make(map[string]*providerInfo),
+		values: make(map[provName]*providerInfo),
 		caches: make(invokeCache),
 	}
 }
@@ -120,11 +120,11 @@ func (inj *injector) Find(ptr interface{}, names ...string) error {
 	if val.Kind() != reflect.Ptr {
 		panic("need ptr instance")
 	}
-	provName := createName(indirectType(val.Type()), getName(names...))
+	name := createName(indirectType(val.Type()), getName(names...))
 
-	prov := inj.get(provName)
+	prov := inj.get(name)
 	if prov == nil {
-		return fmt.Errorf("provider not found of type `%s`", provName)
+		return fmt.Errorf("provider not found of type `%s`", name)
 	}
 
 	status := make(invokeStatus)
@@ -135,7 +135,7 @@ func (inj *injector) Find(ptr interface{}, names ...string) error {
 
 	if len(out) > 0 {
 		if !out[0].IsValid() {
-			return fmt.Errorf("provider value not valid of type `%s`", provName)
+			return fmt.Errorf("provider value not valid of type `%s`", name)
 		}
 
 		return assignValue(out[0], val.Elem())
@@ -149,11 +149,11 @@ func (inj *injector) Exists(ptr interface{}, names ...string) error {
 	if val.Kind() != reflect.Ptr {
 		panic("need ptr instance")
 	}
-	provName := createName(indirectType(val.Type()), getName(names...))
+	name := createName(indirectType(val.Type()), getName(names...))
 
-	prov := inj.get(provName)
+	prov := inj.get(name)
 	if prov == nil {
-		return fmt.Errorf("provider not found of type `%s`", provName)
+		return fmt.Errorf("provider not found of type `%s`", name)
 	}
 
 	var out []reflect.Value
@@ -163,7 +163,7 @@ func (inj *injector) Exists(ptr interface{}, names ...string) error {
 
 	if len(out) > 0 {
 		if !out[0].IsValid() {
-			return fmt.Errorf("provider value not valid of type `%s`", provName)
+			return fmt.Errorf("provider value not valid of type `%s`", name)
 		}
 
 		return assignValue(out[0], val.Elem())
@@ -177,7 +177,7 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 
 	info := newProvider(Object{Value: prov})
 	// the result of an invoked function is not a provided value of its type
-	info.name = ""
+	info.name = provName{}
 	out, err := info.invoke(inj, status)
 
 	if err != nil {
@@ -225,22 +225,22 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 
 		if structField.Tag == "inject" || tagVal != "" {
 			// create name of inject value
-			provName := createName(indirectType(field.Type()), tagVal)
+			name := createName(indirectType(field.Type()), tagVal)
 
-			prov := inj.get(provName)
+			prov := inj.get(name)
 			if prov == nil {
-				return fmt.Errorf("provider not found for type %s:%v", provName, field)
+				return fmt.Errorf("provider not found for type %s:%v", name, field)
 			}
 
 			out, err := prov.invoke(inj, status)
 
 			if err != nil {
-				return fmt.Errorf("provider invoke of type %s:%v err: %v", provName, field, err)
+				return fmt.Errorf("provider invoke of type %s:%v err: %v", name, field, err)
 			}
 
 			if len(out) > 0 {
 				if !out[0].IsValid() {
-					return fmt.Errorf("value not found for type %s:%v", provName, field)
+					return fmt.Errorf("value not found for type %s:%v", name, field)
 				}
 
 				if err := assignValue(out[0], field); err != nil {
@@ -273,7 +273,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	return nil
 }
 
-func (inj *injector) get(name string) *providerInfo {
+func (inj *injector) get(name provName) *providerInfo {
 	// get provider in current injector
 	if prov := inj.values[name]; prov != nil {
 		return prov
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index f5a20aa..ce03e4d 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -10,11 +10,21 @@ type Provide []Provider
 
 type Dep map[int]string
 
-type providerInfo struct {
+// unique name of a provided type
+type provName struct {
+	typ  reflect.Type
 	name string
+}
+
+func (n provName) String() string {
+	return fmt.Sprintf("%v:%s", n.typ, n.name)
+}
+
+type providerInfo struct {
+	name provName
 
 	// depends of this provider
-	deps []string
+	deps []provName
 
 	// type of injerct value
 	typ reflect.Type
@@ -79,7 +89,7 @@ func newProvider(obj Object) (info *providerInfo) {
 	}
 
 	numIn := info.ptyp.NumIn()
-	deps := make([]string, 0, numIn)
+	deps := make([]provName, 0, numIn)
 
 	for i := 0; i < numIn; i++ {
 		typ := indirectType(info.ptyp.In(i))
@@ -176,8 +186,8 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 }
 
 // create unique name of type
-func createName(typ reflect.Type, name string) string {
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+func createName(typ reflect.Type, name string) provName {
+	return provName{typ, name}
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From 9432d090c08149804e9d1006a93f63fe51e5f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 23/56] fix: an argument that can not be assigned crashed the
 call instead of being reported

---
 inject/inject_provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index ce03e4d..e1db9c8 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -174,7 +174,11 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 			}
 		}
 
-		in = append(in, ot[0])
+		arg := reflect.New(p.ptyp.In(len(in))).Elem()
+		if err = assignValue(ot[0], arg); err != nil {
+			return
+		}
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From 364d0dca15858a71626992e2c2b76954014134dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 24/56] fix: Worker.Wait could miss the error of a task, and a
 task could not close a full worker

---
 utils/worker.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..3b4b3c1 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -26,16 +26,18 @@ func (w *Worker) RunTask(task interface{}) {
 		return
 	}
 	w.wg.Add(1)
-	w.pools <- true
 	w.rw.RUnlock()
 
+	w.pools <- true
 	go w.run(task)
 }
 
 func (w *Worker) Wait() (err error) {
 	w.wg.Wait()
+	w.rw.Lock()
 	err = w.err
 	w.err = nil
+	w.rw.Unlock()
 	return
 }
 
@@ -52,7 +54,6 @@ func (w *Worker) run(task interface{}) {
 		w.done()
 	case func() error:
 		err := t()
-		w.done()
 		if err != nil {
 			w.rw.Lock()
 			if !w.closed {
@@ -61,6 +62,7 @@ func (w *Worker) run(task interface{}) {
 			}
 			w.rw.Unlock()
 		}
+		w.done()
 	}
 }
 
@@ -70,11 +72,7 @@ func (w *Worker) done() {
 }
 
 func (w *Worker) close() {
-	if w.closed {
-		return
-	}
 	w.closed = true
-	close(w.pools)
 }
 
 func NewWorker(nums int) *Worker {
-- 
2.43.0


From 90e4e3a3647795d0e1d9f80eaf6ff830f7d6ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 25/56] fix: adding tasks to a Worker while another goroutine
 waits crashed with a reused WaitGroup

---
 utils/worker.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 3b4b3c1..4280e93 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -10,30 +10,41 @@ import (
 // woker 运行中可以增加 task
 // woker 在 wait 结束后，可以再次使用 RunTask 增加 task
 type Worker struct {
-	rw     sync.RWMutex
-	wg     sync.WaitGroup
+	rw     sync.Mutex
 	err    error
 	closed bool
 
+	// 未结束的 task 数量，idle 在其归零时关闭
+	pending int
+	idle    chan struct{}
+
 	// 这个场景只考虑限制并发，不考虑 goroutine 复用
 	pools chan bool
 }
 
 func (w *Worker) RunTask(task interface{}) {
-	w.rw.RLock()
+	w.rw.Lock()
 	if w.closed {
-		w.rw.RUnlock()
+		w.rw.Unlock()
 		return
 	}
-	w.wg.Add(1)
-	w.rw.RUnlock()
+	if w.pending == 0 {
+		w.idle = make(chan struct{})
+	}
+	w.pending++
+	w.rw.Unlock()
 
 	w.pools <- true
 	go w.run(task)
 }
 
 func (w *Worker) Wait() (err error) {
-	w.wg.Wait()
+	w.rw.Lock()
+	idle := w.idle
+	w.rw.Unlock()
+	if idle != nil {
+		<-idle
+	}
 	w.rw.Lock()
 	err = w.err
 	w.err = nil
@@ -68,7 +79,12 @@ func (w *Worker) run(task interface{}) {
 
 func (w *Worker) done() {
 	<-w.pools
-	w.wg.Done()
+	w.rw.Lock()
+	w.pending--
+	if w.pending == 0 {
+		close(w.idle)
+	}
+	w.rw.Unlock()
 }
 
 func (w *Worker) close() {
-- 
2.43.0


From 5f0f1be3e52f8c321e50e9bfd7573b45fd577352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 26/56] fix: requests arriving at the same clock reading got
 the same request id

---
 request-logger/reqid.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request-logger/reqid.go b/request-logger/reqid.go
index 8eb2412..00b7deb 100755
--- a/request-logger/reqid.go
+++ b/request-logger/reqid.go
@@ -9,6 +9,7 @@ import (
 	"runtime"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -16,7 +17,7 @@ var rnd = uint32(rand.New(rand.NewSource(time.Now().UnixNano())).Intn(999999999)
 
 func NewReqId() string {
 	var b [12]byte
-	binary.LittleEndian.PutUint32(b[:], rnd)
+	binary.LittleEndian.PutUint32(b[:], atomic.AddUint32(&rnd, 1))
 	binary.LittleEndian.PutUint64(b[4:], uint64(time.Now().UnixNano()))
 	return base64.URLEncoding.EncodeToString(b[:])
 }
-- 
2.43.0


From 87637eb45af00c9f7b3c8d6b0aa4071599775047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 27/56] fix: touching a redis cache entry with an endless
 timeout deleted it

---
 caches/provider_redis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..89efe52 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -63,7 +63,8 @@ func (p *redisProvide) Set(key string, val interface{}, params ...int) (err erro
 
 func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
+	// EXPIRE with 0 deletes the key, an endless timeout needs a real duration
+	timeout := getTimeoutDurEx(params...)
 
 	conn, err := p.Client.Get()
 	if err != nil {
-- 
2.43.0


From 0cd7f0a57cd0441be4600ce8f20323c0010d5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 28/56] fix: memcached dropped cache entries with a timeout
 above 30 days at once

---
 caches/provider_memcache.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..ff6641a 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,8 @@
 package caches
 
 import (
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
@@ -39,7 +41,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: p.expiration(timeout),
 	})
 	return
 }
@@ -47,7 +49,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, p.expiration(timeout))
 	err = p.handleError(err)
 	return
 }
@@ -99,6 +101,14 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// memcached takes an expiration above 30 days as an absolute unix time
+func (p *mcProvide) expiration(timeout time.Duration) int32 {
+	if timeout > 30*24*time.Hour {
+		return int32(time.Now().Add(timeout).Unix())
+	}
+	return int32(timeout.Seconds())
+}
+
 func (p *mcProvide) handleError(err error) error {
 	if err == memcache.ErrCacheMiss {
 		return ErrMissedKey
-- 
2.43.0


From 7a721988ebb1150ef5534cefee8977813bc69a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 29/56] fix: mongo cache entries came back to life when touched
 after they expired

---
 caches/provider_mgo.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index 95d82b1..f1d51d5 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -107,9 +107,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 		timeout := getTimeoutDurEx(params...)
 		expiredAt := time.Now().Add(timeout)
 
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.live(key), bson.M{
 			"$set": bson.M{
 				p.config.ExpiredAtField: expiredAt,
 			},
@@ -122,9 +120,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 
 func (p *mgoProvide) Delete(key string) (err error) {
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Remove(bson.M{
-			p.config.KeyField: key,
-		})
+		er := c.Remove(p.live(key))
 		return er
 	})
 	err = p.handleError(err)
@@ -138,9 +134,7 @@ func (p *mgoProvide) Incr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.live(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -158,9 +152,7 @@ func (p *mgoProvide) Decr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.live(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -207,6 +199,14 @@ func (p *mgoProvide) GC() (err error) {
 	return
 }
 
+// live selects the document of a key unless it is expired
+func (p *mgoProvide) live(key string) bson.M {
+	return bson.M{
+		p.config.KeyField:       key,
+		p.config.ExpiredAtField: bson.M{"$gt": time.Now()},
+	}
+}
+
 func (p *mgoProvide) fetchValues(key string) (values map[string]interface{}, err error) {
 	err = p.connect(func(c *mgo.Collection) error {
 		er := c.Find(bson.M{
-- 
2.43.0


From d7ce00f48cfed23c1c57e0430bc17f4e77d91234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 30/56] fix: a number decremented by memcached came back with
 trailing spaces

---
 caches/provider_memcache.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index ff6641a..41d63f5 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,12 +1,17 @@
 package caches
 
 import (
+	"strconv"
+	"strings"
 	"time"
 
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
 
+// marks numbers, memcached pads them with spaces when a decrement shortens them
+const flagNumber = 1
+
 type McConfig struct {
 	KeyPrefix string
 	Client    *memcache.Client
@@ -31,16 +36,26 @@ func (p *mcProvide) Get(key string) (value utils.StrTo, err error) {
 		err = p.handleError(err)
 		return
 	}
-	value = utils.StrTo(string(item.Value))
+	v := string(item.Value)
+	if item.Flags == flagNumber {
+		v = strings.TrimRight(v, " ")
+	}
+	value = utils.StrTo(v)
 	return
 }
 
 func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
+	v := utils.ToStr(val)
+	flags := uint32(0)
+	if _, er := strconv.ParseUint(v, 10, 64); er == nil {
+		flags = flagNumber
+	}
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
-		Value:      []byte(utils.ToStr(val)),
+		Value:      []byte(v),
+		Flags:      flags,
 		Expiration: p.expiration(timeout),
 	})
 	return
-- 
2.43.0


From b82b629d1ff00bc8092a5c55f276c7d684db33f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 31/56] fix: a signed value stayed valid with digits moved
 between its text and time, respelled, or under an empty key

---
 sessions/utils.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..5507b4f 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -26,9 +26,8 @@ func CreateSid() (sid string) {
 
 func DecodeSecureValue(value string, secretKey string) (raw string, createdAt time.Time, ok bool) {
 	rawBytes, _ := base64.URLEncoding.DecodeString(value)
-	value = string(rawBytes)
 
-	parts := strings.SplitN(value, COOKIE_VALUE_SPLIT, 3)
+	parts := strings.SplitN(string(rawBytes), COOKIE_VALUE_SPLIT, 3)
 	if len(parts) < 3 {
 		return
 	}
@@ -51,18 +50,15 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 		return
 	}
 
-	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
-	if err != nil {
-		return
-	}
-
-	if hex.EncodeToString(h.Sum(nil)) != vHash {
+	// only the very value that was issued is valid, not another spelling of it
+	vCreatedAt := time.Unix(0, vTime)
+	issued, valid := EncodeSecureValue(vRaw, secretKey, vCreatedAt)
+	if !valid || !hmac.Equal([]byte(issued), []byte(value)) {
 		return
 	}
 
 	raw = vRaw
-	createdAt = time.Unix(0, vTime)
+	createdAt = vCreatedAt
 	ok = true
 	return
 }
@@ -75,7 +71,8 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	// the split keeps digits from moving between the text and the time
+	if _, err := h.Write([]byte(raw + COOKIE_VALUE_SPLIT + timeValue)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 280bbbdb9d3e6ecd41c05bb88b099646fca1fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 32/56] fix: a session cookie passed for a remember-me cookie

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From 706ff463d5d50b8bf180fb4715a39848576ab57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 33/56] fix: session changes were never saved after a save that
 failed

---
 sessions/provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..3b10957 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,11 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
+	if err := m.provider.save(m.store); err != nil {
+		return err
+	}
 	m.changed = false
-	return m.provider.save(m.store)
+	return nil
 }
 
 // destory session values in store
-- 
2.43.0


From 9505cbe9139efb10de67b1d5f7bee967906f6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 34/56] fix: regenerating a session crashed when the back end
 failed

---
 sessions/manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..95dfe36 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -116,9 +116,9 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	case ErrNotFoundSession:
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From 763fee828381e9d6d33c18fa1959a1c0eb6c67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 35/56] fix: regenerating a session lost its data, or left the
 old id valid, when the back end failed half-way

---
 sessions/provider.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 3b10957..7486803 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -186,8 +186,17 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
-	return p.Read(sid)
+	// the old data goes only when the new data is there
+	sess, err = p.Read(sid)
+	if err != nil {
+		return
+	}
+
+	err = p.Destroy(old)
+	if err == caches.ErrMissedKey {
+		err = nil
+	}
+	return
 }
 
 func (p *sessProvide) Destroy(sid string) (err error) {
-- 
2.43.0


From 293082329ea19dd3df60b760e54e62f797714295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 36/56] fix: session collection started without an interval ran
 without a pause for its second run

---
 sessions/manager.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 95dfe36..f13bcff 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -26,11 +26,11 @@ func (m *SessionManager) GC(intervals ...time.Duration) {
 	var interval time.Duration
 	if len(intervals) > 0 {
 		interval = intervals[0]
+	}
 
-		// 小于1分钟的，默认回收时间设为1小时
-		if interval < time.Minute {
-			interval = time.Hour
-		}
+	// 小于1分钟的，默认回收时间设为1小时
+	if interval < time.Minute {
+		interval = time.Hour
 	}
 
 	// 启动 Provider 的 GC
-- 
2.43.0


From ef3678ad2aec42468b93c52ba2b13df844e6d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 37/56] fix: the file served as fallback stayed open

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..d97099c 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -138,6 +138,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From 4bb1bf6870b1bb3a3028da040852cccef902de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 38/56] fix: a request for a directory could be redirected to
 another host

---
 static-serve/static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index d97099c..feebb0d 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -107,7 +107,8 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					// a path that begins with two slashes would name another host
+					Path:     "/" + strings.TrimLeft(req.URL.Path, "/") + "/",
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From d75b3ce51a8e9f9c57efc89dfe1ac06683ec268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 39/56] fix: writing an api error or response changed the
 shared value

---
 utils/apires/res.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..276e74c 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,21 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// a response can be shared, it must not be changed by writing it
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From 9cd666f1648c7018478118bfa71ee5eebcf06de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 40/56] fix: raw api responses lost their status

---
 utils/apires/raw.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..103f00e 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,33 +13,33 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status := r.Status
+	if status == 0 {
+		status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
-		return
-	}
-
-	if r.Body == nil {
+	if r.Body == nil || status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
 	var err error
 	switch v := r.Body.(type) {
 	case string:
+		rw.WriteHeader(status)
 		_, err = rw.Write([]byte(v))
 	case []byte:
+		rw.WriteHeader(status)
 		_, err = rw.Write(v)
 	case io.Reader:
+		rw.WriteHeader(status)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
 		if c, ok := r.Body.(io.Closer); ok {
 			c.Close()
 		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
-- 
2.43.0


From 372bde835456db84f1db052148a5850134ba0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 41/56] fix: context values of different types without a name,
 or with the same one, were confused

---
 utils/context.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..9f7e9f5 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -12,13 +12,28 @@ var (
 
 type key string
 
-func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
+// ctxKey tells types apart which have no name or the same one
+type ctxKey struct {
+	typ reflect.Type
+	key key
+}
+
+func newCtxKey(value interface{}, extraName ...string) ctxKey {
 	k := ctxValueToKey(value, extraName...)
+	typ := reflect.TypeOf(value).Elem()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	return ctxKey{typ, k}
+}
+
+func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
+	k := newCtxKey(value, extraName...)
 	return context.WithValue(ctx, k, value)
 }
 
 func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) error {
-	k := ctxValueToKey(value, extraName...)
+	k := newCtxKey(value, extraName...)
 	inf := ctx.Value(k)
 	tarElm := reflect.ValueOf(value).Elem()
 	if !tarElm.CanSet() {
-- 
2.43.0


From d7c0abe833fcd45f7cd78644af18f932b72a5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 42/56] fix: client address and host of IPv6 and listed
 proxies, encoded path in RealURL

---
 params/real.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/params/real.go b/params/real.go
index 31493a9..94ab21a 100755
--- a/params/real.go
+++ b/params/real.go
@@ -1,6 +1,7 @@
 package params
 
 import (
+	"net"
 	"net/http"
 	"net/url"
 	"strings"
@@ -13,20 +14,25 @@ func RealIp(req *http.Request) (realIp string) {
 	}
 
 	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
-	if len(ips) > 0 && ips[0] != "" {
-		rip := strings.Split(ips[0], ":")
-		realIp = rip[0]
+	if realIp = stripPort(ips[0]); realIp != "" {
 		return
 	}
 
-	ip := strings.Split(req.RemoteAddr, ":")
-	if len(ip) > 0 {
-		if ip[0] != "[" {
-			realIp = ip[0]
-			return
-		}
+	realIp = stripPort(req.RemoteAddr)
+	if realIp == "" || realIp == "::1" || realIp == "::" {
+		return "127.0.0.1"
 	}
-	return "127.0.0.1"
+	return
+}
+
+// stripPort returns the host of an address with or without a port,
+// an IPv6 address without its brackets.
+func stripPort(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if host, _, err := net.SplitHostPort(addr); err == nil {
+		return host
+	}
+	return strings.Trim(addr, "[]")
 }
 
 func RealHost(req *http.Request) (host string) {
@@ -34,9 +40,9 @@ func RealHost(req *http.Request) (host string) {
 	if host == "" {
 		host = req.Host
 	}
-	parts := strings.Split(host, ":")
-	if len(parts) > 0 {
-		host = parts[0]
+	host = stripPort(host)
+	if strings.Contains(host, ":") {
+		host = "[" + host + "]"
 	}
 	return
 }
@@ -70,6 +76,7 @@ func RealURL(req *http.Request) (u *url.URL, err error) {
 	d.Scheme = RealProto(req)
 	d.Opaque = ins.Opaque
 	d.Path = ins.Path
+	d.RawPath = ins.RawPath
 	d.RawQuery = ins.RawQuery
 	return &d, nil
 }
-- 
2.43.0


From c848c37f97c936ee749626b521f7a0eac599580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 43/56] fix: conversions of large unsigned values, other
 values, empty texts and byte arrays, and random texts of large alphabets

---
 app_util.go                 | 14 +++++++++++---
 utils/converter.go          |  9 +++++++--
 utils/converter_value_to.go |  7 ++++---
 utils/rand.go               |  2 +-
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/app_util.go b/app_util.go
index bafcde9..0b63873 100755
--- a/app_util.go
+++ b/app_util.go
@@ -166,10 +166,18 @@ func ToStr(value interface{}) (s string) {
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		s = strconv.FormatUint(val.Uint(), 10)
 	case reflect.String:
-		s = val.String()
-	case reflect.Array, reflect.Slice:
+		return val.String()
+	case reflect.Slice:
+		if val.Type().Elem().Kind() == reflect.Uint8 {
+			return string(val.Bytes())
+		}
+	case reflect.Array:
 		if val.Type().Elem().Kind() == reflect.Uint8 {
-			s = string(val.Bytes())
+			b := make([]byte, val.Len())
+			for i := range b {
+				b[i] = byte(val.Index(i).Uint())
+			}
+			return string(b)
 		}
 	}
 	if s == "" {
diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..e34c7a8 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -4,6 +4,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -177,7 +178,7 @@ func ToStr(value interface{}, args ...int) (s string) {
 			// TODO should use reflect rewrite
 			s = string(v)
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
@@ -190,7 +191,11 @@ func ToInt64(value interface{}) (d int64, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		d = val.Int()
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		d = int64(val.Uint())
+		if n := val.Uint(); n > math.MaxInt64 {
+			err = fmt.Errorf("ToInt64 value out of range: %d", n)
+		} else {
+			d = int64(n)
+		}
 	default:
 		err = fmt.Errorf("ToInt64 need numeric not `%T`", value)
 	}
diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..acfb8fa 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -15,10 +15,11 @@ func (v *Value) Bool() (bool, error) {
 	if ret, ok := v.value.(bool); ok {
 		return ret, nil
 	}
-	if v.value == "on" {
+	s := v.String()
+	if s == "on" {
 		return true, nil
 	}
-	return strconv.ParseBool(v.String())
+	return strconv.ParseBool(s)
 }
 
 func (v *Value) Float32() (float32, error) {
@@ -80,7 +81,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, 64)
 	return uint(value), err
 }
 
diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From b1d985111c694e3b098e2455df378f115bc742f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 44/56] fix: listed config directory equal to the executable
 one keeps its precedence

---
 utils/helpers/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..00ddd4a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -76,13 +76,16 @@ func LoadConfigFiles(sp *strip.Strip, app string, env interface{}, dir string, a
 	skipNum := len(files)
 	files = append(files, addFiles...)
 
-	maps := make(map[string]bool, len(files))
+	// a directory listed twice keeps its last, highest place
+	maps := make(map[string]int, skipNum)
+	for n, path := range files[:skipNum] {
+		maps[path] = n
+	}
 	var last config.Configer
 	for n, path := range files {
-		if n < skipNum && maps[path] {
+		if n < skipNum && maps[path] != n {
 			continue
 		}
-		maps[path] = true
 		conf, err := config.LoadIniFile(path)
 		if err != nil {
 			if !os.IsNotExist(err) || n >= skipNum {
-- 
2.43.0


From cb7b8f9190fc549dbc9e957eabcbb164c9755460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 45/56] fix: Config.Find gives the default when no
 configuration is imported

---
 config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index 8b41b67..2a04595 100755
--- a/config.go
+++ b/config.go
@@ -59,14 +59,14 @@ func newConfig() *Config {
 }
 
 func (c *Config) Find(name string, defaultValue ...string) string {
+	value := ""
 	if c.Configer != nil {
-		value := c.Configer.Find(name)
-		if value == "" && len(defaultValue) > 0 {
-			return defaultValue[0]
-		}
-		return value
+		value = c.Configer.Find(name)
+	}
+	if value == "" && len(defaultValue) > 0 {
+		return defaultValue[0]
 	}
-	return ""
+	return value
 }
 
 func (c *Config) Bind(ptr interface{}, name string) {
-- 
2.43.0


From 1655e5164eee78c4fe68365930808780ef8e42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 46/56] fix: SliceValue keeps the items of the text, not the
 text

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index 00ddd4a..66541f6 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0


From 7a60e176a00e5746eb10cb61d97fa623512afe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 47/56] fix: a cache timeout too long for a duration means no
 timeout

---
 caches/caches.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caches/caches.go b/caches/caches.go
index 37cb4a2..d81d75c 100755
--- a/caches/caches.go
+++ b/caches/caches.go
@@ -33,6 +33,10 @@ func getTimeoutDur(params ...int) time.Duration {
 		switch {
 		case params[0] > 0:
 			timeout = time.Duration(params[0]) * time.Second
+			// longer than a duration can be
+			if timeout/time.Second != time.Duration(params[0]) {
+				timeout = 0
+			}
 			return timeout
 		default:
 			timeout = time.Duration(params[0])
-- 
2.43.0


From 860c4491046b477d0f12e842882374dd057b88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:21 +0000
Subject: [PATCH 48/56] fix: a memcache expiration does not run past 32 bits

---
 caches/provider_memcache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 41d63f5..033e845 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,7 @@
 package caches
 
 import (
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -119,7 +120,12 @@ func (p *mcProvide) GC() error {
 // memcached takes an expiration above 30 days as an absolute unix time
 func (p *mcProvide) expiration(timeout time.Duration) int32 {
 	if timeout > 30*24*time.Hour {
-		return int32(time.Now().Add(timeout).Unix())
+		at := time.Now().Add(timeout).Unix()
+		// the last time it can be told, not one in the past
+		if at > math.MaxInt32 {
+			at = math.MaxInt32
+		}
+		return int32(at)
 	}
 	return int32(timeout.Seconds())
 }
-- 
2.43.0


From 33c3fef1cfb50a2abb661d8e529bde95746a0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:22 +0000
Subject: [PATCH 49/56] fix: a key in brackets which is no index names no
 element

---
 params/binder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 1bb345f..61a6904 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -242,8 +242,16 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		// Extract the index, and the index where a sub-key starts. (e.g. field[0].subkey)
 		index := -1
 		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
+		if rightBracket < leftBracket {
+			return
+		}
 		if rightBracket > leftBracket+1 {
-			index, _ = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			// What is not an index names no element.
+			i, err := strconv.Atoi(key[leftBracket+1 : rightBracket])
+			if err != nil || i < 0 {
+				return
+			}
+			index = i
 		}
 		subKeyIndex := rightBracket + 1
 
-- 
2.43.0


From c35d1fc7b97d9ee54db6a33c3d6806b51f8305ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 50/56] fix: finding a stored pointer which is nil does not
 panic

---
 utils/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/context.go b/utils/context.go
index 9f7e9f5..72ad104 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -50,7 +50,9 @@ func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) e
 	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
 		tarElm.Set(elm.Addr())
 	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
-		tarElm.Set(elm.Elem())
+		if !elm.IsNil() {
+			tarElm.Set(elm.Elem())
+		}
 	} else if tarElm.Kind() == reflect.Ptr && elm.Kind() == reflect.Ptr {
 		tarElm.Set(elm)
 	} else {
-- 
2.43.0


From c45b66804ac8379338435ba89a99a76208de8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 51/56] fix: deriving several method handlers from one keeps
 them apart

---
 router_method.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..68880a0 100755
--- a/router_method.go
+++ b/router_method.go
@@ -49,20 +49,23 @@ func (h methodParams) Action(name string) MethodHandler {
 	// ensure controller has action
 	rc := h[0].(routerController)
 	rc.ensureHasAction(name)
-	h[0] = rc
 
-	h = append(h, action(name))
+	h = h.derive(action(name))
+	h[0] = rc
 	return h
 }
 
+// derive adds to a copy, others may be derived from the same handler
+func (h methodParams) derive(handler Handler) methodParams {
+	return append(h[:len(h):len(h)], handler)
+}
+
 func (h methodParams) Filter(exempts ...interface{}) MethodHandler {
-	h = append(h, Filter(exempts...))
-	return h
+	return h.derive(Filter(exempts...))
 }
 
 func (h methodParams) Exempt(exempts ...interface{}) MethodHandler {
-	h = append(h, Exempt(exempts...))
-	return h
+	return h.derive(Exempt(exempts...))
 }
 
 func Get(c Handler) MethodHandler {
-- 
2.43.0


From 4248351596524d057537010b640f49c6233c751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:26 +0000
Subject: [PATCH 52/56] fix: an application does not share the filters it took
 from another

---
 app_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 0b63873..036c081 100755
--- a/app_util.go
+++ b/app_util.go
@@ -12,7 +12,8 @@ import (
 )
 
 func ReplaceFilters(old, new *Strip) {
-	old.filters = new.filters
+	// both go on adding to their own
+	old.filters = new.filters[:len(new.filters):len(new.filters)]
 }
 
 type StrTo string
-- 
2.43.0


From 4eb75dac03a4f443229e0ddfe1b2e5b8007f2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 53/56] fix: bind a JSON null in a map as the zero value

---
 params/binder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index 61a6904..38bb61d 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -374,6 +374,10 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 			_ = dec.Decode(&raw)
 		}
 		for key, value := range raw {
+			if value == nil { // null, not its Go spelling
+				result.SetMapIndex(BindValue(key, keyType), reflect.Zero(valueType))
+				continue
+			}
 			if n, ok := value.(json.Number); ok && strings.ContainsAny(n.String(), ".eE") {
 				value, _ = n.Float64()
 			}
-- 
2.43.0


From aa969491993d509c73a7a4ad6c2cc4a4a1cd011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 54/56] fix: log the whole of a forwarded IPv6 address

---
 request-logger/logger.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/request-logger/logger.go b/request-logger/logger.go
index e86c300..c9b95c0 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -2,6 +2,7 @@ package reqlogger
 
 import (
 	"fmt"
+	"net"
 	"net/http"
 	"strings"
 	"time"
@@ -116,16 +117,20 @@ func realIp(req *http.Request) string {
 	}
 
 	parts := strings.Split(req.Header.Get(HeaderXForwardedFor), ",")
-	if len(parts) > 0 && parts[0] != "" {
-		parts = strings.Split(parts[0], ":")
-		return strings.TrimSpace(parts[0])
+	if ip := stripPort(parts[0]); ip != "" {
+		return ip
 	}
 
-	host := req.RemoteAddr
-	if idx := strings.LastIndex(req.RemoteAddr, ":"); idx != -1 {
-		host = host[:idx]
+	return stripPort(req.RemoteAddr)
+}
+
+// an IPv6 address has colons of its own
+func stripPort(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if host, _, err := net.SplitHostPort(addr); err == nil {
+		return host
 	}
-	return host
+	return strings.Trim(addr, "[]")
 }
 
 func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger) *http.Request {
-- 
2.43.0


From c3c37391b0ad30a63eb178251e0666c40bb43632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 55/56] fix: compress once however often the gzip filter is
 installed

---
 gzip/gzip.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 98e0cdc..6227949 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -27,8 +27,11 @@ func All() interface{} {
 			return
 		}
 
-		// header may be sent already, too late to announce compression
-		if ctx.Written() {
+		_, compressed := rw.(*gzipResponseWriter)
+
+		// header may be sent already, too late to announce compression,
+		// and what is compressed already must not be compressed again
+		if compressed || ctx.Written() {
 			ctx.Next()
 			return
 		}
-- 
2.43.0


From 413ddeef0b36552f5da060c90756c4e25789cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 56/56] fix: gzip: keep what a response varies with besides the
 encoding

---
 gzip/gzip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 6227949..958b1df 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -38,7 +38,7 @@ func All() interface{} {
 
 		headers := rw.Header()
 		headers.Set(HeaderContentEncoding, "gzip")
-		headers.Set(HeaderVary, HeaderAcceptEncoding)
+		headers.Add(HeaderVary, HeaderAcceptEncoding)
 
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
-- 
2.43.0

