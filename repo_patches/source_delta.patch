From 42ece6cf94b690e6e2f444bf4bbb6640e07caef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 01/24] fix: clear route parameters and store when a context is
 recycled

reset() left Params (and Environ) of the previous request in place. A request
answered by the static fast path, which does not assign Params, therefore saw
the route parameters of whichever request used the context before.
---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 386dc10..fbf4a09 100644
--- a/context.go
+++ b/context.go
@@ -37,6 +37,9 @@ func newContext() *Context {
 func (ctx *Context) reset() {
 	ctx.index = 0
 
+	ctx.Environ = nil
+	ctx.Params = nil
+
 	ctx.written = false
 	ctx.status = 0
 
-- 
2.43.0


From accb0aa1419f66b1f46f25a763b9bdf9243acc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 02/24] fix: scope middleware handed to Group to that group

Group(pattern, func(*Context)) appended the middleware to the parent router, so
it ran for every route of the parent instead of the routes of the group.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From 3f6a52a85c0ecfcebf53e50eb64e9a8476341099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 03/24] fix: set the content type before the status line is
 sent

String, Data, HTMLRaw, JSON, XML and the default renderer called WriteHeader
first; headers set afterwards are ignored by net/http, so the client never got
the content type the helper stands for.
---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From e793853743ad807d82874a65326b753a0cffbe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 04/24] fix: serve files and directory redirects through the
 context

File and StaticAdvance wrote to the bare ResponseWriter, so the response was
sent while the context still counted as unwritten with status 0: later handlers
were started, Recovery sent a second status line and Logger reported status 0.
---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From 1feb79fc5f414986238a06e3b940b32f7ce68ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 05/24] fix: serve a directory's index file from the configured
 file system

For a directory StaticAdvance passed a path relative to the route to ctx.File,
which opened it in the working directory of the process: the configured
FileSystem's index file was never served, files (or, without IndexFile, the
listing) of an unrelated directory were.
---
 m_static.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..46e50b8 100644
--- a/m_static.go
+++ b/m_static.go
@@ -85,7 +85,28 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
+			if !opt.hasIndex {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+
+			index, err := opt.FileSystem.Open(path.Join("/", ctx.Param("*0"), opt.IndexFile))
+			if err != nil {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+			defer index.Close()
+
+			indexInfo, err := index.Stat()
+			if err != nil || indexInfo.IsDir() {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+
+			http.ServeContent(ctx, ctx.Request, opt.IndexFile, indexInfo.ModTime(), index)
 			return
 		}
 
-- 
2.43.0


From bfd6aef200d51310a533dcfd105251a02f4cf610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 06/24] fix: keep the request body intact when the logger
 captures it

Logger replaced a JSON body by the first MiB it had captured and dropped the
read error: a longer or broken-off body reached the handlers as a complete,
shorter one. Handlers now read the captured part followed by the rest of the
body, or by the error that ended the capture.
---
 m_logger.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..b297688 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -50,6 +50,21 @@ func logPrefix(req *http.Request) string {
 	return "[ water : " + req.Header.Get("Trace-ID") + " ]"
 }
 
+// loggedBody is a request body whose beginning was captured for the log.
+type loggedBody struct {
+	io.Reader
+	io.Closer
+}
+
+// errReader reports the error that reading a request body ended with.
+type errReader struct {
+	err error
+}
+
+func (r errReader) Read([]byte) (int, error) {
+	return 0, r.err
+}
+
 func Logger() HandlerFunc {
 	return func(ctx *Context) {
 		if LogClose {
@@ -61,11 +76,18 @@ func Logger() HandlerFunc {
 
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
-			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
+			requestbody, err := ioutil.ReadAll(safe)
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			// handlers get the captured part followed by whatever is left,
+			// or by the error that ended the capture
+			rest := io.Reader(ctx.Request.Body)
+			if err != nil {
+				rest = errReader{err}
+			}
+			ctx.Request.Body = &loggedBody{
+				Reader: io.MultiReader(bytes.NewReader(requestbody), rest),
+				Closer: ctx.Request.Body,
+			}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 6effa814c1be3a485265538d34d337818d4ae8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 07/24] fix: report a failed close of a saved upload

The operating system may report that data could not be stored only when the
file is closed (full disk, network file systems). SaveUploadedFile ignored that
and returned success.
---
 content.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/content.go b/content.go
index ef681f4..8eff0a5 100644
--- a/content.go
+++ b/content.go
@@ -185,9 +185,11 @@ func (ctx *Context) SaveUploadedFile(file *multipart.FileHeader, dst string) err
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	_, err = io.Copy(f, src)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
-- 
2.43.0


From 13d40d3f3a40a56022be259197362ef61351680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 08/24] fix: keep the upload memory limit per engine

Router.Handler stored the limit in package variables: building an engine
changed the limit of every other engine in the process (unsynchronised with
requests being served), and an engine built without WithMaxMultipartMemory set
it to 0 instead of the documented 32 MB.
---
 content.go | 10 ++++++++--
 context.go |  2 ++
 engine.go  |  1 +
 router.go  |  7 +------
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/content.go b/content.go
index 8eff0a5..88287d4 100644
--- a/content.go
+++ b/content.go
@@ -303,6 +303,12 @@ func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 		ctx.ParseFormOrMultipartForm()
 	}
 
+	if b == binding.FormMultipart && ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
+			return err
+		}
+	}
+
 	return b.Bind(ctx.Request, obj)
 }
 
@@ -321,7 +327,7 @@ func (ctx *Context) FullPath() string {
 	return ""
 }
 
-var (
+const (
 	// MultipartMemory
 	defaultMultipartMemory int64 = 32 << 20 // 32MB
 )
@@ -335,7 +341,7 @@ func (ctx *Context) ParseFormOrMultipartForm() {
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
-		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
 			panic(errors.New("parseMultipartForm error:" + err.Error()))
 		}
 	} else {
diff --git a/context.go b/context.go
index fbf4a09..04b94e6 100644
--- a/context.go
+++ b/context.go
@@ -20,6 +20,8 @@ type Context struct {
 
 	handlers       []Handler
 	handlersLength int
+
+	maxMultipartMemory int64 // of the engine serving the request
 	// --- follow need reset
 	index int
 
diff --git a/engine.go b/engine.go
index 9466b6b..139ccf1 100644
--- a/engine.go
+++ b/engine.go
@@ -98,6 +98,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 
 	ctx.ResponseWriter = rw.(ResponseWriter)
 	ctx.Request = req
+	ctx.maxMultipartMemory = e.options.MaxMultipartMemory
 
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
diff --git a/router.go b/router.go
index 969a8c1..fbacea4 100644
--- a/router.go
+++ b/router.go
@@ -5,8 +5,6 @@ import (
 	"net/http"
 	"strings"
 	"sync"
-
-	"github.com/meilihao/water/binding"
 )
 
 var (
@@ -283,7 +281,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 		panic("sub router not allowed: Handler()")
 	}
 
-	o := &options{}
+	o := &options{MaxMultipartMemory: defaultMultipartMemory}
 	for _, f := range opts {
 		f(o)
 	}
@@ -320,9 +318,6 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	w.routeStore = rs
 	w.options = o
 
-	defaultMultipartMemory = w.options.MaxMultipartMemory
-	binding.SetMultipartMemory(defaultMultipartMemory)
-
 	w.buildTree()
 
 	return w
-- 
2.43.0


From 11d90caf3a25f6c97a5592e94f6fe815dc68864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 09/24] fix: refuse form numbers that do not fit their field

Numbers were parsed as 64 bit and stored with SetInt/SetUint, which cut them to
the width of the field: 300 bound to an int8 silently became 44.
---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From 84965b6307c2618d101658415d4232bb4cbc78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 10/24] fix: do not keep parameters of a constrained branch
 that did not match

matchSubNode stored the parameters of a constrained segment before it knew
whether the rest of the path matches there. When it did not, the route found
afterwards carried the parameters of the abandoned one.
---
 tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 08f6628..e91094a 100644
--- a/tree.go
+++ b/tree.go
@@ -285,10 +285,10 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					params[n.subNodes[i].wildcards[j]] = results[j+1]
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From 772d9be42e48a39506a9cde71ebf353ef29b1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 11/24] fix: let constraints without a group match

A constrained segment whose expression has no group, such as the documented
<id ~ 70|80>, could never match because the number of submatches (0) always
differed from the number of names.
---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index e91094a..da4e59b 100644
--- a/tree.go
+++ b/tree.go
@@ -99,6 +99,11 @@ func partternRegexp(pattern string, want int) (string, error) {
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
+	// <id ~ 70|80>: the whole expression is the parameter
+	if want == 1 && !strings.ContainsAny(regExp, "()") {
+		regExp = "(" + regExp + ")"
+	}
+
 	return regExp, nil
 }
 
-- 
2.43.0


From 8054721a2056a9f7a105c2ed3a5b65641e1521ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 12/24] fix: choose among catch-all routes in registration
 order for every path

With several catch-all routes at one place, a path of one remaining segment
went to the one registered first and a longer path to the one registered last.
---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index da4e59b..0205702 100644
--- a/tree.go
+++ b/tree.go
@@ -317,8 +317,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*"
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From b59c0d96093980d527942a1e0ee11e88933eb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 13/24] fix: count a response as written only once its status
 line is accepted

net/http panics on an invalid status code. The context was marked as written
before that, so Recovery believed a status had been sent and the client got an
implicit 200 instead of a 500.
---
 context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 04b94e6..fa27c1b 100644
--- a/context.go
+++ b/context.go
@@ -77,9 +77,10 @@ func (ctx *Context) WriteHeader(code int) {
 	if ctx.written {
 		logx.Warn("water: multiple ctx.WriteHeader calls")
 	} else {
+		// panics if code is not valid: nothing is written then
+		ctx.ResponseWriter.WriteHeader(code)
 		ctx.written = true
 		ctx.status = code
-		ctx.ResponseWriter.WriteHeader(code)
 	}
 }
 
-- 
2.43.0


From bc29e54eb94b7d3e7ccda8c5b01713df6cd5546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 14/24] fix: track flushed and hijacked connections in the
 extended build

Flush and Hijack were promoted from the ResponseWriter and bypassed the
context: a flushed or hijacked response still counted as unwritten, so later
handlers were started and Recovery sent a second status.
---
 response_advanced.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/response_advanced.go b/response_advanced.go
index 472b4d4..3f283d8 100644
--- a/response_advanced.go
+++ b/response_advanced.go
@@ -3,6 +3,8 @@
 package water
 
 import (
+	"bufio"
+	"net"
 	"net/http"
 )
 
@@ -12,3 +14,23 @@ type ResponseWriter interface {
 	http.Flusher
 	http.Hijacker
 }
+
+// Flush sends the response so far, with status 200 if none was set.
+func (ctx *Context) Flush() {
+	if !ctx.written {
+		ctx.WriteHeader(http.StatusOK)
+	}
+
+	ctx.ResponseWriter.Flush()
+}
+
+// Hijack lets the caller take over the connection. The response counts as
+// written from then on.
+func (ctx *Context) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	conn, rw, err := ctx.ResponseWriter.Hijack()
+	if err == nil {
+		ctx.written = true
+	}
+
+	return conn, rw, err
+}
-- 
2.43.0


From 21b3858cfa02cd96464eaf983c1ae249770aad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 15/24] fix: JSON answers containing maps crashed
 (json-iterator walks maps with internals newer runtimes do not have)

---
 content.go | 1 +
 util.go    | 6 ------
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 88287d4..3063977 100644
--- a/content.go
+++ b/content.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"errors"
 	"io"
diff --git a/util.go b/util.go
index 8d895bf..4a6f6e1 100644
--- a/util.go
+++ b/util.go
@@ -9,12 +9,6 @@ import (
 	"runtime"
 	"strings"
 	"time"
-
-	jsoniter "github.com/json-iterator/go"
-)
-
-var (
-	json = jsoniter.ConfigCompatibleWithStandardLibrary
 )
 
 // from net/http
-- 
2.43.0


From c19ae9192d61c877b798af83047fdffbb3843dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 16/24] fix: FormFile ignored the upload memory limit of the
 engine

---
 content.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/content.go b/content.go
index 3063977..c85f156 100644
--- a/content.go
+++ b/content.go
@@ -151,6 +151,12 @@ func (ctx *Context) File(filepath string) {
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
+	if ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.maxMultipartMemory); err != nil {
+			return nil, nil, err
+		}
+	}
+
 	return ctx.Request.FormFile(name)
 }
 
-- 
2.43.0


From 4eddfcc0fea99087882becc5c9025b0e4dcfffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 17/24] fix: an informational status was taken for the response

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index fa27c1b..05e285a 100644
--- a/context.go
+++ b/context.go
@@ -76,6 +76,9 @@ func (ctx *Context) Status() int {
 func (ctx *Context) WriteHeader(code int) {
 	if ctx.written {
 		logx.Warn("water: multiple ctx.WriteHeader calls")
+	} else if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// informational: the response is still to come
+		ctx.ResponseWriter.WriteHeader(code)
 	} else {
 		// panics if code is not valid: nothing is written then
 		ctx.ResponseWriter.WriteHeader(code)
-- 
2.43.0


From 033ab99658054cc84492a2372a36b8d82a294b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 18/24] fix: forwarded addresses not separated by a space were
 taken for one address

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4a6f6e1..3e985b7 100644
--- a/util.go
+++ b/util.go
@@ -27,7 +27,12 @@ func cleanPath(p string) string {
 
 func requestProxy(req *http.Request) []string {
 	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+		proxies := strings.Split(ips, ",")
+		for i := range proxies {
+			proxies[i] = strings.TrimSpace(proxies[i])
+		}
+
+		return proxies
 	}
 
 	return nil
-- 
2.43.0


From 158c72a2ee34c54dcf4bd1060530568ac287d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 19/24] fix: static file systems were asked for names without
 leading slash (the root of an http.FS was not found)

---
 m_static.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/m_static.go b/m_static.go
index 46e50b8..1a77880 100644
--- a/m_static.go
+++ b/m_static.go
@@ -53,7 +53,10 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		f, err := opt.FileSystem.Open(ctx.Param("*0"))
+		// file systems are asked the way net/http's FileServer does
+		name := path.Clean("/" + ctx.Param("*0"))
+
+		f, err := opt.FileSystem.Open(name)
 		if err != nil {
 			ctx.WriteHeader(http.StatusNotFound)
 
@@ -91,7 +94,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			index, err := opt.FileSystem.Open(path.Join("/", ctx.Param("*0"), opt.IndexFile))
+			index, err := opt.FileSystem.Open(path.Join(name, opt.IndexFile))
 			if err != nil {
 				ctx.WriteHeader(http.StatusNotFound)
 
@@ -126,7 +129,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, name, fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From 92c0eb685446aa41a258d5ee24baf67846e9d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 20/24] fix: QueryMap returned a random one of the values of
 one entry

---
 query.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/query.go b/query.go
index 6bb651e..5b857bb 100644
--- a/query.go
+++ b/query.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -89,12 +90,26 @@ func (ctx *Context) QueryArray(name string) []string {
 func (ctx *Context) QueryMap(key string) map[string]string {
 	ctx.ParseFormOrMultipartForm()
 
+	return ctx.queryMap(key)
+}
+
+// queryMap collects the values named key[...]. If several names lead to one
+// entry (ids[a] and ids[a][b]) the first of them in order counts.
+func (ctx *Context) queryMap(key string) map[string]string {
+	names := make([]string, 0, len(ctx.Request.Form))
+	for k := range ctx.Request.Form {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+
 	dicts := make(map[string]string)
 
-	for k, v := range ctx.Request.Form {
+	for _, k := range names {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
 			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 {
-				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
+				if _, ok := dicts[k[i+1:][:j]]; !ok {
+					dicts[k[i+1:][:j]] = strings.TrimSpace(ctx.Request.Form[k][0])
+				}
 			}
 		}
 	}
@@ -171,20 +186,8 @@ func (ctx *Context) DefaultQueryArray(name string, defaultValue []string) []stri
 func (ctx *Context) DefaultQueryMap(key string, defaultValue map[string]string) map[string]string {
 	ctx.ParseFormOrMultipartForm()
 
-	dicts := make(map[string]string)
-	exist := false
-
-	for k, v := range ctx.Request.Form {
-		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 {
-				exist = true
-
-				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
-			}
-		}
-	}
-
-	if !exist {
+	dicts := ctx.queryMap(key)
+	if len(dicts) == 0 {
 		return defaultValue
 	}
 
-- 
2.43.0


From a6eb7c50a4d359cf7f9bc27ccc1c00f9b4f1e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 21/24] fix: Bind2 of a multipart form or of headers into a map
 succeeded without storing anything

---
 binding/form.go    |  2 +-
 binding/header.go  |  2 +-
 binding/mapping.go | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/binding/form.go b/binding/form.go
index e821e7e..b702eb0 100644
--- a/binding/form.go
+++ b/binding/form.go
@@ -61,7 +61,7 @@ func (b formMultipartBinding) Bind2(req *http.Request, obj interface{}) error {
 		}
 	}
 
-	if _, err := mapping(reflect.ValueOf(obj), emptyField, (*multipartForm)(req.MultipartForm), "form"); err != nil {
+	if err := mapBySetter(obj, req.MultipartForm.Value, (*multipartForm)(req.MultipartForm), "form"); err != nil {
 		return err
 	}
 
diff --git a/binding/header.go b/binding/header.go
index d7608f1..01332b1 100644
--- a/binding/header.go
+++ b/binding/header.go
@@ -13,7 +13,7 @@ func (headerBinding) Name() string {
 }
 
 func (headerBinding) Bind2(req *http.Request, obj interface{}) error {
-	_, err := mapping(reflect.ValueOf(obj), emptyField, headerSource(req.Header), "header")
+	err := mapBySetter(obj, req.Header, headerSource(req.Header), "header")
 	if err != nil {
 		return err
 	}
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..91f9fcc 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -210,6 +210,20 @@ func mapFormByTag(ptr interface{}, form map[string][]string, tag string) error {
 	return err
 }
 
+// mapBySetter is mapFormByTag for values that need their own setter when ptr is a struct
+func mapBySetter(ptr interface{}, form map[string][]string, setter setter, tag string) error {
+	typ := reflect.TypeOf(ptr)
+	if typ != nil && typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	if typ != nil && typ.Kind() == reflect.Map {
+		return mapFormByTag(ptr, form, tag)
+	}
+
+	_, err := mapping(reflect.ValueOf(ptr), emptyField, setter, tag)
+	return err
+}
+
 // ptr need make() done
 func setFormMap(ptr interface{}, form map[string][]string) error {
 	el := reflect.TypeOf(ptr).Elem()
-- 
2.43.0


From 4d5482fb1b7d4ed5e01de4236769488fa2dc787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 22/24] fix: binding false to a field that was true before left
 it true

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From e3196cc917b66761796b901912be461f0cc864eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:32 +0000
Subject: [PATCH 23/24] fix: integers of JSON documents beyond the range of
 their field could wrap around

---
 binding/json.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/binding/json.go b/binding/json.go
index 7f32eb6..661a93b 100644
--- a/binding/json.go
+++ b/binding/json.go
@@ -1,16 +1,61 @@
 package binding
 
 import (
+	stdjson "encoding/json"
 	"fmt"
+	"io"
 	"net/http"
+	"reflect"
+	"unsafe"
 
 	jsoniter "github.com/json-iterator/go"
+	"github.com/modern-go/reflect2"
 )
 
 var (
-	json = jsoniter.ConfigCompatibleWithStandardLibrary
+	json = newJSON()
 )
 
+// newJSON is jsoniter.ConfigCompatibleWithStandardLibrary which reads numbers as
+// encoding/json does: those of jsoniter may wrap around instead of being refused
+func newJSON() jsoniter.API {
+	api := jsoniter.Config{
+		EscapeHTML:             true,
+		SortMapKeys:            true,
+		ValidateJsonRawMessage: true,
+	}.Froze()
+	api.RegisterExtension(&numberExtension{})
+
+	return api
+}
+
+type numberExtension struct {
+	jsoniter.DummyExtension
+}
+
+func (*numberExtension) CreateDecoder(typ reflect2.Type) jsoniter.ValDecoder {
+	if k := typ.Kind(); k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr {
+		return &numberDecoder{typ}
+	}
+
+	return nil
+}
+
+type numberDecoder struct {
+	typ reflect2.Type
+}
+
+func (d *numberDecoder) Decode(ptr unsafe.Pointer, iter *jsoniter.Iterator) {
+	data := iter.SkipAndReturnBytes()
+	if iter.Error != nil && iter.Error != io.EOF {
+		return
+	}
+
+	if err := stdjson.Unmarshal(data, d.typ.PackEFace(ptr)); err != nil {
+		iter.ReportError("read number", err.Error())
+	}
+}
+
 type jsonBinding struct{}
 
 func (jsonBinding) Name() string {
-- 
2.43.0


From 70e3a31cf2b1f210ef6df08c6193ff153081e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:07 +0000
Subject: [PATCH 24/24] fix: binding a JSON null into a pointer, or into a
 slice of pointers, panicked

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0

