package wsim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"mime/multipart"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	"watersim/simrt"
)

// Ctx is what a handler can do: the public API of water.Context. The real
// context and the reference model both implement it.
type Ctx interface {
	http.ResponseWriter
	Next()
	Written() bool
	Status() int
	FullPath() string
	Param(string) string
	Set(string, interface{})
	Get(string) interface{}
	GetMaybe(string) (interface{}, bool)
	GetHeader(string) string
	SetHeader(string, string)
	Abort(int)
	NotModified()
	BadRequest()
	Unauthorized()
	Forbidden()
	NotFound()
	InternalServerError()
	NoCache()
	MovedPermanently(string)
	Found(string)
	String(int, string)
	Data(int, string, []byte)
	HTMLRaw(int, string)
	HTML(int, string, interface{})
	JSON(int, interface{}) error
	XML(int, interface{}) error
	Stream(string, io.Reader) error
	SetCookie(string, string, ...interface{})
	Download(string, ...bool) error
	Attachment(string, time.Time, io.ReadSeeker, ...bool)
	ServeFile(string)
	File(string)
	BodyBytes() ([]byte, error)
	BodyString() (string, error)
	ReadCloser() io.ReadCloser
	Query(string) string
	QueryInt(string) int
	QueryBool(string) bool
	QueryFloat64(string) float64
	QueryArray(string) []string
	QueryMap(string) map[string]string
	DefaultQuery(string, string) string
	DefaultQueryInt(string, string) int
	QueryInt64(string) int64
	QueryUint(string) uint
	QueryUint64(string) uint64
	DefaultQueryBool(string, string) bool
	DefaultQueryInt64(string, string) int64
	DefaultQueryUint(string, string) uint
	DefaultQueryUint64(string, string) uint64
	DefaultQueryFloat64(string, string) float64
	DefaultQueryArray(string, []string) []string
	DefaultQueryMap(string, map[string]string) map[string]string
	ParseFormOrMultipartForm()
	FormFile(string) (multipart.File, *multipart.FileHeader, error)
	SaveUploadedFile(*multipart.FileHeader, string) error
	Bind(interface{}) error
	BindWith(interface{}, binding.Bindinger) error
	Bind2(string, interface{}) error // the other half of package binding
	RealIp() string
	Proxy() []string
	Protocol() string
	UserAgent() string
	IsAjax() bool
	IsWebsocket() bool
	ContentType() string
	Cookie(string) string
	CookieInt(string) int
	CookieEscape(string) string
	CookieBool(string) bool
	CookieInt64(string) int64
	CookieUint(string) uint
	CookieUint64(string) uint64
	CookieFloat64(string) float64
	HTMLSet(int, string, string, interface{})

	// not part of the context's method set
	R() *http.Request
	SetR(*http.Request)
	Wrap()
	PMap() map[string]string
	EMap() map[string]interface{}
}

type ctxKey struct{}

func digest(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%q", b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("len=%d fnv=%s head=%q", len(b), hex.EncodeToString(h.Sum(nil)), b[:16])
}

func mapStr(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q ", k, m[k])
	}
	return sb.String()
}

func observe(rec *Rec, c Ctx) {
	rec.ev("P", "full=%q params=%s", c.FullPath(), mapStr(c.PMap()))
	env := map[string]string{}
	for k, v := range c.EMap() {
		env[k] = fmt.Sprint(v)
	}
	rec.ev("V", "env=%s", mapStr(env))
	rec.ev("S", "written=%v status=%d", c.Written(), c.Status())
	if !rec.Model {
		r := c.R()
		if r != rec.R {
			id := "nil"
			if r != nil {
				id = r.Header.Get("Trace-Id")
			}
			rec.ev("I", "foreign request %s", id)
		}
	}
}

func status(rec *Rec, c Ctx) {
	rec.ev("S", "written=%v status=%d", c.Written(), c.Status())
}

func errClass(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, errConn), errors.Is(err, errConnReset), errors.Is(err, errConnTimeout):
		return "conn"
	case errors.Is(err, errSource):
		return "source"
	case err == io.ErrUnexpectedEOF, errors.Is(err, errSourcePipe), errors.Is(err, context.Canceled):
		return "source"
	case errors.Is(err, http.ErrBodyNotAllowed):
		return "nobody"
	case errors.Is(err, http.ErrHijacked):
		return "hijacked"
	}
	return "error"
}

func nilOrErr(err error) string {
	if err == nil {
		return "nil"
	}
	return "error"
}

// The ways a content source fails: its own errors, and those of a connection
// or another request it reads from in turn.
var (
	errSource           = errors.New("source failed")
	errSourcePipe error = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.EPIPE)}
)

func (s *fragSrc) failure() error {
	s.rec.fire("source.error")
	switch (s.fail + len(s.data)) % 5 {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return errSourcePipe
	case 3:
		return context.Canceled
	}
	return errSource
}

// fragSrc is a content source producing fragments and failing at an offset.
type fragSrc struct {
	rec   *Rec
	data  []byte
	frags []int
	fail  int // -1 never
	off   int
	i     int
	with  bool // the last data comes together with the end or the failure
}

func (s *fragSrc) Read(p []byte) (int, error) {
	simrt.Y(-80)
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	if s.fail >= 0 && s.fail < end {
		end = s.fail
	}
	if s.off >= end {
		if s.fail >= 0 {
			return 0, s.failure()
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(s.frags) > 0 {
		if s.frags[s.i%len(s.frags)] < 0 { // nothing yet
			s.i++
			return 0, nil
		}
		if f := s.frags[s.i%len(s.frags)]; f > 0 && f < n {
			n = f
		}
		s.i++
	}
	if n > end-s.off {
		n = end - s.off
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	if s.with && s.off >= end {
		if s.fail >= 0 {
			return n, s.failure()
		}
		return n, io.EOF
	}
	return n, nil
}

// source is the content of a Stream op.
func source(rec *Rec, op *Op) io.Reader {
	s := fragSrc{rec: rec, data: op.B, frags: op.L, fail: op.M, with: op.S2 == "with"}
	if op.S3 == "full" {
		return &fullSeeker{fragSeeker{fragSrc: s}}
	}
	return &s
}

// fullSeeker offers more ways of reading, as bytes.Reader or a file does.
type fullSeeker struct{ fragSeeker }

func (s *fullSeeker) Size() int64 { return int64(len(s.data)) }
func (s *fullSeeker) Len() int    { return len(s.data) - s.off }

func (s *fullSeeker) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off > int64(len(s.data)) {
		return 0, io.EOF
	}
	end := len(s.data)
	if s.fail >= 0 && s.fail < end {
		end = s.fail
	}
	n := 0
	if int(off) < end {
		n = copy(p, s.data[off:end])
	}
	if n < len(p) {
		if s.fail >= 0 {
			s.rec.fileReadFault = true
			return n, s.failure()
		}
		return n, io.EOF
	}
	return n, nil
}

func (s *fullSeeker) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{&s.fragSrc})
}

type fragSeeker struct {
	fragSrc
	name string
}

func (s *fragSeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(s.off)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("negative seek")
	}
	s.off = int(off)
	return off, nil
}

func (s *fragSeeker) Read(p []byte) (int, error) {
	n, err := s.fragSrc.Read(p)
	if err != nil && err != io.EOF {
		s.rec.fileReadFault = true
	}
	return n, err
}

type customPanic struct{ S string }

type nilErr struct{ e *net.OpError }

func (nilErr) Error() string { return panicMark + " odd error" }

const panicMark = "PANICTEXT"

// Values that cannot even be printed without a panic of their own.
type badError struct{ op *Op }

func (e badError) Error() string { return e.op.S }

type badString struct{ op *Op }

func (e badString) String() string { return e.op.S }

func raise(kind string) {
	switch kind {
	case "err":
		panic(errors.New(panicMark + " error value"))
	case "nilmap":
		var m map[string]int
		m["x"] = 1
	case "index":
		var a []int
		i := len(a) + 3
		_ = a[i]
	case "nilptr":
		var p *Op
		_ = p.S
	case "abort":
		panic(http.ErrAbortHandler)
	case "neterr":
		panic(&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)})
	case "reset":
		panic(error(syscall.ECONNRESET))
	case "eof":
		panic(io.EOF)
	case "canceled":
		panic(context.Canceled)
	case "wrapped":
		panic(fmt.Errorf("%s: %w", panicMark, http.ErrAbortHandler))
	case "slice":
		panic([]string{panicMark})
	case "mapkey":
		m := map[interface{}]int{}
		m[[]int{1}] = 1
	case "typednil":
		var e *net.OpError
		panic(error(nilErr{e}))
	case "badError":
		panic(badError{})
	case "badString":
		panic(badString{})
	case "closed":
		c := make(chan int)
		close(c)
		close(c)
	case "cast":
		var v interface{} = panicMark
		_ = v.(int)
	case "div":
		var z int
		_ = 1 / z
	case "custom":
		panic(customPanic{panicMark})
	case "int":
		panic(42)
	default:
		panic(panicMark + " string value")
	}
}

// runScript is the body of every simulated handler.
func runScript(rec *Rec, c Ctx, id string, ops []Op, full bool) {
	now := simrt.NowNS()
	if rec.FirstIn == 0 {
		rec.FirstIn = now + 1
	}
	rec.ev("E", "> %s", id)
	rec.stack = append(rec.stack, id)
	done := false
	defer func() {
		rec.stack = rec.stack[:len(rec.stack)-1]
		if done {
			rec.ev("E", "< %s", id)
		} else {
			rec.ev("E", "! %s", id)
		}
	}()
	if full {
		observe(rec, c)
	}
	for i := range ops {
		simrt.Y(-100)
		if !exec(rec, c, &ops[i], full) {
			break
		}
	}
	if full {
		status(rec, c)
	}
	if rec.kept != nil {
		rec.ev("B", "kept %s", digest(rec.kept))
	}
	done = true
}

func exec(rec *Rec, c Ctx, op *Op, full bool) bool {
	switch op.Op {
	case "obs":
		observe(rec, c)
	case "next":
		c.Next()
		observe(rec, c)
	case "return":
		return false
	case "guard": // a middleware of the user's that recovers by itself
		func() {
			defer func() {
				if v := recover(); v != nil {
					if s, ok := v.(string); ok && strings.HasPrefix(s, "harness:") {
						panic(v)
					}
					rec.ev("M", "caught by %s", rec.stack[len(rec.stack)-1])
					if !c.Written() {
						c.WriteHeader(500)
					}
				}
			}()
			c.Next()
		}()
		observe(rec, c)
	case "withctx":
		ctx := context.WithValue(c.R().Context(), ctxKey{}, op.S)
		if op.N == 1 { // its time is over
			var end func()
			ctx, end = context.WithDeadline(ctx, time.Unix(1, 0))
			defer end()
		}
		rec.R = c.R().WithContext(ctx)
		rec.copies = append(rec.copies, rec.R)
		c.SetR(rec.R)
	case "gone":
		rec.fire("conn.gone")
		rec.gone()
	case "ctxerr":
		// when a failure is noticed depends on when reading and writing happens
		if q := rec.Req; q.Conn.FailAt < 0 && (q.Body == nil || q.Body.FailAt < 0) {
			rec.ev("V", "context %v", c.R().Context().Err())
		}
	case "ctxval":
		rec.ev("V", "request value %v", c.R().Context().Value(ctxKey{}))
	case "wraprw":
		c.Wrap()
	case "set":
		switch op.N {
		case 1:
			c.Set(op.S, len(op.S2))
		case 2:
			c.EMap()[op.S] = op.S2 // the store is an exported map
		default:
			c.Set(op.S, op.S2)
		}
	case "setmaybe":
		func() {
			defer func() {
				if recover() != nil {
					rec.ev("V", "set %s refused", op.S)
				}
			}()
			c.Set(op.S, op.S2)
			rec.ev("V", "set %s", op.S)
		}()
	case "getagain":
		func() {
			defer func() {
				if recover() != nil {
					rec.ev("V", "get %s refused", op.S)
				}
			}()
			rec.ev("V", "get %s=%v", op.S, c.Get(op.S))
		}()
	case "ownparam":
		// a route without parameters may or may not have a place for them
		func() {
			defer func() { recover() }()
			m := c.PMap()
			m[op.S] = fmt.Sprintf("own-%d", rec.Req.ID)
			for i := 0; i < op.N; i++ {
				simrt.Y(-101)
			}
			delete(m, op.S)
		}()
	case "setparam":
		c.PMap()[op.S] = op.S2 // and so are the parameters
	case "ptyped":
		var p typedParams = water.Params(c.PMap())
		if rec.Model {
			p = mparams(c.PMap())
		}
		b, e1 := p.Bool(op.S)
		i, e2 := p.Int(op.S)
		i64, e3 := p.Int64(op.S)
		u, e4 := p.Uint(op.S)
		u64, e5 := p.Uint64(op.S)
		f, e6 := p.Float64(op.S)
		rec.ev("P", "typed %s=%q %v %v %d %v %d %v %d %v %d %v %v %v must %v %d %d %d %d %v", op.S, p.String(op.S), b, nilOrErr(e1), i, nilOrErr(e2), i64, nilOrErr(e3), u, nilOrErr(e4), u64, nilOrErr(e5), f, nilOrErr(e6),
			p.MustBool(op.S), p.MustInt(op.S), p.MustInt64(op.S), p.MustUint(op.S), p.MustUint64(op.S), p.MustFloat64(op.S))
	case "get":
		rec.ev("V", "get %s=%v", op.S, c.Get(op.S))
	case "getmaybe":
		v, ok := c.GetMaybe(op.S)
		rec.ev("V", "getmaybe %s=%v %v", op.S, v, ok)
	case "param":
		rec.ev("P", "param %s=%q", op.S, c.Param(op.S))
	case "header":
		c.Header().Set(op.S, op.S2)
	case "sethdr":
		c.SetHeader(op.S, op.S2)
	case "write":
		n, err := writeBy(c, op)
		rec.ev("R", "write n=%d err=%s", n, errClass(err))
	case "whead":
		c.WriteHeader(op.N)
	case "tryhead": // a handler that asks for what is no status, and goes on
		func() {
			defer func() {
				if v := recover(); v != nil {
					if s, ok := v.(string); ok && strings.HasPrefix(s, "harness:") {
						panic(v)
					}
					rec.ev("M", "status %d refused", op.N)
				}
			}()
			c.WriteHeader(op.N)
		}()
		observe(rec, c)
	case "abort":
		c.Abort(op.N)
	case "short":
		switch op.N {
		case 304:
			c.NotModified()
		case 400:
			c.BadRequest()
		case 401:
			c.Unauthorized()
		case 403:
			c.Forbidden()
		case 404:
			c.NotFound()
		default:
			c.InternalServerError()
		}
	case "string":
		c.String(op.N, op.S)
	case "data":
		c.Data(op.N, op.S, op.B)
	case "html":
		c.HTMLRaw(op.N, op.S)
	case "render":
		if op.S2 != "" {
			c.HTMLSet(op.N, op.S2, op.S, nil)
		} else {
			c.HTML(op.N, op.S, nil)
		}
	case "json":
		rec.ev("R", "json err=%s", nilOrErr(c.JSON(op.N, content(op))))
	case "xml":
		rec.ev("R", "xml err=%s", nilOrErr(c.XML(op.N, content(op))))
	case "stream":
		rec.ev("R", "stream err=%s", errClass(c.Stream(op.S, source(rec, op))))
	case "redir":
		if op.N == 301 {
			c.MovedPermanently(op.S)
		} else {
			c.Found(op.S)
		}
	case "nocache":
		c.NoCache()
	case "cookie":
		c.SetCookie(op.S, op.S2, cookieArgs(op)...)
	case "download":
		var err error
		if op.N > 0 {
			err = c.Download(rec.Env.path(op.S), op.N == 1)
		} else {
			err = c.Download(rec.Env.path(op.S))
		}
		rec.ev("R", "download err=%s", nilOrErr(err))
	case "attach":
		src := &fragSeeker{fragSrc: fragSrc{rec: rec, data: op.B, frags: op.L, fail: op.M, with: op.S2 == "with"}}
		if op.S2 == "moved" { // handed over somewhere in the middle
			src.off = len(op.B) / 2
		}
		var from io.ReadSeeker = src
		if op.S3 == "full" {
			from = &fullSeeker{*src}
		}
		mod := epoch.Add(time.Hour)
		switch op.N / 3 {
		case 1:
			mod = time.Time{}
		case 2:
			mod = time.Unix(0, 0)
		case 3:
			mod = mod.Add(700 * time.Millisecond).In(time.FixedZone("", 9000))
		}
		if op.N%3 > 0 {
			c.Attachment(op.S, mod, from, op.N%3 == 1)
		} else {
			c.Attachment(op.S, mod, from)
		}
	case "servefile":
		c.ServeFile(rec.Env.path(op.S))
	case "file":
		c.File(rec.Env.path(op.S))
	case "body":
		b, err := c.BodyBytes()
		if err != nil {
			rec.ev("B", "body err, %d bytes", len(b))
		} else {
			rec.ev("B", "body %s", digest(b))
			if op.M == 1 {
				rec.kept = b // a caller may hold on to what it got
			}
		}
	case "bodystr":
		b, err := c.BodyString()
		if err != nil {
			rec.ev("B", "body err, %d bytes", len(b))
		} else {
			rec.ev("B", "body %s", digest([]byte(b)))
		}
	case "read":
		b, err := readAll(c.ReadCloser(), op.N, -1)
		rec.ev("B", "read %s err=%s", digest(b), nilOrErr(err))
		if op.M == 1 {
			c.ReadCloser().Close()
		}
	case "readn":
		b, err := readAll(c.ReadCloser(), 16, op.N)
		rec.ev("B", "readn %s err=%s", digest(b), nilOrErr(err))
	case "query":
		execQuery(rec, c, op)
	case "parse":
		parsing(rec, "Q", func() string { c.ParseFormOrMultipartForm(); return "parsed" })
	case "bind":
		execBind(rec, c, op)
	case "formfile":
		f, fh, err := c.FormFile(op.S)
		if err != nil {
			rec.ev("U", "formfile %s err", op.S)
			break
		}
		b, err := io.ReadAll(f)
		f.Close()
		rec.ev("U", "formfile %s name=%q size=%d %s err=%s", op.S, fh.Filename, fh.Size, digest(b), nilOrErr(err))
	case "held":
		rec.ev("U", "held %s", held(c.R()))
	case "save":
		execSave(rec, c, op)
	case "rmtmp":
		if c.R().MultipartForm != nil {
			c.R().MultipartForm.RemoveAll()
		}
	case "panic":
		rec.fire("panic." + op.S)
		raise(op.S)
	case "sleep":
		if !rec.Model {
			rec.fire("clock.sleep")
			simrt.Sleep(int64(op.N) * 1000)
		}
	case "jump":
		if !rec.Model {
			if op.N < 0 {
				rec.fire("clock.back")
			} else {
				rec.fire("clock.jump")
			}
			simrt.Jump(int64(op.N) * 1000)
		}
	case "stall":
		if !rec.Model {
			rec.fire("handler.stall")
			simrt.Stall()
		}
	case "yield":
		for i := 0; i < op.N; i++ {
			simrt.Y(-101)
		}
	case "info":
		if h, ok := c.(interface{ HandlerName() string }); ok {
			guarded(func() { h.HandlerName() }) // it knows functions only
		}
		rec.ev("M", "ip=%q proxy=%q proto=%q ua=%q ajax=%v ws=%v ct=%q", c.RealIp(), c.Proxy(), c.Protocol(), c.UserAgent(), c.IsAjax(), c.IsWebsocket(), c.ContentType())
	case "reqinfo":
		r := c.R()
		rec.ev("I", "req %s %s trace=%s host=%s", r.Method, r.URL.String(), r.Header.Get("Trace-Id"), r.Host)
	case "gethdr":
		rec.ev("M", "hdr %s=%q", op.S, c.GetHeader(op.S))
	case "getcookie":
		rec.ev("V", "cookie %s=%q %q %v %d %d %d %d %v", op.S, c.Cookie(op.S), c.CookieEscape(op.S), c.CookieBool(op.S), c.CookieInt(op.S), c.CookieInt64(op.S), c.CookieUint(op.S), c.CookieUint64(op.S), c.CookieFloat64(op.S))
	case "flush", "hijack":
		execAdvanced(rec, c, op)
	default:
		panic("harness: unknown op " + op.Op)
	}
	if rec.RW.wrote || rec.RW.Hijacked {
		// http.Redirect asks for the type even when the header has gone
		delete(rec.RW.hdr, "Content-Type")
	}
	if full {
		switch op.Op {
		case "write", "whead", "abort", "short", "string", "data", "html", "render", "json", "xml", "stream", "redir", "download", "attach", "servefile", "file", "flush", "hijack":
			status(rec, c)
		}
	}
	return true
}

// writeBy writes the way other code that is handed a ResponseWriter does.
func writeBy(c Ctx, op *Op) (int, error) {
	switch op.S {
	case "string":
		return io.WriteString(c, string(op.B))
	case "printf":
		return fmt.Fprintf(c, "%s", op.B)
	case "copy":
		n, err := io.Copy(c, struct{ io.Reader }{bytes.NewReader(op.B)})
		return int(n), err
	case "copyn":
		n, err := io.CopyN(c, bytes.NewReader(op.B), int64(len(op.B)))
		return int(n), err
	case "httperror":
		http.Error(c, string(op.B), 409)
		return len(op.B), nil
	case "bufio":
		w := bufio.NewWriterSize(c, 64)
		w.Write(op.B)
		return len(op.B), w.Flush()
	}
	return c.Write(op.B)
}

func readAll(r io.Reader, chunk, limit int) ([]byte, error) {
	if chunk <= 0 {
		chunk = 512
	}
	var out []byte
	buf := make([]byte, chunk)
	for {
		p := buf
		if limit >= 0 {
			if len(out) >= limit {
				return out, nil
			}
			if limit-len(out) < len(p) {
				p = p[:limit-len(out)]
			}
		}
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if limit >= 0 && len(out) >= limit {
			return out, nil // an error behind that place may come along or later
		}
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if len(out) > 8<<20 {
			return out, errors.New("endless body")
		}
	}
}

type typedParams interface {
	String(string) string
	Bool(string) (bool, error)
	Int(string) (int, error)
	Int64(string) (int64, error)
	Uint(string) (uint, error)
	Uint64(string) (uint64, error)
	Float64(string) (float64, error)
	MustBool(string) bool
	MustInt(string) int
	MustInt64(string) int64
	MustUint(string) uint
	MustUint64(string) uint64
	MustFloat64(string) float64
}

// cookieArgs are the optional arguments of SetCookie.
func cookieArgs(op *Op) []interface{} {
	if op.S3 == "" {
		return []interface{}{op.N}
	}
	a := []interface{}{op.N}
	switch op.M % 3 {
	case 1:
		a[0] = int32(op.N)
	case 2:
		a[0] = int64(op.N)
	}
	for i, c := range op.S3 {
		on := c == '+'
		switch {
		case c == '0':
			a = append(a, nil)
		case i == 0:
			a = append(a, map[bool]string{true: "/sub", false: ""}[on])
		case i == 1:
			a = append(a, map[bool]string{true: "sim.example", false: ""}[on])
		case i == 2, i == 3:
			a = append(a, on)
		case i == 4:
			a = append(a, map[bool]http.SameSite{true: http.SameSiteStrictMode, false: http.SameSiteLaxMode}[on])
		}
	}
	return a
}

func held(r *http.Request) string {
	if r.MultipartForm == nil {
		return "none"
	}
	var ks []string
	for k := range r.MultipartForm.File {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		for _, fh := range r.MultipartForm.File[k] {
			where := "mem"
			f, err := fh.Open()
			if err != nil {
				where = "err"
			} else {
				if _, ok := f.(*os.File); ok {
					where = "disk"
				}
				f.Close()
			}
			fmt.Fprintf(&sb, "%s/%s/%d:%s ", k, fh.Filename, fh.Size, where)
		}
	}
	return sb.String()
}

// parsing runs something that parses the form; once such a step has panicked
// the model stops predicting what later accesses of the same request see.
func parsing(rec *Rec, k string, f func() string) {
	if rec.Model && rec.formDirty {
		rec.evAlt(k, "*")
		return
	}
	rec.formDirty = true // stays set when f panics
	v := f()
	rec.formDirty = false
	rec.ev(k, "%s", v)
}

func execQuery(rec *Rec, c Ctx, op *Op) {
	parsing(rec, "Q", func() string {
		var v string
		switch op.N {
		case 0:
			v = fmt.Sprintf("%q", c.Query(op.S))
		case 1:
			v = fmt.Sprintf("%q", c.DefaultQuery(op.S, op.S2))
		case 2:
			v = fmt.Sprintf("%q", c.QueryArray(op.S))
		case 3:
			v = fmt.Sprintf("%q", c.DefaultQueryArray(op.S, []string{op.S2}))
		case 4:
			v = mapStr(c.QueryMap(op.S))
		case 5:
			v = mapStr(c.DefaultQueryMap(op.S, map[string]string{"d": op.S2}))
		case 6:
			v = fmt.Sprint(c.QueryInt(op.S))
		case 7:
			v = fmt.Sprint(c.DefaultQueryInt(op.S, op.S2))
		case 8:
			v = fmt.Sprint(c.QueryBool(op.S))
		case 9:
			v = fmt.Sprint(c.QueryFloat64(op.S))
		case 10:
			v = fmt.Sprint(c.QueryInt64(op.S))
		case 11:
			v = fmt.Sprint(c.QueryUint(op.S))
		case 12:
			v = fmt.Sprint(c.QueryUint64(op.S))
		case 13:
			v = fmt.Sprint(c.DefaultQueryBool(op.S, op.S2))
		case 14:
			v = fmt.Sprint(c.DefaultQueryInt64(op.S, op.S2))
		case 15:
			v = fmt.Sprint(c.DefaultQueryUint(op.S, op.S2))
		case 16:
			v = fmt.Sprint(c.DefaultQueryUint64(op.S, op.S2))
		case 17:
			v = fmt.Sprint(c.DefaultQueryFloat64(op.S, op.S2))
		}
		return fmt.Sprintf("q%d %s=%s", op.N, op.S, v)
	})
}

// content is the value a JSON or XML answer is made of.
func content(op *Op) interface{} {
	p := op.V
	switch op.K {
	case "map":
		m := map[string]interface{}{"name": p.Name, "n": p.N, "none": nil, "in": map[string]int{"z": 1, "a<": p.N}}
		for i, t := range p.Tags {
			m[fmt.Sprintf("t%d", i)] = t
		}
		return m
	case "H":
		return water.H{"name": p.Name, "list": p.Tags, "sub": []map[string]string{{"b": "1", "a": p.Name}}}
	case "slice":
		return p.Tags
	case "text":
		return p.Name
	case "num":
		return float64(p.N) / 7
	case "keys":
		m := map[int]string{}
		for i, t := range p.Tags {
			m[-i*p.N] = t
		}
		return m
	case "marsh":
		return marsh{p.Name, p.N%2 == 1}
	case "raw":
		return json.RawMessage(" { \"x\" : [ 1 , \"<\" ] } ")
	case "nil":
		return nil
	case "chan":
		return map[string]interface{}{"name": p.Name, "c": make(chan int)}
	case "nan":
		return []float64{1, math.NaN()}
	}
	return p
}

// marsh makes its own text, or refuses.
type marsh struct {
	s    string
	fail bool
}

func (m marsh) MarshalJSON() ([]byte, error) {
	if m.fail {
		return nil, errSource
	}
	return json.Marshal([]string{"made", m.s})
}

func (m marsh) MarshalText() ([]byte, error) {
	if m.fail {
		return nil, errSource
	}
	return []byte("made " + m.s), nil
}

// diskErrors counts the failures the disk has reported.
func (r *Rec) diskErrors() (n int) {
	for k, v := range r.Fired {
		if k == "disk.short_write" || strings.HasPrefix(k, "disk.") && strings.HasSuffix(k, "_error") {
			n += v
		}
	}
	return
}

func saveFault(rec *Rec, path string, size int) bool {
	for _, f := range rec.Req.Faults {
		if !strings.HasSuffix(path, f.Path) {
			continue
		}
		switch f.Op {
		case "open", "close":
			return true
		case "write":
			if f.At < int64(size) {
				return true
			}
		}
	}
	return false
}

func execSave(rec *Rec, c Ctx, op *Op) {
	r := c.R()
	if r.MultipartForm == nil || len(r.MultipartForm.File[op.S]) <= op.N {
		rec.ev("U", "nothing to save")
		return
	}
	fh := r.MultipartForm.File[op.S][op.N]
	dst := rec.Env.path(fmt.Sprintf("up%d_%s", rec.Req.ID, op.S2))
	if op.S2 == "nodir" {
		dst = rec.Env.path("missing/dir/x")
	}
	if rec.Model {
		f, err := fh.Open()
		if err != nil {
			rec.ev("U", "save err")
			return
		}
		data, _ := io.ReadAll(f)
		f.Close()
		failed := saveFault(rec, dst, len(data))
		if len(rec.saves) > 0 {
			// what counts is what the disk did to the code under test
			failed, rec.saves = rec.saves[0], rec.saves[1:]
		}
		if op.S2 == "nodir" || failed {
			rec.ev("U", "save err")
			return
		}
		rec.ev("U", "save ok")
		rec.ev("U", "saved %s", digest(data))
		return
	}
	if op.M > 0 { // an older, longer file is in the way
		os.WriteFile(dst, bytes.Repeat([]byte("old"), op.M), 0600)
	}
	before := rec.diskErrors()
	defer func() { rec.dst, rec.saves = "", append(rec.saves, rec.diskErrors() > before) }()
	rec.dst = filepath.Base(dst)
	err := c.SaveUploadedFile(fh, dst)
	if err != nil {
		rec.ev("U", "save err")
	} else {
		rec.ev("U", "save ok")
		b, err := os.ReadFile(dst)
		if err != nil {
			rec.ev("U", "saved nothing: %v", err)
		} else {
			rec.ev("U", "saved %s", digest(b))
		}
	}
	os.Remove(dst)
	_ = syscall.EIO
}
