package wsim

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/meilihao/water"

	"watersim/simrt"
)

// Rec is everything observed about one request, on the real or the model side.
type Rec struct {
	Req    *Req
	C      *Case
	Env    *Env
	Model  bool
	Trace  []Ev
	RW     *SimRW
	Body   *SimBody
	R      *http.Request
	copies []*http.Request // made by handlers
	cancel func()          // ends the request's context, as the server does when the client has gone
	Logs   []LogRec

	Opens, Closes int
	BadUse        string
	Fired         map[string]int
	Escaped       bool
	EscapeVal     string
	Start, End    int64
	WallLo        int64 // the wall clock while it ran
	WallHi        int64
	ServeDone     bool
	Built         string // building an engine failed

	// windows of simulated time: first entry and last exit of handlers
	FirstIn, LastOut int64
	times            []int64 // when each step of the trace was recorded
	formDirty        bool
	kept             []byte
	stack            []string // handlers being executed
	devPanic         bool     // model: the crash text of Dev mode is sent from
	devOff           int      // this place of the body on
	fileReadFault    bool
	dst              string // where the upload being saved goes
	saves            []bool // for each saved upload: did the disk report a failure
	savedPaths       []string
	uploads          []uploadRef
	logWant          []WantLog
	logRead          bool // a logger of the model has read the body
	ErrLog           int
}

type uploadRef struct {
	name string
	data []byte
}

type LogRec struct {
	Msg   string
	Level int
	At    int64
}

// WantLog is an access record the model expects.
type WantLog struct {
	Method, URL, IP, Trace, Body string
	BodyPrefix                   bool // the captured body may be cut
	Status                       int
	StatusKnown                  bool
	Reads                        bool // the body is read first for the log
	First, Last                  int  // steps of the trace that bound the duration, -1 none
}

func (r *Rec) ev(k, format string, a ...any) {
	v := format
	if len(a) > 0 {
		v = fmt.Sprintf(format, a...)
	}
	if len(r.Trace) < 4000 {
		r.Trace = append(r.Trace, Ev{K: k, V: v})
		if !r.Model {
			r.times = append(r.times, simrt.NowNS())
		}
	}
}

// evAlt records a model event with alternatives.
func (r *Rec) evAlt(k, v string, alts ...string) {
	r.Trace = append(r.Trace, Ev{K: k, V: v, A: alts})
}

func (r *Rec) gone() {
	if r.cancel != nil {
		r.cancel()
	}
}

func (r *Rec) fire(k string) {
	if r.Fired == nil {
		r.Fired = map[string]int{}
	}
	r.Fired[k]++
}

// upper is a middleware's writer around that of the request.
type upper struct{ water.ResponseWriter }

func (u upper) Write(p []byte) (int, error) {
	b := append([]byte(nil), p...)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return u.ResponseWriter.Write(b)
}

// mounted serves another engine below /mnt.
func mounted(rec *Rec, h http.Handler) http.Handler {
	return http.StripPrefix("/mnt", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		prev := rec.R
		rec.R = r
		rec.copies = append(rec.copies, r)
		defer func() { rec.R = prev }()
		h.ServeHTTP(w, r)
	}))
}

func curRec() *Rec {
	r, _ := simrt.CurData().(*Rec)
	return r
}

// The errors net/http's connections report.
var (
	errConn        error = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	errConnReset   error = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)}
	errConnTimeout error = &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	errReset       error = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	errTimeout     error = &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	errTooLarge    error = &http.MaxBytesError{Limit: 1 << 10}
)

// broken is what writing to the lost connection reports.
func (w *SimRW) broken() error {
	switch w.conn.FailKind {
	case "reset":
		return errConnReset
	case "timeout":
		return errConnTimeout
	}
	return errConn
}

// SimRW is the server side of one simulated connection, with the rules net/http
// applies to handlers.
type SimRW struct {
	rec   *Rec
	conn  ConnSpec
	hdr   http.Header
	wrote bool

	Status      int
	Snap        http.Header
	CL          int64
	Body        []byte
	n           int64
	Superfluous int
	Dead        bool
	panicked    bool
	stalled     bool
	Flushes     int
	FlushedAt   []int
	Hijacked    bool
	AfterHijack int // status lines
	WritesAfter int // after the connection was handed over
	HijackData  bytes.Buffer
	Finished    bool
	Late        int
	Invalid     int
	Info        []string // informational responses sent ahead
}

func newRW(rec *Rec, c ConnSpec) *SimRW {
	return &SimRW{rec: rec, conn: c, hdr: http.Header{}, CL: -1}
}

func (w *SimRW) Header() http.Header { return w.hdr }

func (w *SimRW) WriteHeader(code int) {
	simrt.Y(-50)
	if w.Hijacked {
		w.AfterHijack++
		return
	}
	if w.Finished {
		w.Late++
		return
	}
	if w.wrote {
		w.Superfluous++
		return
	}
	if code < 100 || code > 999 {
		w.Invalid++
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code < 200 && code != 101 {
		w.Info = append(w.Info, fmt.Sprintf("%d %q", code, hdrLines(w.hdr, w.rec)))
		return
	}
	w.commit(code)
}

func (w *SimRW) commit(code int) {
	w.wrote = true
	w.Status = code
	w.Snap = w.hdr.Clone()
	if cl := w.Snap.Get("Content-Length"); cl != "" {
		v, err := strconv.ParseInt(cl, 10, 64)
		if err == nil && v >= 0 {
			w.CL = v
		} else {
			w.Snap.Del("Content-Length")
		}
	}
}

func bodyAllowed(code int) bool {
	return !(code >= 100 && code <= 199) && code != 204 && code != 304
}

func (w *SimRW) Write(p []byte) (int, error) {
	simrt.Y(-51)
	if w.Hijacked {
		w.WritesAfter++
		return 0, http.ErrHijacked
	}
	if w.Finished {
		w.Late++
		return 0, errConn
	}
	if !w.wrote {
		w.commit(200)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !bodyAllowed(w.Status) {
		return 0, http.ErrBodyNotAllowed
	}
	if w.CL >= 0 && w.n+int64(len(p)) > w.CL {
		return 0, http.ErrContentLength
	}
	if w.Dead {
		return 0, w.broken()
	}
	if w.rec.Req.Method == "HEAD" {
		w.n += int64(len(p))
		return len(p), nil
	}
	off := len(w.Body)
	if w.conn.StallAt > 0 && !w.stalled && off+len(p) > w.conn.StallAt {
		w.stalled = true
		if !w.rec.Model {
			w.rec.fire("conn.stall")
			simrt.Stall()
		}
	}
	if w.conn.PanicAt > 0 && !w.panicked && off+len(p) > w.conn.PanicAt {
		w.panicked = true
		k := w.conn.PanicAt - off
		if k < 0 {
			k = 0
		}
		w.accept(p[:k])
		w.rec.fire("conn.panic")
		panic("connection writer panicked")
	}
	if w.conn.FailAt >= 0 && off+len(p) > w.conn.FailAt {
		k := w.conn.FailAt - off
		if k < 0 {
			k = 0
		}
		w.accept(p[:k])
		w.Dead = true
		w.rec.gone()
		w.rec.fire("conn.write_error")
		return k, w.broken()
	}
	w.accept(p)
	return len(p), nil
}

// WriteString and ReadFrom: what net/http's writer offers besides.
func (w *SimRW) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *SimRW) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, r)
}

func (w *SimRW) accept(p []byte) {
	w.Body = append(w.Body, p...)
	w.n += int64(len(p))
}

// finish is what the server does when the handler returned.
func (w *SimRW) finish(aborted bool) {
	if !aborted && !w.wrote && !w.Hijacked {
		w.commit(200)
	}
	w.Finished = true
	w.rec.gone()
}

// Complete tells whether the client can take the response for a whole one.
func (w *SimRW) Complete(aborted bool) bool {
	if aborted || w.Dead || w.Hijacked {
		return false
	}
	if w.rec.Req.Method == "HEAD" || !bodyAllowed(w.Status) {
		return true
	}
	return w.CL < 0 || w.n == w.CL
}

// --- the advanced interface of net/http's writer ---

func (w *SimRW) CloseNotify() <-chan bool { return make(chan bool, 1) }

func (w *SimRW) Flush() {
	simrt.Y(-52)
	if w.Hijacked {
		return
	}
	if !w.wrote {
		w.commit(200)
	}
	w.Flushes++
	w.FlushedAt = append(w.FlushedAt, len(w.Body))
}

func (w *SimRW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	simrt.Y(-53)
	if w.conn.NoHijack {
		w.rec.fire("conn.hijack_error")
		return nil, nil, errors.New("hijack not supported")
	}
	if w.Hijacked {
		return nil, nil, http.ErrHijacked
	}
	w.Hijacked = true
	c := &simConn{w: w}
	return c, bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c)), nil
}

type simConn struct{ w *SimRW }

func (c *simConn) Read(p []byte) (int, error)         { return 0, io.EOF }
func (c *simConn) Write(p []byte) (int, error)        { return c.w.HijackData.Write(p) }
func (c *simConn) Close() error                       { return nil }
func (c *simConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *simConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *simConn) SetDeadline(t time.Time) error      { return nil }
func (c *simConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *simConn) SetWriteDeadline(t time.Time) error { return nil }

// SimBody is the request body as it arrives from the simulated connection.
type SimBody struct {
	rec     *Rec
	s       *BodySpec
	off     int
	reads   int
	slept   int
	frag    int
	failed  error
	closed  bool
	Closes  int
	stalled bool
	t0      int64 // when reading it began
}

func (b *SimBody) Read(p []byte) (int, error) {
	simrt.Y(-60)
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if b.failed != nil {
		return 0, b.failed
	}
	if len(p) == 0 {
		return 0, nil
	}
	b.reads++
	if !b.rec.Model {
		if b.t0 == 0 {
			b.t0 = simrt.NowNS() + 1
		}
		if b.s.Slow > 0 {
			if b.slept++; b.slept <= 40 {
				b.rec.fire("body.slow")
				simrt.Sleep(int64(b.s.Slow) * 1000)
			}
		}
	}
	if b.s.ZeroRead && b.reads%3 == 1 {
		if !b.rec.Model {
			b.rec.fire("body.zero_read")
		}
		return 0, nil
	}
	end := len(b.s.Bytes())
	if b.s.FailAt >= 0 && b.s.FailAt < end {
		end = b.s.FailAt
	}
	if b.s.StallAt > 0 && !b.stalled && b.off >= b.s.StallAt-1 {
		b.stalled = true
		if !b.rec.Model {
			b.rec.fire("body.stall")
			simrt.Stall()
		}
	}
	fail := func() error {
		if b.s.FailAt >= 0 {
			switch b.s.FailKind {
			case "reset":
				b.failed = errReset
				b.rec.gone()
			case "timeout":
				b.failed = errTimeout
			case "toolarge":
				b.failed = errTooLarge
			case "canceled":
				b.failed = context.Canceled
				b.rec.gone()
			default:
				b.failed = io.ErrUnexpectedEOF
				b.rec.gone()
			}
			b.rec.fire("body.read_error")
			return b.failed
		}
		b.failed = io.EOF
		return io.EOF
	}
	if b.off >= end {
		return 0, fail()
	}
	n := len(p)
	if len(b.s.Frags) > 0 {
		f := b.s.Frags[b.frag%len(b.s.Frags)]
		b.frag++
		if f > 0 && n > f {
			n = f
		}
	}
	if n > end-b.off {
		n = end - b.off
	}
	copy(p, b.s.Bytes()[b.off:b.off+n])
	b.off += n
	if b.s.EOFWith && b.off == end {
		return n, fail()
	}
	return n, nil
}

func (b *SimBody) Close() error {
	b.Closes++
	b.closed = true
	if b.s.CloseErr {
		b.rec.fire("body.close_error")
		return errReset
	}
	return nil
}
