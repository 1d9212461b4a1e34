package wsim

import (
	"context"
	"fmt"
	"hash/fnv"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/meilihao/water"

	"watersim/simrt"
)

// Mismatch is a difference between what happened and what had to happen.
type Mismatch struct {
	Req    int    `json:"req"` // -1: the run as a whole
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Outcome of one run.
type Outcome struct {
	Mis      []Mismatch
	Sched    *simrt.Sched
	Fired    map[string]int
	Requests int
	Hash     uint64
	Probes   map[string]int
	Shape    uint64 // what the run did, apart from values: for distinctness
	Multi    bool
	Overlap  bool // requests really interleaved
}

const maxSteps = 1000000

// Degraded: the code under test runs on the real clock and the real disk.
var Degraded bool

// Degrade takes from a workload what only the full simulator can do.
func Degrade(clients []Client) {
	for i := range clients {
		for j := range clients[i].Items {
			if q := clients[i].Items[j].Req; q != nil {
				q.Conn.StallAt = 0
				if q.Body != nil {
					q.Body.StallAt = 0
				}
				if q.Log == "stall" {
					q.Log = ""
				}
				q.Faults = nil
				for id, ops := range q.Scripts {
					var out []Op
					for _, o := range ops {
						if o.Op != "stall" {
							out = append(out, o)
						}
					}
					q.Scripts[id] = out
				}
			}
		}
	}
}

var (
	theServer = &http.Server{}
	theAddr   = &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 80}
)

func newRequest(q *Req, rec *Rec) *http.Request {
	u, err := url.ParseRequestURI(q.URL)
	if err != nil {
		u = &url.URL{Path: q.URL}
	}
	if q.Strip {
		u.Path, u.RawPath = strings.TrimPrefix(u.Path, "/"), strings.TrimPrefix(u.RawPath, "/")
	}
	r := &http.Request{Method: q.Method, URL: u, Header: http.Header{}, Host: "sim.example", RemoteAddr: q.Remote, RequestURI: q.URL}
	if q.RawURI != "" {
		r.RequestURI = q.RawURI
	}
	if r.RemoteAddr == "" {
		r.RemoteAddr = "192.0.2." + fmt.Sprint(q.ID%250+1) + ":4711"
	}
	p := q.Proto
	if p == "" {
		p = "HTTP/1.1"
	}
	r.Proto = p
	r.ProtoMajor, r.ProtoMinor, _ = http.ParseHTTPVersion(p)
	for _, h := range q.Headers {
		r.Header.Add(h[0], h[1])
	}
	switch q.Trace {
	case "":
		r.Header.Set("Trace-Id", "t"+fmt.Sprint(q.ID))
	case "-":
	default:
		r.Header.Set("Trace-Id", q.Trace)
	}
	r.Body = http.NoBody
	if q.Body != nil {
		rec.Body = &SimBody{rec: rec, s: q.Body}
		r.Body = rec.Body
		r.ContentLength = int64(len(q.Body.Bytes()))
		if q.Body.Chunked {
			r.ContentLength = -1
		}
	}
	// what net/http's server puts there
	ctx := context.WithValue(context.Background(), http.ServerContextKey, theServer)
	ctx = context.WithValue(ctx, http.LocalAddrContextKey, theAddr)
	ctx, rec.cancel = context.WithCancel(ctx)
	r = r.WithContext(ctx)
	rec.R = r
	return r
}

func newRec(c *Case, env *Env, q *Req, model bool) *Rec {
	r := &Rec{Req: q, C: c, Env: env, Model: model}
	r.RW = newRW(r, q.Conn)
	return r
}

// serveReal sends one request to the engine under test.
func serveReal(e *water.Engine, rec *Rec, req *http.Request) {
	defer func() {
		if v := recover(); v != nil {
			rec.Escaped, rec.EscapeVal = true, fmt.Sprint(v)
		}
	}()
	e.ServeHTTP(rec.RW, req)
	rec.ServeDone = true
}

func serveModel(m *mengine, rec *Rec, req *http.Request) {
	defer func() {
		if v := recover(); v != nil {
			if s, ok := v.(string); ok && strings.HasPrefix(s, "harness:") {
				panic(v)
			}
			rec.Escaped, rec.EscapeVal = true, fmt.Sprint(v)
		}
	}()
	m.serve(rec, rec.RW, req)
	rec.ServeDone = true
}

func (c *Case) String() string { return fmt.Sprintf("%s/%016x", c.Profile, c.Seed) }

// Run executes one case and compares every request with the model.
func Run(c *Case, scratch string) *Outcome {
	env := newEnv(filepath.Join(scratch, "run"), c)
	defer env.close()
	defer c.forget()
	setGlobals(&c.Global)
	simrt.Disk = disk{}

	out := &Outcome{Fired: map[string]int{}, Probes: map[string]int{}}
	w := &world{c: c, env: env, routers: make([]*water.Router, len(c.Routers)), engines: make([]*water.Engine, len(c.Engines)), opts: make([][]water.Option, len(c.Engines))}
	shared := map[int]int{}
	for i := range c.Engines {
		shared[c.Engines[i].Router]++
		if !c.Engines[i].Late {
			shared[c.Engines[i].Router] += 2
		}
	}
	if err := guarded(func() {
		for i := range c.Routers {
			if shared[i] >= 2 {
				w.routers[i] = w.router(i)
			}
		}
		for i := range c.Engines {
			w.options(i)
			if !c.Engines[i].Late {
				w.engine(i)
			}
		}
	}); err != "" {
		out.Mis = append(out.Mis, Mismatch{-1, "X", "building the engines failed: " + err})
		return out
	}

	if len(c.Waves) > 0 {
		runWaves(c, w, env, out)
		return out
	}
	s := simrt.New(c.Pol, c.SchedSeed, c.Switches, c.Replay)
	s.MaxSteps = maxSteps
	for i := range c.Clients {
		s.MaxSteps += 4000 * len(c.Clients[i].Items)
		for _, it := range c.Clients[i].Items {
			if it.Build != nil { // the size of the table decides
				s.MaxSteps += 20000000
			}
		}
	}
	out.Sched = s
	all := make([][]*Rec, len(c.Clients))
	for ci := range c.Clients {
		ci := ci
		cl := &c.Clients[ci]
		recs := make([]*Rec, len(cl.Items))
		all[ci] = recs
		s.AddClient(func(t *simrt.Task) {
			for ii := range cl.Items {
				it := &cl.Items[ii]
				simrt.Y(-3)
				if it.Build != nil {
					rec := &Rec{C: c, Env: env, Req: &Req{ID: -1}}
					recs[ii] = rec
					t.Data = rec
					t.Perm = Mix(c.Seed, uint64(1000000+*it.Build))
					rec.Built = guarded(func() { w.engine(*it.Build) })
					rec.ServeDone = true
					t.Data = nil
					continue
				}
				q := it.Req
				rec := newRec(c, env, q, false)
				recs[ii] = rec
				req := newRequest(q, rec)
				t.Data = rec
				t.Perm = Mix(c.Seed, uint64(q.ID))
				rec.Start = simrt.NowNS()
				if w.engines[q.Engine] == nil {
					rec.Built = "no engine"
				} else {
					serveReal(w.engines[q.Engine], rec, req)
				}
				rec.End = simrt.NowNS()
				rec.WallLo, rec.WallHi = s.WallRange(rec.Start, rec.End)
				t.Data = nil
				rec.RW.finish(rec.Escaped)
				rec.cleanup(req)
			}
		}, nil)
	}
	s.Run()
	// everything below is outside the simulation
	out.Mis = append(out.Mis, leftovers(env)...)

	if s.Overrun {
		out.Mis = append(out.Mis, Mismatch{-1, "H", fmt.Sprintf("no end after %d steps", s.Steps)})
	}
	if s.Deadlock {
		out.Mis = append(out.Mis, Mismatch{-1, "H", "deadlock: clients blocked for ever"})
	}
	if s.StallVictim {
		out.Mis = append(out.Mis, Mismatch{-1, "H", "a request was blocked by one that makes no progress"})
	}
	for _, t := range s.Tasks {
		if v := simrt.PanicOf(t); v != nil {
			if t.Client {
				panic(fmt.Sprintf("harness: %v", v))
			}
			out.Mis = append(out.Mis, Mismatch{-1, "X", fmt.Sprintf("a background goroutine panicked (process crash): %v", v)})
		}
	}
	models := make([]*mengine, len(c.Engines))
	var order []*Rec
	hash := fnv.New64a()
	shape := fnv.New64a()
	for ci := range all {
		for ii, rec := range all[ci] {
			it := &c.Clients[ci].Items[ii]
			if rec == nil {
				if !s.Overrun && !s.Deadlock {
					out.Mis = append(out.Mis, Mismatch{-1, "H", "client did not finish"})
				}
				continue
			}
			if rec.Built != "" {
				if it.Build != nil || rec.Built != "no engine" {
					out.Mis = append(out.Mis, Mismatch{-1, "X", "building an engine failed: " + rec.Built})
				}
				continue
			}
			if it.Build != nil {
				continue
			}
			order = append(order, rec)
			if !rec.ServeDone && !rec.Escaped {
				if !s.Overrun && !s.Deadlock {
					out.Mis = append(out.Mis, Mismatch{rec.Req.ID, "H", "request did not finish"})
				}
				continue
			}
			e := rec.Req.Engine
			if models[e] == nil {
				models[e] = modelEngine(c, e)
			}
			m := runModel(c, env, rec, models[e], false)
			out.Requests++
			mis := compare(rec, m, func() *Rec { return runModel(c, env, rec, models[e], true) })
			for i := range mis {
				mis[i].Req = rec.Req.ID
			}
			out.Mis = append(out.Mis, mis...)
			for k, n := range rec.Fired {
				out.Fired[k] += n
			}
			probes(out.Probes, rec, m)
			for _, ev := range rec.Trace {
				fmt.Fprintf(hash, "%s %s\n", ev.K, ev.V)
				fmt.Fprintf(shape, "%s%.4s", ev.K, ev.V)
			}
			fmt.Fprintf(hash, "%d %d %d\n", rec.RW.Status, rec.Start, rec.End)
			if !m.devPanic {
				fmt.Fprintf(hash, "%v %q\n", hdrLines(rec.RW.Snap, rec), digest(body(rec)))
			}
			fmt.Fprintf(shape, "%d", rec.RW.Status)
			for _, l := range rec.Logs {
				if !strings.Contains(l.Msg, "crashed") {
					fmt.Fprintf(hash, "%s\n", l.Msg)
				}
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Start < order[j].Start })
	for i := 1; i < len(order); i++ {
		if order[i].Start < order[i-1].End {
			out.Overlap = true
		}
	}
	out.Multi = len(order) > 1
	if n := s.Stalls; n > 0 {
		out.Fired["stalls"] += n
	}
	out.Hash = hash.Sum64() ^ s.Hash
	out.Shape = shape.Sum64()
	return out
}

func runModel(c *Case, env *Env, real *Rec, m *mengine, faultless bool) *Rec {
	q := real.Req
	if faultless {
		n := *q
		n.Faults = nil
		q = &n
	}
	rec := newRec(c, env, q, true)
	rec.saves = real.saves
	req := newRequest(q, rec)
	serveModel(m, rec, req)
	rec.RW.finish(rec.Escaped)
	rec.cleanup(req)
	return rec
}

// cleanup removes the temporary files of the request and its copies.
func (r *Rec) cleanup(req *http.Request) {
	for _, q := range append(r.copies, req) {
		if q.MultipartForm != nil {
			q.MultipartForm.RemoveAll()
		}
	}
}

// leftovers finds temporary files that outlived their requests, open or not.
func leftovers(env *Env) (out []Mismatch) {
	if l := env.left(); len(l) > 0 {
		out = append(out, Mismatch{-1, "F", fmt.Sprintf("%d files nobody asked for remain next to those saved or served, %q among them", len(l), l[0])})
	}
	dir := os.TempDir()
	l, _ := os.ReadDir(dir)
	n := 0
	for _, e := range l {
		if strings.HasPrefix(e.Name(), "multipart-") {
			n++
			os.Remove(filepath.Join(dir, e.Name()))
		}
	}
	if n > 0 {
		out = append(out, Mismatch{-1, "F", fmt.Sprintf("%d temporary files of finished requests remain", n)})
	}
	n = 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, e := range fds {
		if t, _ := os.Readlink("/proc/self/fd/" + e.Name()); strings.Contains(t, "/multipart-") {
			n++
			if fd, err := strconv.Atoi(e.Name()); err == nil {
				openLeft[fd]++
				if openLeft[fd] > 1 {
					n-- // told before
				}
			}
		}
	}
	if n > 0 {
		out = append(out, Mismatch{-1, "F", fmt.Sprintf("%d temporary files of finished requests remain open", n)})
	}
	return
}

var openLeft = map[int]int{}

func guarded(f func()) (err string) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Sprint(v)
			if err == "" {
				err = "panic"
			}
		}
	}()
	f()
	return ""
}

// probes count rare conditions that were really met.
func probes(p map[string]int, rec, m *Rec) {
	if rec.Escaped {
		p["panic_escaped_without_recovery"]++
	}
	if rec.RW.Dead {
		p["client_saw_cut_response"]++
	}
	if rec.fileReadFault {
		p["file_fault_while_serving"]++
	}
	switch s := rec.RW.Status; {
	case s == 206:
		p["range_response"]++
	case s == 304:
		p["not_modified"]++
	case s == 404:
		p["not_found"]++
	case s == 405 || s == 406:
		p["refused_by_gate"]++
	case s == 416:
		p["range_not_satisfiable"]++
	case s >= 500:
		p["server_error"]++
	}
	if rec.Body != nil && rec.Body.failed != nil && rec.Body.s.FailAt >= 0 {
		p["body_failed_while_read"]++
	}
	if rec.RW.Hijacked {
		p["hijacked"]++
	}
	if rec.RW.Flushes > 0 {
		p["flushed"]++
	}
	for _, ev := range m.Trace {
		switch ev.K {
		case "D":
			if strings.HasPrefix(ev.V, "bind ok") {
				p["bind_ok"]++
			} else {
				p["bind_refused"]++
			}
		case "U":
			if ev.V == "save ok" {
				p["upload_saved"]++
			} else if ev.V == "save err" {
				p["upload_refused"]++
			}
		}
	}
	if len(m.logWant) > 0 {
		p["access_record"]++
	}
	if m.devPanic || (m.Fired != nil && rec.RW.Status == 500) {
		p["recovered_panic"]++
	}
}
