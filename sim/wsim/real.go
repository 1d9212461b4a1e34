package wsim

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"

	"watersim/simrt"
)

// realCtx lets scripts run against the context of the code under test.
type realCtx struct{ *water.Context }

// binder2 is what the bindings of the package offer beside Bind.
type binder2 interface {
	Bind2(*http.Request, interface{}) error
}

func (c realCtx) Bind2(kind string, o interface{}) error {
	c.ParseFormOrMultipartForm()
	return binder(kind).(binder2).Bind2(c.Request, o)
}

func (c realCtx) R() *http.Request             { return c.Context.Request }
func (c realCtx) SetR(r *http.Request)         { c.Context.Request = r }
func (c realCtx) Wrap()                        { c.Context.ResponseWriter = upper{c.Context.ResponseWriter} }
func (c realCtx) PMap() map[string]string      { return c.Context.Params }
func (c realCtx) EMap() map[string]interface{} { return c.Context.Environ }

// stdCtx is what a plain net/http handler has: writer and request.
type stdCtx struct {
	Ctx // nil: anything else is a harness bug
	w   http.ResponseWriter
	r   *http.Request
}

func (c stdCtx) Header() http.Header         { return c.w.Header() }
func (c stdCtx) WriteHeader(n int)           { c.w.WriteHeader(n) }
func (c stdCtx) Write(p []byte) (int, error) { return c.w.Write(p) }
func (c stdCtx) R() *http.Request            { return c.r }
func (c stdCtx) ReadCloser() io.ReadCloser   { return c.r.Body }

type ifaceH struct{ h *H }

func (i *ifaceH) ServeHTTP(c *water.Context) { runReal(i.h, c) }

type stdH struct{ h *H }

func (i *stdH) ServeHTTP(w http.ResponseWriter, r *http.Request) { runStd(i.h, w, r) }

func runReal(h *H, c *water.Context) {
	rec := curRec()
	runScript(rec, realCtx{c}, h.ID, scriptOf(rec, h), true)
}

func runStd(h *H, w http.ResponseWriter, r *http.Request) {
	rec := curRec()
	runScript(rec, stdCtx{w: w, r: r}, h.ID, scriptOf(rec, h), false)
}

func (w *world) handler(h *H) interface{} {
	switch h.Kind {
	case "mount":
		return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			mounted(curRec(), w.engines[h.Mount]).ServeHTTP(rw, r)
		})
	case "logger":
		return water.Logger()
	case "recovery":
		return water.Recovery()
	case "cors":
		s := h.Cors
		return water.CORS(water.CORSConfig{AllowOrigins: cloned(s.Origins), AllowMethods: cloned(s.Methods), AllowHeaders: cloned(s.Headers),
			AllowCredentials: s.Credentials, ExposeHeaders: cloned(s.Expose), MaxAge: s.MaxAge})
	case "hf":
		return water.HandlerFunc(func(c *water.Context) { runReal(h, c) })
	case "iface":
		return &ifaceH{h}
	case "std":
		return &stdH{h}
	case "stdfn":
		return func(w http.ResponseWriter, r *http.Request) { runStd(h, w, r) }
	case "wrap":
		return water.WrapHandler(func(c *water.Context) { runReal(h, c) })
	}
	return func(c *water.Context) { runReal(h, c) }
}

func (w *world) handlers(l []H) (out []interface{}) {
	for i := range l {
		out = append(out, w.handler(&l[i]))
	}
	return
}

// world is the system under test: routers and engines.
type world struct {
	c       *Case
	env     *Env
	routers []*water.Router
	engines []*water.Engine
	opts    [][]water.Option
}

func (w *world) router(i int) *water.Router {
	s := &w.c.Routers[i]
	var r *water.Router
	if s.Classic {
		r = water.Default()
	} else {
		r = water.NewRouter()
	}
	if len(s.Before) > 0 {
		r.Before(w.handlers(s.Before)...)
	}
	w.decls(r, s.Items)
	return r
}

func (w *world) decls(r *water.Router, items []Decl) {
	for i := range items {
		d := &items[i]
		if len(d.Use) > 0 {
			r.Use(w.handlers(d.Use)...)
		}
		switch {
		case d.Group != nil:
			g := d.Group
			args := w.handlers(g.Mws)
			if g.Via == "fn" {
				args = append(args, func(rr *water.Router) { w.decls(rr, g.Items) })
				r.Group(g.Pattern, args...)
			} else {
				w.decls(r.Group(g.Pattern, args...), g.Items)
			}
		case d.Route != nil:
			hs := w.handlers(d.Route.Handlers)
			p := d.Route.Pattern
			switch d.Route.Method {
			case "ANY":
				r.ANY(p, hs...)
			case "GET":
				r.GET(p, hs...)
			case "POST":
				r.POST(p, hs...)
			case "PUT":
				r.PUT(p, hs...)
			case "PATCH":
				r.PATCH(p, hs...)
			case "DELETE":
				r.DELETE(p, hs...)
			case "OPTIONS":
				r.OPTIONS(p, hs...)
			case "HEAD":
				r.HEAD(p, hs...)
			}
		case d.Static != nil:
			s := d.Static
			if s.Simple {
				r.Static(s.Prefix, w.env.path("www"))
				break
			}
			o := &water.StaticOptions{Prefix: s.Prefix, IndexFile: s.Index, ETag: water.ETagType(s.ETag),
				FileSystem: &simFS{t: &w.c.Trees[s.Tree]}}
			if s.Expires != "" {
				o.Expires = func() string {
					if r := curRec(); r.fault("expires", "") != nil {
						r.fire("panic.expires")
						panic(panicMark + " expires")
					}
					return s.Expires
				}
			}
			r.StaticAdvance(o)
		case d.SFile != nil:
			r.StaticFile(d.SFile.Pattern, w.env.path(d.SFile.File))
		}
	}
}

func (w *world) engine(i int) {
	s := &w.c.Engines[i]
	r := w.routers[s.Router]
	if r == nil {
		r = w.router(s.Router)
	}
	w.decls(r, s.Extra)
	w.engines[i] = r.Handler(w.options(i)...)
}

// options are the Option values of an engine, made once and perhaps used for
// several.
func (w *world) options(i int) []water.Option {
	s := &w.c.Engines[i]
	if s.OptOf > 0 {
		return w.options(s.OptOf - 1)
	}
	if w.opts[i] != nil {
		return w.opts[i]
	}
	o := []water.Option{}
	if s.Static {
		o = append(o, water.WithStaticRouter(true))
	}
	if len(s.NoFound) > 0 {
		o = append(o, water.WithNoFoundHandlers(w.handlers(s.NoFound)...))
	}
	if s.Mem != nil {
		o = append(o, water.WithMaxMultipartMemory(*s.Mem))
	}
	w.opts[i] = o
	return o
}

type simRender struct{}

func (simRender) HTMLSet(c *water.Context, code int, set, name string, data interface{}) {
	c.SetHeader("Content-Type", "text/html; charset=utf-8")
	c.WriteHeader(code)
	c.Write([]byte("<rendered " + set + name + ">"))
}

// sink is the simulated log store.
type sink struct{}

func (sink) Init(string) error { return nil }
func (sink) Destroy()          {}
func (sink) Flush()            {}

func (sink) WriteMsg(when time.Time, msg string, level int) error {
	simrt.Y(-90)
	rec := curRec()
	if rec == nil {
		return nil
	}
	if len(rec.Logs) < 100 {
		rec.Logs = append(rec.Logs, LogRec{Msg: msg, Level: level, At: simrt.NowNS()})
	}
	switch rec.Req.Log {
	case "error":
		rec.fire("log.error")
		return errOf("enospc")
	case "stall":
		if rec.Fired["log.stall"] == 0 {
			rec.fire("log.stall")
			simrt.Stall()
		}
	case "slow":
		rec.fire("log.slow")
		simrt.Sleep(3e6)
	}
	return nil
}

func setGlobals(g *Global) {
	if g.Stable {
		water.Status = water.Stable
	} else {
		water.Status = water.Dev
	}
	water.LogClose = g.LogClose
	water.LogColor = g.LogColor
	water.LogHttpBody = g.LogHTTPBody
	zone := time.UTC
	if g.Zone != 0 {
		zone = time.FixedZone("here", g.Zone*60)
	}
	// in place: code may have kept time.Local
	time.Now().Zone() // what the machine says is read only once, before this
	*time.Local = *zone
	if g.Render {
		water.SetRender(simRender{})
	}
	logx.VerifSetStorer(sink{})
}

var _ = fmt.Sprint
var _ = strings.TrimSpace

// cloned keeps what the code under test may change apart from what the model reads.
func cloned(l []string) []string { return append([]string(nil), l...) }
