package wsim

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"html/template"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// The reference model: what each request has to do and to see, worked out
// from the configuration and that request alone.

// mroute is one route of the model: full pattern, segments, chain.
type mroute struct {
	method  string
	uri     string
	segs    []mseg
	chain   []mh
	literal bool
}

const (
	cLiteral = iota
	cRegexp
	cHolder
	cAll
)

type mseg struct {
	text  string // normalised text, the identity of the segment
	class int
	names []string
	re    *regexp.Regexp
	name  string
}

// mh is one handler of a chain.
type mh struct {
	h      *H
	static *StaticDecl
	sfile  *SFileDecl
}

type mengine struct {
	spec    *EngineSpec
	byMeth  map[string][]*mroute
	notFnd  []mh
	mem     int64
	c       *Case
	handler map[string]*H
}

func parseSeg(s string) mseg {
	g := mseg{text: s}
	switch {
	case strings.HasPrefix(s, ":"):
		g.text = "<" + s[1:] + ">"
		g.class, g.name = cHolder, s[1:]
	case strings.HasPrefix(s, "*"):
		g.class, g.name = cAll, s[1:]
	case strings.HasPrefix(s, "<"):
		in := s[1 : len(s)-1]
		if i := strings.Index(in, "~"); i >= 0 {
			names := in[:i]
			if j := strings.Index(names, ":"); j >= 0 {
				names = names[:j]
			}
			for _, n := range strings.Split(names, ",") {
				g.names = append(g.names, strings.TrimSpace(n))
			}
			expr := strings.TrimSpace(in[i+1:])
			if !strings.Contains(expr, "(") {
				expr = "(" + expr + ")"
			}
			g.class, g.re = cRegexp, regexp.MustCompile(expr)
		} else {
			if j := strings.Index(in, ":"); j >= 0 {
				in = in[:j]
			}
			g.class, g.name = cHolder, strings.TrimSpace(in)
		}
	}
	return g
}

func hs(l []H) (out []mh) {
	for i := range l {
		out = append(out, mh{h: &l[i]})
	}
	return
}

var anyMethods = []string{"GET", "POST", "DELETE", "PUT", "PATCH"}

// ItemsOf are the declarations on the router of an engine when it is built.
func ItemsOf(c *Case, i int) []Decl {
	e := &c.Engines[i]
	items := append([]Decl{}, c.Routers[e.Router].Items...)
	for j := range c.Engines {
		o := &c.Engines[j]
		if o.Router == e.Router && !o.Late && (e.Late || j <= i) {
			items = append(items, o.Extra...)
		}
	}
	return items
}

func modelEngine(c *Case, i int) *mengine {
	e := &c.Engines[i]
	items := ItemsOf(c, i)
	m := &mengine{spec: e, byMeth: map[string][]*mroute{}, c: c, mem: 32 << 20}
	if e.Mem != nil {
		m.mem = *e.Mem
	}
	r := &c.Routers[e.Router]
	var pre []mh
	pre = append(pre, hs(r.Before)...)
	var mws []mh
	if r.Classic {
		mws = append(mws, mh{h: &H{ID: "logger", Kind: "logger"}}, mh{h: &H{ID: "recovery", Kind: "recovery"}})
	}
	m.walk("", append(append([]mh{}, pre...), append(mws, useOf(items)...)...), items)
	if len(e.NoFound) > 0 {
		m.notFnd = append(append([]mh{}, pre...), hs(e.NoFound)...)
	}
	return m
}

// useOf collects the middleware a group declares with Use, wherever it does.
func useOf(items []Decl) (out []mh) {
	for i := range items {
		out = append(out, hs(items[i].Use)...)
	}
	return
}

func (m *mengine) add(method, uri string, chain []mh) {
	r := &mroute{method: method, uri: uri, chain: chain, literal: true}
	p := strings.TrimPrefix(uri, "/")
	for _, s := range strings.Split(p, "/") {
		g := parseSeg(s)
		if g.class != cLiteral {
			r.literal = false
		}
		r.segs = append(r.segs, g)
	}
	m.byMeth[method] = append(m.byMeth[method], r)
}

func (m *mengine) walk(prefix string, chain []mh, items []Decl) {
	join := func(add ...mh) []mh {
		return append(append([]mh{}, chain...), add...)
	}
	for i := range items {
		d := &items[i]
		switch {
		case d.Group != nil:
			g := d.Group
			m.walk(prefix+strings.TrimSpace(g.Pattern), join(append(hs(g.Mws), useOf(g.Items)...)...), g.Items)
		case d.Route != nil:
			ms := []string{d.Route.Method}
			if d.Route.Method == "ANY" {
				ms = anyMethods
			}
			for _, me := range ms {
				m.add(me, prefix+strings.TrimSpace(d.Route.Pattern), join(hs(d.Route.Handlers)...))
			}
		case d.Static != nil:
			p := strings.TrimRight(d.Static.Prefix, "/")
			if p != "" && p[0] != '/' {
				p = "/" + p
			}
			for _, me := range []string{"GET", "HEAD"} {
				m.add(me, prefix+p+"/*", join(mh{static: d.Static}))
			}
		case d.SFile != nil:
			for _, me := range []string{"GET", "HEAD"} {
				m.add(me, prefix+d.SFile.Pattern, join(mh{sfile: d.SFile}))
			}
		}
	}
}

// match is precedence-ordered matching with backtracking.
func (m *mengine) match(method, p string) (*mroute, map[string]string) {
	p = strings.TrimPrefix(p, "/")
	p = strings.TrimSuffix(p, "/")
	segs := strings.Split(p, "/")
	return matchFrom(m.byMeth[method], 0, 0, segs, map[string]string{})
}

func clone(m map[string]string) map[string]string {
	n := make(map[string]string, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// matchFrom: rs are the routes, in registration order, that share the first d
// pattern segments with the way taken so far; glob counts the catch-alls on it.
func matchFrom(rs []*mroute, d, glob int, segs []string, ps map[string]string) (*mroute, map[string]string) {
	if len(segs) == 1 {
		// routes ending here
		for class := cLiteral; class <= cAll; class++ {
			for _, r := range rs {
				if len(r.segs) != d+1 || r.segs[d].class != class {
					continue
				}
				if out, ok := bindSeg(&r.segs[d], segs[0], glob, ps); ok {
					return r, out
				}
			}
		}
		return nil, nil
	}
	for class := cLiteral; class <= cAll; class++ {
		seen := map[string]bool{}
		for _, r := range rs {
			if len(r.segs) <= d+1 || r.segs[d].class != class || seen[r.segs[d].text] {
				continue
			}
			g := &r.segs[d]
			seen[g.text] = true
			text := segs[0]
			if g.class == cAll && g.name != "" {
				text = strings.Join(segs, "/") // a named one stands for the rest
			}
			out, ok := bindSeg(g, text, glob, ps)
			if !ok {
				continue
			}
			var sub []*mroute
			for _, q := range rs {
				if len(q.segs) > d+1 && q.segs[d].text == g.text {
					sub = append(sub, q)
				}
			}
			ng := glob
			if class == cAll {
				ng++
			}
			if f, fp := matchFrom(sub, d+1, ng, segs[1:], out); f != nil {
				return f, fp
			}
		}
	}
	// a final catch-all takes the whole rest
	for _, r := range rs {
		if len(r.segs) == d+1 && r.segs[d].class == cAll {
			if out, ok := bindSeg(&r.segs[d], strings.Join(segs, "/"), glob, ps); ok {
				return r, out
			}
		}
	}
	return nil, nil
}

func bindSeg(g *mseg, text string, glob int, ps map[string]string) (map[string]string, bool) {
	switch g.class {
	case cLiteral:
		return ps, g.text == text
	case cRegexp:
		f := g.re.FindStringSubmatch(text)
		if f == nil || len(f)-1 != len(g.names) {
			return nil, false
		}
		out := clone(ps)
		for i, n := range g.names {
			out[n] = f[i+1]
		}
		return out, true
	case cHolder:
		if g.name == "_" {
			return ps, true
		}
		out := clone(ps)
		out[g.name] = text
		return out, true
	}
	out := clone(ps)
	switch g.name {
	case "_":
		return ps, true
	case "":
		out["*"+strconv.Itoa(glob)] = text
	default:
		out[g.name] = text
	}
	return out, true
}

// mparams are the typed accessors of the parameters.
type mparams map[string]string

func (p mparams) String(n string) string {
	v, ok := p[n]
	if !ok {
		panic("no param " + n)
	}
	return v
}
func (p mparams) Bool(n string) (bool, error)       { return strconv.ParseBool(p.String(n)) }
func (p mparams) Int(n string) (int, error)         { return strconv.Atoi(p.String(n)) }
func (p mparams) Int64(n string) (int64, error)     { return strconv.ParseInt(p.String(n), 10, 64) }
func (p mparams) Uint64(n string) (uint64, error)   { return strconv.ParseUint(p.String(n), 10, 64) }
func (p mparams) Float64(n string) (float64, error) { return strconv.ParseFloat(p.String(n), 64) }
func (p mparams) Uint(n string) (uint, error) {
	v, err := p.Uint64(n)
	return uint(v), err
}
func (p mparams) MustBool(n string) bool       { v, _ := p.Bool(n); return v }
func (p mparams) MustInt(n string) int         { v, _ := p.Int(n); return v }
func (p mparams) MustInt64(n string) int64     { v, _ := p.Int64(n); return v }
func (p mparams) MustUint(n string) uint       { v, _ := p.Uint(n); return v }
func (p mparams) MustUint64(n string) uint64   { v, _ := p.Uint64(n); return v }
func (p mparams) MustFloat64(n string) float64 { v, _ := p.Float64(n); return v }

// --- the model's context ---

type mctx struct {
	rec     *Rec
	e       *mengine
	route   *mroute
	params  map[string]string
	env     map[string]interface{}
	req     *http.Request
	rw      water.ResponseWriter
	chain   []mh
	pos     int
	written bool
	status  int
	parsed  bool
	hijack  bool
}

// serve is the reference for Engine.ServeHTTP.
func (m *mengine) serve(rec *Rec, rw water.ResponseWriter, req *http.Request) {
	if !req.ProtoAtLeast(1, 1) || req.RequestURI == "*" || req.Method == "CONNECT" {
		rw.WriteHeader(406)
		return
	}
	switch req.Method {
	case "GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS":
	default:
		rw.WriteHeader(405)
		return
	}
	c := &mctx{rec: rec, e: m, env: map[string]interface{}{}, req: req, rw: rw}
	c.route, c.params = m.match(req.Method, req.URL.Path)
	if c.route == nil {
		if len(m.notFnd) == 0 {
			rw.WriteHeader(404)
			return
		}
		c.chain = m.notFnd
		c.params = nil
	} else {
		c.chain = c.route.chain
	}
	c.advance()
}

// handler makes a mounted engine a plain handler.
func (m *mengine) plain(rec *Rec) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { m.serve(rec, w.(water.ResponseWriter), r) })
}

func (m *mengine) sibling(i int) *mengine { return modelEngine(m.c, i) }

// advance runs the handlers from the current position until one of them has
// written the response.
func (c *mctx) advance() {
	for c.pos < len(c.chain) {
		h := c.chain[c.pos]
		c.call(h)
		c.pos++
		if c.written {
			return
		}
	}
}

func (c *mctx) Next() {
	c.pos++
	c.advance()
}

func (c *mctx) call(h mh) {
	rec := c.rec
	switch {
	case h.static != nil:
		c.static(h.static)
		return
	case h.sfile != nil:
		http.ServeFile(c, c.req, rec.Env.path(h.sfile.File))
		return
	}
	switch h.h.Kind {
	case "logger":
		c.logger()
	case "recovery":
		c.recovery()
	case "cors":
		c.cors(h.h.Cors)
	case "mount":
		mounted(rec, c.e.sibling(h.h.Mount).plain(rec)).ServeHTTP(c, c.req)
	case "std", "stdfn":
		runScript(rec, c, h.h.ID, scriptOf(rec, h.h), false)
	default:
		runScript(rec, c, h.h.ID, scriptOf(rec, h.h), true)
	}
}

func scriptOf(rec *Rec, h *H) []Op {
	if s, ok := rec.Req.Scripts[h.ID]; ok {
		return s
	}
	return h.Default
}

func (c *mctx) logger() {
	g := &c.rec.C.Global
	if g.LogClose {
		return
	}
	w := WantLog{Method: c.req.Method, URL: c.req.URL.String(), IP: c.RealIp(), Trace: c.req.Header.Get("Trace-Id")}
	b := c.rec.Req.Body
	if g.LogHTTPBody && strings.Contains(c.req.Header.Get("Content-Type"), "application/json") {
		if b != nil {
			d := b.Bytes()
			if b.FailAt >= 0 && b.FailAt < len(d) {
				d = d[:b.FailAt]
				w.BodyPrefix = true
			}
			if len(d) > 1<<20 {
				d = d[:1<<20]
				w.BodyPrefix = true
			}
			if c.rec.bodyTouched() {
				w.BodyPrefix = true // read by a handler before the logger
				d = nil
			} else {
				w.Reads = !c.rec.logRead // a second logger finds it in memory
				c.rec.logRead = true
			}
			w.Body = string(d)
		}
	}
	from := len(c.rec.Trace)
	c.Next()
	w.Status, w.StatusKnown = c.status, c.written && !c.rec.RW.Hijacked
	w.First = -1
	for i, ev := range c.rec.Trace {
		if i >= from && ev.K == "E" {
			if w.First < 0 {
				w.First = i
			}
			w.Last = i
		}
	}
	c.rec.logWant = append(c.rec.logWant, w)
}

func (r *Rec) bodyTouched() bool { return r.Body != nil && (r.Body.reads > 0 || r.Body.closed) }

func (c *mctx) recovery() {
	defer func() {
		if e := recover(); e != nil {
			if !c.written {
				c.WriteHeader(500)
			}
			if !c.rec.C.Global.Stable && !c.rec.devPanic {
				c.rec.devPanic, c.rec.devOff = true, len(c.rec.RW.Body)
			}
		} else if !c.written {
			c.WriteHeader(200)
		}
	}()
	c.Next()
}

func (c *mctx) cors(s *CORSSpec) {
	origins, methods := s.Origins, s.Methods
	if len(origins) == 0 {
		origins = []string{"*"}
	}
	if len(methods) == 0 {
		methods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}
	}
	h := c.rw.Header()
	origin := c.req.Header.Get("Origin")
	grant := ""
	for _, o := range origins {
		if o == "*" || o == origin {
			grant = o
			break
		}
	}
	pre := c.req.Method == "OPTIONS"
	h.Add("Vary", "Origin")
	if pre {
		h.Add("Vary", "Access-Control-Request-Method")
		h.Add("Vary", "Access-Control-Request-Headers")
		h.Set("Access-Control-Allow-Methods", strings.Join(methods, ","))
		if len(s.Headers) > 0 {
			h.Set("Access-Control-Allow-Headers", strings.Join(s.Headers, ","))
		} else if rh := c.req.Header.Get("Access-Control-Request-Headers"); rh != "" {
			h.Set("Access-Control-Allow-Headers", rh)
		}
		if s.MaxAge > 0 {
			h.Set("Access-Control-Max-Age", strconv.Itoa(s.MaxAge))
		}
	} else if len(s.Expose) > 0 {
		h.Set("Access-Control-Expose-Headers", strings.Join(s.Expose, ","))
	}
	h.Set("Access-Control-Allow-Origin", grant)
	if s.Credentials {
		h.Set("Access-Control-Allow-Credentials", "true")
	}
	if pre {
		c.WriteHeader(204)
		return
	}
	c.Next()
}

func (c *mctx) static(s *StaticDecl) {
	rec := c.rec
	var fsys http.FileSystem
	if s.Simple {
		fsys = http.Dir(rec.Env.path("www"))
	} else {
		fsys = &simFS{t: &rec.C.Trees[s.Tree], model: rec}
	}
	name := path.Clean("/" + c.params["*0"])
	f, err := fsys.Open(name)
	if err != nil {
		c.WriteHeader(404)
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		c.WriteHeader(404)
		return
	}
	if s.Expires != "" {
		if rec.fault("expires", "") != nil {
			panic(panicMark + " expires")
		}
		c.Header().Set("Expires", s.Expires)
	}
	if fi.IsDir() {
		if clean := path.Clean(c.req.URL.Path); clean != "/" && !strings.HasSuffix(c.req.URL.Path, "/") {
			http.Redirect(c, c.req, clean+"/", 302)
			return
		}
		if s.Index == "" {
			c.WriteHeader(404)
			return
		}
		ix := path.Join("/", name, s.Index)
		g, err := fsys.Open(ix)
		if err != nil {
			c.WriteHeader(404)
			return
		}
		defer g.Close()
		gi, err := g.Stat()
		if err != nil || gi.IsDir() {
			c.WriteHeader(404)
			return
		}
		http.ServeContent(c, c.req, ix, gi.ModTime(), g)
		return
	}
	if s.ETag != 0 {
		tag := fmt.Sprintf("%x-%x", fi.ModTime().Unix(), fi.Size())
		if s.ETag == 2 {
			tag += fmt.Sprintf("-%x", fi.Name())
		}
		c.Header().Set("ETag", tag)
		if c.req.Header.Get("If-None-Match") == tag {
			c.WriteHeader(304)
			return
		}
	}
	http.ServeContent(c, c.req, name, fi.ModTime(), f)
}

// --- Ctx ---

func (c *mctx) R() *http.Request             { return c.req }
func (c *mctx) SetR(r *http.Request)         { c.req = r }
func (c *mctx) Wrap()                        { c.rw = upper{c.rw} }
func (c *mctx) PMap() map[string]string      { return c.params }
func (c *mctx) EMap() map[string]interface{} { return c.env }
func (c *mctx) Header() http.Header          { return c.rw.Header() }
func (c *mctx) Written() bool                { return c.written }
func (c *mctx) Status() int                  { return c.status }

func (c *mctx) WriteHeader(code int) {
	if c.written {
		return
	}
	c.rw.WriteHeader(code) // panics when the code is not one
	if code >= 100 && code < 200 && code != 101 {
		return // the response is still to come
	}
	c.written, c.status = true, code
}

func (c *mctx) Write(p []byte) (int, error) {
	if !c.written {
		if len(p) > 0 && c.Header().Get("Content-Type") == "" {
			c.Header().Set("Content-Type", http.DetectContentType(p))
		}
		c.WriteHeader(200)
	}
	return c.rw.Write(p)
}

func (c *mctx) FullPath() string {
	if c.route == nil {
		return ""
	}
	return c.route.uri
}

func (c *mctx) Param(n string) string {
	v, ok := c.params[n]
	if !ok {
		panic("no param " + n)
	}
	return v
}

func (c *mctx) Set(n string, v interface{}) {
	if _, ok := c.env[n]; ok {
		panic("set twice " + n)
	}
	c.env[n] = v
}

func (c *mctx) Get(n string) interface{} {
	v, ok := c.env[n]
	if !ok {
		panic("not set " + n)
	}
	return v
}

func (c *mctx) GetMaybe(n string) (interface{}, bool) {
	v, ok := c.env[n]
	return v, ok
}

func (c *mctx) GetHeader(k string) string { return c.req.Header.Get(k) }
func (c *mctx) SetHeader(k, v string)     { c.Header().Set(k, v) }
func (c *mctx) Abort(n int)               { c.WriteHeader(n) }
func (c *mctx) NotModified()              { c.WriteHeader(304) }
func (c *mctx) BadRequest()               { c.WriteHeader(400) }
func (c *mctx) Unauthorized()             { c.WriteHeader(401) }
func (c *mctx) Forbidden()                { c.WriteHeader(403) }
func (c *mctx) NotFound()                 { c.WriteHeader(404) }
func (c *mctx) InternalServerError()      { c.WriteHeader(500) }
func (c *mctx) MovedPermanently(u string) { http.Redirect(c, c.req, u, 301) }
func (c *mctx) Found(u string)            { http.Redirect(c, c.req, u, 302) }

func (c *mctx) NoCache() {
	c.Header().Set("Cache-Control", "no-cache, max-age=0, s-max-age=0, must-revalidate")
	c.Header().Set("Expires", "0")
}

// send is every helper: type, status, content.
func (c *mctx) send(code int, ct string, b []byte) {
	c.sendHead(code, ct)
	c.Write(b)
}

func (c *mctx) sendHead(code int, ct string) {
	if !c.written {
		c.Header().Set("Content-Type", ct)
	}
	c.WriteHeader(code)
}

func (c *mctx) String(code int, s string)              { c.send(code, "text/plain; charset=utf-8", []byte(s)) }
func (c *mctx) Data(code int, ct string, b []byte)     { c.send(code, ct, b) }
func (c *mctx) HTMLRaw(code int, s string)             { c.send(code, "text/html; charset=utf-8", []byte(s)) }
func (c *mctx) HTML(code int, n string, v interface{}) { c.HTMLSet(code, "", n, v) }
func (c *mctx) HTMLSet(code int, set, n string, _ interface{}) {
	c.sendHead(code, "text/html; charset=utf-8")
	if c.rec.C.Global.Render {
		c.Write([]byte("<rendered " + set + n + ">"))
	}
}

func (c *mctx) JSON(code int, v interface{}) error {
	c.sendHead(code, "application/json; charset=utf-8")
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = c.Write(append(b, '\n'))
	return err
}

func (c *mctx) XML(code int, v interface{}) error {
	c.sendHead(code, "application/xml; charset=utf-8")
	b, err := xml.Marshal(v)
	if err != nil || len(b) == 0 {
		return err
	}
	_, err = c.Write(b)
	return err
}

func (c *mctx) Stream(ct string, r io.Reader) error {
	c.Header().Set("Content-Type", ct)
	_, err := io.Copy(struct{ io.Writer }{c}, struct{ io.Reader }{r})
	return err
}

func (c *mctx) SetCookie(n, v string, o ...interface{}) {
	ck := http.Cookie{Name: n, Value: v, Path: "/"}
	switch v := o[0].(type) {
	case int:
		ck.MaxAge = v
	case int32:
		ck.MaxAge = int(v)
	case int64:
		ck.MaxAge = int(v)
	}
	for i, v := range o {
		s, _ := v.(string)
		b, isBool := v.(bool)
		switch {
		case i == 1 && s != "":
			ck.Path = s
		case i == 2:
			ck.Domain = s
		case i == 3:
			ck.Secure = b || !isBool && v != nil
		case i == 4:
			ck.HttpOnly = b
		case i == 5:
			ck.SameSite, _ = v.(http.SameSite)
		}
	}
	c.Header().Add("Set-Cookie", ck.String())
}

func disposition(name string, inline bool) string {
	t := "attachment"
	if inline {
		t = "inline"
	}
	if name == "" {
		return t
	}
	e := url.PathEscape(name)
	return t + `; filename="` + e + `"; filename*=UTF-8''` + e
}

func (c *mctx) Download(p string, inline ...bool) error {
	rec := c.rec
	for _, op := range []string{"open", "stat"} {
		if ft := rec.fault(op, p); ft != nil {
			rec.fileReadFault = rec.fileReadFault || op == "stat"
			return errOf(ft.Err)
		}
	}
	f := rec.Env.file(p)
	if f == nil || f.Dir {
		return errors.New("no such file")
	}
	h := c.Header()
	h.Set("Content-Description", "File Transfer")
	h.Set("Content-Type", "application/octet-stream")
	h.Set("Content-Transfer-Encoding", "binary")
	h.Set("Expires", "0")
	h.Set("Cache-Control", "must-revalidate")
	h.Set("Pragma", "public")
	h.Set("Content-Disposition", disposition(path.Base(p), len(inline) > 0 && inline[0]))
	sf := &simFile{fs: nil, rec: rec, name: p, f: &TreeFile{}, data: f.Data}
	http.ServeContent(c, c.req, path.Base(p), epoch.Add(time.Duration(f.Mod)*time.Second), sf)
	return nil
}

func (c *mctx) Attachment(name string, mod time.Time, r io.ReadSeeker, inline ...bool) {
	c.Header().Set("Content-Disposition", disposition(name, len(inline) > 0 && inline[0]))
	http.ServeContent(c, c.req, name, mod, r)
}

func (c *mctx) ServeFile(p string) { http.ServeFile(c, c.req, p) }
func (c *mctx) File(p string)      { http.ServeFile(c, c.req, p) }

func (c *mctx) BodyBytes() ([]byte, error) {
	b, err := io.ReadAll(c.req.Body)
	if err != nil {
		return nil, err
	}
	return b, nil
}

func (c *mctx) BodyString() (string, error) {
	b, err := c.BodyBytes()
	return string(b), err
}

func (c *mctx) ReadCloser() io.ReadCloser { return c.req.Body }

func (c *mctx) mem() int64 { return c.e.mem }

func (c *mctx) ParseFormOrMultipartForm() {
	if c.parsed {
		return
	}
	c.parsed = true
	var err error
	switch c.req.Method {
	case "POST", "PUT", "PATCH":
		if strings.Contains(c.req.Header.Get("Content-Type"), "multipart/form-data") {
			err = c.req.ParseMultipartForm(c.mem())
			break
		}
		fallthrough
	default:
		err = c.req.ParseForm()
	}
	if err != nil {
		panic("form: " + err.Error())
	}
}

func (c *mctx) vals(n string) []string {
	c.ParseFormOrMultipartForm()
	return c.req.Form[n]
}

func (c *mctx) Query(n string) string { return c.DefaultQuery(n, "") }
func (c *mctx) DefaultQuery(n, d string) string {
	if v := c.vals(n); len(v) > 0 {
		return strings.TrimSpace(v[0])
	}
	return d
}
func (c *mctx) QueryInt(n string) int { return c.DefaultQueryInt(n, "") }
func (c *mctx) DefaultQueryInt(n, d string) int {
	v, _ := strconv.Atoi(c.DefaultQuery(n, d))
	return v
}
func (c *mctx) QueryBool(n string) bool {
	v, _ := strconv.ParseBool(c.Query(n))
	return v
}
func (c *mctx) QueryFloat64(n string) float64 {
	v, _ := strconv.ParseFloat(c.Query(n), 64)
	return v
}
func (c *mctx) QueryInt64(n string) int64   { return c.DefaultQueryInt64(n, "") }
func (c *mctx) QueryUint(n string) uint     { return c.DefaultQueryUint(n, "") }
func (c *mctx) QueryUint64(n string) uint64 { return c.DefaultQueryUint64(n, "") }
func (c *mctx) DefaultQueryBool(n, d string) bool {
	v, _ := strconv.ParseBool(c.DefaultQuery(n, d))
	return v
}
func (c *mctx) DefaultQueryInt64(n, d string) int64 {
	v, _ := strconv.ParseInt(c.DefaultQuery(n, d), 10, 64)
	return v
}
func (c *mctx) DefaultQueryUint(n, d string) uint { return uint(c.DefaultQueryUint64(n, d)) }
func (c *mctx) DefaultQueryUint64(n, d string) uint64 {
	v, _ := strconv.ParseUint(c.DefaultQuery(n, d), 10, 64)
	return v
}
func (c *mctx) DefaultQueryFloat64(n, d string) float64 {
	v, _ := strconv.ParseFloat(c.DefaultQuery(n, d), 64)
	return v
}
func (c *mctx) QueryArray(n string) []string { return c.DefaultQueryArray(n, nil) }
func (c *mctx) DefaultQueryArray(n string, d []string) []string {
	v := c.vals(n)
	if len(v) == 0 {
		return d
	}
	var out []string
	for _, s := range v {
		out = append(out, strings.TrimSpace(s))
	}
	return out
}
func (c *mctx) QueryMap(n string) map[string]string {
	return c.DefaultQueryMap(n, map[string]string{})
}
func (c *mctx) DefaultQueryMap(n string, d map[string]string) map[string]string {
	c.ParseFormOrMultipartForm()
	out := map[string]string{}
	var ks []string
	for k := range c.req.Form {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rest, ok := strings.CutPrefix(k, n+"[")
		if !ok {
			continue
		}
		if sub, _, ok := strings.Cut(rest, "]"); ok && sub != "" {
			if _, have := out[sub]; have {
				continue // the first name in order counts
			}
			out[sub] = strings.TrimSpace(c.req.Form[k][0])
		}
	}
	if len(out) == 0 {
		return d
	}
	return out
}

func (c *mctx) FormFile(n string) (multipart.File, *multipart.FileHeader, error) {
	if c.req.MultipartForm == nil {
		if err := c.req.ParseMultipartForm(c.mem()); err != nil {
			return nil, nil, err
		}
	}
	return c.req.FormFile(n)
}

func (c *mctx) SaveUploadedFile(*multipart.FileHeader, string) error { panic("harness: unused") }

func (c *mctx) Bind(o interface{}) error {
	return modelBind(c, o, modelBinder(c.req.Method, c.ContentType()))
}

func (c *mctx) BindWith(o interface{}, b binding.Bindinger) error {
	k := "form"
	switch b {
	case binding.JSON:
		k = "json"
	case binding.XML:
		k = "xml"
	case binding.FormMultipart:
		k = "multipart"
	case binding.Query:
		k = "query"
	case binding.Header:
		k = "header"
	}
	return modelBind(c, o, k)
}

func (c *mctx) Proxy() []string {
	if v := c.req.Header.Get("X-Forwarded-For"); v != "" {
		l := strings.Split(v, ",")
		for i := range l {
			l[i] = strings.TrimSpace(l[i])
		}
		return l
	}
	return nil
}

func (c *mctx) RealIp() string {
	if v := c.req.Header.Get("X-Real-Ip"); v != "" {
		return v
	}
	if p := c.Proxy(); len(p) > 0 && p[0] != "" {
		return p[0]
	}
	a := c.req.RemoteAddr
	if i := strings.LastIndex(a, ":"); i >= 0 {
		return a[:i]
	}
	return a
}

func (c *mctx) Protocol() string {
	switch v := c.req.Header.Get("X-Forwarded-Proto"); v {
	case "http", "https":
		return v
	}
	return "http"
}
func (c *mctx) UserAgent() string { return c.req.Header.Get("User-Agent") }
func (c *mctx) IsAjax() bool      { return c.req.Header.Get("X-Requested-With") == "XMLHttpRequest" }
func (c *mctx) IsWebsocket() bool {
	return strings.Contains(strings.ToLower(c.req.Header.Get("Connection")), "upgrade") && strings.EqualFold(c.req.Header.Get("Upgrade"), "websocket")
}
func (c *mctx) ContentType() string {
	v := c.req.Header.Get("Content-Type")
	if i := strings.IndexAny(v, " ;"); i >= 0 {
		v = v[:i]
	}
	return v
}
func (c *mctx) Cookie(n string) string {
	ck, err := c.req.Cookie(n)
	if err != nil {
		return ""
	}
	return ck.Value
}
func (c *mctx) CookieEscape(n string) string { return template.HTMLEscapeString(c.Cookie(n)) }
func (c *mctx) CookieBool(n string) bool {
	v, _ := strconv.ParseBool(c.Cookie(n))
	return v
}
func (c *mctx) CookieInt64(n string) int64 {
	v, _ := strconv.ParseInt(c.Cookie(n), 10, 64)
	return v
}
func (c *mctx) CookieUint(n string) uint { return uint(c.CookieUint64(n)) }
func (c *mctx) CookieUint64(n string) uint64 {
	v, _ := strconv.ParseUint(c.Cookie(n), 10, 64)
	return v
}
func (c *mctx) CookieFloat64(n string) float64 {
	v, _ := strconv.ParseFloat(c.Cookie(n), 64)
	return v
}
func (c *mctx) CookieInt(n string) int {
	v, _ := strconv.Atoi(c.Cookie(n))
	return v
}
