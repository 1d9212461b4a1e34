package wsim

import (
	"fmt"
	"net/http"
	"strings"
)

// scripts gives every handler the request will reach something to do.
func (g *gen) scripts(q *Req, m *mengine, p string) {
	r, ps := m.match(q.Method, p)
	if h := mountOf(r); h != nil && strings.HasPrefix(p, "/mnt/") {
		// the handlers of the inner engine use what was sent
		g.outer = true
		g.chainScripts(q, m, r, ps)
		g.outer = m.spec.Router == g.c.Engines[h.Mount].Router
		in := g.mechs[h.Mount]
		if r2, _ := in.match(q.Method, p[4:]); mountOf(r2) == nil {
			r2, ps2 := in.match(q.Method, p[4:])
			g.chainScripts(q, in, r2, ps2)
		}
		g.outer = false
		return
	}
	g.chainScripts(q, m, r, ps)
}

func (g *gen) chainScripts(q *Req, m *mengine, r *mroute, ps map[string]string) {
	var chain []mh
	if r != nil {
		chain = r.chain
	} else {
		chain = m.notFnd
	}
	var hs []*H
	afterLogger := map[string]bool{}
	seenLogger := false
	recover := false
	for i := range chain {
		h := chain[i].h
		if h == nil {
			continue
		}
		switch h.Kind {
		case "logger":
			seenLogger = true
			for id := range afterLogger {
				_ = id
			}
			continue
		case "recovery":
			recover = true
			continue
		case "cors", "mount":
			continue
		}
		if seenLogger {
			afterLogger[h.ID] = true
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		if q.Method == "POST" && g.rng.p(30) && !g.outer && q.Body == nil {
			g.body(q, "application/json", g.jsonDoc())
		}
		return
	}
	hasLogger := seenLogger
	last := len(hs) - 1
	end := chain[len(chain)-1].h
	tail := end == nil || end.Kind == "mount" // a static handler ends the chain
	// which handler consumes the request's body or form
	var input []Op
	at := last
	if g.rng.p(30) {
		at = g.n(len(hs))
	}
	for at < last && hasLogger && !afterLogger[hs[at].ID] {
		at++
	}
	if !g.outer {
		input = g.input(q, full(hs[at]))
	}
	for i, h := range hs {
		if len(hs) > 12 && i != at && i != last && g.rng.p(95) {
			continue // most handlers of a long chain let the request pass
		}
		f := full(h)
		var ops []Op
		if f {
			if g.rng.p(60) {
				ops = append(ops, g.looks(ps, f)...)
			}
		} else if g.rng.p(40) {
			ops = append(ops, Op{Op: "reqinfo"})
		}
		if g.rng.p(20) {
			ops = append(ops, Op{Op: "header", S: fmt.Sprintf("X-H%d", i), S2: fmt.Sprintf("r%d", q.ID)})
		}
		if g.rng.p(g.slow) {
			ops = append(ops, Op{Op: g.s1("sleep", "sleep", "jump"), N: g.in(1, 5000)})
			if j := &ops[len(ops)-1]; j.Op == "jump" {
				j.N = g.in(-9000, 9000) * []int{1, 1000, 400000}[g.n(3)]
			} else if g.long && g.rng.p(30) {
				j.N *= []int{1000, 30000, 700000}[g.n(3)]
			}
		}
		if g.rng.p(15) {
			ops = append(ops, Op{Op: "yield", N: g.in(1, 6)})
		}
		if g.rng.p(g.early) {
			ops = append(ops, Op{Op: g.s1("whead", "whead", "abort"), N: []int{100, 102, 103, 103, 199}[g.n(5)]})
			if !f {
				ops[len(ops)-1].Op = "whead"
			}
		}
		if f && g.rng.p(g.wrap) {
			if g.rng.p(50) {
				ops = append(ops, Op{Op: "withctx", S: fmt.Sprintf("ctx%d", q.ID), N: []int{0, 0, 0, 1}[g.n(4)]})
			} else {
				ops = append(ops, Op{Op: "wraprw"})
			}
		}
		if f && g.wrap > 0 && g.rng.p(25) {
			ops = append(ops, Op{Op: "ctxval"})
		}
		if g.rng.p(g.leave) {
			ops = append(ops, Op{Op: "gone"})
		}
		if f && g.leave > 0 && g.rng.p(10) {
			ops = append(ops, Op{Op: "ctxerr"})
		}
		if i == at {
			ops = append(ops, g.spread(input)...)
		}
		switch {
		case i == last && !tail:
			n := 1
			if g.p == "C05" || g.p == "C18" {
				n = g.in(0, 4)
			} else if g.rng.p(12) {
				n = g.in(0, 3)
			}
			for ; n > 0; n-- {
				ops = append(ops, g.output(q, f))
				if (g.p == "C05" || g.p == "C18" || g.p == "C12") && g.rng.p(25) {
					ops = append(ops, Op{Op: "yield", N: 1})
				}
			}
		default:
			w := g.n(100)
			stop, next := 12, 45
			if g.p == "C05" || g.p == "C02" || g.p == "C18" {
				stop = 18
			}
			switch {
			case w < stop: // answers instead of the handlers behind it
				ops = append(ops, g.output(q, f))
				if f && g.rng.p(20) { // or has them follow
					ops = append(ops, Op{Op: "next"})
				}
			case w < stop+next && f:
				ops = append(ops, Op{Op: "next"})
				if g.panics > 0 && g.rng.p(15) {
					ops[len(ops)-1].Op = "guard"
				}
				if g.rng.p(40) {
					ops = append(ops, g.looks(ps, f)...)
				}
				if g.rng.p(20) || g.p == "C05" && g.rng.p(40) {
					ops = append(ops, g.output(q, f))
				}
				if g.rng.p(g.slow) {
					ops = append(ops, Op{Op: "sleep", N: g.in(1, 3000)})
				}
			case w < stop+next+5:
				ops = append(ops, Op{Op: "return"})
			}
		}
		if f && len(ps) == 0 && g.rng.p(g.mutate) {
			ops = append(ops, Op{Op: "ownparam", S: fmt.Sprintf("own%d", q.ID%3), N: g.in(0, 3)})
		}
		if f && len(ps) > 0 && !g.outer && g.rng.p(g.mutate) {
			n := "role"
			if ks := sortedNames(ps); len(ks) > 0 && g.rng.p(60) {
				n = ks[g.n(len(ks))]
			}
			ops = append(ops, Op{Op: "setparam", S: n, S2: fmt.Sprintf("set%d", q.ID)})
			if g.rng.p(50) {
				ops = append(ops, Op{Op: "obs"})
			}
		}
		if f && g.inval && g.rng.p(15) {
			i := g.n(len(ops) + 1)
			ops = append(append(append([]Op{}, ops[:i]...), Op{Op: "tryhead", N: []int{0, 42, 99, 1000, -1}[g.n(5)]}), ops[i:]...)
		}
		if g.rng.p(g.panics) {
			g.panicAt(&ops, recover)
		}
		q.Scripts[h.ID] = ops
	}
	// the store: set once, read behind it
	if g.rng.p(60) {
		v := fmt.Sprintf("val-%d", q.ID)
		done := false
		for _, h := range hs {
			if !full(h) {
				continue
			}
			s := q.Scripts[h.ID]
			if !done && g.rng.p(60) {
				done = true
				k := "k" + fmt.Sprint(q.ID%3)
				q.Scripts[h.ID] = append([]Op{{Op: "set", S: k, S2: v, N: []int{0, 0, 0, 1, 2}[g.n(5)]}}, s...)
				continue
			}
			op := Op{Op: "getmaybe", S: "k" + fmt.Sprint(g.n(3))}
			if g.rng.p(15) {
				op = Op{Op: "setmaybe", S: op.S, S2: fmt.Sprintf("again-%d", q.ID)}
			} else if g.rng.p(15) {
				op.Op = "getagain"
			} else if done && g.rng.p(30) && g.panics == 0 {
				op = Op{Op: "getmaybe", S: "k" + fmt.Sprint(q.ID%3)}
			}
			q.Scripts[h.ID] = append([]Op{op}, s...)
		}
	}
}

func full(h *H) bool { return h.Kind != "std" && h.Kind != "stdfn" }

// spread puts other requests' chances between the steps.
func (g *gen) spread(ops []Op) []Op {
	if !g.rng.p(40) {
		return ops
	}
	var out []Op
	for _, o := range ops {
		if g.rng.p(30) {
			out = append(out, Op{Op: "yield", N: g.in(1, 3)})
		}
		out = append(out, o)
	}
	return out
}

func (g *gen) looks(ps map[string]string, full bool) (out []Op) {
	for k := g.in(1, 2); k > 0; k-- {
		switch g.n(6) {
		case 0, 1:
			out = append(out, Op{Op: "obs"})
		case 2:
			out = append(out, Op{Op: "info"})
		case 3:
			out = append(out, Op{Op: "reqinfo"})
		case 4:
			out = append(out, Op{Op: "getcookie", S: g.s1("sid", "n", "b", "none")})
		case 5:
			if len(ps) > 0 {
				ks := sortedNames(ps)
				out = append(out, Op{Op: g.s1("param", "param", "ptyped"), S: ks[g.n(len(ks))]})
			} else {
				out = append(out, Op{Op: "gethdr", S: g.s1("Origin", "Trace-Id", "Cookie")})
			}
		}
	}
	return
}

func sortedNames(ps map[string]string) []string {
	ks := make([]string, 0, len(ps))
	for k := range ps {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

var panicKinds = []string{"str", "str", "err", "err", "nilmap", "index", "nilptr", "custom", "int", "abort", "neterr", "reset", "eof", "canceled", "wrapped", "slice", "mapkey", "typednil", "closed", "cast", "div", "badError", "badString"}

func (g *gen) panicAt(ops *[]Op, recover bool) {
	o := Op{Op: "panic", S: panicKinds[g.n(len(panicKinds))]}
	if g.inval && g.rng.p(30) || g.p == "C04" && g.rng.p(12) {
		switch g.n(4) {
		case 0:
			o = Op{Op: "whead", N: []int{0, 42, 1000, -1}[g.n(4)]}
		case 1:
			o = Op{Op: "param", S: "nosuch"}
		case 2:
			o = Op{Op: "get", S: "nosuch"}
		case 3:
			o = Op{Op: "string", N: 99, S: "x"}
		}
	}
	i := g.n(len(*ops) + 1)
	*ops = append(append(append([]Op{}, (*ops)[:i]...), o), (*ops)[i:]...)
	if o.Op == "panic" {
		*ops = (*ops)[:i+1]
	}
}

// output is one way to answer.
func (g *gen) output(q *Req, full bool) Op {
	if !full {
		if g.rng.p(25) {
			if g.rng.p(5) {
				return Op{Op: "whead", N: 101}
			}
			return Op{Op: "whead", N: g.code()}
		}
		return Op{Op: "write", B: g.bytes(g.size())}
	}
	menu := []string{"string", "string", "data", "html", "json", "xml", "write", "whead", "short", "redir"}
	switch g.p {
	case "C06":
		menu = append(menu, "stream", "stream", "json", "xml", "data", "html", "render", "redir", "nocache", "cookie")
	case "C05":
		menu = append(menu, "stream", "abort", "render", "servefile", "file", "file", "attach", "download", "redir", "write", "whead")
	case "C16":
		menu = []string{"download", "download", "download", "attach", "attach", "servefile", "file"}
	case "C18":
		menu = append(menu, "write", "write", "stream")
		if g.extended {
			menu = append(menu, "flush", "flush", "flush", "flush", "hijack", "hijack")
		}
	case "C01", "C04", "C15", "C11":
		menu = append(menu, "stream", "servefile", "attach", "download", "cookie")
	case "C24":
		menu = append(menu, "stream", "stream", "stream", "servefile", "attach", "download", "cookie", "file")
	case "C13":
		menu = append(menu, "short", "abort")
	}
	if len(g.c.Files) == 0 {
		for i, s := range menu {
			if s == "servefile" || s == "file" || s == "download" {
				menu[i] = "string"
			}
		}
	}
	o := Op{Op: menu[g.n(len(menu))]}
	mark := fmt.Sprintf("r%d:", q.ID)
	switch o.Op {
	case "string", "html":
		o.N, o.S = g.code(), mark+g.text()
	case "data":
		o.N, o.S, o.B = g.code(), g.s1("application/octet-stream", "image/png", "text/csv; charset=utf-8"), g.bytes(g.size())
	case "json", "xml":
		o.N = g.code()
		o.V = &Payload{Name: mark + g.s1("plain", "a<b>&c", "quote\"s", "ü"), N: q.ID}
		if g.rng.p(35) {
			o.K = g.s1("map", "H", "slice", "text", "num", "keys", "marsh", "raw", "nil", "chan", "nan")
			if o.Op == "xml" {
				o.K = g.s1("slice", "text", "num", "marsh", "chan")
			}
		}
		for k := g.n(4); k > 0; k-- {
			o.V.Tags = append(o.V.Tags, string(g.data(g.size()/4)))
		}
		if o.V.Tags == nil {
			o.V.Tags = []string{}
		}
	case "write":
		o.B = g.bytes(g.size())
		if g.rng.p(30) {
			o.S = g.s1("string", "printf", "copy", "copyn", "httperror", "bufio")
		}
	case "whead", "abort":
		o.N = g.code()
		if g.rng.p(4) {
			o.N = 101
		}
	case "short":
		o.N = []int{304, 400, 401, 403, 404, 500}[g.n(6)]
	case "redir":
		o.N, o.S = []int{301, 302}[g.n(2)], g.s1("/elsewhere", "rel/x", "https://other.example/p?q=1", "../up")
	case "render":
		o.N, o.S, o.S2 = g.code(), "tpl"+fmt.Sprint(q.ID), g.s1("", "set")
	case "stream":
		o.S, o.B, o.L, o.M = g.s1("text/event-stream", "application/x-thing"), g.bytes(g.size()), g.frags(), -1
		if g.rng.p(30) {
			o.M = g.n(len(o.B) + 1)
		}
		if len(o.B) > 20000 {
			o.L = nil
		} else if g.rng.p(15) {
			o.L = append(o.L, -1, g.in(1, 40)) // a read that brings nothing yet
		}
		o.S2, o.S3 = g.s1("", "", "with"), g.s1("", "full")
	case "cookie":
		o.S, o.S2, o.N = g.s1("c0", "c1", "c0", "c1", "bad name"), fmt.Sprintf("v%d", q.ID), g.n(3)*100
		if g.rng.p(40) {
			o.M = g.n(3)
			for k := g.in(1, 5); k > 0; k-- {
				o.S3 += g.s1("+", "-", "0")
			}
		}
	case "servefile", "file":
		o.S = g.s1("f1.txt", "sub/f2.html", "missing", "adir", "empty", "with space é.bin", "sub/index.html")
		g.fileHeaders(q, o.S)
	case "download":
		o.S, o.N = g.s1("f1.txt", "f1.txt", "sub/f2.html", "missing", "adir", "empty", "with space é.bin"), g.n(3)
		g.fileHeaders(q, o.S)
		if g.rng.p(40) {
			g.fileFaults(q, o.S, []string{"open", "stat", "seek", "read", "read", "close"})
		}
	case "attach":
		o.S, o.B, o.N, o.M, o.L = g.s1("report.pdf", "ü ñ.txt", "", "a\"b.csv"), g.bytes(g.size()), g.n(3)+3*[]int{0, 0, 0, 1, 2, 3}[g.n(6)], -1, g.frags()
		if len(o.B) > 20000 {
			o.L = nil
		}
		o.S2, o.S3 = g.s1("", "", "with", "moved"), g.s1("", "full")
		g.fileHeaders(q, "")
		if g.rng.p(30) {
			o.M = g.n(len(o.B) + 1)
		}
	case "hijack":
		o.B = g.bytes(g.in(0, 60))
	}
	return o
}

func (g *gen) fileHeaders(q *Req, file string) {
	if g.p == "C05" && !g.rng.p(20) {
		return
	}
	for _, h := range q.Headers {
		if h[0] == "Range" || strings.HasPrefix(h[0], "If-") {
			return
		}
	}
	n, mod := 300, int64(3600)
	for _, f := range g.c.Files {
		if f.Name == file {
			n, mod = len(f.Data), f.Mod
		}
	}
	if g.rng.p(35) {
		q.Headers = append(q.Headers, [2]string{"Range", g.rangeSpec(n)})
	}
	if g.rng.p(20) {
		q.Headers = append(q.Headers, [2]string{g.s1("If-Modified-Since", "If-Unmodified-Since", "If-Range"), httpTime(mod + int64(g.n(3)-1)*3600)})
	}
}

// input is one way to use what the client sent.
func (g *gen) input(q *Req, full bool) []Op {
	hasBody := q.Method != "GET" && q.Method != "HEAD" && q.Method != "OPTIONS" || g.rng.p(5)
	kind := ""
	switch g.p {
	case "C07":
		kind = g.s1("raw", "raw", "raw", "bind", "form")
	case "C08":
		kind = "bind"
	case "C17":
		kind = g.s1("form", "form", "form", "bindform")
	case "C10":
		kind = g.s1("save", "save", "save", "save", "form")
	case "C14":
		kind = g.s1("save", "form", "raw", "")
	case "C12":
		kind = g.s1("raw", "bind", "rawunread", "")
	default:
		if !g.rng.p(g.bodies) {
			return nil
		}
		kind = g.s1("raw", "bind", "form", "save")
		if g.p == "C15" {
			kind = g.s1("bind", "bind", "bind", "raw", "form", "save")
		}
	}
	if !full {
		if hasBody && kind != "" {
			g.body(q, g.s1("application/json", "text/plain"), g.bytes(g.size()))
			return []Op{{Op: "read", N: []int{0, 1, 7, 100}[g.n(4)]}}
		}
		return nil
	}
	switch kind {
	case "raw", "rawunread":
		if !hasBody {
			return nil
		}
		ct := g.s1("application/json", "application/json; charset=utf-8", "text/plain", "application/octet-stream", "")
		n := g.size()
		if (g.p == "C07" || g.p == "C12") && g.rng.p(2) {
			n = 1<<20 + g.in(-1, 3)
			if g.rng.p(50) {
				n += g.in(0, 200000)
			}
		}
		d := g.bytes(n)
		if g.rng.p(15) {
			d = g.jsonDoc()
		}
		g.body(q, ct, d)
		if n > 1<<19 {
			q.Body.Frags = []int{0, 60000}
			q.Body.ZeroRead = false
		}
		if kind == "rawunread" {
			return nil
		}
		if g.p == "C07" && g.n(500) == 0 && !g.soak {
			g.pad(q)
			return []Op{{Op: "body"}}
		}
		switch g.n(5) {
		case 0, 1:
			return []Op{{Op: "body", M: g.n(2)}}
		case 2:
			return []Op{{Op: "bodystr"}}
		case 3:
			c := []int{0, 1, 7, 100, 4096}[g.n(5)]
			if n > 20000 {
				c = 4096
			}
			return []Op{{Op: "read", N: c, M: g.n(2)}}
		}
		return []Op{{Op: "readn", N: g.n(n+1) % 20000}}
	case "bind":
		return g.bind(q, hasBody)
	case "bindform":
		ops := g.form(q, hasBody)
		return append(ops, Op{Op: "bind", S: g.s1("", "mapss", "maps"), S2: g.s1("auto", "form", "query")})
	case "form":
		return g.form(q, hasBody)
	case "save":
		if !hasBody || q.Method == "DELETE" {
			return nil
		}
		if (g.p == "C10" || g.p == "C14") && g.n(300) == 0 && !g.soak {
			g.body(q, "multipart/form-data; boundary=XbX", nil)
			*q.Body = BodySpec{FailAt: -1, Chunked: q.Body.Chunked, Big: []int{8 << 20, 31 << 20, 32<<20 - 2, 32<<20 - 1, 32 << 20, 32<<20 + 1, 32<<20 + 300, 33 << 20, 43 << 20}[g.n(9)]}
			ops := []Op{{Op: "parse"}, {Op: "held"}}
			if g.rng.p(30) {
				ops = append(ops, Op{Op: "save", S: "file", S2: "big"})
			}
			return ops
		}
		nf := g.in(1, 3)
		d := g.multipart(g.pairs(), nf)
		cut := g.rng.p(4)
		if cut {
			d = d[:g.n(len(d))]
		}
		g.body(q, "multipart/form-data; boundary=XbX", d)
		ops := []Op{}
		first := g.rng.p(25) // the file is asked for before anything parsed the form
		if first {
			ops = append(ops, Op{Op: "formfile", S: g.s1("file", "files", "none")})
		} else if g.rng.p(80) {
			ops = append(ops, Op{Op: "parse"})
		}
		if first || g.rng.p(50) {
			ops = append(ops, Op{Op: "held"})
		}
		if g.rng.p(25) {
			ops = append(ops, Op{Op: "formfile", S: g.s1("file", "files", "none")})
		}
		for k := g.in(1, 3); k > 0; k-- {
			name := g.s1("one", "two", "three")
			if g.rng.p(6) {
				name = "nodir"
			}
			ops = append(ops, Op{Op: "save", S: g.s1("file", "files", "files", "up"), S2: name, N: []int{0, 0, 1}[g.n(3)], M: []int{0, 0, 5, 100000}[g.n(4)]})
			if g.rng.p(45) {
				g.fileFaults(q, fmt.Sprintf("up%d_%s", q.ID, name), []string{"open", "write", "write", "write", "close", "close", "rename", "sync", "truncate"})
			}
		}
		if g.rng.p(10) {
			ops = append(ops, Op{Op: "rmtmp"})
		}
		return ops
	}
	return nil
}

func (g *gen) form(q *Req, hasBody bool) []Op {
	if !strings.Contains(q.URL, "?") && g.rng.p(60) {
		q.URL += "?" + g.query()
	}
	if hasBody && g.rng.p(75) {
		switch g.n(6) {
		case 0, 1, 2:
			s := g.pairs().Encode()
			if g.rng.p(8) {
				s += "&x=%z"
			}
			g.body(q, g.s1("application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8"), []byte(s))
		case 3, 4:
			if q.Method != "DELETE" {
				d := g.multipart(g.pairs(), g.n(2))
				ct := "multipart/form-data; boundary=XbX"
				if g.rng.p(6) {
					ct = "multipart/form-data"
				}
				if g.rng.p(6) {
					d = d[:g.n(len(d))]
				}
				g.body(q, ct, d)
			}
		case 5:
			g.body(q, "text/plain", g.bytes(g.in(0, 100)))
		}
	}
	var ops []Op
	for k := g.in(1, 6); k > 0; k-- {
		o := Op{Op: "query", N: g.n(18), S: g.s1("a", "b", "n", "ids", "sp key", "none"), S2: g.s1("dflt", "3")}
		ops = append(ops, o)
	}
	if g.rng.p(20) {
		ops = append(ops, Op{Op: "parse"})
	}
	return ops
}

func (g *gen) bind(q *Req, hasBody bool) []Op {
	how := g.s1("json", "json", "xml", "form", "multipart", "query", "header", "auto")
	target := ""
	if g.rng.p(12) {
		target = g.s1("mapss", "maps", "mapssnil", "mapsnil")
	} else if g.rng.p(12) {
		target = "pre"
	}
	ct := ""
	var data []byte
	kind := how
	if how == "auto" {
		kind = g.s1("json", "xml", "form", "multipart", "query")
	}
	if !hasBody && kind != "header" {
		kind = "query"
		if how != "auto" {
			how = g.s1("query", "form", "auto")
		}
	}
	if q.Method == "GET" && how == "auto" {
		kind = "query"
	}
	switch kind {
	case "json":
		ct, data = g.s1("application/json", "application/json; charset=utf-8"), g.jsonDoc()
		if target != "pre" {
			target = ""
		}
		if g.rng.p(8) {
			target = g.s1("slice", "slice", "ptrs", "ptr")
			item := func() string {
				return g.s1("null", `{"city":"Ulm","zip":3}`, `{"city":"Ulm"}`, `{}`, `{"city":"a city with a long name"}`, `{"zip":300}`)
			}
			l := []string{}
			for k := g.in(1, 5); k > 0; k-- {
				l = append(l, item())
			}
			data = []byte(g.s1("["+strings.Join(l, ",")+"]", `[{"city":"Ulm","zip":3},{"city":"a","zip":9}]`, `[{"city":"a city with a long name"}]`, `[]`, `[{"zip":3},`, "null"))
			if target == "ptr" {
				data = []byte(item())
			}
		}
	case "xml":
		ct, data = g.s1("application/xml", "text/xml"), g.xmlDoc()
		if target != "pre" {
			target = ""
		}
	case "form":
		ct, data = "application/x-www-form-urlencoded", []byte(g.formDoc("form").Encode())
		if q.Method == "DELETE" {
			// net/http reads a form only from POST, PUT and PATCH
			q.URL = strings.SplitN(q.URL, "?", 2)[0] + "?" + g.formDoc("form").Encode()
		}
	case "multipart":
		if q.Method == "DELETE" {
			return nil
		}
		nf := 0
		if g.rng.p(40) {
			target = "file"
			nf = g.in(0, 3)
		}
		ct, data = "multipart/form-data; boundary=XbX", g.multipart(g.formDoc("form"), nf)
		if g.rng.p(6) {
			data = data[:g.n(len(data))]
		}
	case "query":
		q.URL = strings.SplitN(q.URL, "?", 2)[0] + "?" + g.formDoc("form").Encode()
		if hasBody && g.rng.p(20) {
			// the body has a form of its own
			if g.body(q, "application/x-www-form-urlencoded", []byte(g.formDoc("form").Encode())); g.rng.p(40) {
				q.URL = strings.SplitN(q.URL, "?", 2)[0]
			}
		}
	case "header":
		v := g.formDoc("header")
		for _, k := range sortedKeys(v) {
			for _, s := range v[k] {
				q.Headers = append(q.Headers, [2]string{http.CanonicalHeaderKey(k), s})
			}
		}
	}
	if g.rng.p(map[bool]int{true: 60, false: 25}[g.p == "C15"]) && target == "" {
		switch kind {
		case "json":
			target, data = "rich", g.richJSON()
		case "form":
			target = "rich"
			if s := g.richForm().Encode(); q.Method == "DELETE" {
				q.URL = strings.SplitN(q.URL, "?", 2)[0] + "?" + s
			} else {
				data = []byte(s)
			}
		case "query":
			target = "rich"
			q.URL = strings.SplitN(q.URL, "?", 2)[0] + "?" + g.richForm().Encode()
		case "multipart":
			target, data = "rich", g.multipart(g.richForm(), 0)
		}
	}
	if data != nil || ct != "" {
		g.body(q, ct, data)
	}
	if kind != "json" && kind != "xml" && g.rng.p(20) && !strings.HasSuffix(target, "nil") {
		how = kind + "2"
		if kind != "header" && g.rng.p(15) {
			target = "arr"
			f := g.arrForm()
			switch {
			case kind == "multipart":
				q.Body.Data = g.multipart(f, g.in(0, 4))
			case kind == "query" || q.Method == "DELETE":
				q.URL = strings.SplitN(q.URL, "?", 2)[0] + "?" + f.Encode()
			default:
				q.Body.Data = []byte(f.Encode())
			}
			if q.Body != nil {
				q.Body.FailAt = min(q.Body.FailAt, len(q.Body.Data))
			}
		}
	}
	if (g.p == "C08" || g.p == "C07") && (kind == "json" || kind == "xml") && g.n(200) == 0 && !g.soak {
		g.pad(q)
	}
	ops := []Op{{Op: "bind", S: target, S2: how}}
	if g.rng.p(8) {
		ops = append(ops, ops[0])
	}
	return ops
}
