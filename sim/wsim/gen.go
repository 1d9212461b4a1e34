package wsim

import (
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"strings"

	"watersim/simrt"
)

// rng is the only source of choices of the generator.
type rng struct{ s uint64 }

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) in(a, b int) int       { return a + r.n(b-a+1) }
func (r *rng) p(pct int) bool        { return r.n(100) < pct }
func (r *rng) s1(l ...string) string { return l[r.n(len(l))] }

// Mix derives independent seeds.
func Mix(a ...uint64) uint64 {
	h := uint64(1469598103934665603)
	for _, v := range a {
		r := rng{h ^ v*0x9e3779b97f4a7c15}
		h = r.u()
	}
	return h
}

// profile says what the runs of one property look like.
type profile struct {
	ID      string
	Classes string // mismatches that break the property
	Clients [2]int
	Reqs    [2]int // per client
	Sites   bool
}

var Profiles = map[string]*profile{
	"C01": {"C01", "EPSVIBDQURMThckswX", [2]int{1, 5}, [2]int{1, 5}, true},
	"C02": {"C02", "EPVSTcH", [2]int{1, 4}, [2]int{1, 4}, true},
	"C03": {"C03", "EPIThH", [2]int{1, 4}, [2]int{2, 8}, true},
	"C04": {"C04", "EPSVIBDQURMThcksXLH", [2]int{1, 4}, [2]int{1, 4}, true},
	"C05": {"C05", "ESTsRkcXLwH", [2]int{1, 3}, [2]int{1, 3}, true},
	"C06": {"C06", "RThckESsXH", [2]int{1, 4}, [2]int{1, 3}, true},
	"C07": {"C07", "BEDQXLTcH", [2]int{1, 4}, [2]int{1, 3}, true},
	"C08": {"C08", "DEXUVQTcH", [2]int{1, 4}, [2]int{1, 3}, true},
	"C09": {"C09", "ThckFEXsSH", [2]int{1, 4}, [2]int{1, 5}, true},
	"C10": {"C10", "UFEXTH", [2]int{1, 4}, [2]int{1, 3}, true},
	"C11": {"C11", "H", [2]int{2, 6}, [2]int{1, 3}, true},
	"C12": {"C12", "LETcBXhH", [2]int{1, 5}, [2]int{1, 3}, true},
	"C13": {"C13", "hETcVPXH", [2]int{1, 5}, [2]int{1, 4}, true},
	"C14": {"C14", "EPSVIBDQURMThckX", [2]int{1, 4}, [2]int{1, 4}, true},
	"C15": {"C15", "G", [2]int{2, 6}, [2]int{1, 4}, true},
	"C16": {"C16", "RThckFESXH", [2]int{1, 3}, [2]int{1, 4}, true},
	"C17": {"C17", "QEXDBTcH", [2]int{1, 4}, [2]int{1, 4}, true},
	"C18": {"C18", "STswhckERXLH", [2]int{1, 3}, [2]int{1, 3}, true},
	"C24": {"C24", "YF", [2]int{3, 8}, [2]int{4, 12}, true},
}

// Has tells whether mismatches of a class break the profile's property.
func (p *profile) Has(class string) bool { return strings.Contains(p.Classes, class) }

type gen struct {
	rng
	c    *Case
	p    string
	prof *profile
	hn   int
	rn   int
	// what this run is about
	panics   int // percent of handlers
	inval    bool
	connF    int
	bodies   int
	mechs    []*mengine
	regexes  bool
	deep     bool
	filesOn  bool
	logger   bool
	recovery bool
	cors     bool
	slow     int
	early    int // percent of handlers sending an informational status
	mutate   int
	extended bool
	soak     bool              // many small requests
	mega     bool              // very many of them
	crowd    bool              // many clients, most of them stalled
	leave    int               // percentage of handlers during which the client goes away
	mild     bool              // documents mostly of plain values
	wide     bool              // large route tables, long chains, deep paths
	used     []map[string]bool // routes of each router
	outer    bool              // scripts of handlers around a mounted engine
	mount    bool              // an engine serves below a path of another one
	long     bool              // now and then a sleep of seconds to hours
	wrap     int               // percent of handlers replacing request or writer
}

// Gen makes the case with the given seed.
func Gen(id string, seed uint64, render, extended bool) *Case {
	g := start(id, seed, render, extended)
	if id == "C24" {
		g.waves()
	} else {
		g.clients()
	}
	g.c.SchedSeed = g.u()
	g.c.Pol = g.policy()
	g.sanitize()
	return g.c
}

// start makes routers, engines and files.
func start(id string, seed uint64, render, extended bool) *gen {
	g := &gen{rng: rng{Mix(seed, 7)}, p: id, prof: Profiles[id]}
	g.c = &Case{Profile: id, Seed: seed}
	c := g.c
	g.extended = extended
	c.Global = Global{Stable: g.p2(85), LogHTTPBody: g.rng.p(80), LogColor: g.rng.p(30), Render: render}
	if g.rng.p(50) {
		c.Global.Zone = []int{480, -420, 330, -240, 720}[g.n(5)]
	}
	g.panics = []int{0, 0, 8, 20}[g.n(4)]
	g.recovery = g.rng.p(60)
	g.logger = g.rng.p(40)
	g.cors = g.rng.p(20)
	g.regexes = g.rng.p(60)
	g.connF = []int{0, 0, 15, 40}[g.n(4)]
	g.bodies = []int{20, 50}[g.n(2)]
	g.slow = []int{0, 0, 10, 30}[g.n(4)]
	g.early = []int{0, 0, 5, 15}[g.n(4)]
	if g.p == "C01" || g.p == "C03" || g.p == "C14" || g.rng.p(30) {
		g.mutate = []int{0, 10, 30}[g.n(3)]
	}
	switch id {
	case "C04":
		g.panics = g.in(15, 50)
		g.recovery = g.rng.p(85)
		g.logger = g.rng.p(40)
		c.Global.Stable = g.rng.p(75)
	case "C03":
		g.panics, g.connF, g.slow = 0, 0, 0
		g.recovery, g.logger = g.rng.p(10), g.rng.p(10)
	case "C02":
		g.connF = 0
	case "C05", "C06", "C18":
		g.connF = []int{0, 25, 60}[g.n(3)]
		g.inval = g.rng.p(30)
	case "C12":
		g.logger = true
		c.Global.LogClose = g.rng.p(12)
		g.slow = g.in(10, 50)
	case "C07":
		g.logger = g.rng.p(70)
	case "C13":
		g.cors = true
	case "C11":
		g.slow = 40
		g.logger = g.rng.p(60)
		g.panics = []int{0, 10}[g.n(2)]
	case "C24":
		g.connF = []int{0, 15, 40}[g.n(3)]
		g.panics = []int{0, 4, 10, 20}[g.n(4)]
	}
	g.crowd = g.p == "C11" && g.n(150) == 0
	g.soak = g.crowd || g.n(150) == 0 || g.p == "C24"
	g.long = g.n(20) == 0
	g.wrap = []int{0, 0, 4, 10}[g.n(4)]
	g.leave = []int{0, 0, 5, 20}[g.n(4)]
	g.mega = g.soak && g.n(30) == 0
	g.wide = g.n(40) == 0 || g.p == "C03" && g.n(10) == 0
	g.files()
	g.engines()
	for i := range c.Engines {
		g.mechs = append(g.mechs, modelEngine(c, i))
	}
	return g
}

// clients makes the workload.
func (g *gen) clients() {
	c := g.c
	nc := g.in(g.prof.Clients[0], g.prof.Clients[1])
	if g.crowd {
		nc = g.in(60, 300)
		if g.n(4) == 0 {
			nc = g.in(1030, 1100)
		}
	}
	late := []int{}
	for i := range c.Engines {
		if c.Engines[i].Late {
			late = append(late, i)
		}
	}
	owner := map[int]int{}
	for _, e := range late {
		owner[e] = g.n(nc)
	}
	for i := 0; i < nc; i++ {
		var cl Client
		var mine []int
		for e := range c.Engines {
			if !c.Engines[e].Late {
				mine = append(mine, e)
			}
		}
		var todo []int
		for _, e := range late {
			if owner[e] == i {
				todo = append(todo, e)
			}
		}
		nr := g.in(g.prof.Reqs[0], g.prof.Reqs[1])
		if g.crowd {
			nr = 1
		} else if g.soak {
			nr = g.in(20, 150)
			if g.mega {
				nr = g.in(200, 1200)
			}
		}
		for k := 0; k < nr; k++ {
			if len(todo) > 0 && g.rng.p(60) {
				e := todo[0]
				todo = todo[1:]
				cl.Items = append(cl.Items, Item{Build: &e})
				mine = append(mine, e)
			}
			if len(mine) > 0 {
				cl.Items = append(cl.Items, Item{Req: g.request(mine[g.n(len(mine))])})
			}
		}
		for _, e := range todo {
			e := e
			cl.Items = append(cl.Items, Item{Build: &e})
		}
		c.Clients = append(c.Clients, cl)
	}
}

// stdOps is what a plain net/http handler of the simulation can do.
var stdOps = map[string]bool{"header": true, "write": true, "whead": true, "read": true, "readn": true, "reqinfo": true,
	"sleep": true, "jump": true, "stall": true, "yield": true, "panic": true, "return": true}

// sanitize removes what the model makes no statement about.
func (g *gen) sanitize() {
	std := map[string]bool{}
	for _, m := range g.mechs {
		for _, r := range append(g.routesOf(m), &mroute{chain: m.notFnd}) {
			for _, h := range r.chain {
				if h.h != nil && !full(h.h) {
					std[h.h.ID] = true
				}
			}
		}
	}
	for i := range g.c.Clients {
		for _, it := range g.c.Clients[i].Items {
			q := it.Req
			if q == nil {
				continue
			}
			if !g.c.Global.Stable {
				// where the crash text ends is not specified
				q.Conn.FailAt, q.Conn.PanicAt = -1, 0
			}
			if q.Conn.PanicAt > 0 {
				q.Conn.FailAt = -1
			}
			seen := map[string]bool{}
			var fs []Fault
			for _, f := range q.Faults {
				if k := f.Op + " " + f.Path; !seen[k] {
					seen[k] = true
					fs = append(fs, f)
				}
			}
			q.Faults = fs
			for id, ops := range q.Scripts {
				if !std[id] {
					continue
				}
				var out []Op
				for _, o := range ops {
					if stdOps[o.Op] {
						out = append(out, o)
					}
				}
				q.Scripts[id] = out
			}
		}
	}
}

func (g *gen) p2(pct int) bool { return g.rng.p(pct) }

func (g *gen) policy() simrt.Policy {
	var p simrt.Policy
	switch g.n(10) {
	case 0:
		p.Kind = "rr"
	case 1, 2:
		p.Kind = "pct"
		p.Depth = g.in(1, 6)
	case 3, 4, 5:
		p.Kind = "site"
		for i := g.in(1, 5); i > 0 && simrt.NumSites > 0; i-- {
			p.Sites = append(p.Sites, g.n(simrt.NumSites))
		}
		p.IOBias = []float64{0, 0.1}[g.n(2)]
	default:
		p.Kind = "gap"
		p.Gap = []float64{2, 5, 12, 40, 150, 600}[g.n(6)]
		p.IOBias = []float64{0, 0.2, 0.6}[g.n(3)]
	}
	p.PoolMode = []int{0, 0, 0, 1, 2, 3}[g.n(6)]
	return p
}

// --- content ---

func (g *gen) size() int {
	if g.soak {
		return g.in(0, 100)
	}
	if g.n(30) == 0 { // around the sizes of buffers
		return []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}[g.n(9)] + g.in(-1, 1)
	}
	switch g.n(12) {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return g.in(1, 40)
	case 5, 6, 7:
		return g.in(400, 600)
	case 8, 9:
		return g.in(2000, 5000)
	case 10:
		return g.in(30000, 40000)
	}
	return g.in(1, 200)
}

// data is recognisable: no two places of one run produce the same bytes.
func (g *gen) data(n int) []byte {
	tag := fmt.Sprintf("%x.", g.u()&0xffffff)
	b := make([]byte, 0, n+8)
	for i := 0; len(b) < n; i++ {
		b = append(b, tag...)
		b = append(b, fmt.Sprintf("%d,", i)...)
	}
	return b[:n]
}

var fronts = []string{"\xef\xbb\xbf", "\xff\xfe", "\x00", "\x1f\x8b\x08", "\x89PNG\r\n\x1a\n", "<html>", "<?xml", "%PDF-", "  \t\n", "\r\n", "\x80\xff", "{\"a\":", "\u00fc"}

// bytes is data that need not be text.
func (g *gen) bytes(n int) []byte {
	b := g.data(n)
	if g.rng.p(12) {
		copy(b, fronts[g.n(len(fronts))])
	}
	if g.rng.p(8) {
		f := []string{"\n", "\r\n", "\x00", " ", "\xc3", "\xff\xff", "\x1a"}[g.n(7)]
		if len(f) <= n {
			copy(b[n-len(f):], f)
		}
	}
	return b
}

func (g *gen) text() string {
	s := string(g.data(g.size()))
	if g.rng.p(12) {
		s = g.s1("\ufeff", "<b>\u00fc</b>", " \n", "%d%s%%", "\x00", "<?xml") + s
	}
	if g.rng.p(8) {
		s += g.s1("\n", "  ", "\u4e2d\u6587", "\r\n", "%!")
	}
	return s
}

func (g *gen) frags() []int {
	switch g.n(5) {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{g.in(1, 7)}
	}
	var f []int
	for i := g.in(1, 4); i > 0; i-- {
		f = append(f, []int{0, 1, 2, 3, 17, 100, 512, 1000}[g.n(8)])
	}
	return f
}

func (g *gen) code() int {
	return []int{200, 200, 200, 201, 202, 204, 206, 301, 304, 400, 404, 418, 500, 503, 599}[g.n(15)]
}

// --- routers and engines ---

func (g *gen) hid() string {
	g.hn++
	return fmt.Sprintf("h%d", g.hn)
}

func (g *gen) h(kinds ...string) H {
	k := "fn"
	if len(kinds) > 0 {
		k = kinds[g.n(len(kinds))]
	} else {
		k = []string{"fn", "fn", "fn", "hf", "iface", "std", "stdfn", "wrap"}[g.n(8)]
	}
	return H{ID: g.hid(), Kind: k}
}

func (g *gen) corsSpec() *CORSSpec {
	s := &CORSSpec{Credentials: g.rng.p(40), MaxAge: []int{0, 0, 600, -5}[g.n(4)]}
	pool := []string{"https://a.example", "https://b.example", "http://a.example:8080", "https://c.example"}
	switch g.n(6) {
	case 0:
	case 1:
		s.Origins = []string{"*"}
	case 2:
		s.Origins = []string{pool[g.n(3)], "*"}
	default:
		for _, o := range pool[:3] {
			if g.rng.p(50) {
				s.Origins = append(s.Origins, o)
			}
		}
		if len(s.Origins) == 0 {
			s.Origins = []string{pool[0]}
		}
	}
	if g.rng.p(50) {
		s.Methods = []string{"GET", "PUT"}[:g.in(1, 2)]
	}
	if g.rng.p(40) {
		s.Headers = []string{"X-One", "X-Two"}[:g.in(1, 2)]
	}
	if g.rng.p(40) {
		s.Expose = []string{"X-Exp", "X-Req"}[:g.in(1, 2)]
	}
	return s
}

// mws makes the ready-made middleware the run is about, in a sensible order.
func (g *gen) std() (out []H) {
	if g.logger {
		out = append(out, H{ID: g.hid(), Kind: "logger"})
	}
	if g.recovery {
		out = append(out, H{ID: g.hid(), Kind: "recovery"})
		if g.logger && g.rng.p(20) {
			out[0], out[1] = out[1], out[0]
		}
	}
	if g.cors {
		out = append(out, H{ID: g.hid(), Kind: "cors", Cors: g.corsSpec()})
	}
	return
}

func (g *gen) engines() {
	n := 1
	switch g.p {
	case "C14":
		n = g.in(2, 3)
	case "C15", "C11":
		n = g.in(1, 3)
	case "C01":
		n = g.in(1, 2)
	}
	g.mount = g.rng.p(map[string]int{"C01": 12, "C14": 25, "C04": 10, "C05": 10, "C11": 10, "C12": 10, "C18": 10}[g.p] + 3)
	if g.mount && n == 1 && g.rng.p(70) {
		n = 2
	}
	for i := 0; i < n; i++ {
		r := len(g.c.Routers)
		if i > 0 && g.rng.p(35) {
			r = g.n(len(g.c.Routers))
		} else {
			g.c.Routers = append(g.c.Routers, g.router())
		}
		e := EngineSpec{Router: r, Static: g.rng.p(50)}
		if r < len(g.c.Routers)-1 || i > 0 && g.c.Engines[i-1].Router == r {
			if g.rng.p(40) { // the program goes on declaring
				e.Extra = g.extra(r)
			}
		}
		if i > 0 && g.rng.p(25) {
			e.OptOf = g.n(i) + 1
			for e.OptOf > 0 && g.c.Engines[e.OptOf-1].OptOf > 0 {
				e.OptOf = g.c.Engines[e.OptOf-1].OptOf
			}
			o := &g.c.Engines[e.OptOf-1]
			e.Static, e.NoFound, e.Mem = o.Static, o.NoFound, o.Mem
			e.Late = e.Extra == nil && g.rng.p(50)
			g.c.Engines = append(g.c.Engines, e)
			continue
		}
		if g.rng.p(35) {
			for k := g.in(1, 2); k > 0; k-- {
				e.NoFound = append(e.NoFound, g.h())
			}
		}
		if g.rng.p(40) || g.p == "C10" && g.rng.p(60) || g.p == "C14" && g.rng.p(60) {
			m := []int64{0, 1, 50, 2000, 40000, 64 << 20}[g.n(6)]
			e.Mem = &m
		}
		if i > 0 && e.Extra == nil && g.rng.p(50) {
			e.Late = true
		}
		g.c.Engines = append(g.c.Engines, e)
	}
	if g.p == "C24" {
		for i := range g.c.Engines {
			g.c.Engines[i].Late = false
		}
	}
	if g.mount {
		g.mounts()
	}
}

// extra are declarations on a router from which an engine was built before.
func (g *gen) extra(r int) (out []Decl) {
	if g.rng.p(30) {
		out = append(out, Decl{Use: []H{g.h()}})
	}
	for k := g.in(1, 2); k > 0; k-- {
		g.route(&out, "", nil, g.used[r])
	}
	return
}

// mounts puts an engine below a path of another one, or of itself.
func (g *gen) mounts() {
	in := []int{}
	for i := range g.c.Engines {
		if !g.c.Engines[i].Late {
			in = append(in, i)
		}
	}
	i := in[g.n(len(in))]
	e := g.n(len(g.c.Engines))
	r := &g.c.Routers[g.c.Engines[e].Router]
	for _, m := range []string{"ANY", "HEAD", "OPTIONS"} {
		var hs []H
		if g.rng.p(30) {
			hs = append(hs, g.h())
		}
		hs = append(hs, H{ID: g.hid(), Kind: "mount", Mount: i})
		r.Items = append(r.Items, Decl{Route: &RouteDecl{Method: m, Pattern: "/mnt/*", Handlers: hs}})
	}
}

func mountOf(r *mroute) *H {
	if r == nil || len(r.chain) == 0 {
		return nil
	}
	if h := r.chain[len(r.chain)-1].h; h != nil && h.Kind == "mount" {
		return h
	}
	return nil
}

func (g *gen) router() RouterSpec {
	r := RouterSpec{}
	ready := g.std()
	if g.logger && g.recovery && !g.cors && g.rng.p(40) {
		r.Classic = true
		ready = nil
	}
	if g.rng.p(30) || g.p == "C02" && g.rng.p(50) {
		for k := g.in(1, 2); k > 0; k-- {
			r.Before = append(r.Before, g.h("fn", "hf", "iface", "wrap"))
		}
		if len(ready) > 0 && g.rng.p(50) {
			r.Before = append(ready, r.Before...)
			ready = nil
		}
	}
	if len(ready) > 0 {
		r.Items = append(r.Items, Decl{Use: ready})
	}
	if g.wide && g.rng.p(40) {
		var u []H
		for k := g.in(20, 300); k > 0; k-- {
			u = append(u, g.h())
		}
		r.Items = append(r.Items, Decl{Use: u})
	}
	used := map[string]bool{}
	g.used = append(g.used, used)
	depth := 1
	if g.wide {
		depth = 3
	}
	if g.p == "C02" || g.p == "C03" || g.p == "C01" {
		depth = 3
	}
	g.items(&r.Items, "", nil, depth, used)
	if len(r.Items) == 0 || len(used) == 0 {
		g.route(&r.Items, "", nil, used)
	}
	if g.p == "C09" || (g.p == "C15" || g.p == "C11" || g.p == "C05" || g.p == "C24") && g.rng.p(40) || g.p == "C01" && g.rng.p(15) || g.rng.p(8) {
		g.statics(&r.Items, used)
	}
	return r
}

func (g *gen) items(items *[]Decl, prefix string, names []string, depth int, used map[string]bool) {
	if g.rng.p(40) || g.p == "C02" && g.rng.p(50) {
		var u []H
		k := g.in(1, 2)
		if g.rng.p(15) {
			k = g.in(3, 7)
		}
		for ; k > 0; k-- {
			u = append(u, g.h())
		}
		*items = append(*items, Decl{Use: u})
	}
	n := g.in(1, 3)
	if g.p == "C03" {
		n = g.in(2, 7)
	}
	if g.wide && prefix == "" && g.rng.p(60) {
		n = g.in(20, 70)
	}
	if g.wide && prefix == "" && (g.rng.p(30) || g.p == "C03" && g.rng.p(30)) {
		g.siblings(items, used)
	}
	for i := 0; i < n; i++ {
		if depth > 0 && g.rng.p(40) {
			gd := &GroupDecl{Via: g.s1("fn", "ret")}
			seg, nm := g.seg(names, false)
			gd.Pattern = "/" + seg
			if g.rng.p(12) {
				gd.Pattern, nm = "", names
			} else if g.rng.p(12) {
				seg, nm = g.seg(nm, false)
				gd.Pattern += "/" + seg
			}
			k := g.n(3)
			if g.wide && g.rng.p(8) {
				k = g.in(10, 90)
			}
			for ; k > 0; k-- {
				gd.Mws = append(gd.Mws, g.h("fn"))
			}
			g.items(&gd.Items, prefix+gd.Pattern, nm, depth-1, used)
			gd.Pattern = g.blanks(gd.Pattern)
			if hasRoute(gd.Items) {
				*items = append(*items, Decl{Group: gd})
			}
		} else {
			g.route(items, prefix, names, used)
		}
	}
	if g.rng.p(15) {
		*items = append(*items, Decl{Use: []H{g.h()}})
	}
}

// blanks around a pattern are not part of it.
func (g *gen) blanks(p string) string {
	if g.rng.p(97) {
		return p
	}
	return g.s1(" ", "", "\t") + p + g.s1(" ", "", "  ")
}

func hasRoute(items []Decl) bool {
	for i := range items {
		if items[i].Route != nil || items[i].Group != nil {
			return true
		}
	}
	return false
}

var words = []string{"a", "b", "ab", "42", "7", "id", "x-1", "users", "%zz", "ü", "A", "a.b", "a b", "+"}

// seg makes one pattern segment; it returns the names in use after it.
func (g *gen) seg(names []string, last bool) (string, []string) {
	fresh := func() string {
		for k := 0; ; k++ {
			n := fmt.Sprintf("%s%d", []string{"p", "q", "id"}[g.n(3)], len(names))
			return n
		}
	}
	mark := func(n ...string) []string { return append(append([]string{}, names...), n...) }
	switch g.n(12) {
	case 0, 1:
		n := fresh()
		return ":" + n, mark(n)
	case 2:
		n := fresh()
		return "<" + n + ">", mark(n)
	case 3:
		n := fresh()
		return "<" + n + ":int>", mark(n)
	case 4, 5:
		if !g.regexes {
			break
		}
		n := fresh()
		switch g.n(11) {
		case 9: // parts that may be empty
			return "<" + n + "a," + n + "b ~ ^(\\d*)([a-z]*)$>", mark(n+"a", n+"b")
		case 10:
			return "<" + n + "a," + n + "b," + n + "c ~ ^([a-z]+)?(-)?(\\d+)?$>", mark(n+"a", n+"b", n+"c")
		case 8:
			return "<" + n + " ~ 4|42|ab?|user>", mark(n)
		case 6:
			return "<" + n + " ~ ^([0-9]{1,3}|[a-f]{1,4}|users|x-[0-9]+)$>", mark(n)
		case 7:
			return "<" + n + " ~ (.+)>", mark(n)
		case 0:
			return "<" + n + " ~ 42|7>", mark(n)
		case 1:
			return "<" + n + " ~ (^[0-9]+$)>", mark(n)
		case 2:
			return "<" + n + "a," + n + "b ~ ^(\\w+)-(\\d+)$>", mark(n+"a", n+"b")
		case 3:
			return "<" + n + ":int ~ ^([0-9])$>", mark(n)
		case 4:
			return "<" + n + " ~ ^(a.*)$>", mark(n)
		}
		return "<" + n + " ~ ([a-z]+)>", mark(n)
	case 6:
		switch {
		case g.rng.p(8):
			return "*_", names
		case last && g.rng.p(40) || g.rng.p(10):
			n := fresh()
			return "*" + n, mark(n)
		case last || g.rng.p(40):
			return "*", names
		}
	case 7:
		if g.rng.p(30) {
			return ":_", names
		}
	}
	if g.wide && g.rng.p(40) {
		return g.longWord(), names
	}
	if g.rng.p(6) {
		return words[g.n(len(words))], names
	}
	return words[g.n(7)], names
}

// manyParams is a pattern that has a lot of parameters.
func (g *gen) manyParams(names []string) (p string) {
	if g.rng.p(25) {
		return strings.Repeat("/*", g.in(8, 20))
	}
	for k, n := g.in(8, 40), len(names); k > 0; k-- {
		n++
		switch g.n(6) {
		case 0:
			p += fmt.Sprintf("/<q%d>", n)
		case 1:
			p += fmt.Sprintf("/<q%d ~ ([0-9a-z]+)>", n)
		case 2:
			p += fmt.Sprintf("/<q%da,q%db ~ ^(\\w+)-(\\d+)$>", n, n)
		case 3:
			p += fmt.Sprintf("/w%d", n)
		default:
			p += fmt.Sprintf("/:q%d", n)
		}
	}
	return
}

// siblings declares many routes that compete for the same places.
func (g *gen) siblings(items *[]Decl, used map[string]bool) {
	head := g.s1("", "", "/a", "/:p0")
	for k := g.in(13, 40); k > 0; k-- {
		p := head + "/"
		switch n := g.in(1, 30); g.n(8) {
		case 0:
			p += fmt.Sprintf("<s%d>", n)
		case 1:
			p += fmt.Sprintf("w%d", n)
		case 2:
			p += fmt.Sprintf("*s%d", n)
		case 3:
			p += fmt.Sprintf("<s%d ~ [0-9a-f]{%d}>", n, n%4+1)
		default:
			p += fmt.Sprintf("<s%d ~ ^([0-9a-z]{1,%d})$>", n, n)
		}
		if !strings.HasPrefix(p, "*") && g.rng.p(40) {
			p += g.s1("/a", "/b", "/:e0")
		}
		if used["GET"+norm(p)] {
			continue
		}
		used["GET"+norm(p)] = true
		*items = append(*items, Decl{Route: &RouteDecl{Method: "GET", Pattern: p, Handlers: []H{g.h()}}})
	}
}

func (g *gen) longWord() string {
	if g.rng.p(30) {
		return strings.Repeat("long-", g.in(3, 60)) + fmt.Sprint(g.n(5))
	}
	return fmt.Sprintf("w%d", g.n(60))
}

// norm is the identity of a pattern: names do not distinguish routes that
// would otherwise shadow each other completely.
func norm(p string) string {
	segs := strings.Split(p, "/")
	for i, s := range segs {
		if strings.HasPrefix(s, ":") {
			segs[i] = "<" + s[1:] + ">"
		}
	}
	return strings.Join(segs, "/")
}

func (g *gen) route(items *[]Decl, prefix string, names []string, used map[string]bool) {
	for try := 0; try < 6; try++ {
		p := ""
		nm := names
		n := g.in(1, 3)
		if prefix != "" && g.rng.p(15) {
			n = 0
		} else if g.wide && g.rng.p(30) {
			n = g.in(4, 12)
		} else if prefix == "" && g.rng.p(8) {
			p, n = "/", 0
		}
		if g.wide && n > 3 && g.rng.p(25) {
			p, nm, n = g.manyParams(nm), nil, 0
		}
		for i := 0; i < n; i++ {
			var s string
			s, nm = g.seg(nm, i == n-1)
			p += "/" + s
		}
		m := []string{"GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "ANY"}[g.n(11)]
		switch g.p {
		case "C07", "C08", "C10", "C17":
			m = []string{"POST", "POST", "PUT", "PATCH", "GET", "DELETE", "ANY"}[g.n(7)]
		case "C13":
			m = []string{"GET", "OPTIONS", "ANY", "PUT", "OPTIONS"}[g.n(5)]
		case "C16":
			m = []string{"GET", "HEAD", "GET", "POST"}[g.n(4)]
		}
		ms := []string{m}
		if m == "ANY" {
			ms = anyMethods
		}
		if i := strings.LastIndexByte(prefix, '/'); i >= 0 && i < len(prefix)-1 && !strings.ContainsAny(prefix[i:], ":<*") && g.rng.p(6) {
			// a pattern may go on within the segment of its group
			p = g.s1("x", "2", "-") + p
		}
		ok := true
		for _, x := range ms {
			if used[x+norm(prefix+p)] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, x := range ms {
			used[x+norm(prefix+p)] = true
		}
		var hs []H
		for k := g.in(1, 3); k > 0; k-- {
			hs = append(hs, g.h())
		}
		*items = append(*items, Decl{Route: &RouteDecl{Method: m, Pattern: g.blanks(p), Handlers: hs}})
		return
	}
}

// --- static trees and files ---

func (g *gen) files() {
	c := g.c
	mod := func() int64 { return int64(g.n(4)) * 3600 }
	name := func(s string, n int) {
		c.Files = append(c.Files, FileSpec{Name: s, Data: g.bytes(n), Mod: mod()})
	}
	switch g.p {
	case "C16", "C05", "C15", "C01", "C11", "C06", "C09", "C04":
		name("f1.txt", g.size())
		name("with space é.bin", g.in(1, 3000))
		name("sub/f2.html", g.in(0, 6000))
		name("sub/index.html", g.in(1, 300))
		c.Files = append(c.Files, FileSpec{Name: "adir", Dir: true})
		name("empty", 0)
	}
	if g.p == "C09" || g.p == "C15" {
		name("www/one.txt", g.size())
		name("www/d/two.css", g.in(1, 500))
		c.Files = append(c.Files, FileSpec{Name: "www/d", Dir: true})
	}
	c.Trees = append(c.Trees, g.tree())
	if g.rng.p(30) {
		c.Trees = append(c.Trees, g.tree())
	}
}

func (g *gen) tree() TreeSpec {
	t := TreeSpec{Strict: g.rng.p(50)}
	mod := func() int64 { return int64(g.n(5)) * 3600 }
	switch g.n(12) {
	case 0: // versions a few seconds apart
		mod = func() int64 { return int64(g.n(5)) }
	case 1: // around 1970, and before
		mod = func() int64 { return -epoch.Unix() + int64(g.n(5)-2)*3600 }
	case 2: // days and years apart
		mod = func() int64 { return int64(g.n(5)-2) * 86400 * []int64{1, 365, 366, 7}[g.n(4)] }
	}
	noDates := g.n(10) == 0 // as embedded files have none
	add := func(p string) {
		f := TreeFile{Path: p}
		for k := g.in(1, 3); k > 0; k-- {
			f.Vers = append(f.Vers, TreeVer{Data: g.bytes(g.size()), Mod: mod(), Gone: len(f.Vers) > 0 && g.rng.p(15)})
		}
		if noDates {
			f.Vers = f.Vers[:1]
			f.Vers[0].Mod = noDate
		}
		t.Files = append(t.Files, f)
	}
	dir := func(p string) { t.Files = append(t.Files, TreeFile{Path: p, Dir: true}) }
	dir("/")
	add("/a.txt")
	add("/b.html")
	add("/noext")
	dir("/sub")
	add("/sub/c.js")
	dir("/sub/deep")
	add("/sub/deep/d.css")
	add("/ü x.txt")
	if g.rng.p(70) {
		add("/index.html")
	}
	if g.rng.p(70) {
		add("/sub/index.html")
	}
	if g.rng.p(50) {
		add("/sub/deep/home.htm")
	}
	if g.rng.p(15) {
		dir("/sub/deep/index.html")
	}
	return t
}

func (g *gen) statics(items *[]Decl, used map[string]bool) {
	pre := []string{"/static", "/st/at", "assets/", "", "/"}
	for k := g.in(1, 2); k > 0; k-- {
		p := pre[g.n(len(pre))]
		q := strings.TrimRight(p, "/")
		if q != "" && q[0] != '/' {
			q = "/" + q
		}
		if used["GET"+q+"/*"] || used["HEAD"+q+"/*"] {
			continue
		}
		used["GET"+q+"/*"], used["HEAD"+q+"/*"] = true, true
		s := &StaticDecl{Prefix: p, ID: g.hid(), Tree: g.n(len(g.c.Trees)), ETag: g.n(3)}
		if g.rng.p(70) {
			s.Index = g.s1("index.html", "index.html", "home.htm", "none.html")
		}
		if g.rng.p(20) {
			s.Expires = "Thu, 01 Jan 2026 00:00:00 GMT"
		}
		if (g.p == "C09" || g.p == "C15") && g.rng.p(20) {
			s.Simple, s.Index, s.ETag, s.Expires = true, "", 0, ""
		}
		*items = append(*items, Decl{Static: s})
	}
	if len(g.c.Files) > 0 && g.rng.p(50) && !used["GET/file"] && !used["HEAD/file"] {
		used["GET/file"], used["HEAD/file"] = true, true
		*items = append(*items, Decl{SFile: &SFileDecl{Pattern: "/file", File: g.s1("f1.txt", "sub/f2.html", "missing", "empty"), ID: g.hid()}})
	}
}

// --- requests ---

func (g *gen) routesOf(m *mengine) (out []*mroute) {
	for _, me := range append(append([]string{}, anyMethods...), "HEAD", "OPTIONS") {
		out = append(out, m.byMeth[me]...)
	}
	return
}

var regexText = []string{"42", "7", "123", "5", "user-12", "a-1", "abc", "zz", "4a", "A", "x"}

func (g *gen) segText(s *mseg, last bool) string {
	switch s.class {
	case cLiteral:
		return s.text
	case cRegexp:
		for try := 0; try < 8; try++ {
			t := regexText[g.n(len(regexText))]
			if g.wide && g.rng.p(40) {
				t = strings.Repeat(g.s1("7", "a", "b0", "zz9"), g.in(1, 12))
			}
			if s.re.MatchString(t) {
				return t
			}
		}
		return "nomatch"
	case cAll:
		if last && g.rng.p(60) {
			if g.rng.p(5) {
				return strings.Repeat(g.s1("d/", "a/", "42/", "x/y/"), g.in(4, 90)) + g.s1("end", "", "a")
			}
			return g.s1("x/y", "a/b/c", "42/7", "deep/er/path.txt", "a//b", "x/")
		}
	}
	if g.wide && g.rng.p(15) {
		return g.longWord()
	}
	if g.rng.p(6) {
		return s.text // somebody sends the pattern itself
	}
	return g.s1(append(regexText, "a", "b", "ab", "id", "users", "with space", "ü", "%41", "a\x00b", "\xff\xfea", "..", "*", ":id", "<x>", "")...)
}

func escPath(p string) string { return (&url.URL{Path: p}).EscapedPath() }

// overEsc writes some characters of an escaped path as escapes that need none.
func (g *gen) overEsc(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '%' && i+2 < len(p):
			b.WriteString(strings.ToLower(p[i : i+3]))
			i += 2
		case i > 0 && g.rng.p(20):
			fmt.Fprintf(&b, "%%%02X", c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// target chooses method and path of a request.
func (g *gen) target(m *mengine) (method, p string) {
	rs := g.routesOf(m)
	miss := 12
	if g.p == "C03" {
		miss = 25
	}
	if len(rs) == 0 || g.rng.p(miss) {
		method = g.s1("GET", "POST", "HEAD", "OPTIONS", "DELETE", "PUT")
		for k := g.in(0, 4); k > 0; k-- {
			p += "/" + words[g.n(len(words))]
		}
		if p == "" || g.rng.p(10) {
			p += "/"
		}
		return
	}
	if len(g.mechs) > 1 && g.rng.p(6) { // a route of another engine
		if l := g.routesOf(g.mechs[g.n(len(g.mechs))]); len(l) > 0 {
			rs = l
		}
	}
	r := rs[g.n(len(rs))]
	if g.mount && g.rng.p(50) {
		for _, x := range rs {
			if mountOf(x) != nil {
				r = x
			}
		}
	}
	method = r.method
	if h := mountOf(r); h != nil && g.rng.p(90) {
		method, p = g.target(g.mechs[h.Mount])
		return method, "/mnt" + p
	}
	for i := range r.segs {
		t := g.segText(&r.segs[i], i == len(r.segs)-1)
		if g.p == "C24" && g.rng.p(50) && (r.segs[i].class == cHolder || r.segs[i].class == cAll) {
			t = fmt.Sprintf("p%d", g.rn)
		}
		p += "/" + t
	}
	if g.rng.p(3) || g.p == "C03" && g.rng.p(4) {
		p = "/" + strings.TrimPrefix(r.uri, "/")
	}
	if g.rng.p(12) {
		p += "/"
	}
	if g.p == "C03" && g.rng.p(20) { // leave the route at some segment
		segs := strings.Split(p, "/")
		segs[g.n(len(segs))] = words[g.n(len(words))]
		p = strings.Join(segs, "/")
	}
	if g.p == "C03" && g.rng.p(8) {
		method = g.s1("GET", "POST", "HEAD", "OPTIONS")
	}
	return
}

func (g *gen) request(eng int) *Req {
	g.rn++
	m := g.mechs[eng]
	q := &Req{ID: g.rn, Engine: eng, Conn: ConnSpec{FailAt: -1}, Scripts: map[string][]Op{}}
	var p string
	q.Method, p = g.target(m)
	if g.p == "C09" && g.rng.p(75) || g.rng.p(50) && (g.p == "C05" || g.p == "C15" || g.p == "C01") || g.rng.p(20) && g.p != "C03" {
		g.staticTarget(m, q, &p)
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	q.URL = escPath(p)
	if g.rng.p(5) {
		q.URL = g.overEsc(q.URL)
	}
	if g.rng.p(30) || g.p == "C17" {
		q.URL += "?" + g.query()
	}
	if g.rng.p(3) || g.p == "C03" && g.rng.p(6) {
		switch g.n(4) {
		case 0:
			q.Method = g.s1("TRACE", "PROPFIND", "get", "CONNECT", "")
		case 1:
			q.Proto = "HTTP/1.0"
		case 2:
			q.RawURI = "*"
		case 3:
			q.Proto = "HTTP/2.0"
		}
	}
	q.Strip = g.rng.p(2) && !strings.HasPrefix(p, "//")
	hdr := func(k, v string) { q.Headers = append(q.Headers, [2]string{k, v}) }
	switch g.n(30) {
	case 0, 1:
		q.Trace = "-"
	case 2:
		q.Trace = fmt.Sprintf("%s%d", strings.Repeat("trace-", g.in(1, 60)), g.rn)
	case 3:
		q.Trace = fmt.Sprintf("%08x-é %d", g.rn, g.rn)
	}
	if g.n(100) < 1 && !strings.Contains(q.URL, "?") {
		q.URL += "?long=" + strings.Repeat("0123456789abcdef", g.in(16, 600)) + fmt.Sprint(g.rn)
	}
	if g.rng.p(25) || g.p == "C12" && g.rng.p(40) {
		switch g.n(3) {
		case 0:
			if g.rng.p(30) {
				hdr("X-Forwarded-For", fmt.Sprintf("203.0.113.%d", g.rn%200))
			}
			hdr("X-Real-Ip", fmt.Sprintf("198.51.100.%d", g.rn%200))
		case 1:
			hdr("X-Forwarded-For", fmt.Sprintf(g.s1("203.0.113.%d, 10.0.0.1", "203.0.113.%d", "203.0.113.%d,10.0.0.1, 192.0.2.77"), g.rn%200))
		case 2:
			q.Remote = fmt.Sprintf("[2001:db8::%x]:99", g.rn)
		}
	}
	if g.rng.p(25) {
		hdr("Cookie", fmt.Sprintf("sid=s%d<&>; n=%s; b=true", g.rn, g.s1(fmt.Sprint(g.rn*7), "-3", "2.5", "x", "18446744073709551615", "true")))
	}
	if g.cors && g.rng.p(85) {
		o := g.s1("https://a.example", "https://a.example", "https://b.example", "http://a.example:8080", "https://c.example", "https://evil.example", "null")
		if g.rng.p(25) { // nearly the same
			o = g.s1("https://a.example.evil.net", "https://xa.example", "https://sub.a.example", "http://a.example", "https://a.example:8080", "HTTPS://A.EXAMPLE", "https://a.example/", "https://a.exampl", "https://a.example:443", "https://b.example:443", "http://a.example:80", "https://a.example.", "https://user@a.example", " https://a.example", "https://A.example", "a.example", "https://b.examplehttps://a.example", "*", "https://")
		}
		hdr("Origin", o)
		if q.Method == "OPTIONS" || g.rng.p(10) {
			if g.rng.p(60) {
				hdr("Access-Control-Request-Method", g.s1("GET", "PUT", "DELETE"))
			}
			if g.rng.p(60) {
				h := fmt.Sprintf("x-h%d, content-type", g.rn)
				if g.rng.p(3) {
					for k := g.in(10, 300); k > 0; k-- {
						h += fmt.Sprintf(", x-a%d", k*g.rn)
					}
				}
				hdr("Access-Control-Request-Headers", h)
			}
		}
	}
	if g.rng.p(g.connF) {
		q.Conn.FailAt = g.cut()
		q.Conn.FailKind = g.s1("", "", "reset", "timeout")
	}
	if g.rng.p(g.connF/3) && g.c.Global.Stable {
		q.Conn.PanicAt = 1 + g.cut()
	}
	if g.extended && g.rng.p(10) {
		q.Conn.NoHijack = true
	}
	if g.logger {
		switch g.n(12) {
		case 0:
			q.Log = "error"
		case 1:
			if g.slow > 0 {
				q.Log = "slow"
			}
		case 2:
			if g.p == "C12" || g.p == "C11" {
				q.Log = "stall"
			}
		}
	}
	if g.p == "C24" && g.rng.p(60) { // nothing like it was seen before
		q.Age = g.rn
		q.Headers = nil
		hdr("Origin", fmt.Sprintf("https://o%d.example", g.rn))
		hdr("User-Agent", fmt.Sprintf("agent/%d", g.rn))
		hdr("X-Real-Ip", fmt.Sprintf("2001:db8::%x", g.rn))
		hdr("Cookie", fmt.Sprintf("sid=u%d; c%d=1", g.rn, g.rn))
		hdr("If-None-Match", fmt.Sprintf("\"t%d\"", g.rn))
		if !strings.Contains(q.URL, "?") {
			q.URL += fmt.Sprintf("?k%d=v%d", g.rn, g.rn)
		}
	}
	g.scripts(q, m, p)
	if g.p == "C11" {
		g.stalls(q)
	}
	return q
}

func (g *gen) cut() int {
	switch g.n(4) {
	case 0:
		return 0
	case 1:
		return g.n(12)
	case 2:
		return g.n(700)
	}
	return g.n(6000)
}

func (g *gen) staticTarget(m *mengine, q *Req, p *string) {
	var sts []*mroute
	for _, r := range m.byMeth["GET"] {
		if h := r.chain[len(r.chain)-1]; h.static != nil || h.sfile != nil {
			sts = append(sts, r)
		}
	}
	if len(sts) == 0 {
		return
	}
	r := sts[g.n(len(sts))]
	h := r.chain[len(r.chain)-1]
	q.Method = g.s1("GET", "GET", "GET", "HEAD")
	hdr := func(k, v string) { q.Headers = append(q.Headers, [2]string{k, v}) }
	suffix := ""
	if h.sfile != nil {
		*p = r.uri
		suffix = h.sfile.File
	} else {
		base := strings.TrimSuffix(r.uri, "*")
		var f string
		if h.static.Simple {
			f = g.s1("one.txt", "d/two.css", "d", "d/", "", "none", "../f1.txt", "d/../one.txt")
		} else {
			t := &g.c.Trees[h.static.Tree]
			tf := &t.Files[g.n(len(t.Files))]
			f = strings.TrimPrefix(tf.Path, "/")
			if tf.Dir && g.rng.p(70) && f != "" {
				f += "/"
			}
			switch g.n(14) {
			case 0:
				f = "missing.txt"
			case 1:
				f = "sub/../" + f
			case 2:
				f = f + "/"
			case 3:
				f = "sub//c.js"
			}
			suffix = strings.TrimSuffix(f, "/")
			if len(tf.Vers) > 0 {
				q.Ver = g.n(3)
				v := q.Ver
				if v >= len(tf.Vers) {
					v = len(tf.Vers) - 1
				}
				fv := &tf.Vers[v]
				if g.rng.p(35) {
					// the client knows some version, perhaps another one
					k := &tf.Vers[g.n(len(tf.Vers))]
					switch g.n(4) {
					case 0, 1:
						tag := fmt.Sprintf("%x-%x", modTime(k.Mod).Unix(), len(k.Data))
						if h.static.ETag == 2 {
							tag += fmt.Sprintf("-%x", baseName(tf.Path))
						}
						hdr("If-None-Match", g.s1(tag, tag, tag, `"`+tag+`"`, "*", `W/"`+tag+`"`, tag+"0", tag+"-6", "1"+tag, tag[:len(tag)-1], tag[1:], tag+", x", "x, "+tag, " "+tag+" ", `"`+tag+`", "x"`, strings.ToUpper(tag), ""))
					case 2:
						hdr("If-Modified-Since", httpTime(k.Mod))
					case 3:
						hdr("If-Unmodified-Since", httpTime(k.Mod))
					}
				}
				if g.rng.p(25) {
					hdr("Range", g.rangeSpec(len(fv.Data)))
					if g.rng.p(25) {
						hdr("If-Range", httpTime(tf.Vers[g.n(len(tf.Vers))].Mod))
					}
				}
			}
		}
		*p = base + f
		if h.static.Index != "" && g.rng.p(30) && strings.HasSuffix(f, "/") {
			suffix = h.static.Index
		}
	}
	if h.static != nil && h.static.Expires != "" && g.rng.p(15) {
		q.Faults = append(q.Faults, Fault{Op: "expires"})
	}
	if g.rng.p(35) && g.p != "C05" && h.sfile == nil {
		g.fileFaults(q, suffix, []string{"open", "stat", "seek", "read", "read", "close"})
	}
}

func baseName(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func (g *gen) fileFaults(q *Req, suffix string, ops []string) {
	if suffix == "" {
		suffix = "/"
	}
	for k := g.in(1, 2); k > 0; k-- {
		f := Fault{Op: ops[g.n(len(ops))], Path: suffix, Err: g.s1("eio", "eio", "eacces", "emfile", "enoent", "estale", "etimedout")}
		switch f.Op {
		case "read":
			f.At = int64(g.cut())
			if g.rng.p(20) {
				f.Err = "eof"
			}
		case "write":
			f.At = int64(g.cut())
			f.Err = g.s1("enospc", "eio", "short", "enospc", "eio", "short", "edquot", "etimedout")
		}
		q.Faults = append(q.Faults, f)
	}
}

func (g *gen) rangeSpec(n int) string {
	if n == 0 {
		n = 1
	}
	a, b := g.n(n+3), g.n(n+10)
	switch g.n(8) {
	case 0:
		return fmt.Sprintf("bytes=%d-", a)
	case 1:
		return fmt.Sprintf("bytes=-%d", b)
	case 2:
		return fmt.Sprintf("bytes=%d-%d,%d-%d", 0, g.n(n), a, a+b)
	case 3:
		return "bytes=abc"
	case 4:
		return fmt.Sprintf("bytes=%d-%d", n+5, n+9)
	}
	return fmt.Sprintf("bytes=%d-%d", a, a+b)
}

var vals = []string{"1", " 2 ", "x", "", "true", "3.5", " sp aced ", "ü", "-7", "999999999999999999999", "a&b=c", "%"}
var keys = []string{"a", "b", "n", "ids[x]", "ids[y]", "ids[]", "a[b]", "ids", "sp key", "ids[x][y]", "ids[x]z", "a[b][c]", "ids[x", "[x]", "ids[y] "}

func (g *gen) pairs() url.Values {
	v := url.Values{}
	for k := g.in(0, 5); k > 0; k-- {
		val := vals[g.n(len(vals))]
		if g.rng.p(40) {
			val = fmt.Sprintf("r%d_%d", g.rn, k)
		}
		v.Add(keys[g.n(len(keys))], val)
	}
	if g.p == "C17" && g.rng.p(2) {
		k := keys[g.n(len(keys))]
		for n := g.in(30, 1500); n > 0; n-- {
			if g.rng.p(10) {
				k = keys[g.n(len(keys))]
			}
			v.Add(k, fmt.Sprintf("m%d", n))
		}
	}
	return v
}

func (g *gen) query() string {
	s := g.pairs().Encode()
	switch g.n(14) {
	case 0:
		return s + "&bad=%zz"
	case 1:
		return s + "&semi=a;b"
	case 2:
		return s + "&&=&"
	}
	return s
}

func (g *gen) multipart(fields url.Values, files int) []byte {
	var sb strings.Builder
	for _, k := range sortedKeys(fields) {
		for _, v := range fields[k] {
			fmt.Fprintf(&sb, "--XbX\r\nContent-Disposition: form-data; name=%q\r\n\r\n%s\r\n", k, v)
		}
	}
	names := []string{"file", "files", "files", "up"}
	for i := 0; i < files; i++ {
		fmt.Fprintf(&sb, "--XbX\r\nContent-Disposition: form-data; name=%q; filename=\"n%d_%d.bin\"\r\nContent-Type: application/octet-stream\r\n\r\n%s\r\n", names[g.n(4)], g.rn, i, g.bytes(g.upSize()))
	}
	sb.WriteString("--XbX--\r\n")
	return []byte(sb.String())
}

func (g *gen) upSize() int {
	if g.soak {
		return g.in(0, 100)
	}
	if g.n(15) == 0 {
		return []int{512, 4096, 32768, 65536, 131072}[g.n(5)] + g.in(-1, 1)
	}
	switch g.n(6) {
	case 0:
		return 0
	case 1:
		return g.in(1, 60)
	case 2, 3:
		return g.in(100, 3000)
	case 4:
		return g.in(30000, 70000)
	}
	return g.in(1, 600)
}

// body attaches a request body.
func (g *gen) body(q *Req, ct string, data []byte) {
	b := &BodySpec{Data: data, Frags: g.frags(), FailAt: -1, ZeroRead: g.rng.p(10), EOFWith: g.rng.p(30), Chunked: g.rng.p(30), CloseErr: g.rng.p(5)}
	if len(data) > 20000 && len(b.Frags) > 0 {
		for i := range b.Frags {
			if b.Frags[i] > 0 && b.Frags[i] < 100 {
				b.Frags[i] += 500
			}
		}
	}
	fail := 25
	if g.p == "C01" || g.p == "C15" {
		fail = 10
	}
	if g.rng.p(fail) {
		b.FailAt = g.n(len(data) + 1)
		if g.rng.p(20) && len(data) > 3 {
			b.FailAt = len(data) - g.n(3)
		}
		b.FailKind = g.s1("reset", "timeout", "eof", "reset", "timeout", "eof", "canceled", "toolarge")
	}
	if slow := g.slow / 2; slow > 0 && g.rng.p(slow) && !g.soak {
		b.Slow = g.in(1, 3000) * []int{1, 10, 1000}[g.n(3)]
	}
	q.Body = b
	if ct != "" {
		q.Headers = append(q.Headers, [2]string{"Content-Type", ct})
	}
}

// pad has a document come behind a lot of blanks.
func (g *gen) pad(q *Req) {
	b := q.Body
	b.Pad = []int{1 << 16, 1 << 20, 1<<20 - len(b.Data), 4 << 20, 10 << 20, 10<<20 - len(b.Data), 33 << 20}[g.n(7)]
	b.Frags = []int{0, 60000}
	b.ZeroRead = false
	if b.FailAt >= 0 {
		b.FailAt += b.Pad
	}
}

// val chooses a value for a document; the first one is always a plain one.
func (g *gen) val(vs []string) string {
	if g.mild && g.rng.p(90) {
		return vs[0]
	}
	return vs[g.n(len(vs))]
}

func (g *gen) val1(vs ...string) string { return g.val(vs) }

func (g *gen) jsonDoc() []byte {
	g.mild = g.rng.p(50)
	f := []string{}
	add := func(pct int, s string) {
		if g.rng.p(pct) {
			f = append(f, s)
		}
	}
	add(88, fmt.Sprintf(`"name":"n%d"`, g.rn))
	add(60, `"age":`+g.val1("5", "0", "-5", "120", "121", "127", "128", "300", "-200"))
	add(50, `"count":`+g.val1("1", "65535", "65536", "-1", "0"))
	add(40, `"wide":`+g.val1("1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", g.digits()))
	add(40, `"mid":`+g.val1("7", "2147483647", "2147483648", "-2147483649", g.digits()))
	add(40, `"score":`+g.val1("1.5", "-3", "0.25", "1024", "16777217", "0.1", "3.4e38", "3.5e38", "1e39", "-1e39", "1e-50"))
	add(40, `"tags":`+g.val1(`["a","b"]`, `["a","b","c","d"]`, `[]`, `["x"]`, `"str"`))
	add(40, `"flag":`+g.val1("true", "false", `"yes"`))
	add(40, `"opt":`+g.val1("3", "32767", "32768", "null"))
	add(40, `"level":`+g.val1("1", "12"))
	add(40, `"inner":`+g.val1(`{"city":"Ulm","zip":89}`, `{"city":"a city with a long name","zip":1}`, `{"zip":256}`, `{}`))
	add(20, fmt.Sprintf(`"pad":%q`, g.data(g.size())))
	add(20, `"extra":{"deep":[1,2,{"x":null}]}`)
	sep := g.s1(",", ", ", " ,\n")
	s := "{" + strings.Join(f, sep) + "}"
	switch g.n(16) {
	case 0:
		s = s[:g.n(len(s))] // cut, and still announced as whole
	case 1:
		s += "\n"
	case 2:
		s = s + g.s1(" ", "\n\n")
	}
	return []byte(s)
}

func (g *gen) xmlDoc() []byte {
	g.mild = g.rng.p(50)
	s := "<doc>"
	add := func(pct int, n string, v ...string) {
		if g.rng.p(pct) {
			s += "<" + n + ">" + g.val(v) + "</" + n + ">"
		}
	}
	add(88, "name", fmt.Sprintf("n%d", g.rn), "a &amp; b")
	add(60, "age", "5", "-5", "121", "300", "abc")
	add(50, "count", "1", "65536", "0")
	add(40, "wide", "9223372036854775807", "9223372036854775808")
	add(40, "mid", "2147483648", "12")
	add(40, "score", "1.5", "x", "16777217", "3.4e38", "1e39", "-1e39", "0.1")
	add(50, "tags", "one")
	add(50, "tags", "two")
	add(40, "nums", "255", "256")
	add(40, "flag", "true", "0", "maybe")
	add(40, "opt", "3", "40000")
	add(40, "level", "4")
	add(40, "inner", "<city>Ulm</city><zip>9</zip>", "<zip>999</zip>")
	add(20, "pad", string(g.data(g.size())))
	s += "</doc>"
	if g.rng.p(6) {
		s = s[:g.n(len(s))]
	}
	return []byte(s)
}

func (g *gen) formDoc(tag string) url.Values {
	g.mild = g.rng.p(50)
	v := url.Values{}
	add := func(pct int, n string, vs ...string) {
		if g.rng.p(pct) {
			if tag == "header" {
				n = "x-" + n
			}
			v.Add(n, g.val(vs))
		}
	}
	add(88, "name", fmt.Sprintf("n%d", g.rn), "two words")
	add(60, "age", "5", "-5", "121", "127", "128", "300", "", "1x")
	add(50, "count", "1", "65535", "65536", "70000", "-1", "0")
	add(40, "wide", "9223372036854775807", "9223372036854775808", "-9223372036854775808")
	add(40, "mid", "2147483647", "2147483648", "-2147483649", "4294967297")
	add(40, "score", "1.5", "x", "", "16777217", "3.4e38", "1e39", "-1e39", "0.1", "NaN", "1e-50")
	add(50, "tags", "one")
	add(50, "tags", "two")
	add(40, "nums", "255", "256", "7")
	add(30, "nums", "12", "-1")
	add(40, "flag", "true", "0", "maybe", "")
	add(40, "opt", "3", "40000", "-32768")
	add(40, "level", "4", "", "x")
	add(40, "day", "2020-02-29", "2021-02-29", "")
	add(40, "city", "Ulm", "a city with a long name")
	add(40, "zip", "9", "256", "999")
	add(20, "unknown", "z")
	return v
}

// edge gives numbers at the edges of a kind, the first an empty text, the second plain.
func (g *gen) edge(bits int, signed bool) []string {
	l := []string{"", "7"}
	k := bits
	if signed {
		k--
	}
	for _, d := range []int64{-1, 0, 1, 5} {
		x := new(big.Int).Lsh(big.NewInt(1), uint(k))
		x.Add(x, big.NewInt(d))
		l = append(l, x.String())
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(k)))
		l = append(l, x.String())
		if signed {
			y := new(big.Int).Lsh(big.NewInt(-1), uint(k))
			l = append(l, y.Add(y, big.NewInt(-d)).String())
		}
	}
	if !signed {
		l = append(l, "-1")
	}
	return append(l, g.digits(), g.digits(), g.digits())
}

// digits is a number of up to 22 digits.
func (g *gen) digits() string {
	s := []string{"", "", "-"}[g.n(3)] + fmt.Sprint(1+g.n(9))
	for k := g.n(22); k > 0; k-- {
		s += fmt.Sprint(g.n(10))
	}
	return s
}

// frac is a number with a fraction, an exponent, or both.
func (g *gen) frac() string {
	s := g.digits()
	if g.rng.p(70) {
		s += fmt.Sprintf(".%d", g.n(100000))
	}
	if g.rng.p(30) {
		s += fmt.Sprintf("%s%d", g.s1("e", "E", "e-", "e+"), g.n(30))
	}
	return s
}

// arrForm fills a BindA.
func (g *gen) arrForm() url.Values {
	v := url.Values{}
	if g.rng.p(60) {
		v.Add("name", fmt.Sprintf("n%d", g.rn))
	}
	if g.rng.p(60) {
		for k := []int{3, 3, 3, 3, 2, 4, 1}[g.n(7)]; k > 0; k-- {
			v.Add("trio", g.s1("1", "-128", "127", "127", "4", "", g.s1("128", "-129", "x", "7")))
		}
	}
	if g.rng.p(40) {
		for k := []int{1, 1, 1, 2}[g.n(4)]; k > 0; k-- {
			v.Add("duo", g.s1("one", "two", ""))
		}
	}
	if g.rng.p(40) {
		for k := g.in(1, 3); k > 0; k-- {
			v.Add("spans", g.s1("1s", "-3m2s", "250ms", g.s1("9", "", "0", "5h")))
		}
	}
	return v
}

// richForm and richJSON fill a BindR.
func (g *gen) richForm() url.Values {
	g.mild = g.rng.p(50)
	v := url.Values{}
	add := func(pct int, n string, vs ...string) {
		if g.rng.p(pct) {
			v.Add(n, g.val(vs))
		}
	}
	few := func(pct int, n string, vs ...string) {
		if g.rng.p(pct) {
			for k := g.in(1, 5); k > 0; k-- {
				v.Add(n, g.val(vs))
			}
		}
	}
	add(92, "lang", fmt.Sprintf("l%d", g.rn), "de")
	add(40, "rank", "0", "1000", "4294967295", "4294967296", "7", "4294967297", "4294968295")
	add(40, "code", "5", "13", "-2147483648", "2147483648", "")
	add(40, "street", "Ringweg", "a long way to go")
	add(40, "no", "12", "65535", "65536", "-1")
	add(30, "geo", `{"lat":1.25,"alt":-7}`, `{"alt":32768}`, `{"lat":`+g.frac()+`}`, `{"alt":`+g.digits()+`}`, `{"lat":`, `{}`, `{"alt":9}`)
	add(30, "attrs", `{"a":1,"b":2}`, `{"a":"x"}`, `{}`, `{"a":1`, `{"a":`+g.digits()+`}`)
	add(40, "big", "18446744073709551615", "18446744073709551616", "9007199254740993", "-1", "0")
	add(40, "f64", "0.1", "1e308", "1e309", "-2.5", "x", "9007199254740993", "", g.frac(), g.frac())
	add(40, "dur", "1500", "-1", "9223372036854775807", "9223372036854775808", "1s")
	few(40, "words", "w", "two", "eightxxx", "toolongword", "")
	few(40, "ids", "1", g.digits(), "-9223372036854775808", "9223372036854775807", "9223372036854775808", "", "9007199254740993", "4294967296")
	few(30, "oks", "true", "false", "1", "0", "", "maybe")
	few(30, "fs", "1.5", "0.1", "3.5e38", "16777217", "")
	few(30, "ptrs", "1", "2", "-2147483648", "2147483648", "")
	add(30, "unix", "1600000000", "0", "-1", "253402300799", "x", "")
	add(30, "nano", "1600000000123456789", "1", "-1", "999999999", "1.5")
	add(30, "min", "2021-03-04 05:06", "2021-03-04", "", "2024-02-29 23:59")
	add(30, "stamp", "2021-03-04T05:06:07Z", "2021-03-04T05:06:07+02:00", "2021-03-04T05:06:07.25Z", "yesterday", "")
	add(30, "here", "2021-07-04 05:06:07", "2021-01-04 05:06:07", "2021-01-04", "")
	add(30, "there", "2021-07-04 05:06:07", "2021-01-04 05:06:07", "x", "")
	add(20, "zed", "2021-07-04T05:06:07Z", "2021-01-04T05:06:07", "")
	add(20, "offs", "2021-07-04T05:06:07+02:00", "2021-07-04T05:06:07Z", "2021-07-04T05:06:07", "")
	add(20, "only", "05:06", "25:00", "")
	add(40, "small", "-128", "127", "128", "256", "0", "", "-129")
	add(40, "u", "4294967296", "18446744073709551615", "-1", "3")
	add(30, "ps", "text", "")
	add(30, "pf", "1.5", "", "x")
	add(40, "i16", g.edge(16, true)...)
	add(40, "i32", g.edge(32, true)...)
	add(40, "port", g.edge(16, false)...)
	add(40, "u32", g.edge(32, false)...)
	add(40, "i", g.edge(64, true)...)
	add(15, "-", "dash")
	add(15, "Bare", "bare")
	return v
}

func (g *gen) richJSON() []byte {
	g.mild = g.rng.p(50)
	f := []string{}
	add := func(pct int, n string, vs ...string) {
		if g.rng.p(pct) {
			f = append(f, fmt.Sprintf("%q:%s", n, g.val(vs)))
		}
	}
	add(92, "lang", fmt.Sprintf(`"l%d"`, g.rn), `"de"`)
	add(40, "rank", "0", "1000", "4294967295", "4294967296", "7", "-1")
	add(40, "code", "5", "13", "-2147483648", "2147483648")
	add(40, "sub", `{"street":"Ringweg","no":12}`, `{"street":"a long way to go"}`, `{"no":65536}`, `{}`, "null")
	add(30, "geo", `{"lat":1.25,"alt":-7}`, `{"alt":32768}`, `{}`, `{"alt":9}`)
	add(30, "attrs", `{"a":1,"b":2}`, `{"a":"x"}`, `{}`, "null", `{"a":`+g.digits()+`}`)
	add(40, "big", "18446744073709551615", "18446744073709551616", "9007199254740993", "-1", "0")
	add(40, "f64", "0.1", "1e308", "-2.5", `"x"`, "9007199254740993", g.frac(), g.frac())
	add(40, "dur", "1500", "-1", "9223372036854775807", "9223372036854775808")
	add(40, "words", `["w","two"]`, `["eightxxx"]`, `["w","toolongword"]`, `[]`, `["a","b","c","d","e"]`)
	add(40, "ids", "["+g.digits()+","+g.digits()+"]", "[1,-9223372036854775808]", "[9223372036854775807,9007199254740993]", "[9223372036854775808]", "[4294967296]")
	add(30, "oks", "[true,false]", "[true,1]", "[]")
	add(30, "fs", "[1.5,0.1]", "[16777217]", "["+g.frac()+"]")
	add(30, "ptrs", "[1,null,-2147483648]", "[2147483648]")
	add(30, "stamp", `"2021-03-04T05:06:07Z"`, `"2021-03-04T05:06:07+02:00"`, `"yesterday"`)
	add(40, "small", "-128", "127", "128", "0", "-129")
	add(40, "u", "4294967296", "18446744073709551615", "-1", "3")
	add(30, "ps", `"text"`, `""`, "null", `"\u00fc\n"`)
	add(30, "pf", "1.5", "null")
	for _, n := range []string{"i16", "i32", "i"} {
		bits := map[string]int{"i16": 16, "i32": 32, "i": 64}[n]
		add(30, n, g.edge(bits, true)[1:]...)
	}
	add(30, "port", g.edge(16, false)[1:]...)
	add(30, "u32", g.edge(32, false)[1:]...)
	sep := g.s1(",", ", ", " ,\n")
	for i := len(f) - 1; i > 0; i-- {
		j := g.n(i + 1)
		f[i], f[j] = f[j], f[i]
	}
	s := "{" + strings.Join(f, sep) + "}"
	if g.rng.p(6) {
		s = s[:g.n(len(s))]
	}
	return []byte(s)
}

// stalls makes a request stop somewhere for as long as anybody else can run.
func (g *gen) stalls(q *Req) {
	if !g.rng.p(55) && !g.crowd {
		return
	}
	switch g.n(5) {
	case 0:
		if q.Body != nil {
			q.Body.StallAt = 1 + g.n(len(q.Body.Bytes())+1)
		}
	case 1:
		q.Conn.StallAt = 1 + g.cut()
	case 2:
		if g.logger {
			q.Log = "stall"
		}
	case 3:
		q.Faults = append(q.Faults, Fault{Op: g.s1("stall", "stallwrite"), Path: ""})
	default:
		for _, id := range sortedScripts(q.Scripts) {
			s := q.Scripts[id]
			if g.rng.p(60) {
				i := g.n(len(s) + 1)
				q.Scripts[id] = append(append(append([]Op{}, s[:i]...), Op{Op: "stall"}), s[i:]...)
				break
			}
		}
	}
}

var _ = regexp.MustCompile
