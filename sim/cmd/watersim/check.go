package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"watersim/simrt"
	"watersim/wsim"
)

// BuildInfo says how the code under test was built (written by tools/build.sh).
type BuildInfo struct {
	Mode  string `json:"mode"` // full, noshim, plain
	Sites int    `json:"sites"`
	Tags  string `json:"tags"`
	Race  bool   `json:"race"`
	Note  string `json:"note"`
}

type coord struct {
	prop    string
	prof    func(class string) bool
	scratch string
	self    string
	build   BuildInfo
	dirNo   atomic.Int64
	workers int
	trials  atomic.Int64
}

func (k *coord) degraded() bool { return k.build.Mode != "full" }

func newCoord(prop, scratch string) *coord {
	k := &coord{prop: prop, scratch: scratch}
	k.self, _ = os.Executable()
	raw, err := os.ReadFile(filepath.Join(scratch, "build.json"))
	if err == nil {
		json.Unmarshal(raw, &k.build)
	}
	if p := wsim.Profiles[prop]; p != nil {
		k.prof = p.Has
	}
	if c := os.Getenv("WSIM_CLASSES"); c != "" { // development
		k.prof = func(class string) bool { return strings.Contains(c, class) }
	}
	k.workers = runtime.NumCPU()
	if k.workers > 8 {
		k.workers = 8
	}
	return k
}

// run is the outcome of one worker process.
type run struct {
	res     []Result
	done    *Done
	started int    // last run begun
	crash   string // the process died
	hung    bool
	races   string
}

func (k *coord) spawn(ctx context.Context, b *Batch, patience time.Duration) *run {
	dir := filepath.Join(k.scratch, "w", fmt.Sprint(k.dirNo.Add(1)))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	b.Scratch = filepath.Join(dir, "s")
	b.Sites = k.build.Sites
	b.Degraded = k.degraded()
	b.Profile = k.prop
	in, err := json.Marshal(b)
	if err != nil {
		return &run{crash: "harness: " + err.Error()}
	}
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	cmd := exec.CommandContext(ctx, k.self, "worker")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "TZ=Asia/Kolkata", "WSIM_RACELOG="+filepath.Join(dir, "race"),
		"GORACE=halt_on_error=0 exitcode=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(dir, "race"))
	var stderr tail
	cmd.Stderr = &stderr
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return &run{crash: "harness: " + err.Error()}
	}
	r := &run{started: -1}
	if err := cmd.Start(); err != nil {
		return &run{crash: "harness: " + err.Error()}
	}
	var hung atomic.Bool
	watch := time.AfterFunc(patience, func() { hung.Store(true); cancel() })
	sc := bufio.NewReaderSize(pipe, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 0 {
			watch.Reset(patience)
			var probe struct {
				Start *int  `json:"start"`
				Done  *bool `json:"done"`
			}
			if json.Unmarshal(line, &probe) == nil {
				switch {
				case probe.Start != nil:
					r.started = *probe.Start
				case probe.Done != nil:
					r.done = new(Done)
					json.Unmarshal(line, r.done)
				default:
					var res Result
					if json.Unmarshal(line, &res) == nil {
						r.res = append(r.res, res)
					}
				}
			}
		}
		if err != nil {
			break
		}
	}
	watch.Stop()
	cmd.Wait()
	r.hung = hung.Load()
	if r.done == nil && !r.hung && ctx.Err() == nil {
		r.crash = stderr.String()
		if r.crash == "" {
			r.crash = "process ended silently"
		}
	}
	if fs, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(fs) > 0 {
		raw, _ := os.ReadFile(fs[0])
		r.races = string(raw)
	}
	return r
}

// tail keeps the beginning and the end of what a worker prints.
type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// the first fatal message is what matters; log noise before it is cut
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<20 {
		if !bytes.Contains(t.buf, []byte("fatal error")) && !bytes.Contains(t.buf, []byte("panic:")) {
			t.buf = t.buf[len(t.buf)-1<<18:]
		}
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.buf)
	for _, m := range []string{"panic:", "fatal error:", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// Finding is a confirmed violation.
type Finding struct {
	Property string          `json:"property"`
	Mismatch wsim.Mismatch   `json:"mismatch"`
	All      []wsim.Mismatch `json:"all_mismatches,omitempty"`
	Hash     uint64          `json:"hash"`
	Exact    bool            `json:"replayed_exactly"`
	Seed     uint64          `json:"seed"`
	Build    BuildInfo       `json:"build"`
	Note     string          `json:"note,omitempty"`
	Races    string          `json:"races,omitempty"`
	Crash    string          `json:"crash,omitempty"`
	Cases    []*wsim.Case    `json:"cases"` // run in order in one process; the last one fails
	switches []simrt.Switch
}

func clone(c *wsim.Case) *wsim.Case {
	raw, _ := json.Marshal(c)
	n := new(wsim.Case)
	json.Unmarshal(raw, n)
	return n
}

// crashCounts: does the death of the process break the property?
func (k *coord) crashCounts() bool { return k.prop != "C15" }

// confirm runs the cases in a fresh process and tells whether the last one
// breaks the property.
func (k *coord) confirm(seq []*wsim.Case) *Finding {
	k.trials.Add(1)
	r := k.spawn(context.Background(), &Batch{Cases: seq}, 60*time.Second)
	last := seq[len(seq)-1]
	f := &Finding{Property: k.prop, Cases: seq, Build: k.build, Seed: last.Seed, Races: r.races}
	if r.crash != "" {
		if strings.Contains(r.crash, "harness:") || r.started != len(seq)-1 || !k.crashCounts() {
			return nil
		}
		f.Crash = r.crash
		f.Mismatch = wsim.Mismatch{Req: -1, Class: "!", Detail: "the process died: " + firstLine(r.crash)}
		h := fnv.New64a()
		h.Write([]byte(firstLine(r.crash)))
		f.Hash = h.Sum64()
		return f
	}
	if r.hung || r.done == nil || len(r.res) != len(seq) {
		return nil
	}
	res := r.res[len(r.res)-1]
	f.All, f.Hash, f.switches = res.Mis, res.Hash, res.Switches
	for _, m := range res.Mis {
		if !k.prof(m.Class) {
			continue
		}
		if !k.relevant(last, m) {
			continue
		}
		f.Mismatch = m
		return f
	}
	return nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// relevant applies the comparisons between runs that C01 and C14 consist of:
// the same request, with the others (or the other engines) taken away.
func (k *coord) relevant(c *wsim.Case, m wsim.Mismatch) bool {
	switch k.prop {
	case "C01":
		if m.Req < 0 {
			return false
		}
		s := solo(c, m.Req)
		return s != nil && !k.mismatches(s, m.Req)
	case "C14":
		if m.Req < 0 {
			return m.Class == "X"
		}
		if m.Class == "U" {
			return true
		}
		e := engineOf(c, m.Req)
		o := only(c, e)
		if o == nil {
			return false
		}
		for i := 0; i < 5; i++ {
			t := clone(o)
			if i == 0 {
				t.Pol = simrt.Policy{Kind: "rr"}
			}
			t.Replay, t.Switches = false, nil
			t.SchedSeed += uint64(i) * 7919
			if k.mismatches(t, m.Req) {
				return false
			}
		}
		s := solo(c, m.Req)
		return s != nil && !k.mismatches(s, m.Req)
	}
	return true
}

func (k *coord) mismatches(c *wsim.Case, req int) bool {
	r := k.spawn(context.Background(), &Batch{Cases: []*wsim.Case{c}}, 60*time.Second)
	if r.crash != "" || r.hung || len(r.res) != 1 {
		return true // cannot tell: not counted
	}
	for _, m := range r.res[0].Mis {
		if m.Req == req && k.prof(m.Class) {
			return true
		}
	}
	return false
}

func findReq(c *wsim.Case, id int) *wsim.Req {
	for i := range c.Clients {
		for j := range c.Clients[i].Items {
			if q := c.Clients[i].Items[j].Req; q != nil && q.ID == id {
				return q
			}
		}
	}
	return nil
}

func engineOf(c *wsim.Case, id int) int {
	if q := findReq(c, id); q != nil {
		return q.Engine
	}
	return -1
}

// solo is the case with one request only, on an engine of its own.
func solo(c *wsim.Case, id int) *wsim.Case {
	n := clone(c)
	q := findReq(n, id)
	if q == nil {
		return nil
	}
	n.Clients = []wsim.Client{{Items: []wsim.Item{{Req: q}}}}
	keepEngine(n, q.Engine)
	n.Pol = simrt.Policy{Kind: "rr"}
	n.Replay, n.Switches = false, nil
	return n
}

// only keeps one engine and its requests.
func only(c *wsim.Case, e int) *wsim.Case {
	if e < 0 {
		return nil
	}
	n := clone(c)
	for i := range n.Clients {
		var items []wsim.Item
		for _, it := range n.Clients[i].Items {
			if it.Req != nil && it.Req.Engine == e {
				items = append(items, it)
			}
		}
		n.Clients[i].Items = items
	}
	keepEngine(n, e)
	return n
}

// keepEngine keeps one engine, and those mounted in it, each built from a
// router of its own that has all that the engine had when it was built.
func keepEngine(n *wsim.Case, e int) {
	num := map[int]int{}
	var engines []wsim.EngineSpec
	var routers []wsim.RouterSpec
	var keep func(e int)
	keep = func(e int) {
		if _, ok := num[e]; ok || e < 0 || e >= len(n.Engines) {
			return
		}
		k := len(engines)
		num[e] = k
		spec := n.Engines[e]
		r := n.Routers[spec.Router]
		r.Items = wsim.ItemsOf(n, e)
		spec.Router, spec.Extra, spec.Late, spec.OptOf = k, nil, false, 0
		engines, routers = append(engines, spec), append(routers, r)
		for _, d := range r.Items {
			if d.Route == nil {
				continue
			}
			for _, h := range d.Route.Handlers {
				if h.Kind == "mount" {
					keep(h.Mount)
				}
			}
		}
	}
	keep(e)
	c := &wsim.Case{Routers: routers}
	routers = clone(c).Routers // they share declarations so far
	for i := range routers {
		for _, d := range routers[i].Items {
			if d.Route == nil {
				continue
			}
			for k := range d.Route.Handlers {
				if h := &d.Route.Handlers[k]; h.Kind == "mount" {
					h.Mount = num[h.Mount]
				}
			}
		}
	}
	n.Engines, n.Routers = engines, routers
	for i := range n.Clients {
		for j := range n.Clients[i].Items {
			if q := n.Clients[i].Items[j].Req; q != nil {
				q.Engine = num[q.Engine]
			}
		}
	}
}

type tally struct {
	mu        sync.Mutex
	runs      int
	nontriv   map[uint64]bool
	sched     map[uint64]bool
	hashes    map[uint64]uint64 // seed -> hash, of a sample
	requests  int
	overlap   int
	steps     int64
	sim       int64
	switches  int64
	reuses    int64
	fired     map[string]int
	probes    map[string]int
	visited   map[int]bool
	preempted map[int]bool
	samples   []json.RawMessage
	crashes   int
	hung      int
	other     map[string]int // mismatches that do not concern this property
	unconf    []string
	reexec    int
	reexecBad int
}

func (t *tally) add(r *Result) {
	t.runs++
	if r.Nontrivial && r.Requests > 0 {
		t.nontriv[r.Shape^r.Sched] = true
	}
	t.sched[r.Sched] = true
	t.requests += r.Requests
	if r.Overlap {
		t.overlap++
	}
	t.steps += int64(r.Steps)
	t.sim += r.SimNS
	t.switches += int64(r.NSw)
	t.reuses += int64(r.Reuses)
	for k, n := range r.Fired {
		t.fired[k] += n
	}
	for k, n := range r.Probes {
		t.probes[k] += n
	}
	if len(r.Sample) > 0 && len(t.samples) < 3 {
		t.samples = append(t.samples, r.Sample)
	}
}

func check() int {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	scratch := flag.String("scratch", "", "")
	verif := flag.String("verif", "/verif", "")
	maxRuns := flag.Int("runs", 0, "")
	budget := flag.Int("seconds", 0, "")
	keepGoing := flag.Bool("all", false, "report every distinct class instead of stopping (development)")
	flag.Parse()
	t0 := time.Now()
	k := newCoord(*prop, *scratch)
	if k.prof == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	runs, secs := quota(*prop, *tier)
	if *maxRuns > 0 {
		runs = *maxRuns
	}
	if *budget > 0 {
		secs = *budget
	}
	t := &tally{nontriv: map[uint64]bool{}, sched: map[uint64]bool{}, hashes: map[uint64]uint64{}, fired: map[string]int{}, probes: map[string]int{}, visited: map[int]bool{}, preempted: map[int]bool{}, other: map[string]int{}}
	var pn uint64
	fmt.Sscanf(*prop, "C%d", &pn)
	batchSize := 64
	if k.build.Race {
		batchSize = 12
	}
	if *prop == "C24" {
		batchSize = 4
	}
	var next atomic.Int64
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	found := make(chan *Finding, 64)
	var wg sync.WaitGroup
	var triage sync.Mutex
	triaged := map[string]int{}
	harness := ""
	for w := 0; w < k.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ctx.Err() == nil && time.Now().Before(deadline) {
				bi := next.Add(1) - 1
				if int(bi)*batchSize >= runs {
					return
				}
				b := &Batch{Render: bi%5 == 4, Sample: bi < 2}
				for i := 0; i < batchSize; i++ {
					b.Seeds = append(b.Seeds, wsim.Mix(*seed, pn, uint64(bi), uint64(i)))
				}
				seeds := b.Seeds
				first := true
				var hashes []Result
				for len(seeds) > 0 && ctx.Err() == nil {
					b.Seeds = seeds
					r := k.spawn(ctx, b, 60*time.Second)
					if ctx.Err() != nil {
						return
					}
					t.mu.Lock()
					for i := range r.res {
						t.add(&r.res[i])
					}
					if r.done != nil {
						for _, v := range r.done.Visited {
							t.visited[v] = true
						}
						for _, v := range r.done.Preempted {
							t.preempted[v] = true
						}
					}
					t.mu.Unlock()
					if first {
						hashes = r.res
					}
					first = false
					n := len(seeds)
					if r.done != nil {
						n = r.done.Next
					} else {
						n = r.started + 1
						if n < 1 {
							n = 1
						}
					}
					// look at what differs
					cand := func(i int, why string, isCrash bool) {
						triage.Lock()
						if triaged[why] >= 6 || ctx.Err() != nil {
							triage.Unlock()
							return
						}
						triaged[why]++
						triage.Unlock()
						f := k.investigate(b, seeds, i)
						if f == nil {
							t.mu.Lock()
							if len(t.unconf) < 20 {
								t.unconf = append(t.unconf, fmt.Sprintf("seed %016x: %s", seeds[i], why))
							}
							t.mu.Unlock()
							return
						}
						if !*keepGoing {
							cancel()
						}
						found <- f
					}
					if r.crash != "" {
						if strings.Contains(r.crash, "harness:") {
							triage.Lock()
							harness = r.crash
							triage.Unlock()
							cancel()
							return
						}
						t.mu.Lock()
						t.crashes++
						t.mu.Unlock()
						if r.started >= 0 && k.crashCounts() {
							cand(r.started, "crash", true)
						}
					}
					if r.hung {
						t.mu.Lock()
						t.hung++
						t.mu.Unlock()
					}
					for i := range r.res {
						for _, m := range r.res[i].Mis {
							if k.prof(m.Class) {
								cand(r.res[i].I, m.Class, false)
								break
							}
							t.mu.Lock()
							t.other[m.Class]++
							t.mu.Unlock()
						}
					}
					if n > len(seeds) {
						n = len(seeds)
					}
					seeds = seeds[n:]
				}
				// one batch in sixteen is run again: it must repeat exactly
				if bi%16 == 3 && ctx.Err() == nil && len(hashes) > 4 {
					again := k.spawn(ctx, &Batch{Seeds: b0seeds(*seed, pn, bi, 4), Render: b.Render}, 60*time.Second)
					if len(again.res) == 4 {
						t.mu.Lock()
						for i := range again.res {
							t.reexec++
							if again.res[i].Hash != hashes[i].Hash {
								t.reexecBad++
							}
						}
						t.mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	close(found)
	explore := time.Since(t0)
	if harness != "" {
		fmt.Fprintln(os.Stderr, "harness failure:", harness)
		return 2
	}
	var fs []*Finding
	for f := range found {
		fs = append(fs, f)
	}
	// the smallest history first
	sort.SliceStable(fs, func(i, j int) bool { return len(fs[i].Cases) < len(fs[j].Cases) })
	code := 0
	if len(fs) > 0 {
		n := 1
		if *keepGoing {
			n = len(fs)
		}
		for _, f := range fs[:n] {
			f = k.minimise(f, minimiseFor(*tier))
			path := k.writeReplay(*verif, f)
			fmt.Printf("seed %016x class %s request %d: %s\n", f.Seed, f.Mismatch.Class, f.Mismatch.Req, f.Mismatch.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
		code = 1
	}
	if t.hung > 0 {
		fmt.Printf("note: %d worker processes were ended by the watchdog\n", t.hung)
		if code == 0 && t.hung > 2 {
			code = 2
		}
	}
	for _, u := range t.unconf {
		fmt.Println("note: not confirmed:", u)
	}
	if t.runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "nothing was run")
		code = 2
	}
	k.evidence(*verif, *tier, *seed, t, explore, time.Since(t0), code, runs, secs)
	fmt.Printf("%s: %d runs, %d requests, %d distinct non-trivial, %d interleavings, %.1f simulated s, %.1fs\n", *prop, t.runs, t.requests, len(t.nontriv), len(t.sched), float64(t.sim)/1e9, time.Since(t0).Seconds())
	if *keepGoing {
		fmt.Println("other mismatches:", t.other, "fired:", t.fired, "probes:", t.probes, "re-executed:", t.reexec, "differing:", t.reexecBad, "sites:", len(t.visited), len(t.preempted), k.build.Sites)
	}
	return code
}

func b0seeds(seed, pn uint64, bi int64, n int) (s []uint64) {
	for i := 0; i < n; i++ {
		s = append(s, wsim.Mix(seed, pn, uint64(bi), uint64(i)))
	}
	return
}

// quota: how many runs, and the wall clock limit in seconds.
func quota(prop, tier string) (int, int) {
	runs, secs := 30000, 45
	if tier == "thorough" {
		runs, secs = 2000000, 600
	}
	if prop == "C15" {
		runs, secs = 3000, 60
		if tier == "thorough" {
			runs, secs = 200000, 600
		}
	}
	if prop == "C24" {
		runs = 500
		if tier == "thorough" {
			runs = 200000
		}
	}
	return runs, secs
}

func minimiseFor(tier string) time.Duration {
	if tier == "thorough" {
		return 60 * time.Second
	}
	if tier == "brief" { // development
		return time.Second
	}
	return 25 * time.Second
}

// investigate turns run i of a batch into a finding that shows in a fresh
// process: alone if possible, else after the runs that preceded it.
func (k *coord) investigate(b *Batch, seeds []uint64, i int) *Finding {
	gen := func(j int) *wsim.Case { return wsim.Gen(k.prop, seeds[j], b.Render, wsim.Extended) }
	simrt.NumSites = k.build.Sites
	for try := 0; try < 2; try++ {
		if f := k.confirm([]*wsim.Case{gen(i)}); f != nil {
			return f
		}
	}
	for h := 1; h <= i; h *= 2 {
		lo := i - h
		if h*2 > i {
			lo = 0
		}
		var seq []*wsim.Case
		for j := lo; j <= i; j++ {
			seq = append(seq, gen(j))
		}
		if f := k.confirm(seq); f != nil {
			return f
		}
		if lo == 0 {
			break
		}
	}
	return nil
}

func (k *coord) writeReplay(verif string, f *Finding) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", f.Property, f.Seed))
	raw, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, raw, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "replay file:", err)
	}
	return path
}

func replay() int {
	scratch := flag.String("scratch", "", "")
	flag.Parse()
	raw, err := os.ReadFile(flag.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Finding
	if err := json.Unmarshal(raw, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	k := newCoord(f.Property, *scratch)
	g := k.confirm(f.Cases)
	if g == nil {
		fmt.Println("the replay does not break", f.Property, "on this tree")
		return 0
	}
	for _, m := range g.All {
		fmt.Printf("request %d class %s: %s\n", m.Req, m.Class, m.Detail)
	}
	if g.Crash != "" {
		fmt.Println(g.Crash)
	}
	if g.Races != "" {
		fmt.Println(g.Races)
	}
	fmt.Printf("same execution as recorded: %v\n", g.Hash == f.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, flag.Arg(0))
	return 1
}

func genCase() int {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	render := flag.Bool("render", false, "")
	sites := flag.Int("sites", 0, "")
	flag.Parse()
	simrt.NumSites = *sites
	raw, err := json.MarshalIndent(wsim.Gen(*prop, *seed, *render, wsim.Extended), "", " ")
	fmt.Println(string(raw))
	if err != nil {
		fmt.Println(err)
	}
	return 0
}

// selftest runs the same seeds in differently cut batches and compares.
func selftest() int {
	scratch := flag.String("scratch", "", "")
	seed := flag.Uint64("seed", 1, "")
	n := flag.Int("n", 96, "")
	props := flag.String("props", "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C16,C17,C18,C24", "")
	flag.Parse()
	bad := 0
	for _, p := range strings.Split(*props, ",") {
		k := newCoord(p, *scratch)
		var seeds []uint64
		if p == "C24" {
			*n = 16
		}
		for i := 0; i < *n; i++ {
			seeds = append(seeds, wsim.Mix(*seed, 99, uint64(i)))
		}
		var got [2]map[uint64]uint64
		var mu sync.Mutex
		for round, size := range []int{*n, 7} {
			got[round] = map[uint64]uint64{}
			var wg sync.WaitGroup
			sem := make(chan bool, k.workers)
			for lo := 0; lo < len(seeds); lo += size {
				hi := lo + size
				if hi > len(seeds) {
					hi = len(seeds)
				}
				wg.Add(1)
				go func(s []uint64) {
					defer wg.Done()
					sem <- true
					r := k.spawn(context.Background(), &Batch{Seeds: s, Warm: true}, 60*time.Second)
					<-sem
					if r.crash != "" {
						fmt.Println(r.crash)
					}
					mu.Lock()
					for _, x := range r.res {
						got[round][x.Seed] = x.Hash
					}
					mu.Unlock()
				}(seeds[lo:hi])
			}
			wg.Wait()
		}
		diff := 0
		for s, h := range got[0] {
			if got[1][s] != h {
				diff++
				if diff <= 3 {
					fmt.Printf("%s seed %d differs\n", p, s)
				}
			}
		}
		fmt.Printf("%s: %d runs twice, %d differ\n", p, len(got[0]), diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}
