package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"watersim/simrt"
	"watersim/wsim"
)

// Batch is the work of one process: cases to be generated from seeds, or given.
type Batch struct {
	Profile  string       `json:"profile"`
	Seeds    []uint64     `json:"seeds,omitempty"`
	Cases    []*wsim.Case `json:"cases,omitempty"`
	Render   bool         `json:"render,omitempty"`
	Scratch  string       `json:"scratch"`
	Sites    int          `json:"sites"`
	Degraded bool         `json:"degraded,omitempty"` // code under test not instrumented
	Sample   bool         `json:"sample,omitempty"`
	Warm     bool         `json:"warm,omitempty"` // caches of decoders filled beforehand
}

// Result of one run.
type Result struct {
	I          int             `json:"i"`
	Seed       uint64          `json:"seed"`
	Mis        []wsim.Mismatch `json:"mis,omitempty"`
	Hash       uint64          `json:"hash"`
	Shape      uint64          `json:"shape"`
	Sched      uint64          `json:"sched"`
	Steps      int             `json:"steps"`
	SimNS      int64           `json:"sim_ns"`
	Requests   int             `json:"requests"`
	Nontrivial bool            `json:"nontrivial"`
	Overlap    bool            `json:"overlap"`
	NSw        int             `json:"nsw"`
	Reuses     int             `json:"reuses"`
	Fired      map[string]int  `json:"fired,omitempty"`
	Probes     map[string]int  `json:"probes,omitempty"`
	Switches   []simrt.Switch  `json:"switches,omitempty"`
	Sample     json.RawMessage `json:"sample,omitempty"`
}

// Done is the last line of a worker.
type Done struct {
	Done      bool  `json:"done"`
	Next      int   `json:"next"` // first run not made
	Visited   []int `json:"visited,omitempty"`
	Preempted []int `json:"preempted,omitempty"`
}

func degrade(c *wsim.Case) {
	c.Pol = simrt.Policy{Kind: "rr"}
	c.Switches = nil
	wsim.Degraded = true
	wsim.Degrade(c.Clients)
}

func caseOf(b *Batch, i int) *wsim.Case {
	var c *wsim.Case
	if len(b.Cases) > 0 {
		// a copy, as runs may touch what they are given
		raw, _ := json.Marshal(b.Cases[i])
		c = new(wsim.Case)
		json.Unmarshal(raw, c)
	} else {
		c = wsim.Gen(b.Profile, b.Seeds[i], b.Render, wsim.Extended)
		// what is run is what a replay file would hold
		raw, err := json.Marshal(c)
		if err != nil {
			panic("harness: " + err.Error())
		}
		c = new(wsim.Case)
		if err := json.Unmarshal(raw, c); err != nil {
			panic("harness: " + err.Error())
		}
	}
	if b.Degraded {
		degrade(c)
	}
	return c
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(64 << 20)
	var b Batch
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&b); err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(2)
	}
	os.MkdirAll(b.Scratch, 0755)
	os.Chdir(b.Scratch)
	tmp := filepath.Join(b.Scratch, "tmp")
	os.MkdirAll(tmp, 0755)
	os.Setenv("TMPDIR", tmp)
	simrt.SetSites(b.Sites)
	if b.Warm {
		wsim.Warm()
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	n := len(b.Seeds)
	if len(b.Cases) > 0 {
		n = len(b.Cases)
	}
	done := Done{Done: true, Next: n}
	races := raceLog{path: fmt.Sprintf("%s.%d", os.Getenv("WSIM_RACELOG"), os.Getpid())}
	for i := 0; i < n; i++ {
		fmt.Fprintf(out, "{\"start\":%d}\n", i)
		out.Flush()
		c := caseOf(&b, i)
		simrt.PoolReuses = 0
		o := wsim.Run(c, b.Scratch)
		for _, r := range races.next() {
			o.Mis = append(o.Mis, wsim.Mismatch{Req: -1, Class: "G", Detail: r})
		}
		r := Result{I: i, Seed: c.Seed, Mis: o.Mis, Hash: o.Hash, Shape: o.Shape, Requests: o.Requests, Overlap: o.Overlap, Fired: o.Fired, Probes: o.Probes, Reuses: simrt.PoolReuses}
		stop := false
		if s := o.Sched; s != nil {
			r.Sched, r.Steps, r.SimNS, r.NSw = s.Hash, s.Steps, s.Now, len(s.Switches)
			if len(o.Mis) > 0 {
				r.Switches = s.Switches
			}
			stop = s.Overrun || s.Deadlock
		}
		r.Nontrivial = o.Overlap || len(o.Fired) > 0 || o.Multi
		if b.Sample && i < 2 {
			r.Sample, _ = json.Marshal(brief(c))
		}
		enc.Encode(r)
		out.Flush()
		runtime.GC()
		if stop {
			done.Next = i + 1
			break
		}
	}
	for i, v := range simrt.Visited {
		if v {
			done.Visited = append(done.Visited, i)
		}
		if simrt.Preempted[i] {
			done.Preempted = append(done.Preempted, i)
		}
	}
	enc.Encode(done)
	out.Flush()
	os.Exit(0)
}

// raceLog reads what the race detector reports about this process.
type raceLog struct {
	path string
	off  int
}

// next returns the reports made since the last call that concern the code
// under test, one line each.
func (l *raceLog) next() (out []string) {
	if !simrt.RaceEnabled {
		return nil
	}
	raw, err := os.ReadFile(l.path)
	if err != nil || len(raw) <= l.off {
		return nil
	}
	text := string(raw[l.off:])
	l.off = len(raw)
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "=================="); i >= 0 {
			rep = rep[:i]
		}
		if i := strings.Index(rep, "\n\nGoroutine "); i >= 0 {
			rep = rep[:i]
		}
		if !strings.Contains(rep, "github.com/meilihao/water") {
			continue
		}
		// per access: what, and the innermost frame of the code under test
		var acc []string
		own := false // an access of the scheduler itself
		for _, part := range strings.Split(strings.TrimSpace(rep), "\n\n") {
			lines := strings.Split(part, "\n")
			what, fn := strings.Fields(lines[0]), "?"
			for i := 1; i+1 < len(lines); i += 2 {
				if l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "runtime.") {
					own = own || strings.HasPrefix(l, "watersim/simrt.")
					break
				}
			}
			for i := 1; i+1 < len(lines); i += 2 {
				if strings.Contains(lines[i], "github.com/meilihao/water") {
					fn = strings.TrimSpace(lines[i])
					if p := strings.Fields(lines[i+1]); len(p) > 0 {
						fn += " " + filepath.Base(p[0])
					}
					break
				}
			}
			kind := strings.ToLower(what[0])
			if kind == "previous" && len(what) > 1 {
				kind = what[1]
			}
			acc = append(acc, kind+" in "+fn)
		}
		if own {
			continue
		}
		out = append(out, "data race: "+strings.Join(acc, " / "))
	}
	return
}

// brief renders a case for the evidence.
func brief(c *wsim.Case) map[string]any {
	m := map[string]any{"profile": c.Profile, "seed": fmt.Sprintf("%016x", c.Seed), "policy": c.Pol, "stable": c.Global.Stable}
	var reqs []string
	for ci, cl := range c.Clients {
		for _, it := range cl.Items {
			if it.Build != nil {
				reqs = append(reqs, fmt.Sprintf("client %d: build engine %d", ci, *it.Build))
				continue
			}
			q := it.Req
			s := fmt.Sprintf("client %d: #%d engine %d %s %s", ci, q.ID, q.Engine, q.Method, q.URL)
			if q.Body != nil {
				s += fmt.Sprintf(" body=%dB frags=%v fail_at=%d", len(q.Body.Bytes()), q.Body.Frags, q.Body.FailAt)
			}
			if q.Conn.FailAt >= 0 {
				s += fmt.Sprintf(" conn_fail_at=%d", q.Conn.FailAt)
			}
			for _, f := range q.Faults {
				s += fmt.Sprintf(" fault{%s %s @%d %s}", f.Op, f.Path, f.At, f.Err)
			}
			var hs []string
			for h, ops := range q.Scripts {
				var l []string
				for _, o := range ops {
					l = append(l, o.Op)
				}
				hs = append(hs, h+"="+strings.Join(l, ","))
			}
			sort.Strings(hs)
			if len(hs) > 0 {
				s += " scripts{" + strings.Join(hs, " ") + "}"
			}
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			reqs = append(reqs, s)
			if len(reqs) >= 12 {
				break
			}
		}
	}
	m["run"] = reqs
	return m
}
