package wsim

import (
	"fmt"
	"os"
	"runtime"

	"watersim/simrt"
)

// Waves decide whether serving leaves anything behind. Many requests, none like
// the others, are sent to the same engines in waves: a wave starts when every
// client of the one before is done. Between waves, with nothing in progress and
// a day gone by (so that whatever waits for a timer had its chance), the
// simulator looks at what the process holds: goroutines, objects and bytes of
// memory, open files. What is there once and for all does not count, what
// grows with the number of requests served does.

const (
	waveClients = 8
	waveCount   = 24
	wavePoints  = 6 // looks, at equal distances; before the first one things warm up
	waveMore    = 3 // so much more when something seems to grow, to tell growth from what comes once
)

func (g *gen) waves() {
	for i := 0; i < waveCount; i++ {
		g.c.Waves = append(g.c.Waves, g.u())
	}
}

// wave makes the clients of wave k.
func (g *gen) wave(k int) []Client {
	g.rng = rng{Mix(g.c.Waves[k%len(g.c.Waves)], 11+uint64(k/len(g.c.Waves)))}
	g.rn = 1000 * (k + 1)
	g.c.Clients = nil
	g.clients()
	g.sanitize()
	l := g.c.Clients
	if Degraded {
		Degrade(l)
	}
	g.c.Clients = nil
	return l
}

// holding is what the process holds when nothing is in progress.
type holding struct {
	reqs       int
	goroutines int
	objects    int
	bytes      int
	files      int
}

func look(reqs int) holding {
	simrt.EmptyPools()
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.Gosched()
	}
	runtime.ReadMemStats(&m)
	h := holding{reqs: reqs, goroutines: runtime.NumGoroutine(), objects: int(m.HeapObjects), bytes: int(m.HeapAlloc)}
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		h.files = len(l)
	}
	return h
}

func runWaves(c *Case, w *world, env *Env, out *Outcome) {
	g := start(c.Profile, c.Seed, c.Global.Render, Extended)
	g.c.Waves = c.Waves
	s := simrt.New(c.Pol, c.SchedSeed, nil, false)
	s.Compact = true
	s.MaxSteps = 1 << 40
	out.Sched = s
	cur := g.wave(0)
	var (
		looks   []holding
		total   = len(c.Waves)
		from    int // first wave that counts
		arrived int
		round   int
		served  int
		shape   uint64
		opened  []string
		barrier int
	)
	serve := func(t *simrt.Task, q *Req) {
		rec := newRec(c, env, q, false)
		req := newRequest(q, rec)
		t.Data = rec
		t.Perm = Mix(c.Seed, uint64(q.ID))
		serveReal(w.engines[q.Engine], rec, req)
		t.Data = nil
		rec.RW.finish(rec.Escaped)
		rec.cleanup(req)
		served++
		shape = Mix(shape, uint64(rec.RW.Status), uint64(len(rec.RW.Body)))
		simrt.Note(uint64(rec.RW.Status)<<32 | uint64(len(rec.RW.Body)))
		if rec.Opens != rec.Closes && len(opened) < 3 {
			opened = append(opened, fmt.Sprintf("%d files opened, %d closed by %s %s", rec.Opens, rec.Closes, q.Method, q.URL))
		}
		for k, n := range rec.Fired {
			out.Fired[k] += n
		}
		probes(out.Probes, rec, rec)
	}
	for ci := 0; ci < waveClients; ci++ {
		ci := ci
		s.AddClient(func(t *simrt.Task) {
			for k := 0; k < total; k++ {
				if ci < len(cur) {
					for ii := range cur[ci].Items {
						simrt.Y(-3)
						if q := cur[ci].Items[ii].Req; q != nil && q.Engine < len(w.engines) && w.engines[q.Engine] != nil {
							serve(t, q)
						}
					}
				}
				if arrived++; arrived < waveClients {
					for round == k {
						simrt.Block(&barrier)
					}
					continue
				}
				// the last one
				simrt.Sleep(24 * 3600e9)
				cur = nil
				s.Switches, s.WallSteps = nil, nil
				s.Forget()
				if (k+1-from)*wavePoints/(total-from) > len(looks) {
					t.Quiet++
					looks = append(looks, look(served))
					t.Quiet--
				}
				if k+1 == total && from == 0 && len(growth(looks)) > 0 {
					from, total = total, total*(1+waveMore)
					looks = append(looks[:0:0], looks[len(looks)-1])
				}
				if k+1 < total {
					cur = g.wave(k + 1)
				}
				arrived, round = 0, k+1
				simrt.Wake(&barrier)
			}
		}, nil)
	}
	s.Run()
	out.Requests, out.Multi, out.Overlap = served, true, true
	out.Hash, out.Shape = s.Hash, shape
	for _, m := range leftovers(env) {
		out.Mis = append(out.Mis, m)
	}
	for _, o := range opened {
		out.Mis = append(out.Mis, Mismatch{-1, "F", o})
	}
	if s.Overrun || s.Deadlock {
		out.Mis = append(out.Mis, Mismatch{-1, "H", "the clients did not finish"})
		return
	}
	if os.Getenv("WSIM_HELD") != "" {
		fmt.Fprintf(os.Stderr, "%x %+v\n", c.Seed, looks)
	}
	out.Mis = append(out.Mis, growth(looks)...)
}

// growth tells what grew with the number of requests, at every look.
func growth(l []holding) (out []Mismatch) {
	if len(l) < 3 {
		return
	}
	steady := func(what string, of func(holding) int, perReq float64, least int) {
		for i := 1; i < len(l); i++ {
			d := of(l[i]) - of(l[i-1])
			if n := l[i].reqs - l[i-1].reqs; float64(d) < perReq*float64(n) || d < least {
				return
			}
		}
		out = append(out, Mismatch{-1, "Y", fmt.Sprintf("%s grow with every request served, also when none is in progress", what)})
	}
	steady("goroutines", func(h holding) int { return h.goroutines }, 0.001, 2)
	steady("open files", func(h holding) int { return h.files }, 0.001, 2)
	n := len(out)
	steady("objects in memory", func(h holding) int { return h.objects }, 0.004, 8)
	if n == len(out) {
		steady("bytes in memory", func(h holding) int { return h.bytes }, 1, 2000)
	}
	return
}
