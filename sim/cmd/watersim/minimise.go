package main

import (
	"sync"
	"time"

	"watersim/simrt"
	"watersim/wsim"
)

// minimise makes the finding smaller as long as the property stays broken.
func (k *coord) minimise(f *Finding, budget time.Duration) *Finding {
	m := &mini{k: k, best: f, until: time.Now().Add(budget)}
	if f.Mismatch.Class == "!" {
		m.until = time.Now().Add(budget / 2)
	}
	// fewer runs before the failing one
	for len(m.best.Cases) > 1 && m.time() {
		n := len(m.best.Cases)
		var alts [][]*wsim.Case
		for cut := n - 1; cut >= 1; cut /= 2 {
			for lo := 0; lo+cut <= n-1; lo += cut {
				s := append(append([]*wsim.Case(nil), m.best.Cases[:lo]...), m.best.Cases[lo+cut:]...)
				alts = append(alts, s)
			}
		}
		if !m.first(alts) {
			break
		}
	}
	// without preemption
	c := clone(m.last())
	c.Pol = simrt.Policy{Kind: "rr"}
	c.Replay, c.Switches = false, nil
	m.first([][]*wsim.Case{m.with(c)})
	for n := len(m.last().Waves); n > 1 && m.time(); n = len(m.last().Waves) {
		a, b := clone(m.last()), clone(m.last())
		a.Waves, b.Waves = a.Waves[:n/2], b.Waves[n/2:]
		if !m.first([][]*wsim.Case{m.with(a), m.with(b)}) {
			break
		}
	}
	// smaller workload, faults and configuration
	for pass := 0; pass < 4 && m.time(); pass++ {
		before := m.gain
		for idx := len(m.best.Cases) - 1; idx >= 0; idx-- {
			m.shrinkCase(idx)
		}
		if m.gain == before {
			break
		}
	}
	// explicit schedule
	c = clone(m.last())
	if len(c.Waves) > 0 {
		// the seeds say everything
	} else if !c.Replay {
		g := k.confirm(m.best.Cases)
		if g != nil {
			c.Replay, c.Switches = true, g.switches
			if m.first([][]*wsim.Case{m.with(c)}) {
				m.ddminSwitches()
			}
		}
	} else {
		m.ddminSwitches()
	}
	// must repeat exactly
	a, b := k.confirm(m.best.Cases), k.confirm(m.best.Cases)
	if a != nil && b != nil {
		m.best = a
		m.best.Exact = a.Hash == b.Hash
	}
	return m.best
}

type mini struct {
	k     *coord
	best  *Finding
	until time.Time
	gain  int
}

func (m *mini) time() bool       { return time.Now().Before(m.until) }
func (m *mini) last() *wsim.Case { return m.best.Cases[len(m.best.Cases)-1] }
func (m *mini) with(c *wsim.Case) []*wsim.Case {
	s := append([]*wsim.Case(nil), m.best.Cases...)
	s[len(s)-1] = c
	return s
}

// first tries the alternatives, several at a time, and takes the first in
// order that still fails.
func (m *mini) first(alts [][]*wsim.Case) bool {
	for lo := 0; lo < len(alts) && m.time(); lo += m.k.workers {
		hi := lo + m.k.workers
		if hi > len(alts) {
			hi = len(alts)
		}
		res := make([]*Finding, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if f := m.k.confirm(alts[i]); f != nil && f.Mismatch.Class == m.best.Mismatch.Class {
					res[i-lo] = f
				}
			}(i)
		}
		wg.Wait()
		for _, f := range res {
			if f != nil {
				m.best = f
				m.gain++
				return true
			}
		}
	}
	return false
}

func (m *mini) shrinkCase(idx int) {
	pos := 0
	for m.time() {
		c := m.best.Cases[idx]
		n := 0
		edit(clone(c), -1, &n)
		if pos >= n {
			return
		}
		var alts [][]*wsim.Case
		var at []int
		for i := pos; i < n && len(alts) < m.k.workers; i++ {
			d := clone(c)
			e := 0
			edit(d, i, &e)
			s := append([]*wsim.Case(nil), m.best.Cases...)
			s[idx] = d
			alts = append(alts, s)
			at = append(at, i)
		}
		if !m.first(alts) {
			pos += len(alts)
		}
		_ = at
	}
}

// edit numbers the possible simplifications of a case and applies number
// `want`.
func edit(c *wsim.Case, want int, n *int) {
	step := func(f func()) bool {
		hit := *n == want
		*n++
		if hit {
			f()
		}
		return hit
	}
	// clients and requests
	for i := range c.Clients {
		if step(func() { c.Clients = append(c.Clients[:i:i], c.Clients[i+1:]...) }) {
			return
		}
	}
	for i := range c.Clients {
		for j := range c.Clients[i].Items {
			if step(func() {
				c.Clients[i].Items = append(c.Clients[i].Items[:j:j], c.Clients[i].Items[j+1:]...)
			}) {
				return
			}
		}
	}
	// routes and handlers
	for i := range c.Routers {
		if editDecls(&c.Routers[i].Items, want, n, step) {
			return
		}
		if editHs(&c.Routers[i].Before, step) {
			return
		}
	}
	for i := range c.Engines {
		if editHs(&c.Engines[i].NoFound, step) {
			return
		}
		if editDecls(&c.Engines[i].Extra, want, n, step) {
			return
		}
	}
	// requests
	for i := range c.Clients {
		for j := range c.Clients[i].Items {
			q := c.Clients[i].Items[j].Req
			if q == nil {
				continue
			}
			for x := range q.Faults {
				if step(func() { q.Faults = append(q.Faults[:x:x], q.Faults[x+1:]...) }) {
					return
				}
			}
			if (q.Conn != wsim.ConnSpec{FailAt: -1}) && step(func() { q.Conn = wsim.ConnSpec{FailAt: -1} }) {
				return
			}
			if q.Log != "" && step(func() { q.Log = "" }) {
				return
			}
			if b := q.Body; b != nil {
				if (len(b.Frags) > 0 || b.ZeroRead || b.EOFWith || b.CloseErr || b.StallAt > 0 || b.Slow > 0) && step(func() {
					b.Frags, b.ZeroRead, b.EOFWith, b.CloseErr, b.StallAt, b.Slow = nil, false, false, false, 0, 0
				}) {
					return
				}
				if b.FailAt >= 0 && step(func() { b.FailAt = -1 }) {
					return
				}
				if b.Pad > 0 && step(func() { b.Pad = 0 }) {
					return
				}
				if step(func() { q.Body = nil }) {
					return
				}
			}
			for x := range q.Headers {
				if step(func() { q.Headers = append(q.Headers[:x:x], q.Headers[x+1:]...) }) {
					return
				}
			}
			var names []string
			for h := range q.Scripts {
				names = append(names, h)
			}
			sortStrings(names)
			for _, h := range names {
				if len(q.Scripts[h]) > 1 && step(func() { q.Scripts[h] = q.Scripts[h][:0:0] }) {
					return
				}
				for x := range q.Scripts[h] {
					if step(func() {
						l := q.Scripts[h]
						q.Scripts[h] = append(l[:x:x], l[x+1:]...)
					}) {
						return
					}
				}
			}
		}
	}
	for i := range c.Trees {
		for x := range c.Trees[i].Files {
			if step(func() {
				c.Trees[i].Files = append(c.Trees[i].Files[:x:x], c.Trees[i].Files[x+1:]...)
			}) {
				return
			}
		}
	}
	for i := range c.Files {
		if step(func() { c.Files = append(c.Files[:i:i], c.Files[i+1:]...) }) {
			return
		}
	}
	if c.Global.LogHTTPBody && step(func() { c.Global.LogHTTPBody = false }) {
		return
	}
	if c.Global.Zone != 0 && step(func() { c.Global.Zone = 0 }) {
		return
	}
	if c.Global.LogColor && step(func() { c.Global.LogColor = false }) {
		return
	}
}

func editHs(l *[]wsim.H, step func(func()) bool) bool {
	for i := range *l {
		if step(func() { *l = append((*l)[:i:i], (*l)[i+1:]...) }) {
			return true
		}
	}
	return false
}

func editDecls(l *[]wsim.Decl, want int, n *int, step func(func()) bool) bool {
	for i := range *l {
		if step(func() { *l = append((*l)[:i:i], (*l)[i+1:]...) }) {
			return true
		}
	}
	for i := range *l {
		d := &(*l)[i]
		if editHs(&d.Use, step) {
			return true
		}
		if d.Group != nil {
			if editHs(&d.Group.Mws, step) || editDecls(&d.Group.Items, want, n, step) {
				return true
			}
		}
		if d.Route != nil && len(d.Route.Handlers) > 1 && editHs(&d.Route.Handlers, step) {
			return true
		}
	}
	return false
}

func (m *mini) ddminSwitches() {
	chunk := len(m.last().Switches)
	for chunk >= 1 && m.time() {
		sw := m.last().Switches
		var alts [][]*wsim.Case
		for lo := 0; lo < len(sw); lo += chunk {
			hi := lo + chunk
			if hi > len(sw) {
				hi = len(sw)
			}
			c := clone(m.last())
			c.Switches = append(append([]simrt.Switch(nil), sw[:lo]...), sw[hi:]...)
			alts = append(alts, m.with(c))
		}
		if m.first(alts) {
			if chunk > len(m.last().Switches) {
				chunk = len(m.last().Switches)
			}
			continue
		}
		chunk /= 2
	}
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
