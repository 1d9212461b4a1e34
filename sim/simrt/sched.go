// Package simrt is the deterministic scheduler the simulated system runs on.
//
// Every simulated thread of control (client request, background goroutine) is
// a Task with a goroutine of its own, but only the task the scheduler chose
// runs at any moment: all others are parked. The running task offers the
// scheduler a decision at every yield point (Y, inserted before every
// statement of the code under test by cmd/instrument, and placed by the
// harness in every I/O seam). Decisions come from one seeded generator (search
// mode) or from a recorded list of switches (replay mode). Time is simulated.
//
// Functions that touch scheduler state are marked norace and hand over control
// with race synchronisation events disabled, so that under a -race build the
// hand-overs do not order the tasks: the happens-before relation seen by the
// detector is that of the code under test alone.
package simrt

import (
	"runtime"
	"sync"
)

type State uint8

const (
	Runnable State = iota
	Blocked        // waiting for a simulated lock, condition, channel...
	Sleeping       // until wakeAt
	Stalled        // fault: makes no progress until nobody else can
	Polling        // retrying a channel operation
	Done
)

type Task struct {
	ID     int
	Client bool   // part of the workload; false: spawned by the code under test
	Local  int    // yields executed so far
	Data   any    // owner's ground truth (the request being served)
	Quiet  int    // >0: yields are ignored (harness internals)
	Perm   uint64 // decides the order maps are walked in

	st     State
	wake   chan struct{}
	wakeAt int64
	on     any
	polled int
	panicV any
}

// Switch says: task T at its local step L handed control to task To.
type Switch struct{ T, L, To int }

type Policy struct {
	Kind     string  `json:"kind"`                // "rr": run to block, "gap": random preemption, "site": preempt at chosen sites, "pct"
	Gap      float64 `json:"gap,omitempty"`       // mean yields between preemptions
	Sites    []int   `json:"sites,omitempty"`     // preferred preemption sites
	IOBias   float64 `json:"io_bias,omitempty"`   // preemption probability at I/O seams
	Depth    int     `json:"depth,omitempty"`     // pct change points
	PoolMode int     `json:"pool_mode,omitempty"` // 0 lifo, 1 fifo, 2 drop some, 3 never reuse
}

type Sched struct {
	wall      int64 // what the wall clock is ahead of Now
	WallSteps []WallStep
	Tasks     []*Task
	Cur       *Task
	Now       int64 // simulated nanoseconds
	Steps     int
	MaxSteps  int
	Hash      uint64
	Switches  []Switch

	Overrun     bool
	Deadlock    bool
	StallVictim bool // a task was blocked although only stalled tasks were left
	Stalls      int
	TimeReads   int
	MaxSite     int

	pol      Policy
	rng      uint64
	plan     map[uint64]int
	gap      int
	prio     []int
	changeAt []int
	progress int
	wg       sync.WaitGroup
	over     chan struct{}
	poolOps  int
	ids      int
	Compact  bool // forget goroutines that ended when there are many
	compact  int
	randN    uint64
	waiters  []*waiter
}

// Forget drops the goroutines of the code under test that ended. Not for runs
// that replay switches, which name tasks by their number.
func (s *Sched) Forget() {
	n := 0
	for _, t := range s.Tasks {
		if t.Client || t.st != Done {
			s.Tasks[n] = t
			n++
		}
	}
	clear(s.Tasks[n:])
	s.Tasks = s.Tasks[:n]
}

var S *Sched

// Visited and Preempted mark the sites that were executed, and those at which
// control went to another task, since the process started.
var Visited, Preempted []bool

func SetSites(n int) {
	NumSites = n
	Visited = make([]bool, n)
	Preempted = make([]bool, n)
}

// NumSites is set by the instrumented package table (for site policies).
var NumSites int

func key(t, l int) uint64 { return uint64(t)<<40 | uint64(l) }

func New(pol Policy, seed uint64, plan []Switch, replay bool) *Sched {
	pools = nil
	poolRun++
	s := &Sched{pol: pol, rng: seed | 1, MaxSteps: 4000000, over: make(chan struct{}, 1), Hash: 1469598103934665603}
	s.Tasks = make([]*Task, 0, 64)
	s.Switches = make([]Switch, 0, 256)
	if replay {
		s.plan = make(map[uint64]int, len(plan))
		for _, sw := range plan {
			s.plan[key(sw.T, sw.L)] = sw.To
		}
	}
	s.resetGap()
	if pol.Kind == "pct" {
		for i := 0; i < pol.Depth; i++ {
			s.changeAt = append(s.changeAt, int(s.rand()%4000))
		}
		s.prio = make([]int, 256)
		for i := range s.prio {
			s.prio[i] = 1000 + int(s.rand()%1000)
		}
	}
	return s
}

//go:norace
func (s *Sched) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *Sched) chance(p float64) bool {
	return float64(s.rand()>>11)/float64(1<<53) < p
}

//go:norace
func (s *Sched) resetGap() {
	if s.pol.Gap <= 0 {
		s.gap = 1 << 60
		return
	}
	// geometric-ish: uniform on [1, 2*gap]
	s.gap = 1 + int(s.rand()%uint64(2*s.pol.Gap+1))
}

//go:norace
func (s *Sched) mix(a, b, c int) {
	h := s.Hash
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	h = (h ^ uint64(c)) * 1099511628211
	s.Hash = h
}

// Note folds an event value into the event-log hash.
//
//go:norace
func Note(v uint64) {
	if s := S; s != nil {
		s.Hash = (s.Hash ^ v) * 1099511628211
	}
}

// Cur returns the running task, nil outside a simulation.
//
//go:norace
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.Cur
}

// CurData returns the running task's ground truth.
//
//go:norace
func CurData() any {
	if S == nil || S.Cur == nil {
		return nil
	}
	return S.Cur.Data
}

// Y is a scheduling point. Sites >= 0 are statements of the code under test,
// negative ones are I/O seams of the harness.
//
//go:norace
func Y(site int) {
	s := S
	if s == nil || s.Cur == nil || s.Cur.Quiet > 0 {
		return
	}
	t := s.Cur
	t.Local++
	s.Steps++
	s.progress++
	s.Now += 40
	s.mix(t.ID, site, 1)
	if s.Overrun || s.Steps > s.MaxSteps {
		s.Overrun = true
		runtime.Goexit()
	}
	if site >= 0 && site < len(Visited) {
		Visited[site] = true
	}
	to := s.decide(t, site)
	if to != nil && to != t {
		if site >= 0 && site < len(Preempted) {
			Preempted[site] = true
		}
		s.Switches = append(s.Switches, Switch{t.ID, t.Local, to.ID})
		s.handoff(t, to)
	}
}

//go:norace
func (s *Sched) ready(t *Task) bool {
	return t.st == Runnable || (t.st == Sleeping && t.wakeAt <= s.Now)
}

//go:norace
func (s *Sched) byID(id int) *Task {
	if id < 0 || id >= len(s.Tasks) {
		return nil
	}
	return s.Tasks[id]
}

// decide returns the task to run next while t could go on.
//
//go:norace
func (s *Sched) decide(t *Task, site int) *Task {
	if s.plan != nil {
		if id, ok := s.plan[key(t.ID, t.Local)]; ok {
			if to := s.byID(id); to != nil && s.ready(to) {
				return to
			}
		}
		return nil
	}
	switch s.pol.Kind {
	case "rr":
		return nil
	case "pct":
		for i := 0; i < len(s.changeAt); i++ {
			if s.changeAt[i] == s.Steps {
				s.prio[t.ID&255] = i
			}
		}
		best := t
		for i := 0; i < len(s.Tasks); i++ {
			o := s.Tasks[i]
			if s.ready(o) && s.prio[o.ID&255] > s.prio[best.ID&255] {
				best = o
			}
		}
		return best
	}
	hit := false
	if site < 0 {
		if s.pol.IOBias > 0 && s.chance(s.pol.IOBias) {
			hit = true
		}
	} else {
		for i := 0; i < len(s.pol.Sites); i++ {
			if s.pol.Sites[i] == site && s.chance(0.7) {
				hit = true
			}
		}
	}
	s.gap--
	if s.gap <= 0 {
		s.resetGap()
		hit = true
	}
	if !hit {
		return nil
	}
	return s.pickReady(t)
}

// pickReady picks a ready task other than t at random, nil if there is none.
//
//go:norace
func (s *Sched) pickReady(t *Task) *Task {
	n := 0
	for i := 0; i < len(s.Tasks); i++ {
		if o := s.Tasks[i]; o != t && s.ready(o) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int(s.rand() % uint64(n))
	for i := 0; i < len(s.Tasks); i++ {
		if o := s.Tasks[i]; o != t && s.ready(o) {
			if k == 0 {
				return o
			}
			k--
		}
	}
	return nil
}

//go:norace
func (s *Sched) handoff(t, to *Task) {
	to.st = Runnable
	s.Cur = to
	raceOff()
	to.wake <- struct{}{}
	<-t.wake
	raceOn()
}

// lowest returns the ready task with the lowest ID.
//
//go:norace
func (s *Sched) lowest() *Task {
	for i := 0; i < len(s.Tasks); i++ {
		if s.ready(s.Tasks[i]) {
			return s.Tasks[i]
		}
	}
	return nil
}

// next chooses who runs when t cannot go on (blocked, sleeping, stalled or
// done). It returns nil when the run is over.
//
//go:norace
func (s *Sched) next(t *Task) *Task {
	for {
		def := s.lowest()
		if def != nil {
			to := def
			if s.plan != nil {
				if id, ok := s.plan[key(t.ID, t.Local)]; ok {
					if o := s.byID(id); o != nil && s.ready(o) {
						to = o
					}
				}
			} else if s.pol.Kind == "pct" {
				for i := 0; i < len(s.Tasks); i++ {
					o := s.Tasks[i]
					if s.ready(o) && s.prio[o.ID&255] > s.prio[to.ID&255] {
						to = o
					}
				}
			} else if o := s.pickReady(nil); o != nil {
				to = o
			}
			if to != def {
				s.Switches = append(s.Switches, Switch{t.ID, t.Local, to.ID})
			}
			s.mix(t.ID, to.ID, 2)
			return to
		}
		// pollers get another chance if somebody made progress since
		for i := 0; i < len(s.Tasks); i++ {
			o := s.Tasks[i]
			if o.st == Polling && o.polled < s.progress {
				o.polled = s.progress
				return o
			}
		}
		// nobody is ready: let time pass
		var first *Task
		for i := 0; i < len(s.Tasks); i++ {
			o := s.Tasks[i]
			if o.st == Sleeping && (first == nil || o.wakeAt < first.wakeAt) {
				first = o
			}
		}
		if first != nil {
			s.Now = first.wakeAt
			continue
		}
		// only stalled and blocked tasks are left
		var stalled *Task
		victim := false
		for i := 0; i < len(s.Tasks); i++ {
			o := s.Tasks[i]
			if o.st == Stalled && stalled == nil {
				stalled = o
			}
			if o.Client && (o.st == Blocked || o.st == Polling) {
				victim = true
			}
		}
		if stalled != nil {
			if victim {
				s.StallVictim = true
			}
			stalled.st = Runnable
			continue
		}
		if victim {
			s.Deadlock = true
		}
		return nil
	}
}

// park gives up the processor in state st.
//
//go:norace
func (s *Sched) park(t *Task, st State) {
	t.st = st
	t.Local++
	s.Steps++
	s.Now += 40
	if st != Polling {
		s.progress++ // whatever it did since its last scheduling point
	}
	to := s.next(t)
	if to == t {
		if st != Polling {
			s.progress++
		}
		t.st = Runnable
		return
	}
	if to == nil {
		// nothing can ever run again: end the run, leave this goroutine parked
		s.Cur = nil
		raceOff()
		s.over <- struct{}{}
		<-t.wake
		raceOn()
		return
	}
	s.handoff(t, to)
	if st != Polling {
		s.progress++ // and until its next one
	}
}

// Sleep advances the calling task's simulated time.
//
//go:norace
func Sleep(d int64) {
	s := S
	if s == nil || s.Cur == nil {
		return
	}
	t := s.Cur
	if d < 0 {
		d = 0
	}
	t.wakeAt = s.Now + d
	s.park(t, Sleeping)
}

// Stall is the fault "this task stops making progress": it resumes only when
// no other task can run any more.
//
//go:norace
func Stall() {
	s := S
	if s == nil || s.Cur == nil {
		return
	}
	s.Stalls++
	s.park(s.Cur, Stalled)
}

// WallStep is one setting of the wall clock: from time At on (monotonic) it is
// Off ahead of the monotonic clock.
type WallStep struct{ At, Off int64 }

// Jump sets the wall clock, forwards or backwards; the monotonic clock goes on.
//
//go:norace
func Jump(d int64) {
	if s := S; s != nil {
		s.wall += d
		s.WallSteps = append(s.WallSteps, WallStep{s.Now, s.wall})
	}
}

// WallNS is the wall clock.
//
//go:norace
func WallNS() int64 {
	if s := S; s != nil {
		return s.Now + s.wall
	}
	return 0
}

// WallRange tells between which wall clock readings the monotonic times from
// a to b lay.
func (s *Sched) WallRange(a, b int64) (lo, hi int64) {
	off := int64(0)
	first := true
	add := func(t int64) {
		if first || t < lo {
			lo = t
		}
		if first || t > hi {
			hi = t
		}
		first = false
	}
	at := int64(0)
	for i := 0; i <= len(s.WallSteps); i++ {
		end := b
		if i < len(s.WallSteps) && s.WallSteps[i].At < b {
			end = s.WallSteps[i].At
		}
		from := max(a, at)
		if from <= end {
			add(from + off)
			add(end + off)
		}
		if i < len(s.WallSteps) {
			at, off = s.WallSteps[i].At, s.WallSteps[i].Off
		}
	}
	return
}

//go:norace
func NowNS() int64 {
	if s := S; s != nil {
		return s.Now
	}
	return 0
}

//go:norace
func NoteTimeRead() {
	if s := S; s != nil {
		s.TimeReads++
	}
}

// Block parks the task until Wake(on).
//
//go:norace
func Block(on any) {
	s := S
	if s == nil || s.Cur == nil {
		panic("simrt: would block for ever outside the simulation")
	}
	t := s.Cur
	t.on = on
	s.park(t, Blocked)
	t.on = nil
}

//go:norace
func Wake(on any) {
	s := S
	if s == nil {
		return
	}
	for i := 0; i < len(s.Tasks); i++ {
		t := s.Tasks[i]
		if t.st == Blocked && t.on == on {
			t.st = Runnable
		}
	}
}

// Poll parks the task until somebody else made progress.
//
//go:norace
func Poll() {
	s := S
	if s == nil || s.Cur == nil {
		runtime.Gosched()
		return
	}
	t := s.Cur
	t.polled = s.progress
	s.park(t, Polling)
}

// Go starts a goroutine of the code under test as a task.
//
//go:norace
func Go(f func()) {
	s := S
	if s == nil || s.Cur == nil {
		go f()
		return
	}
	s.spawn(func(*Task) { f() }, false, s.Cur.Data)
	Y(-2)
}

//go:norace
func (s *Sched) spawn(f func(*Task), client bool, data any) *Task {
	t := &Task{ID: s.ids, Client: client, wake: make(chan struct{}, 1), Data: data}
	s.ids++
	if s.Compact && len(s.Tasks) >= s.compact {
		s.Forget()
		s.compact = 2*len(s.Tasks) + 32
	}
	s.Tasks = append(s.Tasks, t)
	if client {
		s.wg.Add(1)
	}
	go taskMain(s, t, f)
	return t
}

//go:norace
func taskMain(s *Sched, t *Task, f func(*Task)) {
	raceOff()
	<-t.wake
	raceOn()
	defer taskEnd(s, t)
	runTask(t, f)
}

func runTask(t *Task, f func(*Task)) {
	defer func() {
		if v := recover(); v != nil {
			setPanic(t, v)
		}
	}()
	f(t)
}

//go:norace
func setPanic(t *Task, v any) { t.panicV = v }

// PanicOf returns the panic value that ended a spawned task, if any.
func PanicOf(t *Task) any { return t.panicV }

//go:norace
func taskEnd(s *Sched, t *Task) {
	if t.Client {
		s.wg.Done() // real synchronisation: the driver reads the results
	}
	t.st = Done
	t.Local++
	s.progress++
	if S != s {
		return
	}
	to := s.next(t)
	if to == nil {
		s.Cur = nil
		raceOff()
		s.over <- struct{}{}
		raceOn()
		return
	}
	to.st = Runnable
	s.Cur = to
	raceOff()
	to.wake <- struct{}{}
	raceOn()
}

// AddClient registers a workload task; call before Run (or from a task).
func (s *Sched) AddClient(f func(*Task), data any) *Task {
	return s.spawn(f, true, data)
}

// Run executes the registered tasks until all clients are done (or the run
// deadlocked). It must be called from the driver goroutine.
func (s *Sched) Run() {
	S = s
	s.start()
	raceOff()
	<-s.over
	raceOn()
	if !s.Deadlock {
		s.wg.Wait()
	}
	S = nil
}

//go:norace
func (s *Sched) start() {
	first := s.Tasks[0]
	if s.plan == nil && len(s.Tasks) > 1 && s.pol.Kind != "rr" {
		first = s.Tasks[int(s.rand()%uint64(len(s.Tasks)))]
	} else if s.plan != nil {
		if id, ok := s.plan[key(1<<20, 0)]; ok && s.byID(id) != nil {
			first = s.byID(id)
		}
	}
	if first != s.Tasks[0] {
		s.Switches = append(s.Switches, Switch{1 << 20, 0, first.ID})
	}
	s.Cur = first
	raceOff()
	first.wake <- struct{}{}
	raceOn()
}
