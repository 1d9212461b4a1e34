package simrt

import (
	"fmt"
	"sort"
	"unsafe"
)

// --- replacements for package sync, with the scheduler deciding who waits ---

type Mutex struct {
	locked bool
	pad    int
}

//go:norace
func (m *Mutex) Lock() {
	Y(-10)
	for m.locked {
		Block(m)
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	Y(-10)
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	Wake(m)
	Y(-11)
}

type RWMutex struct {
	w       bool
	readers int
	rel     int // address for reader releases
}

//go:norace
func (m *RWMutex) Lock() {
	Y(-12)
	for m.w || m.readers > 0 {
		Block(m)
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Y(-12)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.w = false
	Wake(m)
	Y(-13)
}

//go:norace
func (m *RWMutex) RLock() {
	Y(-14)
	for m.w {
		Block(m)
	}
	m.readers++
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Y(-14)
	if m.w {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rel))
	m.readers--
	Wake(m)
	Y(-15)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

type WaitGroup struct {
	n   int
	pad int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		raceRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		Wake(w)
	}
	Y(-16)
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	Y(-17)
	for w.n > 0 {
		Block(w)
	}
	raceAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		raceAcquire(unsafe.Pointer(&o.done))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	raceRelease(unsafe.Pointer(&o.done))
	o.done = true
}

type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	gen int
}

//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g {
		Block(c)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.Broadcast() } // spurious wake-ups are legal

//go:norace
func (c *Cond) Broadcast() {
	c.gen++
	Wake(c)
	Y(-18)
}

// Pool is a deterministic sync.Pool whose recycling behaviour is part of the
// simulated nondeterminism.
type Pool struct {
	New   func() any
	items []any
	known uint64
}

// pools used in this run, for EmptyPools
var pools []*Pool
var poolRun uint64

// EmptyPools is what the collector may do at any time.
func EmptyPools() {
	for _, p := range pools {
		p.items = nil
	}
}

var PoolReuses, PoolDrops int

type eface struct {
	t, p unsafe.Pointer
}

//go:norace
func dataPtr(x any) unsafe.Pointer {
	p := (*eface)(unsafe.Pointer(&x)).p
	if p == nil {
		p = unsafe.Pointer(&PoolReuses)
	}
	return p
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	Y(-20)
	if s := S; s != nil {
		s.poolOps++
		switch s.pol.PoolMode {
		case 2: // the collector empties the pool now and then
			if (uint64(s.poolOps)*0x9e3779b97f4a7c15)>>61 < 3 {
				PoolDrops++
				return
			}
		case 3:
			PoolDrops++
			return
		}
	}
	raceRelease(dataPtr(x))
	if p.known != poolRun {
		p.known = poolRun
		pools = append(pools, p)
	}
	p.items = append(p.items, x)
	Y(-21)
}

//go:norace
func (p *Pool) Get() any {
	Y(-22)
	if n := len(p.items); n > 0 {
		var x any
		if s := S; s != nil && s.pol.PoolMode == 1 {
			x = p.items[0]
			p.items = append([]any(nil), p.items[1:]...)
		} else {
			x = p.items[n-1]
			p.items[n-1] = nil
			p.items = p.items[:n-1]
		}
		PoolReuses++
		raceAcquire(dataPtr(x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Keys returns the keys of m in an order the simulator decides.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		sort.Slice(ks, func(i, j int) bool {
			a, aok := any(ks[i]).(string)
			b, bok := any(ks[j]).(string)
			if aok && bok {
				return a < b
			}
			return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j])
		})
		permute(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

// permute applies the order the simulator chose for this walk of a map: any
// order is possible, which one follows from the seed of the running task.
//
//go:norace
func permute(n int, swap func(i, j int)) {
	if S == nil || S.Cur == nil {
		return
	}
	t := S.Cur
	for i := n - 1; i > 0; i-- {
		t.Perm += 0x9e3779b97f4a7c15
		z := t.Perm
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		swap(i, int(z%uint64(i+1)))
	}
}
