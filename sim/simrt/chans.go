package simrt

import (
	"reflect"
	"unsafe"
)

// --- channels and select, with the scheduler deciding who waits ---
//
// Buffered and closed channels are the runtime's own, tried without waiting.
// On an unbuffered one two tasks have to meet, which two that only try never
// do: who has to wait is listed in Sched.waiters and whoever comes next on the
// other side completes both operations.

// Case is one case of a select.
type Case interface {
	try() bool
	at() (ch unsafe.Pointer, unbuffered, send bool)
	meet(Case)
	real() reflect.SelectCase
	done(v reflect.Value, ok bool)
}

type RecvCase[T any] struct {
	C  <-chan T
	V  T
	OK bool
}

type SendCase[T any] struct {
	C chan<- T
	V T
}

func CaseRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{C: c} }
func CaseSend[T any](c chan<- T) *SendCase[T] { return &SendCase[T]{C: c} }

func (x *SendCase[T]) Set(v T) *SendCase[T] { x.V = v; return x }
func (x *SendCase[T]) Do()                  { Select(false, x) }

func (x *RecvCase[T]) try() bool {
	select {
	case x.V, x.OK = <-x.C:
		return true
	default:
		return false
	}
}

func (x *SendCase[T]) try() bool {
	select {
	case x.C <- x.V:
		return true
	default:
		return false
	}
}

func (x *RecvCase[T]) at() (unsafe.Pointer, bool, bool) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&x.C)), x.C != nil && cap(x.C) == 0, false
}

func (x *SendCase[T]) at() (unsafe.Pointer, bool, bool) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&x.C)), x.C != nil && cap(x.C) == 0, true
}

func (x *RecvCase[T]) meet(o Case) { x.V, x.OK = o.(*SendCase[T]).V, true }

func (x *SendCase[T]) meet(o Case) { o.meet(x) }

func (x *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(x.C)}
}

func (x *SendCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(x.C), Send: reflect.ValueOf(&x.V).Elem()}
}

func (x *RecvCase[T]) done(v reflect.Value, ok bool) {
	if x.OK = ok; ok {
		reflect.ValueOf(&x.V).Elem().Set(v)
	}
}

func (x *SendCase[T]) done(reflect.Value, bool) {}

type waiter struct {
	cases []Case
	fired int
	a, b  int // addresses for the race detector
}

func (s *Sched) leave(w *waiter) {
	for i, o := range s.waiters {
		if o == w {
			s.waiters = append(s.waiters[:i:i], s.waiters[i+1:]...)
			return
		}
	}
}

// Select carries out one of the cases and returns its index; -1 for the
// default when there is one and none of the cases can go on.
//
//go:norace
func Select(def bool, cases ...Case) int {
	Y(-30)
	s := S
	if s == nil || s.Cur == nil {
		return realSelect(def, cases)
	}
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	permute(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	w := &waiter{cases: cases, fired: -1}
	listed := false
	for {
		if w.fired >= 0 {
			s.progress++
			raceAcquire(unsafe.Pointer(&w.b))
			return w.fired
		}
		for _, i := range order {
			c := cases[i]
			ok := c.try()
			if !ok {
				ok = s.rendezvous(w, c)
			}
			if ok {
				if listed {
					s.leave(w)
				}
				s.progress++
				return i
			}
		}
		if def {
			return -1
		}
		if !listed && len(cases) > 0 {
			listed = true
			raceRelease(unsafe.Pointer(&w.a))
			s.waiters = append(s.waiters, w)
		}
		Poll()
		if s != S || s.Cur == nil {
			return realSelect(def, cases)
		}
	}
}

//go:norace
func (s *Sched) rendezvous(w *waiter, c Case) bool {
	p, unbuffered, send := c.at()
	if !unbuffered {
		return false
	}
	for _, o := range s.waiters {
		if o == w {
			continue
		}
		for j, oc := range o.cases {
			if op, _, osend := oc.at(); op != p || osend == send {
				continue
			}
			raceAcquire(unsafe.Pointer(&o.a))
			c.meet(oc)
			raceRelease(unsafe.Pointer(&o.b))
			o.fired = j
			s.leave(o)
			s.progress++
			return true
		}
	}
	return false
}

func realSelect(def bool, cases []Case) int {
	var l []reflect.SelectCase
	for _, c := range cases {
		l = append(l, c.real())
	}
	if def {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(l)
	if i == len(cases) {
		return -1
	}
	cases[i].done(v, ok)
	return i
}

func Recv[T any](c <-chan T) T {
	r := RecvCase[T]{C: c}
	Select(false, &r)
	return r.V
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvCase[T]{C: c}
	Select(false, &r)
	return r.V, r.OK
}

// Rand is the randomness the code under test asks for: it follows from the
// seed of the running task, and never repeats within a run.
//
//go:norace
func Rand() uint64 {
	var z uint64
	if s := S; s != nil {
		s.randN++
		z = s.randN * 0x9e3779b97f4a7c15
		if s.Cur != nil {
			z ^= s.Cur.Perm
		}
	} else {
		outside++
		z = outside * 0x9e3779b97f4a7c15
	}
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var outside uint64
