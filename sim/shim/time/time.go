// Package time replaces the standard package in the instrumented copy of the
// code under test: same API on the simulated clock.
package time

import (
	"strings"
	std "time"
	"unsafe"

	"watersim/simrt"
)

// the simulated epoch
var epoch = std.Date(2024, 3, 5, 12, 0, 0, 0, std.UTC)

func Now() Time {
	simrt.NoteTimeRead()
	wall := epoch.Add(Duration(simrt.WallNS())).In(Local)
	if !monotonic {
		return wall
	}
	return stamp(wall, simrt.NowNS())
}

// layout is that of the standard library's Time.
type layout struct {
	wall uint64
	ext  int64
	loc  *Location
}

const since1885 = 2682288000 // seconds from 1885 to 1970

// stamp gives a time a monotonic reading, as time.Now does.
func stamp(t Time, mono int64) Time {
	l := layout{wall: 1<<63 | uint64(t.Unix()+since1885)<<30 | uint64(t.Nanosecond()), ext: mono + 1, loc: (*layout)(unsafe.Pointer(&t)).loc}
	return *(*Time)(unsafe.Pointer(&l))
}

// monotonic: the layout is the one we know.
var monotonic = func() bool {
	if unsafe.Sizeof(layout{}) != unsafe.Sizeof(std.Time{}) {
		return false
	}
	a, b := stamp(epoch, 5), stamp(epoch.Add(-Hour), 12)
	return a.Equal(epoch) && a.Round(0) == epoch.Round(0) && b.Sub(a) == 7 && b.Round(0).Sub(a.Round(0)) == -Hour && strings.Contains(a.String(), "m=+")
}()

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(int64(d)) }

type Timer struct {
	C       <-chan Time
	c       chan Time
	f       func()
	gen     int
	pending bool
	task    *simrt.Task
}

//go:norace
func (t *Timer) arm(d Duration) {
	simrt.WakeUp(t.task)
	t.gen++
	t.pending = true
	g := t.gen
	t.task = simrt.GoBackground(func() {
		simrt.Sleep(int64(d))
		if !t.fires(g) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

//go:norace
func (t *Timer) fires(g int) bool {
	if t.gen != g || !t.pending {
		return false
	}
	t.pending = false
	return true
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	p := t.pending
	t.pending = false
	t.gen++
	simrt.WakeUp(t.task)
	t.task = nil
	return p
}

//go:norace
func (t *Timer) Reset(d Duration) bool {
	p := t.pending
	t.arm(d)
	return p
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan Time
	c    chan Time
	gen  int
	stop bool
	task *simrt.Task
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.Reset(d)
	return t
}

//go:norace
func (t *Ticker) Stop() {
	t.stop = true
	t.gen++
	simrt.WakeUp(t.task)
	t.task = nil
}

//go:norace
func (t *Ticker) Reset(d Duration) {
	simrt.WakeUp(t.task)
	t.stop = false
	t.gen++
	g := t.gen
	t.task = simrt.GoBackground(func() {
		for t.goesOn(g) && simrt.ClientsLeft() {
			simrt.Sleep(int64(d))
			if !t.goesOn(g) {
				return
			}
			select {
			case t.c <- Now():
			default:
			}
		}
	})
}

//go:norace
func (t *Ticker) goesOn(g int) bool { return !t.stop && t.gen == g }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
