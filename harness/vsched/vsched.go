// Package vsched runs real goroutines one at a time under a controller that
// decides, at every scheduling point, which of them goes on. Instrumented
// code reaches scheduling points through Point, the synchronisation shims of
// vsync and vatomic and the channel operations of this package; harness code
// through Point.
//
// Hand-offs between goroutines are hidden from the race detector, so that in
// a race build only the synchronisation of the code under test orders its
// memory accesses.
package vsched

import (
	"fmt"
	"runtime/debug"
	"unsafe"
)

// Waiter is something a thread waits for.
type Waiter interface{ Ready() bool }

type thread struct {
	id     int
	name   string
	resume chan struct{}
	done   bool
	w      Waiter
	// voluntary yield
	free bool
	// choice request
	req, res int
	where    string
	panicked bool
	panicv   interface{}
	stack    string
	run      int // points since the last switch
}

const maxThreads = 64

// Sched is one controlled execution.
type Sched struct {
	choose func(n int, label string) int
	bound  int
	trace  func(format string, args ...interface{})

	threads [maxThreads]*thread
	n       int
	ctl     chan struct{}
	endSync int

	// Coarse executions pass over the points of function entries
	Coarse bool

	Steps       int
	Preemptions int
}

// Result of an execution.
type Result struct {
	Deadlock bool
	Blocked  string
	Stuck    bool
	Panic    interface{}
	PanicOf  string
	Stack    string
}

var (
	active  *Sched
	running *thread
)

// New starts a controlled execution; choose decides, bound limits the
// preemptions (switches away from a thread that could go on).
func New(choose func(n int, label string) int, bound int, trace func(string, ...interface{})) *Sched {
	s := &Sched{choose: choose, bound: bound, trace: trace, ctl: make(chan struct{})}
	active, running = s, nil
	resetChans()
	return s
}

// End leaves the controlled mode.
//
//go:norace
func (s *Sched) End() { active, running = nil, nil }

// Go adds a thread.
//
//go:norace
func (s *Sched) Go(name string, f func()) { s.spawn(name, f) }

//go:norace
func (s *Sched) spawn(name string, f func()) {
	if s.n == maxThreads {
		panic("vsched: too many threads")
	}
	t := &thread{id: s.n, name: name, resume: make(chan struct{})}
	s.threads[s.n] = t
	s.n++
	go t.main(s, f)
}

//go:norace
func (t *thread) main(s *Sched, f func()) {
	RaceDisable()
	<-t.resume
	RaceEnable()
	t.call(f)
	RaceReleaseMerge(unsafe.Pointer(&s.endSync))
	t.done = true
	RaceDisable()
	s.ctl <- struct{}{}
	RaceEnable()
}

//go:norace
func (t *thread) call(f func()) {
	defer t.caught()
	f()
}

//go:norace
func (t *thread) caught() {
	if r := recover(); r != nil {
		t.panicked, t.panicv, t.stack = true, r, string(debug.Stack())
	}
}

//go:norace
func (t *thread) yield(s *Sched) {
	RaceDisable()
	s.ctl <- struct{}{}
	<-t.resume
	RaceEnable()
}

// Go starts a thread from instrumented code.
//
//go:norace
func Go(f func()) {
	if active == nil {
		go f()
		return
	}
	name := "main"
	if running != nil {
		name = running.name
	}
	active.spawn(fmt.Sprintf("%s.go%d", name, active.n), f)
}

// Point lets another thread run.
//
//go:norace
func Point(where string) {
	t := running
	if t == nil {
		return
	}
	t.where = where
	t.yield(active)
}

// Fine is a point that counts only in executions of fine granularity.
//
//go:norace
func Fine(where string) {
	if running == nil || active.Coarse {
		return
	}
	Point(where)
}

// Gosched lets every other thread run without that counting as a preemption.
//
//go:norace
func Gosched() {
	t := running
	if t == nil {
		return
	}
	t.where = "Gosched"
	t.free = true
	t.yield(active)
}

// Wait is a point that is passed only when w is ready.
//
//go:norace
func Wait(w Waiter, where string) {
	t := running
	if t == nil {
		if !w.Ready() {
			panic("vsched: " + where + " blocks for ever")
		}
		return
	}
	t.where = where
	t.w = w
	t.yield(active)
}

// Active tells whether the caller runs under the scheduler.
//
//go:norace
func Active() bool { return running != nil }

// Self returns the number of the running thread, -1 outside.
//
//go:norace
func Self() int {
	if running == nil {
		return -1
	}
	return running.id
}

// Choose lets the controller decide.
//
//go:norace
func Choose(n int) int {
	t := running
	if t == nil || n < 2 {
		return 0
	}
	t.req = n
	t.yield(active)
	return t.res
}

//go:norace
func (t *thread) enabled() bool {
	return !t.done && (t.w == nil || t.w.Ready())
}

// Run executes the threads to the end.
//
//go:norace
func (s *Sched) Run() (r Result) {
	cur := -1
	var en [maxThreads]int
	for {
		s.Steps++
		if s.Steps > 100000 {
			r.Stuck = true
			running = nil
			return
		}
		n := 0
		curOK := cur >= 0 && s.threads[cur].enabled()
		if curOK {
			t := s.threads[cur]
			t.run++
			if t.run > 400 {
				t.free = true
			}
			if !t.free {
				en[0] = cur
				n = 1
			}
		}
		if n == 0 || s.Preemptions < s.bound {
			for i := 0; i < s.n; i++ {
				if i != cur && s.threads[i].enabled() {
					en[n] = i
					n++
				}
			}
		}
		if n == 0 && curOK {
			en[0] = cur
			n = 1
		}
		if n == 0 {
			break
		}
		k := 0
		if n > 1 {
			k = s.choose(n, "thread")
		}
		next := en[k]
		t := s.threads[next]
		if curOK && next != cur && !s.threads[cur].free {
			s.Preemptions++
		}
		if next != cur {
			t.run = 0
		}
		t.free = false
		t.w = nil
		cur = next
		if s.trace != nil {
			s.trace("%s: %s", t.name, t.where)
		}
		running = t
		s.handoff(t)
		for t.req > 0 {
			t.res = s.choose(t.req, "alternative")
			t.req = 0
			s.handoff(t)
		}
		running = nil
		if t.panicked {
			r.Panic, r.PanicOf, r.Stack = t.panicv, t.name, t.stack
			return
		}
	}
	for i := 0; i < s.n; i++ {
		if !s.threads[i].done {
			r.Deadlock = true
			r.Blocked += fmt.Sprintf("%s at %s; ", s.threads[i].name, s.threads[i].where)
		}
	}
	if !r.Deadlock {
		RaceAcquire(unsafe.Pointer(&s.endSync))
	}
	return
}

//go:norace
func (s *Sched) handoff(t *thread) {
	RaceDisable()
	t.resume <- struct{}{}
	<-s.ctl
	RaceEnable()
}
