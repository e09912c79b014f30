// Package mc is a small explicit-state explorer for executions of real code.
//
// A check is a function that drives the code under test and takes every
// nondeterministic decision - which program, which input, which operation
// next, which thread runs, which fault happens - through X.Choose. The
// explorer enumerates the whole tree of choices depth first, one execution of
// the real code per leaf. Nothing is sampled.
//
// Work is divided over worker processes by the hash of the choices made
// before X.Ready, so that a crash of the code under test (stack overflow,
// fatal runtime error, race report) only ends one process and is attributed
// to the choice sequence that was being executed.
package mc

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check describes one property check.
type Check struct {
	ID string
	// What is specified, for the evidence file.
	Model       string
	Assumptions []string
	// Run executes one leaf of the choice tree.
	Run func(x *X)
	// Bounds describes the bounds of a tier, for the evidence file.
	Bounds func(thorough bool) map[string]interface{}
	// Time budget per tier (wall clock); exploration stops there, exit 0,
	// exhaustive:false.
	QuickBudget    time.Duration
	ThoroughBudget time.Duration
	// Init runs once per worker process.
	Init func()
	// Concurrent checks: the code under test starts goroutines.
	// MaxProcs of a worker, default 2.
	MaxProcs int
	// Hang is the time without progress after which an execution counts as
	// hung; default 60s.
	Hang time.Duration
	// Race: the check needs a binary built with the race detector and the
	// instrumented sources.
	Instrumented bool
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) {
	if registry[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

// Checks lists the registered ids.
func Checks() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Lookup finds a check.
func Lookup(id string) *Check { return registry[id] }

type choice struct {
	c, n int32
}

type failure struct {
	key, msg string
}

type skip struct{}

// X is one execution under exploration.
type X struct {
	Thorough bool
	// Verbose executions record a trace.
	Verbose bool

	check   *Check
	prefix  []int32
	choices []choice
	fixed   bool // replay: choices beyond the prefix are 0
	ready   bool
	shard   uint64
	shards  uint64
	journal *journal

	trace []string
	ops   int64

	st *stats

	mu      sync.Mutex
	fail    *failure
	cleanup []func()
}

type stats struct {
	execs  int64
	ops    int64
	states map[uint64]struct{}
	capped bool
	known  map[string]string
	sample [][]string
}

const maxStates = 1 << 20

var seed = maphash.MakeSeed()

// Choose picks one of n alternatives.
func (x *X) Choose(n int, label string) int {
	if n <= 0 {
		panic("mc: Choose of nothing: " + label)
	}
	i := len(x.choices)
	c := int32(0)
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= int32(n) {
			// only possible if the code under test is not deterministic
			// or changed since the recording
			if x.fixed {
				c = int32(n - 1)
			} else {
				panic(nondet{fmt.Sprintf("choice %d (%s): %d of %d", i, label, c, n)})
			}
		}
	}
	x.choices = append(x.choices, choice{c, int32(n)})
	if x.journal != nil {
		x.journal.put(i, c, int32(n))
	}
	if x.Verbose {
		x.trace = append(x.trace, fmt.Sprintf("choose %s = %d/%d", label, c, n))
	}
	return int(c)
}

type nondet struct{ msg string }

// Bool chooses false or true.
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

// Pick chooses an element.
func Pick[T any](x *X, label string, opts []T) T {
	return opts[x.Choose(len(opts), label)]
}

// Ready ends the setup phase: the choices made so far decide which worker
// executes the rest.
func (x *X) Ready() {
	if x.ready {
		return
	}
	x.ready = true
	if x.shards > 1 {
		h := uint64(14695981039346656037)
		for _, c := range x.choices {
			h ^= uint64(c.c) + 1
			h *= 1099511628211
			h ^= h >> 29
		}
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		if h%x.shards != x.shard {
			panic(skip{})
		}
	}
	if x.journal != nil {
		x.journal.started()
	}
}

// Op counts a transition: one operation executed on the implementation.
func (x *X) Op() { atomic.AddInt64(&x.ops, 1) }

// Ops counts n transitions.
func (x *X) Ops(n int) { atomic.AddInt64(&x.ops, int64(n)) }

// State records a state reached, as text.
func (x *X) State(s string) {
	h := fnv(s)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.state(h)
}

func (x *X) state(h uint64) {
	if x.st == nil {
		return
	}
	if len(x.st.states) >= maxStates {
		x.st.capped = true
		return
	}
	x.st.states[h] = struct{}{}
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Statef records a state reached.
func (x *X) Statef(format string, args ...interface{}) {
	x.State(fmt.Sprintf(format, args...))
}

// Logf adds to the trace of verbose executions.
func (x *X) Logf(format string, args ...interface{}) {
	if x.Verbose {
		x.mu.Lock()
		x.trace = append(x.trace, fmt.Sprintf(format, args...))
		x.mu.Unlock()
	}
}

// Failf reports that the property does not hold in this execution. key
// identifies the failing case class for known findings.
func (x *X) Failf(key, format string, args ...interface{}) {
	panic(&failure{key, fmt.Sprintf(format, args...)})
}

// Note records a failure without unwinding (for use inside callbacks whose
// panics the code under test may recover). The first one counts.
func (x *X) Note(key, format string, args ...interface{}) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.fail == nil {
		x.fail = &failure{key, fmt.Sprintf(format, args...)}
	}
}

// Failed tells whether a failure was noted.
func (x *X) Failed() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.fail != nil
}

// Defer runs f at the end of the execution, whatever happens.
func (x *X) Defer(f func()) { x.cleanup = append(x.cleanup, f) }

// Skip abandons an execution that the bounds exclude (a duplicate by
// symmetry, for instance). It is not counted.
func (x *X) Skip() { panic(skip{}) }

// result of one execution
type outcome struct {
	skipped bool
	fail    *failure
	stack   string
	nondet  string
}

func (x *X) run() (o outcome) {
	defer func() {
		for i := len(x.cleanup) - 1; i >= 0; i-- {
			x.cleanup[i]()
		}
	}()
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case skip:
			o.skipped = true
			return
		case nondet:
			o.nondet = r.msg
			return
		case *failure:
			o.fail = r
		default:
			o.fail = &failure{"panic", fmt.Sprintf("panic: %v", r)}
			o.stack = string(debug.Stack())
		}
		x.mu.Lock()
		if x.fail != nil {
			o.fail = x.fail
		}
		x.mu.Unlock()
	}()
	x.check.Run(x)
	if !x.ready {
		x.Ready()
	}
	return
}

func (x *X) seq() []int32 {
	s := make([]int32, len(x.choices))
	for i, c := range x.choices {
		s[i] = c.c
	}
	return s
}

// Catch runs f and returns the value it panicked with, letting the
// explorer's own control flow pass.
func Catch(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case skip, nondet, *failure:
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

// Control tells whether a recovered value belongs to the explorer.
func Control(r interface{}) bool {
	switch r.(type) {
	case skip, nondet, *failure:
		return true
	}
	return false
}

// Stacks of all goroutines, for hang reports.
func Stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

var _ = os.Stderr
