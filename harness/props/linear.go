package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"strip.verif/fakes"
	"strip.verif/mc"
)

// lnGate holds back every request the users send to the server until the
// explorer grants it.
type lnGate struct {
	mu      sync.Mutex
	armed   bool
	pending []*lnReq
	running int // users on their way to the next request or their end
	done    int
	changed chan struct{}
}

type lnReq struct {
	text string
	goOn chan struct{}
}

func (g *lnGate) decide(request string) fakes.Fault {
	if request == "connect" {
		return fakes.None
	}
	g.mu.Lock()
	if !g.armed {
		g.mu.Unlock()
		return fakes.None
	}
	r := &lnReq{request, make(chan struct{})}
	g.pending = append(g.pending, r)
	g.mu.Unlock()
	g.tell()
	<-r.goOn
	return fakes.None
}

// pause is a place within a request at which the server does others.
func (g *lnGate) pause(what string) { g.decide("(" + what + ")") }

func (g *lnGate) tell() {
	select {
	case g.changed <- struct{}{}:
	default:
	}
}

// settle waits until every user that was started has sent a request or is
// done; a user who waits for another one inside the process is not waited for
// for long.
func (g *lnGate) settle(started int) {
	late := time.After(3 * time.Second)
	for {
		g.mu.Lock()
		n := len(g.pending) + g.done
		g.mu.Unlock()
		if n >= started {
			return
		}
		select {
		case <-g.changed:
		case <-late:
			return
		}
	}
}

// lnItem is one operation of a history: who ran it, the steps between which
// it ran, and what it does if it takes effect in a state; false: its result
// does not fit.
type lnItem[S any] struct {
	user       int
	start, end int
	step       func(S) (S, bool)
	show       func() string
}

// lnOrder looks for an order of the operations, compatible with when they
// ran, in which each has the result it had.
func lnOrder[S any](s S, ops []*lnItem[S], used []bool, left int) bool {
	if left == 0 {
		return true
	}
next:
	for i, o := range ops {
		if used[i] {
			continue
		}
		for j, p := range ops {
			if !used[j] && j != i && (p.end < o.start || p.user == o.user && j < i) {
				continue next
			}
		}
		n, ok := o.step(s)
		if !ok {
			continue
		}
		used[i] = true
		if lnOrder(n, ops, used, left-1) {
			return true
		}
		used[i] = false
	}
	return false
}

// lnRun is a set of users under way.
type lnRun[S any] struct {
	x    *mc.X
	what string
	gate *lnGate
	mu   sync.Mutex
	hist []*lnItem[S]
	now  int
	over int
	// the requests in the order the server got them
	order []string
}

// op runs one operation; do returns its step.
func (r *lnRun[S]) op(user int, name string, do func() (result string, step func(S) (S, bool))) {
	r.mu.Lock()
	result := ""
	h := &lnItem[S]{user: user, start: r.now, end: 1 << 30}
	h.show = func() string {
		who := ""
		if user >= 0 {
			who = fmt.Sprintf("user %d ", user)
		}
		return fmt.Sprintf("%d-%d: %s%s%s", h.start, h.end, who, name, result)
	}
	r.hist = append(r.hist, h)
	r.mu.Unlock()
	res, step := do()
	r.mu.Lock()
	result, h.step, h.end = res, step, r.now
	r.over++
	r.mu.Unlock()
	r.x.Op()
}

// alone is an operation nobody else runs at the same time.
func (r *lnRun[S]) alone(name string, do func() (result string, step func(S) (S, bool))) {
	r.now++
	r.op(-1, name, do)
	r.now++
}

func (r *lnRun[S]) failf(key, format string, a ...interface{}) {
	r.x.Failf(key, "%s: %s; requests in the order the server got them: %s", r.what, fmt.Sprintf(format, a...), strings.Join(r.order, "; "))
}

// run starts the users and explores the orders in which the server gets their
// requests. interrupts is how often an operation interrupts another one
// between two of its requests; meanwhile happens once, somewhere, unless nil.
func (r *lnRun[S]) run(users []func(), interrupts int, meanwhile func()) {
	x, g := r.x, r.gate
	panics := make([]interface{}, len(users))
	g.armed = true
	x.Defer(g.open)
	for u := range users {
		u := u
		go func() {
			defer func() {
				panics[u] = recover()
				g.mu.Lock()
				g.done++
				g.mu.Unlock()
				g.tell()
			}()
			users[u]()
		}()
		g.settle(u + 1)
	}
	within := false
	for {
		g.mu.Lock()
		n, done := len(g.pending), g.done
		g.mu.Unlock()
		if n == 0 {
			if done < len(users) {
				r.failf("stuck", "%d users neither sent a request nor came to an end", len(users)-done)
			}
			break
		}
		if len(r.order) > 80 {
			r.failf("endless", "no end")
		}
		// the request the last one who was let on sent within the same
		// operation is the first choice, any other one interrupts it
		first, m := 0, n
		if within {
			first = n - 1
			if interrupts == 0 {
				m = 1
			}
		}
		wait := m
		if meanwhile != nil {
			m++
		}
		k := 0
		if m > 1 {
			k = x.Choose(m, "next request")
		}
		if k == wait {
			meanwhile()
			meanwhile = nil
			continue
		}
		if within && k > 0 {
			interrupts--
		}
		k = (first + k) % n
		g.mu.Lock()
		q := g.pending[k]
		g.pending = append(g.pending[:k:k], g.pending[k+1:]...)
		g.mu.Unlock()
		r.order = append(r.order, q.text)
		r.mu.Lock()
		r.now++
		ended := r.over
		r.mu.Unlock()
		close(q.goOn)
		g.settle(len(users))
		r.mu.Lock()
		g.mu.Lock()
		within = r.over == ended && len(g.pending) == n
		g.mu.Unlock()
		r.mu.Unlock()
	}
	g.open()
	for u, p := range panics {
		if p != nil {
			r.failf("panic", "user %d: panic: %v", u, p)
		}
	}
	if n := redisLost(); n != 0 {
		r.failf("connections", "%d connections are not given back", n)
	}
}

// judge looks for an order that explains the history.
func (r *lnRun[S]) judge(start S) {
	sort.SliceStable(r.hist, func(i, j int) bool { return r.hist[i].start < r.hist[j].start })
	if !lnOrder(start, r.hist, make([]bool, len(r.hist)), len(r.hist)) {
		r.failf("order", "no order of the operations explains their results: %s", r.show())
	}
	r.x.Statef("%s %s", r.what, r.show())
}

func (r *lnRun[S]) show() string {
	var l []string
	for _, o := range r.hist {
		l = append(l, o.show())
	}
	return strings.Join(l, "; ")
}

// open lets everybody run to the end.
func (g *lnGate) open() {
	g.mu.Lock()
	g.armed = false
	for _, r := range g.pending {
		close(r.goOn)
	}
	g.pending = nil
	g.mu.Unlock()
}

func lnTraits(th bool) string {
	return fmt.Sprintf("%d with 2 users, %d with 3", lnInterrupts(2, th), lnInterrupts(3, th))
}

// how often one operation interrupts another one between two requests of it
func lnInterrupts(users int, th bool) int {
	n := 2
	if users > 2 {
		n = 1
	}
	if th {
		n += 2
	}
	return n
}
