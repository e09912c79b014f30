package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/wujiu2020/strip/utils"
	"strip.verif/mc"
	"strip.verif/vsched"
)

// operations of a client thread
const (
	wkFunc    = iota // RunTask(func())
	wkNil            // RunTask(func() error) that succeeds
	wkFail           // RunTask(func() error) that fails
	wkWait           // Wait
	wkClose          // Close
	wkNest           // RunTask of a task that itself submits a task
	wkUnknown        // RunTask of something that is not a task
)

var wkNames = []string{"func()", "func() error ok", "func() error failing", "Wait", "Close", "nesting func()", "unknown"}

type wkTask struct {
	id                int
	kind              int
	submit, accepted  int // event times: RunTask called, returned
	start, end, count int
	err               error
}

type wkWaitEv struct {
	call, ret int
	err       error
	waiter    int
}

type wkWorld struct {
	x       *mc.X
	limit   int
	now     int
	running int
	tasks   []*wkTask
	waits   []*wkWaitEv
	closes  [][2]int // call, return
	log     []string
	prop    string
	desc    string
}

func (w *wkWorld) tick(format string, args ...interface{}) int {
	w.now++
	w.log = append(w.log, fmt.Sprintf("%3d ", w.now)+fmt.Sprintf(format, args...))
	return w.now
}

func (w *wkWorld) submit(wk *utils.Worker, kind int) {
	t := &wkTask{id: len(w.tasks), kind: kind}
	w.tasks = append(w.tasks, t)
	begin := func() {
		t.count++
		w.running++
		if t.start == 0 {
			t.start = w.tick("task %d starts, %d running", t.id, w.running)
		} else {
			w.tick("task %d starts again", t.id)
		}
		if w.running > w.limit && w.prop == "C12" {
			w.x.Note("limit", "%d tasks running, the limit is %d\n%s", w.running, w.limit, w.text())
		}
	}
	finish := func() {
		w.running--
		t.end = w.tick("task %d ends", t.id)
	}
	var task interface{}
	switch kind {
	case wkFunc:
		task = func() { begin(); vsched.Point("task"); finish() }
	case wkNil:
		task = func() error { begin(); vsched.Point("task"); finish(); return nil }
	case wkFail:
		t.err = fmt.Errorf("error of task %d", t.id)
		task = func() error { begin(); vsched.Point("task"); finish(); return t.err }
	case wkNest:
		task = func() { begin(); w.submit(wk, wkFunc); finish() }
	case wkUnknown:
		task = func(int) {}
	}
	t.submit = w.tick("RunTask(task %d: %s)", t.id, wkNames[kind])
	wk.RunTask(task)
	t.accepted = w.tick("RunTask(task %d) returns", t.id)
}

func (w *wkWorld) client(wk *utils.Worker, name string, id int, ops []int) {
	for _, op := range ops {
		switch op {
		case wkWait:
			e := &wkWaitEv{waiter: id}
			w.waits = append(w.waits, e)
			e.call = w.tick("%s: Wait", name)
			err := wk.Wait()
			e.err = err
			e.ret = w.tick("%s: Wait returns %v", name, err)
		case wkClose:
			c := [2]int{w.tick("%s: Close", name)}
			w.closes = append(w.closes, c)
			i := len(w.closes) - 1
			wk.Close()
			w.closes[i][1] = w.tick("%s: Close returns", name)
		default:
			w.submit(wk, op)
		}
	}
}

func (w *wkWorld) text() string { return w.desc + "\n" + strings.Join(w.log, "\n") }

func wkOpsText(ops []int) string {
	var s []string
	for _, o := range ops {
		s = append(s, wkNames[o])
	}
	return strings.Join(s, ", ")
}

// all programs of a tier
type wkProgram struct {
	limit   int
	clients [][]int
}

func wkSequences(alpha []int, n int) [][]int {
	out := [][]int{nil}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, s := range out {
			for _, a := range alpha {
				next = append(next, append(append([]int(nil), s...), a))
			}
		}
		out = next
	}
	return out
}

func wkUpTo(alpha []int, n int) (out [][]int) {
	for i := 0; i <= n; i++ {
		out = append(out, wkSequences(alpha, i)...)
	}
	return
}

func wkUseful(ops []int) bool {
	for i := range ops {
		if i > 0 && ops[i] == wkWait && ops[i-1] == wkWait {
			return false
		}
	}
	return true
}

func count(ops []int, k int) (n int) {
	for _, o := range ops {
		if o == k {
			n++
		}
	}
	return
}

func wkPrograms(th bool) (out []wkProgram) {
	mainLen, sideLen := 3, 1
	if th {
		mainLen, sideLen = 4, 2
	}
	for limit := 1; limit <= 2; limit++ {
		// one client
		for _, m := range wkUpTo([]int{wkFunc, wkNil, wkFail, wkWait, wkClose}, mainLen) {
			if len(m) == 0 || !wkUseful(m) || m[0] == wkWait && len(m) > 1 {
				continue
			}
			if m[len(m)-1] != wkWait {
				m = append(m, wkWait)
			}
			out = append(out, wkProgram{limit, [][]int{m}})
		}
		// a second client that submits, closes
		for _, m := range wkUpTo([]int{wkNil, wkFail, wkClose}, mainLen-1) {
			if len(m) == 0 {
				continue
			}
			for _, s := range wkUpTo([]int{wkNil, wkFail, wkClose}, sideLen) {
				if len(s) == 0 {
					continue
				}
				out = append(out, wkProgram{limit, [][]int{append(append([]int(nil), m...), wkWait), s}})
			}
		}
		// three clients
		for _, s := range [][][]int{
			{{wkFail, wkWait}, {wkFail}, {wkClose}},
			{{wkNil, wkWait}, {wkFail}, {wkNil}},
			{{wkFunc, wkWait}, {wkFunc}, {wkFunc}},
			{{wkFail, wkWait}, {wkClose}, {wkClose}},
			{{wkFail, wkWait}, {wkWait}},
			{{wkNil, wkFail, wkWait}, {wkWait, wkNil}},
		} {
			out = append(out, wkProgram{limit, s})
		}
		out = append(out, wkProgram{limit, [][]int{{wkUnknown, wkWait}}}, wkProgram{limit, [][]int{{wkUnknown, wkNil, wkWait}}},
			wkProgram{limit, [][]int{{wkUnknown, wkFail, wkWait}}})
	}
	// tasks that submit tasks, with room for all of them
	for _, m := range [][]int{{wkNest, wkWait}, {wkNest, wkFail, wkWait}, {wkNest, wkClose, wkWait}, {wkFail, wkNest, wkWait}, {wkNest, wkWait, wkNil, wkWait}} {
		out = append(out, wkProgram{4, [][]int{m}})
	}
	return
}

var wkPrograms_ = map[bool][]wkProgram{}

func runWorker(prop string) func(x *mc.X) {
	return func(x *mc.X) {
		ps := wkPrograms_[x.Thorough]
		if ps == nil {
			ps = wkPrograms(x.Thorough)
			wkPrograms_[x.Thorough] = ps
		}
		p := ps[x.Choose(len(ps), "program")]
		tasks := 0
		for _, c := range p.clients {
			tasks += len(c) - count(c, wkWait) - count(c, wkClose)
		}
		bound := 2
		if x.Thorough {
			bound = 3
		}
		if len(p.clients) == 1 && tasks <= 2 {
			bound++
		}
		if tasks+len(p.clients) > 4 {
			bound--
		}
		w := &wkWorld{x: x, limit: p.limit, prop: prop, desc: fmt.Sprintf("limit %d", p.limit)}
		for i, c := range p.clients {
			w.desc += fmt.Sprintf("\nclient %d: %s", i, wkOpsText(c))
		}
		n := 0
		choose := func(k int, label string) int {
			if n == 3 {
				x.Ready()
			}
			n++
			return x.Choose(k, label)
		}
		var trace func(string, ...interface{})
		if x.Verbose {
			x.Logf("%s", w.desc)
			trace = x.Logf
		}
		s := vsched.New(choose, bound, trace)
		x.Defer(s.End)
		wk := utils.NewWorker(p.limit)
		for i, c := range p.clients {
			i, c := i, c
			name := fmt.Sprintf("client %d", i)
			s.Go(name, func() { w.client(wk, name, i, c) })
		}
		r := s.Run()
		x.Ready()
		x.Ops(s.Steps)
		fail := func(key, format string, args ...interface{}) {
			x.Failf(key, "%s\n%s", fmt.Sprintf(format, args...), w.text())
		}
		if r.Panic != nil {
			if mc.Control(r.Panic) {
				panic(r.Panic)
			}
			fail("panic", "%s panics: %v\n%s", r.PanicOf, r.Panic, r.Stack)
		}
		if r.Stuck {
			fail("livelock", "no end after 100000 steps")
		}
		if r.Deadlock {
			fail("deadlock", "deadlock: %s", r.Blocked)
		}
		if x.Failed() {
			return
		}
		w.judge(prop, fail)
		x.State(strings.Join(w.log, "\n"))
	}
}

func (w *wkWorld) judge(prop string, fail func(string, string, ...interface{})) {
	// the earliest moment at which the worker may have been closed
	mayClose := 1 << 30
	for _, c := range w.closes {
		mayClose = minInt(mayClose, c[0])
	}
	mayFail := 1 << 30
	for _, t := range w.tasks {
		if t.err != nil && t.count > 0 {
			mayFail = minInt(mayFail, t.end)
		}
	}
	// the moment from which it is closed for sure
	closedFor := 1 << 30
	for _, c := range w.closes {
		closedFor = minInt(closedFor, c[1])
	}
	for _, t := range w.tasks {
		sure := t.kind != wkUnknown && t.accepted < mayClose && t.accepted < mayFail
		if prop == "C12" {
			if t.count > 1 {
				fail("twice", "task %d ran %d times", t.id, t.count)
			}
			if sure && t.count != 1 {
				fail("lost", "task %d was accepted but did not run", t.id)
			}
			if t.count > 0 && t.end == 0 {
				fail("lost", "task %d did not finish", t.id)
			}
			for _, e := range w.waits {
				if t.accepted < e.call && t.count > 0 && t.end > e.ret {
					fail("wait", "Wait returned at %d before task %d, accepted before Wait was called, had finished", e.ret, t.id)
				}
			}
		}
		if prop == "C13" && t.count > 0 && t.submit > closedFor {
			fail("intake", "task %d was submitted after Close had returned, and ran", t.id)
		}
	}
	if prop != "C13" {
		return
	}
	for _, e := range w.waits {
		if e.err != nil {
			ok := false
			for _, t := range w.tasks {
				ok = ok || t.count > 0 && errors.Is(e.err, t.err) && t.err != nil && t.start < e.ret
			}
			if !ok {
				fail("error", "Wait returned %v, which is no error of a task that ran", e.err)
			}
			for _, t := range w.tasks {
				if t.submit > e.ret && t.count > 0 {
					fail("intake", "task %d was submitted after Wait had returned an error, and ran", t.id)
				}
			}
		}
	}
	// a failed task's error must have been reported by the time a wait that
	// covers it has returned
	for _, t := range w.tasks {
		if t.err == nil || t.count == 0 || t.accepted >= mayClose || t.end >= mayClose {
			continue
		}
		if t.accepted > mayFail && mayFail < t.accepted {
			// accepted while another failure was being handled: that one counts
			continue
		}
		covered := false
		var last *wkWaitEv // the first Wait that has to know
		for _, e := range w.waits {
			covered = covered || t.accepted < e.call
			if t.accepted < e.call && (last == nil || e.ret < last.ret) {
				last = e
			}
		}
		if !covered {
			continue
		}
		if mayClose < 1<<30 && mayClose < last.ret {
			continue // whether it was closed before the failure counts can not be seen
		}
		got := false
		for _, e := range w.waits {
			got = got || e.err != nil
		}
		if !got {
			fail("error", "task %d failed, but no Wait returned an error", t.id)
		}
		// with a single waiting client, the first covering wait or an earlier one reports it
		if sameWaiter(w.waits) {
			ok := false
			for _, e := range w.waits {
				ok = ok || e.err != nil && e.ret <= last.ret
			}
			if !ok {
				fail("error", "task %d failed, but the first Wait after it was accepted returned nil", t.id)
			}
		}
	}
}

func sameWaiter(ws []*wkWaitEv) bool {
	for _, w := range ws {
		if w.waiter != ws[0].waiter {
			return false
		}
	}
	return true
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func wkBounds(th bool) map[string]interface{} {
	b := map[string]interface{}{"programs": len(wkPrograms(th)), "clients": "1 to 3, concurrent", "limit": "1, 2 (4 for tasks that submit tasks)"}
	if th {
		b["preemptions"] = "2 to 4 depending on the number of threads"
		b["operations"] = "up to 4 and a final Wait per client, 2 of a second client"
	} else {
		b["preemptions"] = "1 to 3 depending on the number of threads"
		b["operations"] = "up to 3 and a final Wait per client, 1 of a second client"
	}
	b["scheduling points"] = "every statement and synchronisation operation of package utils, in the tasks, between the operations of a client"
	return b
}

func init() {
	for _, id := range []string{"C12", "C13"} {
		mc.Register(&mc.Check{
			ID:    id,
			Model: "the real worker under a controlled scheduler that enumerates all schedules up to a preemption bound; the history of submissions, starts, ends, waits and closes is judged after each",
			Assumptions: []string{
				"tasks are submitted from running tasks only when there is room for all tasks",
				"synchronisation primitives are replaced by models with the semantics of package sync and of channels; statements are atomic except read-modify-write of a field",
			},
			Bounds:       wkBounds,
			Run:          runWorker(id),
			Instrumented: true,
		})
	}
}
