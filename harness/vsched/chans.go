//go:build go1.23

package vsched

import (
	"iter"
	"reflect"
	"time"
	"unsafe"
)

// Channels of the instrumented code keep their native type, but only their
// identity and capacity are used: contents and waiting are emulated here.

type vchan struct {
	id     unsafe.Pointer
	keep   interface{}
	capac  int
	closed bool
	buf    []interface{}
	recvq  []*cwait
	sendq  []*cwait
}

type group struct {
	fired  bool
	idx    int
	val    interface{}
	ok     bool
	closed bool // a send on a channel closed meanwhile
}

//go:norace
func (g *group) Ready() bool { return g.fired }

type cwait struct {
	g   *group
	idx int
	val interface{}
}

var chans [256]*vchan
var nchans int

func resetChans() {
	for i := 0; i < nchans; i++ {
		chans[i] = nil
	}
	nchans = 0
}

//go:norace
func lookup(ch interface{}) *vchan {
	v := reflect.ValueOf(ch)
	p := v.UnsafePointer()
	if p == nil {
		return nil
	}
	for i := 0; i < nchans; i++ {
		if chans[i].id == p {
			return chans[i]
		}
	}
	if nchans == len(chans) {
		panic("vsched: too many channels")
	}
	c := &vchan{id: p, keep: ch, capac: v.Cap()}
	chans[nchans] = c
	nchans++
	return c
}

//go:norace
func first(q *[]*cwait, not *group) *cwait {
	for i := 0; i < len(*q); i++ {
		w := (*q)[i]
		if w.g.fired {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			i--
			continue
		}
		if w.g != not {
			return w
		}
	}
	return nil
}

//go:norace
func fire(w *cwait, val interface{}, ok bool) {
	w.g.fired, w.g.idx, w.g.val, w.g.ok = true, w.idx, val, ok
}

// Case of a select.
type Case struct {
	c    *vchan
	send bool
	val  interface{}
}

//go:norace
func (k Case) ready() bool {
	if k.c == nil {
		return false
	}
	if k.send {
		return k.c.closed || len(k.c.buf) < k.c.capac || first(&k.c.recvq, nil) != nil
	}
	return len(k.c.buf) > 0 || k.c.closed || first(&k.c.sendq, nil) != nil
}

//go:norace
func (k Case) perform() (interface{}, bool) {
	c := k.c
	RaceAcquire(unsafe.Pointer(c))
	RaceReleaseMerge(unsafe.Pointer(c))
	if k.send {
		if c.closed {
			panic("send on closed channel")
		}
		if w := first(&c.recvq, nil); w != nil {
			fire(w, k.val, true)
			return nil, false
		}
		c.buf = append(c.buf, k.val)
		return nil, false
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]interface{}(nil), c.buf[1:]...)
		if w := first(&c.sendq, nil); w != nil {
			c.buf = append(c.buf, w.val)
			fire(w, nil, false)
		}
		return v, true
	}
	if w := first(&c.sendq, nil); w != nil {
		v := w.val
		fire(w, nil, false)
		return v, true
	}
	return nil, false // closed
}

// Select returns the case chosen, -1 for the default.
//
//go:norace
func Select(hasDefault bool, cases ...Case) (int, interface{}, bool) {
	if !hasDefault && len(cases) == 0 {
		Wait(&group{}, "select {}")
	}
	Point("channel operation")
	var ready []int
	for i, k := range cases {
		if k.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[Choose(len(ready))]
		v, ok := cases[i].perform()
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	g := &group{}
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		w := &cwait{g, i, k.val}
		if k.send {
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	Wait(g, "channel operation")
	if c := cases[g.idx].c; c != nil {
		RaceAcquire(unsafe.Pointer(c))
	}
	if g.closed {
		panic("send on closed channel")
	}
	return g.idx, g.val, g.ok
}

func as[T any](v interface{}) (z T) {
	if v != nil {
		z = v.(T)
	}
	return
}

// CRecv is a receive case.
func CRecv[C ~chan T | ~<-chan T, T any](c C) Case { return Case{c: lookup(c)} }

// CSend is a send case.
func CSend[C ~chan T | ~chan<- T, T any](c C) func(T) Case {
	return func(v T) Case { return Case{lookup(c), true, v} }
}

// As types the value received from c.
func As[C ~chan T | ~<-chan T, T any](c C, v interface{}) T { return as[T](v) }

// Send is c <- v.
func Send[C ~chan T | ~chan<- T, T any](c C) func(T) {
	return func(v T) { Select(false, Case{lookup(c), true, v}) }
}

// Recv is <-c.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	_, v, _ := Select(false, Case{c: lookup(c)})
	return as[T](v)
}

// Recv2 is v, ok := <-c.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	_, v, ok := Select(false, Case{c: lookup(c)})
	return as[T](v), ok
}

// Range is for v := range c.
func Range[C ~chan T | ~<-chan T, T any](c C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2[C, T](c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close is close(c).
func Close[C ~chan T | ~chan<- T, T any](c C) {
	Point("close of channel")
	closeChan(lookup(c))
}

//go:norace
func closeChan(c *vchan) {
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	RaceReleaseMerge(unsafe.Pointer(c))
	c.closed = true
	for w := first(&c.recvq, nil); w != nil; w = first(&c.recvq, nil) {
		fire(w, nil, false)
	}
	for w := first(&c.sendq, nil); w != nil; w = first(&c.sendq, nil) {
		w.g.closed = true
		fire(w, nil, false)
	}
}

// Len is len(c).
func Len[C ~chan T | ~chan<- T | ~<-chan T, T any](c C) int {
	Point("len of channel")
	if v := lookup(c); v != nil {
		return len(v.buf)
	}
	return 0
}

// Sleep passes time: everyone else may run.
func Sleep(time.Duration) { Gosched() }

// After may fire at any time.
func After(time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() { Send(c)(time.Time{}) })
	return c
}
