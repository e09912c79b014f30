// Package fakes holds in-process back ends that speak the wire protocols of
// memcached, Redis and MongoDB over pipes or abstract sockets, keep time with
// the virtual clock and fail on demand. They implement the documented
// behaviour of the servers, more commands than strip uses at present.
package fakes

import (
	"net"
	"time"

	"strip.verif/vclock"
)

// Fault is what happens to one request.
type Fault int

const (
	None      Fault = iota
	ErrorLine       // the server refuses the request with an error reply
	CutBefore       // the connection breaks before the request is processed
	CutAfter        // the request is processed, the connection breaks before the reply
	CutMid          // the request is processed, the connection breaks within the reply
	Refused         // no connection
)

func (f Fault) String() string {
	return []string{"none", "error reply", "cut before", "cut after", "cut within reply", "refused"}[f]
}

// Decider is asked for each request of the code under test; nil: no faults.
type Decider func(request string) Fault

// Entry is a stored value.
type Entry struct {
	Value  string
	Expire time.Time // zero: never
}

func (e *Entry) dead(now time.Time) bool { return !e.Expire.IsZero() && !now.Before(e.Expire) }

func now() time.Time { return vclock.Now() }

// reply sends out unless the fault forbids; false: connection to be closed.
func reply(c net.Conn, f Fault, out []byte) bool {
	switch f {
	case CutBefore, CutAfter:
		return false
	case CutMid:
		c.Write(out[:len(out)/2])
		return false
	}
	_, err := c.Write(out)
	return err == nil
}
