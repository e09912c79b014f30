// Package two calls a function from a file that is named like another.
package two

import "strip.verif/props/frames"

// more lines,
// so that the same number means another line

//go:noinline
func Run(rest []frames.Step, last func()) {
	if len(rest) == 0 {
		last() // the <line> of two
		return
	}
	rest[0](rest[1:], last) // two to the next
}

// Gone is compiled from a file that is not there.
//
//go:noinline
func Gone(rest []frames.Step, last func()) {
//line /nonexistent/gone.go:6
	if len(rest) == 0 {
		last()
		return
	}
	rest[0](rest[1:], last)
}
