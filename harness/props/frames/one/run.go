// Package one calls a function from a file that is named like another.
package one

import "strip.verif/props/frames"

//go:noinline
func Run(rest []frames.Step, last func()) {
	if len(rest) > 0 {
		rest[0](rest[1:], last) // one to the next
		return
	}
	last() // the line of one
}
