// Package frames has the type of functions that call one another across files.
package frames

// A Step calls the next one, or the last function.
type Step func(rest []Step, last func())
