// Package vclock replaces the clock of the code under test: the build of the
// checks that cross expiry boundaries rewrites time.Now and its relatives to
// the functions of this package.
package vclock

import (
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	on     bool
	now    time.Time
	timers []*timer
	// Reads counts how often the code under test looked at the clock.
	Reads int
)

type timer struct {
	at time.Time
	f  func()
}

// Set starts the virtual clock at t.
func Set(t time.Time) {
	mu.Lock()
	defer mu.Unlock()
	on, now, timers = true, t, nil
}

// Now is the virtual time, or the real one if the clock was not set.
func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	if !on {
		return time.Now()
	}
	Reads++
	return now
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// AfterFunc runs f when the virtual clock gets there.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	mu.Lock()
	defer mu.Unlock()
	if !on {
		return time.AfterFunc(d, f)
	}
	timers = append(timers, &timer{now.Add(d), f})
	t := time.NewTimer(time.Hour)
	t.Stop()
	return t
}

// Add advances the clock; timers that fall due run in order.
func Add(d time.Duration) {
	mu.Lock()
	end := now.Add(d)
	for {
		var due *timer
		k := 0
		for i, t := range timers {
			if !t.at.After(end) && (due == nil || t.at.Before(due.at)) {
				due, k = t, i
			}
		}
		if due == nil {
			break
		}
		timers = append(timers[:k:k], timers[k+1:]...)
		if due.at.After(now) {
			now = due.at
		}
		mu.Unlock()
		due.f()
		mu.Lock()
	}
	now = end
	mu.Unlock()
}

// Timers is the number of pending timers.
func Timers() int {
	mu.Lock()
	defer mu.Unlock()
	return len(timers)
}
