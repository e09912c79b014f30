package props

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"strip.verif/mc"
)

func rethrowControl(e interface{}) {
	if mc.Control(e) {
		panic(e)
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// words enumerates all sequences over an alphabet up to a length, shortest
// first.
func words(alpha []string, min, max int) [][]string {
	var out [][]string
	level := [][]string{{}}
	for n := 0; n <= max; n++ {
		if n >= min {
			out = append(out, level...)
		}
		var nl [][]string
		for _, w := range level {
			for _, a := range alpha {
				nw := append(append([]string{}, w...), a)
				nl = append(nl, nw)
			}
		}
		level = nl
	}
	return out
}

func quoteAll(ss []string) string {
	q := make([]string, len(ss))
	for i, s := range ss {
		q[i] = fmt.Sprintf("%q", s)
	}
	return strings.Join(q, ",")
}

func strs(s string) []string { return strings.Fields(s) }

var epoch = time.Unix(1600000000, 0)
