// Package twins has what the types of the packages below it have in common:
// they are written alike (page.Page), but are different types.
package twins

import "fmt"

type Mark struct{ Name string }

// Called is the last action that was called.
var Called string

func Call(parts ...interface{}) {
	Called = ""
	for _, p := range parts {
		if m, ok := p.(*Mark); ok {
			if m == nil {
				Called += "none "
			} else {
				Called += m.Name + " "
			}
			continue
		}
		Called += fmt.Sprintf("%v ", p)
	}
}
