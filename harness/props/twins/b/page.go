package page

import "strip.verif/props/twins"

type Page struct {
	Calls int
	One   *twins.Mark
	Two   *twins.Mark `inject:"two"`
	Three *twins.Mark `inject:"one"`
}

func (p *Page) call(what string, rest ...interface{}) {
	p.Calls++
	twins.Call(append([]interface{}{"b", what, p.Calls, p.One, p.Two, p.Three}, rest...)...)
}

func (p *Page) Get(s string, n int)     { p.call("Get", s, n) }
func (p *Page) Show(n int, s ...string) { p.call("Show", n, s) }
func (p Page) All()                     { p.call("All") }
func (p Page) Any(s string)             { p.call("Any", s) }
func (p Page) Put()                     { p.call("Put") }
