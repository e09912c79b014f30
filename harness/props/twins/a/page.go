package page

import "strip.verif/props/twins"

type Page struct {
	One   *twins.Mark `inject:"one"`
	Two   *twins.Mark
	Three *twins.Mark `inject:"two"`
	Calls int
}

func (p *Page) call(what string, rest ...interface{}) {
	p.Calls++
	twins.Call(append([]interface{}{"a", what, p.Calls, p.One, p.Two, p.Three}, rest...)...)
}

func (p *Page) Get(n int, s string)  { p.call("Get", n, s) }
func (p *Page) Post(s string)        { p.call("Post", s) }
func (p *Page) Show(s string, n int) { p.call("Show", s, n) }
func (p Page) All()                  { p.call("All") }
func (p Page) Any()                  { p.call("Any") }
