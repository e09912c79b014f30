package props

import (
	"fmt"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"strip.verif/mc"
	twinpkg "strip.verif/props/twins"
	pagea "strip.verif/props/twins/a"
	pageb "strip.verif/props/twins/b"
)

type twinWay struct {
	name string
	h    func(v interface{}) strip.Handler
}

var twinWays = []twinWay{
	{"Get", func(v interface{}) strip.Handler { return strip.Get(v) }},
	{"Get Show", func(v interface{}) strip.Handler { return strip.Get(v).Action("Show") }},
	{"All", func(v interface{}) strip.Handler { return strip.All(v) }},
	{"Any", func(v interface{}) strip.Handler { return strip.Any(v) }},
}

// what is called on the page for a request with /:a/:b = 5/x, without the marks
func twinWant(page int, way, method string) string {
	marks := []string{"one none two ", "none two one "}[page]
	args := map[string]string{"a Get": "5 x ", "a Post": "5 ", "a Show": "5 0 ", "a All": "", "a Any": "", "b Get": "5 0 ", "b Show": "5 [x] ", "b All": "", "b Any": "5 ", "b Put": ""}
	name := [2]string{"a ", "b "}[page]
	act := ""
	switch way {
	case "Get":
		if method == "GET" || method == "HEAD" {
			act = "Get"
		}
	case "Get Show":
		if method == "GET" || method == "HEAD" {
			act = "Show"
		}
	case "All":
		act = "All"
		own := map[string]string{"GET": "Get", "POST": "Post", "PUT": "Put", "HEAD": "Head"}[method]
		if _, ok := args[name+own]; ok {
			act = own
		}
	case "Any":
		act = "Any"
	}
	if act == "" {
		return ""
	}
	return name + act + " 1 " + marks + args[name+act]
}

// structs of different packages that are written alike, as actions
func runTwins(x *mc.X) {
	n := 2
	routes := make([]struct{ page, way int }, n)
	for i := range routes {
		routes[i].page = x.Choose(2, "page")
		routes[i].way = x.Choose(len(twinWays), "declared with")
	}
	x.Ready()
	sp := newApp()
	sp.ProvideAs(&twinpkg.Mark{Name: "one"}, nil, "one")
	sp.ProvideAs(&twinpkg.Mark{Name: "two"}, nil, "two")
	desc := ""
	for i, r := range routes {
		var v interface{} = pagea.Page{}
		if r.page == 1 {
			v = pageb.Page{}
		}
		sp.Routers(strip.Router(fmt.Sprintf("/%d/:a/:b", i), twinWays[r.way].h(v)))
		desc += fmt.Sprintf("/%d: %T of %c by %s; ", i, v, 'a'+r.page, twinWays[r.way].name)
	}
	for k := 0; k < 3; k++ {
		to := x.Choose(n, "request")
		method := mc.Pick(x, "method", []string{"GET", "POST", "PUT", "HEAD"})
		x.Op()
		twinpkg.Called = ""
		r, p := serve(sp, newReq(method, fmt.Sprintf("/%d/5/x", to)))
		want := twinWant(routes[to].page, twinWays[routes[to].way].name, method)
		desc += fmt.Sprintf("%s /%d; ", method, to)
		if p != nil || twinpkg.Called != want || (r.code == 404) != (want == "") {
			x.Failf("twins", "%s\nstatus %d, panic %v, called %q, want %q", desc, r.code, p, twinpkg.Called, want)
		}
	}
	x.State(desc)
}

// filling structs that are written alike
func runTwinFields(x *mc.X) {
	type T struct {
		A *twinpkg.Mark `inject:"one"`
		B *twinpkg.Mark
	}
	other := func() (interface{}, func() (*twinpkg.Mark, *twinpkg.Mark)) {
		type T struct {
			A *twinpkg.Mark
			B *twinpkg.Mark `inject:"two"`
		}
		t := new(T)
		return t, func() (*twinpkg.Mark, *twinpkg.Mark) { return t.A, t.B }
	}
	inj := inject.New()
	one, two := &twinpkg.Mark{Name: "one"}, &twinpkg.Mark{Name: "two"}
	inj.ProvideAs(one, nil, "one")
	inj.ProvideAs(two, nil, "two")
	desc := ""
	for i := 0; i < 4; i++ {
		k := x.Choose(6, "type")
		x.Op()
		var v interface{}
		var get func() (*twinpkg.Mark, *twinpkg.Mark)
		var wantA, wantB *twinpkg.Mark
		switch k {
		case 0:
			t := new(T)
			v, get = t, func() (*twinpkg.Mark, *twinpkg.Mark) { return t.A, t.B }
			wantA = one
		case 1:
			v, get = other()
			wantB = two
		case 2:
			t := new(pagea.Page)
			v, get = t, func() (*twinpkg.Mark, *twinpkg.Mark) { return t.One, t.Two }
			wantA = one
		case 3:
			t := new(pageb.Page)
			v, get = t, func() (*twinpkg.Mark, *twinpkg.Mark) { return t.One, t.Two }
			wantB = two
		case 4:
			t := new(struct {
				A *twinpkg.Mark `inject:"one"`
				B *twinpkg.Mark
			})
			v, get = t, func() (*twinpkg.Mark, *twinpkg.Mark) { return t.A, t.B }
			wantA = one
		case 5:
			t := new(struct {
				A *twinpkg.Mark
				B *twinpkg.Mark `inject:"two"`
			})
			v, get = t, func() (*twinpkg.Mark, *twinpkg.Mark) { return t.A, t.B }
			wantB = two
		}
		desc += fmt.Sprintf("%T (%d); ", v, k)
		err := inj.Apply(v)
		if a, b := get(); err != nil || a != wantA || b != wantB {
			x.Failf("twins", "%s\nfilled with %v, %v (%v), want %v, %v", desc, a, b, err, wantA, wantB)
		}
	}
	x.State(desc)
}
