package props

import (
	"fmt"
	"strings"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

// what ran in a request, as text
type trail struct{ s []string }

func (t *trail) add(id string)           { t.s = append(t.s, id) }
func (t *trail) filter(id string) func() { return func() { t.add(id) } }

// set when a struct action is called
var pieceTrail *trail

type pieceAction struct{}

func (pieceAction) Get()   { pieceTrail.add("Get") }
func (pieceAction) Post()  { pieceTrail.add("Post") }
func (pieceAction) All()   { pieceTrail.add("All") }
func (pieceAction) Any()   { pieceTrail.add("Any") }
func (pieceAction) Other() { pieceTrail.add("Other") }
func (pieceAction) Third() { pieceTrail.add("Third") }

func (t *trail) request(sp *strip.Strip, x *mc.X, target string) (string, bool) {
	t.s = nil
	pieceTrail = t
	x.Op()
	_, p := serve(sp, newReq("GET", target))
	if p != nil {
		return fmt.Sprint("panic: ", p), false
	}
	return strings.Join(t.s, " "), true
}

// ---- handlers of methods derived from one another

type derived struct {
	h       strip.MethodHandler
	filters []string
	exempts []string
	action  string
	desc    string
}

func (d *derived) trail(outer []string) string {
	var out []string
	add := func(f string) {
		for _, o := range out {
			if o == f {
				return
			}
		}
		out = append(out, f)
	}
	for _, f := range outer {
		add(f)
	}
	for _, f := range d.filters {
		add(f)
	}
	var kept []string
	for _, f := range out {
		ex := false
		for _, e := range d.exempts {
			ex = ex || e == f
		}
		if !ex {
			kept = append(kept, f)
		}
	}
	return strings.Join(append(kept, d.action), " ")
}

var pieceBases = []struct {
	name   string
	make   func(f func()) strip.MethodHandler
	action string
	strct  bool
}{
	{"Get(func)", func(f func()) strip.MethodHandler { return strip.Get(f) }, "func", false},
	{"Get(struct)", func(func()) strip.MethodHandler { return strip.Get(pieceAction{}) }, "Get", true},
	{"All(struct)", func(func()) strip.MethodHandler { return strip.All(&pieceAction{}) }, "Get", true},
	{"Any(struct)", func(func()) strip.MethodHandler { return strip.Any(pieceAction{}) }, "Any", true},
	{"Any(func)", func(f func()) strip.MethodHandler { return strip.Any(f) }, "func", false},
}

func piecesDerived(x *mc.X) {
	n := 4
	if x.Thorough {
		n = 5
	}
	base := pieceBases[x.Choose(len(pieceBases), "base")]
	early := x.Choose(2, "declared when made")
	var t trail
	shared := map[string]func(){}
	for _, f := range []string{"outer", "s", "u"} {
		shared[f] = t.filter(f)
	}
	sp := newApp()
	pool := []*derived{{h: base.make(t.filter("func")), action: base.action, desc: base.name}}
	declare := func(i int) {
		sp.Routers(strip.Router(fmt.Sprintf("/r%d", i), strip.Filter(shared["outer"]), pool[i].h))
	}
	if early == 1 {
		declare(0)
	}
	steps := 1 + x.Choose(n, "derivations")
	for i := 0; i < steps; i++ {
		if i == 1 {
			x.Ready()
		}
		from := pool[x.Choose(len(pool), "from")]
		kinds := 6
		if base.strct {
			kinds = 8
		}
		d := *from
		d.filters = append([]string(nil), from.filters...)
		d.exempts = append([]string(nil), from.exempts...)
		x.Op()
		switch x.Choose(kinds, "derivation") {
		case 0:
			f := fmt.Sprintf("f%d", i)
			d.h = d.h.Filter(t.filter(f))
			d.filters = append(d.filters, f)
			d.desc += ".Filter(" + f + ")"
		case 1:
			f, g := fmt.Sprintf("f%d", i), fmt.Sprintf("g%d", i)
			d.h = d.h.Filter(t.filter(f), t.filter(g))
			d.filters = append(d.filters, f, g)
			d.desc += ".Filter(" + f + ", " + g + ")"
		case 2:
			d.h = d.h.Filter(shared["s"])
			d.filters = append(d.filters, "s")
			d.desc += ".Filter(s)"
		case 3:
			d.h = d.h.Exempt(shared["outer"])
			d.exempts = append(d.exempts, "outer")
			d.desc += ".Exempt(outer)"
		case 4:
			d.h = d.h.Exempt(shared["s"], shared["u"])
			d.exempts = append(d.exempts, "s", "u")
			d.desc += ".Exempt(s, u)"
		case 5:
			d.h = d.h.Filter(shared["u"])
			d.filters = append(d.filters, "u")
			d.desc += ".Filter(u)"
		case 6:
			d.h = d.h.Action("Other")
			d.action = "Other"
			d.desc += ".Action(Other)"
		case 7:
			d.h = d.h.Action("Third")
			d.action = "Third"
			d.desc += ".Action(Third)"
		}
		if base.name == "All(struct)" && from.action == "Get" && d.action != "Get" {
			// a struct with a method for the request is called there
			d.action = "Get"
		}
		pool = append(pool, &d)
		if early == 1 {
			declare(len(pool) - 1)
		}
	}
	x.Ready()
	if early == 0 {
		for i := range pool {
			declare(i)
		}
	}
	for i, d := range pool {
		got, _ := t.request(sp, x, fmt.Sprintf("/r%d", i))
		want := d.trail([]string{"outer"})
		if got != want {
			var all []string
			for _, d := range pool {
				all = append(all, d.desc)
			}
			x.Failf("pieces", "handlers derived: %s\n%s ran %q, expected %q", strings.Join(all, "; "), d.desc, got, want)
		}
		x.State(d.desc)
	}
	x.Statef("%d %v", early, pool[len(pool)-1].desc)
}

// ---- routers made of the same pieces, in two applications

type pieceRouter struct {
	path string
	has  int // bits of the pieces
	subs []*pieceRouter
}

func piecesRouters(x *mc.X) {
	var t trail
	f1, f2 := t.filter("f1"), t.filter("f2")
	get := strip.Get(t.filter("get")).Filter(t.filter("gf"))
	pieces := []strip.Handler{
		strip.Filter(f1, t.filter("f3")), strip.Filter(f2), strip.Exempt(f1), get, get.Filter(t.filter("gg")).Exempt(f2), strip.Get(pieceAction{}).Action("Other"),
	}
	names := []string{"Filter(f1, f3)", "Filter(f2)", "Exempt(f1)", "get", "get.Filter(gg).Exempt(f2)", "struct.Other"}
	const nRouters = 3
	var rs []strip.Handler
	var ref []*pieceRouter
	desc := ""
	for i := 0; i < nRouters; i++ {
		ref = append(ref, &pieceRouter{path: fmt.Sprintf("/p%d", i), has: x.Choose(16, "pieces")})
		if m := x.Choose(3, "method"); m > 0 {
			ref[i].has |= 16 << (m - 1)
		}
		for j := 0; j < i; j++ {
			if x.Bool("contains") {
				ref[i].subs = append(ref[i].subs, ref[j])
			}
		}
		if i == 0 {
			x.Ready()
		}
		if x.Thorough || i < 2 {
			continue
		}
		if i == 2 && ref[i].has&8 != 0 {
			x.Skip() // quick: the last router has one kind of method only
		}
	}
	x.Ready()
	for i, r := range ref {
		desc += fmt.Sprintf("router %s:", r.path)
		var hs []strip.Handler
		for b, p := range pieces {
			if r.has>>b&1 == 1 {
				hs = append(hs, p)
				desc += " " + names[b]
			}
		}
		for _, s := range r.subs {
			for j := range ref {
				if ref[j] == s {
					hs = append(hs, rs[j])
					desc += " " + s.path
				}
			}
		}
		desc += "\n"
		rs = append(rs, strip.Router(r.path, hs...))
		_ = i
	}
	one, two := newApp(), newApp()
	one.Filter(t.filter("app1"))
	two.Filter(t.filter("app2"))
	for _, sp := range []*strip.Strip{one, two} {
		sp.NotFound(t.filter("none"))
	}
	one.Routers(strip.Filter(t.filter("root1")), rs[2], rs[0])
	two.Routers(rs[2], strip.Router("/again", strip.Filter(t.filter("again")), rs[1], rs[2]))
	var walk func(sp *strip.Strip, at string, outer []string, r *pieceRouter)
	walk = func(sp *strip.Strip, at string, outer []string, r *pieceRouter) {
		at += r.path
		fs := append([]string(nil), outer...)
		add := func(names ...string) {
		next:
			for _, n := range names {
				for _, f := range fs {
					if f == n {
						continue next
					}
				}
				fs = append(fs, n)
			}
		}
		remove := func(l []string, n string) (out []string) {
			for _, f := range l {
				if f != n {
					out = append(out, f)
				}
			}
			return
		}
		if r.has&1 != 0 {
			add("f1", "f3")
		}
		if r.has&2 != 0 {
			add("f2")
		}
		if r.has&4 != 0 {
			fs = remove(fs, "f1")
		}
		// the last handler for a method counts
		want := ""
		app := "app1 "
		if sp == two {
			app = "app2 "
		}
		switch {
		case r.has&32 != 0:
			want = app + strings.Join(append(append([]string(nil), fs...), "Other"), " ")
		case r.has&16 != 0:
			l := remove(append(append([]string(nil), fs...), "gf", "gg"), "f2")
			want = app + strings.Join(append(l, "get"), " ")
		case r.has&8 != 0:
			want = app + strings.Join(append(append([]string(nil), fs...), "gf", "get"), " ")
		default:
			want = app + "none"
		}
		got, _ := t.request(sp, x, at)
		if got != want {
			x.Failf("pieces", "%sapplication %s, GET %s ran %q, expected %q", desc, strings.TrimSpace(app), at, got, want)
		}
		for _, s := range r.subs {
			walk(sp, at, fs, s)
		}
	}
	walk(one, "", []string{"root1"}, ref[2])
	walk(one, "", []string{"root1"}, ref[0])
	walk(two, "", nil, ref[2])
	walk(two, "/again", []string{"again"}, ref[1])
	walk(two, "/again", []string{"again"}, ref[2])
	x.State(desc)
}

// ---- filters of applications copied to one another

func piecesReplace(x *mc.X) {
	n := 5
	if x.Thorough {
		n = 6
	}
	var t trail
	var apps []*strip.Strip
	want := make([][]string, 3)
	for i := range want {
		sp := newApp()
		sp.Routers(strip.Get(t.filter(fmt.Sprintf("app%d", i))))
		apps = append(apps, sp)
	}
	var log []string
	for i := 0; i < n; i++ {
		if i == 2 {
			x.Ready()
		}
		x.Op()
		k := x.Choose(10, "operation")
		switch {
		case k == 0:
			i = n // no more
		case k < 4:
			a := k - 1
			f := fmt.Sprintf("f%d", i)
			apps[a].Filter(t.filter(f))
			want[a] = append(want[a], f)
			log = append(log, fmt.Sprintf("app%d.Filter(%s)", a, f))
		default:
			a, b := (k-4)/2, (k-4)%2
			if b >= a {
				b++
			}
			strip.ReplaceFilters(apps[a], apps[b])
			want[a] = append([]string(nil), want[b]...)
			log = append(log, fmt.Sprintf("ReplaceFilters(app%d, app%d)", a, b))
		}
	}
	x.Ready()
	for i, sp := range apps {
		w := strings.Join(append(append([]string(nil), want[i]...), fmt.Sprintf("app%d", i)), " ")
		if got, _ := t.request(sp, x, "/"); got != w {
			x.Failf("replace", "%s\na request to app%d ran %q, expected %q", strings.Join(log, "; "), i, got, w)
		}
	}
	x.Statef("%v", log)
}

// ---- lists of the caller given to several calls and changed in between

func piecesLists(x *mc.X) {
	n := 4
	if x.Thorough {
		n = 6
	}
	var t trail
	get := strip.Get(t.filter("get"))
	sp, other := newApp(), newApp()
	nf := 0
	fresh := func() (func(), string) {
		nf++
		name := fmt.Sprintf("f%d", nf)
		return t.filter(name), name
	}
	// three lists, each with room for more
	hs, hn := make([]strip.Handler, 0, 9), []string{}
	fs, fn := make([]interface{}, 0, 9), []string{}
	as, an := make([]interface{}, 0, 9), []string{}
	addH := func() { f, s := fresh(); hs = append(hs, strip.Filter(f)); hn = append(hn, s) }
	addF := func() { f, s := fresh(); fs = append(fs, f); fn = append(fn, s) }
	addA := func() { f, s := fresh(); as = append(as, f); an = append(an, s) }
	hs = append(hs, get)
	addH()
	addF()
	addF()
	addA()
	all := make([]strip.Handler, 0, 9)
	var want [][]string
	var app []string
	var log []string
	make1 := func(what string, names []string, hs ...strip.Handler) {
		want = append(want, append([]string(nil), names...))
		log = append(log, fmt.Sprintf("/r%d = %s", len(all), what))
		all = append(all, hs[0])
	}
	path := func() string { return fmt.Sprintf("/r%d", len(all)) }
	for i := 0; i < n; i++ {
		if i == 2 {
			x.Ready()
		}
		x.Op()
		switch x.Choose(14, "operation") {
		case 0:
			i = n // no more
		case 1:
			make1("Router(handlers...)", hn, strip.Router(path(), hs...))
		case 2:
			make1("Router(Filter(filters...))", fn, strip.Router(path(), strip.Filter(fs...), get))
		case 3:
			make1("Get.Filter(filters...)", fn, strip.Router(path(), get.Filter(fs...)))
		case 4:
			make1("Exempt(filters[:1]...)", fn[1:], strip.Router(path(), strip.Filter(fs...), strip.Exempt(fs[:1]...), get))
		case 5:
			f, s := fresh()
			hs[1], hn[0] = strip.Filter(f), s
			log = append(log, "handlers[0] changed")
		case 6:
			f, s := fresh()
			fs[0], fn[0] = f, s
			log = append(log, "filters[0] changed")
		case 7:
			f, s := fresh()
			as[0], an[0] = f, s
			log = append(log, "list[0] changed")
		case 8:
			addH()
			log = append(log, "handlers extended")
		case 9:
			addF()
			log = append(log, "filters extended")
		case 10:
			addA()
			log = append(log, "list extended")
		case 11:
			hs, hn = hs[:2], hn[:1]
			fs, fn = fs[:1], fn[:1]
			as, an = as[:1], an[:1]
			log = append(log, "all lists cut")
		case 12:
			sp.Filter(as...)
			for _, s := range an {
				known := false
				for _, a := range app {
					known = known || a == s
				}
				if !known {
					app = append(app, s)
				}
			}
			log = append(log, "app.Filter(list...)")
		case 13:
			make1("Router(Router(handlers...)...)", hn, strip.Router(path(), strip.Router("/in", hs...), get.Exempt(fs...)))
			want[len(want)-1] = nil
		}
	}
	x.Ready()
	sp.Routers(all...)
	other.Routers(all...)
	all = append(all[:0], get)
	for i, w := range want {
		for j, a := range []*strip.Strip{sp, other} {
			var outer []string
			if j == 0 {
				outer = app
			}
			e := strings.Join(append(append(append([]string(nil), outer...), w...), "get"), " ")
			if got, _ := t.request(a, x, fmt.Sprintf("/r%d", i)); got != e {
				x.Failf("lists", "%s\na request to /r%d ran %q, expected %q", strings.Join(log, "; "), i, got, e)
			}
		}
	}
	x.Statef("%v", log)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C31",
		Model: "pieces of a declaration as values: what a piece holds is what was given to it on its own way of derivation",
		Assumptions: []string{
			"a subtree is not placed inside itself; a router and one of the same path are not declared twice at one place",
			"ReplaceFilters replaces the global filters of the first application by those of the second",
		},
		Bounds: func(th bool) map[string]interface{} {
			n, r, l := 4, 5, 4
			if th {
				n, r, l = 5, 6, 6
			}
			return map[string]interface{}{"derivations": n, "kinds of derivation": 8, "bases": len(pieceBases), "routers": 3, "pieces per router": 6, "operations on three applications": r, "operations on lists": l}
		},
		Run: func(x *mc.X) {
			switch x.Choose(4, "mode") {
			case 0:
				piecesDerived(x)
			case 1:
				piecesRouters(x)
			case 2:
				piecesLists(x)
			default:
				piecesReplace(x)
			}
		},
	})
}
