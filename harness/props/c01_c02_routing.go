package props

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

// Reference model of route resolution: a flat set of patterns. Matching walks
// the cleaned path from the left; at each segment the alternatives are the
// groups of patterns that have, at that position, this literal, a verb
// parameter, a plain parameter or a wildcard, tried in that order.

type pattern struct {
	segs []string
	id   int // handler, -1: declared without handlers
}

type capture struct{ name, value string }

type routeModel struct{ pats []pattern }

func (m *routeModel) resolve(segs []string) (p *pattern, caps []capture) {
	if len(segs) == 0 {
		return nil, nil
	}
	var all []*pattern
	for i := range m.pats {
		all = append(all, &m.pats[i])
	}
	return resolve(all, 0, segs)
}

func resolve(pats []*pattern, i int, segs []string) (*pattern, []capture) {
	if i == len(segs) {
		for _, p := range pats {
			if len(p.segs) == i {
				// later declarations of the same pattern add handlers; the
				// checks declare each pattern once
				return p, nil
			}
		}
		return nil, nil
	}
	seg := segs[i]
	group := func(f func(s string) bool) []*pattern {
		var g []*pattern
		for _, p := range pats {
			if len(p.segs) > i && f(p.segs[i]) {
				g = append(g, p)
			}
		}
		return g
	}
	if p, c := try(group(func(s string) bool { return s == seg && !special(s) }), i, segs); p != nil {
		return p, c
	}
	var verbs, plain, wild []string
	seen := map[string]bool{}
	for _, p := range pats {
		if len(p.segs) > i && !seen[p.segs[i]] {
			s := p.segs[i]
			seen[s] = true
			switch {
			case strings.HasPrefix(s, "*:"):
				wild = append(wild, s)
			case strings.HasPrefix(s, ":") && strings.Contains(s[1:], ":"):
				verbs = append(verbs, s)
			case strings.HasPrefix(s, ":"):
				plain = append(plain, s)
			}
		}
	}
	for _, s := range verbs {
		k := strings.Index(s[1:], ":") + 1
		name, verb := s[1:k], s[k:]
		if !strings.HasSuffix(seg, verb) {
			continue
		}
		if p, c := try(group(func(t string) bool { return t == s }), i, segs); p != nil {
			return p, append([]capture{{name, strings.TrimSuffix(seg, verb)}}, c...)
		}
	}
	for _, s := range plain {
		if p, c := try(group(func(t string) bool { return t == s }), i, segs); p != nil {
			return p, append([]capture{{s[1:], seg}}, c...)
		}
	}
	for _, s := range wild {
		g := group(func(t string) bool { return t == s })
		return g[0], []capture{{s[2:], strings.Join(segs[i:], "/")}}
	}
	return nil, nil
}

func try(g []*pattern, i int, segs []string) (*pattern, []capture) {
	if len(g) == 0 {
		return nil, nil
	}
	return resolve(g, i+1, segs)
}

func special(s string) bool { return strings.HasPrefix(s, ":") || strings.HasPrefix(s, "*:") }

// cleanModel: dots, double and trailing slashes removed; nil for the root.
func cleanModel(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

type routeSpace struct {
	pats  [][]string
	k     int // patterns per application
	paths []string
	nest  bool
	perm  bool
}

func patternSpace(lits []string, params, verbs, wild bool, maxLen int) [][]string {
	var out [][]string
	var rec func(prefix []string, depth int)
	rec = func(prefix []string, depth int) {
		if depth > maxLen {
			return
		}
		var opts []string
		opts = append(opts, lits...)
		if params {
			opts = append(opts, fmt.Sprintf(":p%d", depth))
		}
		if verbs {
			opts = append(opts, fmt.Sprintf(":p%d:run", depth))
		}
		for _, o := range opts {
			w := append(append([]string{}, prefix...), o)
			out = append(out, w)
			rec(w, depth+1)
		}
		if wild {
			out = append(out, append(append([]string{}, prefix...), fmt.Sprintf("*:w%d", depth)))
		}
	}
	rec(nil, 1)
	return out
}

func pathSpace(segs []string, maxLen int, extra ...string) []string {
	var out []string
	for _, w := range words(segs, 0, maxLen) {
		out = append(out, "/"+strings.Join(w, "/"))
	}
	return append(out, extra...)
}

var dirtyPaths = []string{"", "a", "//", "/a/", "//a", "/a//b", "/./a", "/a/.", "/a/..", "/a/../b", "/..", "/../a", "/a/b/..", " /a", "/a ", "/ a", "/a /", "/a b", "/c /b", "/ ", "/a/c ", "/a/ /b", "/c\t", "\n/c", "/c /.", "/a:run/../b", "/:p1", "/*:w1", "/a/./b/", "/x%2Fy", "/A"}

var routeSpaceCache = map[bool][]routeSpace{}

func routeSpaces(thorough bool) []routeSpace {
	s := routeSpaceCache[thorough]
	if s == nil {
		s = makeRouteSpaces(thorough)
		routeSpaceCache[thorough] = s
	}
	return s
}

func makeRouteSpaces(thorough bool) []routeSpace {
	three := pathSpace(strs("a b c a:run"), 3, dirtyPaths...)
	rich := patternSpace(strs("a b"), true, true, true, 3)
	lean := patternSpace(strs("a"), true, false, true, 3)
	mid := patternSpace(strs("a b"), true, true, true, 2)
	// several verbs and values that look like them
	var verbs [][]string
	for _, w := range words(strs("a :p :p:run :p:go"), 1, 2) {
		for i, o := range w {
			if o != "a" {
				w[i] = fmt.Sprintf(":p%d%s", i+1, o[2:])
			}
		}
		verbs = append(verbs, w)
		if len(w) == 1 {
			verbs = append(verbs, []string{w[0], "*:w2"})
		}
	}
	verbPaths := pathSpace(strs("a a:run a:go a:run:go a:go:go a:run:run :run a:runs arun c a:b"), 2, append([]string{"/c :run", "/a:run ", "/ a:run"}, dirtyPaths...)...)
	leanPaths := pathSpace(strs("a c"), 4, dirtyPaths...)
	out := []routeSpace{
		{rich, 1, three, true, false},
		{rich, 2, three, false, true},
		{mid, 3, pathSpace(strs("a b c a:run"), 3), false, true},
		{lean, 3, leanPaths, true, true},
		{lean, 4, leanPaths, false, false},
		{verbs, 2, verbPaths, false, true},
		{verbs, 3, verbPaths, false, false},
	}
	if thorough {
		out = append(out,
			routeSpace{verbs, 3, verbPaths, false, true},
			routeSpace{verbs, 4, verbPaths, false, false},
			routeSpace{rich, 2, three, true, true},
			routeSpace{mid, 4, pathSpace(strs("a b c a:run"), 3), false, true},
			routeSpace{lean, 4, leanPaths, true, true},
			routeSpace{lean, 5, leanPaths, false, false},
			routeSpace{rich, 3, three, false, false},
		)
	}
	return out
}

// chooseRoutes picks a set of patterns and the way they are declared.
func chooseRoutes(x *mc.X) (sel [][]string, nests []int, sp routeSpace) {
	spaces := routeSpaces(x.Thorough)
	sp = spaces[x.Choose(len(spaces), "space")]
	left := sp.pats
	lo := 0
	for i := 0; i < sp.k; i++ {
		if sp.perm {
			j := x.Choose(len(left), "pattern")
			sel = append(sel, left[j])
			nl := append([][]string{}, left[:j]...)
			left = append(nl, left[j+1:]...)
		} else {
			rest := sp.pats[lo:]
			room := len(rest) - (sp.k - i - 1)
			if room <= 0 {
				x.Skip()
			}
			j := x.Choose(room, "pattern")
			sel = append(sel, rest[j])
			lo += j + 1
		}
	}
	for _, s := range sel {
		n := 0
		if sp.nest && len(s) > 1 {
			n = x.Choose(len(s), "nest")
		}
		nests = append(nests, n)
	}
	return
}

type routeHit struct {
	n    int
	id   int
	info *strip.RouteInfo
	nf   int
}

func buildRoutes(sel [][]string, nests []int, hit *routeHit) (*strip.Strip, *routeModel) {
	sp := newApp()
	m := &routeModel{}
	sp.NotFound(func() { hit.nf++ })
	handler := func(id int) interface{} {
		return func(info *strip.RouteInfo) {
			hit.n++
			hit.id = id
			hit.info = info
		}
	}
	var decl []strip.Handler
	decl = append(decl, strip.Get(handler(-2)))
	for i, s := range sel {
		get := strip.Get(handler(i))
		if nests[i] == 0 {
			decl = append(decl, strip.Router("/"+strings.Join(s, "/"), get))
		} else {
			n := nests[i]
			decl = append(decl, strip.Router("/"+strings.Join(s[:n], "/"),
				strip.Router("/"+strings.Join(s[n:], "/"), get)))
			m.declare(s[:n], -1)
		}
		m.declare(s, i)
	}
	sp.Routers(decl...)
	return sp, m
}

func (m *routeModel) declare(segs []string, id int) {
	for i := range m.pats {
		if equalStrings(m.pats[i].segs, segs) {
			if id >= 0 {
				m.pats[i].id = id
			}
			return
		}
	}
	m.pats = append(m.pats, pattern{segs, id})
}

func routeDesc(sel [][]string, nests []int) string {
	var ds []string
	for i, s := range sel {
		d := "/" + strings.Join(s, "/")
		if nests[i] > 0 {
			d = "/" + strings.Join(s[:nests[i]], "/") + " > /" + strings.Join(s[nests[i]:], "/")
		}
		ds = append(ds, d)
	}
	return strings.Join(ds, "  ")
}

func runRouting(x *mc.X, params bool) {
	sel, nests, space := chooseRoutes(x)
	x.Ready()
	var hit routeHit
	sp, m := buildRoutes(sel, nests, &hit)
	desc := routeDesc(sel, nests)
	x.Logf("routes: %s", desc)
	routeCheck(x, sp, m, &hit, sel, desc, space.paths, params)
}

// routeCheck requests every path and compares with the model
func routeCheck(x *mc.X, sp *strip.Strip, m *routeModel, hit *routeHit, sel [][]string, desc string, paths []string, params bool) {
	for _, path := range paths {
		*hit = routeHit{}
		req := newReq("GET", path)
		if _, p := serve(sp, req); p != nil {
			x.Failf("panic", "routes %s: GET %q panicked: %v", desc, path, p)
		}
		x.Op()
		segs := cleanModel(path)
		want, wantNF := -3, 0
		var wantCaps []capture
		var wantPath string
		if len(segs) == 0 {
			want, wantPath = -2, "/"
		} else if p, caps := m.resolve(segs); p != nil && p.id >= 0 {
			want, wantCaps, wantPath = p.id, caps, "/"+strings.Join(p.segs, "/")
		} else {
			wantNF = 1
		}
		if x.Verbose {
			x.Logf("GET %q -> handler %d, want %d", path, hit.id, want)
		}
		if !params {
			x.State(desc + "|" + path + "|" + wantPath)
			if hit.nf != wantNF || (wantNF == 1) != (hit.n == 0) || hit.n > 1 || (wantNF == 0 && hit.id != want) {
				got := "the not-found handlers"
				if hit.n > 0 {
					got = fmt.Sprintf("handler %s", name(sel, hit.id))
				}
				exp := "the not-found handlers"
				if wantNF == 0 {
					exp = "handler " + name(sel, want)
				}
				x.Failf("route", "routes declared: %s\nGET %q is served by %s (handlers run: %d, not-found runs: %d), expected %s", desc, path, got, hit.n, hit.nf, exp)
			}
			continue
		}
		if wantNF == 1 || hit.n != 1 || hit.id != want {
			continue // which handler runs is decided by C01
		}
		x.State(desc + "|" + path + "|" + fmt.Sprint(wantCaps))
		checkInfo(x, "routes "+desc+", GET "+path, hit.info, wantCaps, wantPath)
	}
}

// runLateRoutes declares the routes one after another and requests every path, twice, after each
// declaration
func runLateRoutes(x *mc.X, params bool) {
	spaces := []routeSpace{
		{patternSpace(strs("a b"), true, true, true, 2), 2, pathSpace(strs("a b c a:run"), 3), false, true},
		{patternSpace(strs("a"), true, false, true, 2), 3, pathSpace(strs("a c"), 3), false, true},
	}
	if x.Thorough {
		spaces = append(spaces, routeSpace{patternSpace(strs("a b"), true, true, true, 2), 3, pathSpace(strs("a b a:run"), 3), false, true})
	}
	space := spaces[x.Choose(len(spaces), "late space")]
	left := space.pats
	var sel [][]string
	for i := 0; i < space.k; i++ {
		j := x.Choose(len(left), "pattern")
		sel = append(sel, left[j])
		left = append(append([][]string{}, left[:j]...), left[j+1:]...)
	}
	x.Ready()
	var hit routeHit
	sp, m := buildRoutes(nil, nil, &hit)
	for i, s := range sel {
		i := i
		sp.Routers(strip.Router("/"+strings.Join(s, "/"), strip.Get(func(info *strip.RouteInfo) {
			hit.n++
			hit.id = i
			hit.info = info
		})))
		m.declare(s, i)
		desc := "(one after another, requests in between) " + routeDesc(sel[:i+1], make([]int, i+1))
		for round := 0; round < 2; round++ {
			routeCheck(x, sp, m, &hit, sel, desc, space.paths, params)
		}
	}
}

// runLongRoutes serves patterns and paths of many segments
func runLongRoutes(x *mc.X, params bool) {
	max := 40
	if x.Thorough {
		max = 300
	}
	n := 1 + x.Choose(max, "segments")
	shape := x.Choose(5, "shape")
	wild := x.Choose(3, "wildcard") // none, after the segments, after half of them
	x.Ready()
	var one, other []string
	for i := 0; i < n; i++ {
		p := fmt.Sprintf(":p%d", i)
		switch shape {
		case 0:
			one, other = append(one, "a"), append(other, "a")
		case 1:
			one, other = append(one, p), append(other, p)
		case 2:
			one, other = append(one, "a"), append(other, p)
		case 3:
			one = append(one, []string{"a", p}[i%2])
			other = append(other, []string{p, "a"}[i%2])
		case 4:
			one, other = append(one, p+":run"), append(other, p)
		}
	}
	other = append(other, "b")
	sel := [][]string{one, other}
	switch wild {
	case 1:
		sel = append(sel, append(append([]string{}, one...), "*:w"))
	case 2:
		sel = append(sel, append(append([]string{}, one[:n/2]...), "*:w"))
	}
	var hit routeHit
	sp, m := buildRoutes(sel, make([]int, len(sel)), &hit)
	rep := func(s string, k int) string { return strings.Repeat("/"+s, k) }
	paths := []string{rep("a", n-1), rep("a", n), rep("a", n+1), rep("a", n) + "/b", rep("a", n) + "/c", rep("a", n-1) + "/b", rep("c", n), rep("c", n) + "/b", rep("a", 2*n), rep("c", n/2) + rep("a", n-n/2),
		rep("a:run", n), rep("a:run", n) + "/b", rep("a:run", n) + "/x", strings.Repeat("/a/..", n) + rep("a", n), rep("a", n) + strings.Repeat("/..", n/2)}
	desc := fmt.Sprintf("(%d segments, shape %d, wildcard %d) %s", n, shape, wild, clip(routeDesc(sel, make([]int, len(sel)))))
	routeCheck(x, sp, m, &hit, sel, desc, paths, params)
}

func routingPart(x *mc.X, params bool) {
	switch x.Choose(3, "declarations") {
	case 0:
		runRouting(x, params)
	case 1:
		runLateRoutes(x, params)
	case 2:
		runLongRoutes(x, params)
	}
}

func checkInfo(x *mc.X, where string, info *strip.RouteInfo, caps []capture, path string) {
	if info == nil {
		x.Failf("info", "%s: handler got no route information", where)
	}
	var keys []string
	vals := url.Values{}
	for _, c := range caps {
		keys = append(keys, c.name)
		vals[c.name] = []string{c.value}
	}
	if !equalStrings(keys, info.Keys) {
		x.Failf("info", "%s: parameter names %q, expected %q", where, info.Keys, keys)
	}
	if len(vals) != len(info.Values) {
		x.Failf("info", "%s: parameters %v, expected %v", where, info.Values, vals)
	}
	for k, v := range vals {
		if !equalStrings(info.Values[k], v) {
			x.Failf("info", "%s: parameter %s = %q, expected %q", where, k, info.Values[k], v)
		}
	}
	if info.Path != path {
		x.Failf("info", "%s: pattern %q, expected %q", where, info.Path, path)
	}
}

func name(sel [][]string, id int) string {
	if id == -2 {
		return "/"
	}
	if id < 0 || id >= len(sel) {
		return fmt.Sprint(id)
	}
	return "/" + strings.Join(sel[id], "/")
}

// conflicts: declaring different names at one position, or a wildcard that is
// not last, panics; everything else does not.
var conflictPats [][]string

func runConflicts(x *mc.X) {
	segs := []string{"a", ":x", ":y", ":x:run", ":y:run", "*:x", "*:y"}
	if conflictPats == nil {
		conflictPats = words(segs, 1, 2)
	}
	pats := conflictPats
	var sel [][]string
	n := 2
	if x.Thorough {
		n = 3
	}
	for i := 0; i < n; i++ {
		sel = append(sel, pats[x.Choose(len(pats), "pattern")])
	}
	nest := x.Bool("separate Routers calls")
	x.Ready()
	want := false
	type key struct {
		prefix string
		wild   bool
	}
	names := map[key]string{}
	for _, s := range sel {
		prefix := ""
		for i, seg := range s {
			if special(seg) {
				wild := strings.HasPrefix(seg, "*:")
				nm := strings.TrimPrefix(strings.TrimPrefix(seg, "*"), ":")
				if k := strings.Index(nm, ":"); k >= 0 {
					nm = nm[:k]
				}
				k := key{prefix, wild}
				if old, ok := names[k]; ok && old != nm {
					want = true
				}
				names[k] = nm
				if wild && i < len(s)-1 {
					want = true
				}
			}
			prefix += "/" + seg
		}
		if want {
			break
		}
	}
	p := catch(func() {
		sp := newApp()
		var decl []strip.Handler
		for _, s := range sel {
			decl = append(decl, strip.Router("/"+strings.Join(s, "/"), strip.Get(func() {})))
		}
		if nest {
			for _, d := range decl {
				sp.Routers(d)
			}
		} else {
			sp.Routers(decl...)
		}
	})
	x.Op()
	x.Statef("conflict %v %v", sel, want)
	x.Logf("declare %v: panic=%v", sel, p)
	if (p != nil) != want {
		x.Failf("conflict", "declaring %v: panic %v, expected a panic: %v", sel, p, want)
	}
}

// Struct actions: positional arguments.

type argSink struct {
	got []interface{}
}

var sink argSink

type act1[T any] struct{}

func (act1[T]) Get(a T) { sink.got = []interface{}{a} }

type act2[T any] struct{}

func (act2[T]) Get(a T, b string) { sink.got = []interface{}{a, b} }

type act3[T any] struct{}

func (act3[T]) Get(b string, a T) { sink.got = []interface{}{b, a} }

type extraAct[T any] struct{}

func (extraAct[T]) Get(s string, t string, u T) { sink.got = []interface{}{s, t, u} }

// catch-all struct: the action is chosen per request
type allAct[T any] struct{}

func (allAct[T]) Get(a T)            { sink.got = []interface{}{a} }
func (allAct[T]) Post(b string, a T) { sink.got = []interface{}{b, a} }
func (allAct[T]) All()               { sink.got = []interface{}{"all"} }

type allAct2[T any] struct{}

func (allAct2[T]) Get(a T) { sink.got = []interface{}{a} }

type namedAct[T any] struct{}

func (namedAct[T]) Foo(a T)        { sink.got = []interface{}{a} }
func (namedAct[T]) Get(a T, b int) { sink.got = []interface{}{a, b} }
func (namedAct[T]) Any(b string)   { sink.got = []interface{}{b} }

type restAct[T any] struct{}

func (restAct[T]) Get(b string, rest ...T)    { sink.got = []interface{}{b, rest} }
func (restAct[T]) Foo(a, b string, rest ...T) { sink.got = []interface{}{a, b, rest} }

func runArgs(x *mc.X) {
	c := argCases[x.Choose(len(argCases), "type")]
	val := mc.Pick(x, "value", argValues)
	shape := x.Choose(11, "shape")
	x.Ready()
	sink.got = nil
	// pattern /:a/:b, request /<val>/second
	method := "GET"
	path := "/" + val + "/second"
	var h strip.Handler
	pos := 0
	router := "/:a/:b"
	var want []interface{}
	switch shape {
	case 0:
		h = strip.Get(c.act1)
		want = []interface{}{any0}
	case 1:
		h = strip.Get(c.act2)
		want = []interface{}{any0, "second"}
	case 2:
		h = strip.Get(c.act3)
		path = "/first/" + val
		pos = 1
		want = []interface{}{"first", any0}
	case 3:
		h = strip.Get(c.extra)
		want = []interface{}{"", "second", any0}
		path = "/" + val + "/second"
		pos = 2
	case 4:
		h = strip.All(c.all)
		want = []interface{}{any0}
	case 5:
		h = strip.All(c.all)
		method = "POST"
		path = "/first/" + val
		pos = 1
		want = []interface{}{"first", any0}
	case 6:
		h = strip.All(c.all2)
		want = []interface{}{any0}
	case 7:
		h = strip.Get(c.named).Action("Foo")
		want = []interface{}{any0}
	case 8:
		// wildcard: the tail is the second argument
		router = "/:a/*:rest"
		h = strip.Get(c.act2)
		path = "/" + val + "/t1/t2"
		want = []interface{}{any0, "t1/t2"}
	case 9:
		// the rest is an argument of the slice type
		h = strip.Get(c.rest)
		path = "/first/" + val
		pos = 1
		want = []interface{}{"first", any0}
	case 10:
		h = strip.Get(c.rest).Action("Foo")
		pos = 2
		want = []interface{}{val, "second", any0}
	}
	sp := newApp()
	sp.NotFound(func() { sink.got = []interface{}{"notfound"} })
	sp.Routers(strip.Router(router, h))
	where := fmt.Sprintf("%s with value %q, shape %d", c.name, val, shape)
	_, p := serve(sp, newReq(method, path))
	x.Op()
	if p != nil {
		x.Failf("args", "%s: serving the request panicked: %v", where, p)
	}
	x.Logf("%s -> %v", where, sink.got)
	if len(sink.got) != len(want) {
		x.Failf("args", "%s: action got %v", where, sink.got)
	}
	for i, w := range want {
		if i == pos {
			exp := c.want(val)
			if shape == 3 {
				exp = c.zero
			}
			if shape >= 9 {
				text := ""
				if shape == 9 {
					text = val
				}
				var got, want interface{} = sink.got[i], c.restOf(text, shape == 10)
				if !deepEq(got, want) && (shape == 9 || reflect.ValueOf(got).Len() != 0) {
					x.Failf("args", "%s: the rest of the arguments is %#v, expected %#v", where, got, want)
				}
				continue
			}
			if !c.equal(sink.got[i], exp) {
				x.Failf("args", "%s: argument %d is %#v, expected %#v", where, i, sink.got[i], exp)
			}
			continue
		}
		if shape == 3 && i == 0 {
			w = val
		}
		if sink.got[i] != w {
			x.Failf("args", "%s: argument %d is %#v, expected %#v", where, i, sink.got[i], w)
		}
	}
	x.Statef("args %s", where)
}

var any0 = struct{}{}

// runRepeated declares patterns that may use a parameter name again.

type fourAct struct{}

func (fourAct) Get(a, b, c, d string) { sink.got = []interface{}{a, b, c, d} }

func runRepeated(x *mc.X) {
	n := 2 + x.Choose(3, "parameters")
	var names []string
	var pat, path strings.Builder
	want := []interface{}{"", "", "", ""}
	for i := 0; i < n; i++ {
		name := mc.Pick(x, "name", []string{"a", "b", "c"})
		names = append(names, name)
		seg := fmt.Sprintf("v%d", i)
		want[i] = seg
		kinds := 3
		if i == n-1 {
			kinds = 4
		}
		switch x.Choose(kinds, "kind") {
		case 0:
			pat.WriteString("/:" + name)
			path.WriteString("/" + seg)
		case 1:
			pat.WriteString("/:" + name + ":do")
			path.WriteString("/" + seg + ":do")
		case 2:
			pat.WriteString("/lit/:" + name)
			path.WriteString("/lit/" + seg)
		case 3:
			pat.WriteString("/*:" + name)
			path.WriteString("/" + seg + "/more")
			want[i] = seg + "/more"
		}
	}
	x.Ready()
	sink.got = nil
	var info *strip.RouteInfo
	sp := newApp()
	sp.Routers(strip.Router(pat.String(),
		strip.Get(fourAct{}).Filter(func(i *strip.RouteInfo) { info = i })))
	_, p := serve(sp, newReq("GET", path.String()))
	x.Op()
	x.Logf("%s %s: %v %+v", pat.String(), path.String(), sink.got, info)
	if p != nil || info == nil || !deepEq(sink.got, want) {
		x.Failf("repeated", "route %s, request %s: arguments %v, expected %v (panic %v)", pat.String(), path.String(), sink.got, want, p)
	}
	if !equalStrings(info.Keys, names) {
		x.Failf("repeated", "route %s, request %s: the names are %v, expected %v", pat.String(), path.String(), info.Keys, names)
	}
	for i, name := range names {
		// a name that is there once, the one value
		once, ok := true, false
		for j, o := range names {
			if o == name {
				once = once && i == j
				ok = ok || info.Get(name) == want[j]
			}
		}
		if !ok || once && len(info.Values[name]) != 1 {
			x.Failf("repeated", "route %s, request %s: parameter %s is %q", pat.String(), path.String(), name, info.Values[name])
		}
	}
	x.State(pat.String())
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C01",
		Model: "reference resolver over a flat pattern set: literal, verb parameter, parameter, wildcard, with backtracking; every route set and path of the bounded space is served by the real application",
		Assumptions: []string{
			"patterns in one application are distinct; verb suffixes do not overlap",
			"a router declared only to group others counts as a declared pattern without handlers",
		},
		Bounds: func(th bool) map[string]interface{} {
			m := map[string]interface{}{}
			for i, s := range routeSpaces(th) {
				m[fmt.Sprintf("space %d", i)] = fmt.Sprintf("%d patterns, %d per application (ordered=%v, nested=%v), %d paths", len(s.pats), s.k, s.perm, s.nest, len(s.paths))
			}
			m["late declarations"] = "2 to 3 patterns declared one after another, every path requested twice in between"
			m["segments of long routes"] = map[bool]int{true: 300, false: 40}[th]
			m["conflicts"] = "ordered pairs (thorough: triples) of patterns with up to two segments"
			return m
		},
		Run: func(x *mc.X) {
			if x.Choose(2, "part") == 0 {
				runConflicts(x)
			} else {
				routingPart(x, false)
			}
		},
	})
	mc.Register(&mc.Check{
		ID:          "C02",
		Model:       "captures of the reference resolver compared with the route information of the real handler; positional arguments compared with a reference text conversion",
		Assumptions: []string{"which of the values of a name used twice in one pattern the route information holds is left open", "a pointer argument whose text does not convert may be nil or point to zero"},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"routing": "as C01", "argument types": len(argCases), "argument texts": len(argValues), "declaration shapes": 11, "patterns with repeated names": "2 to 4 parameters of 3 names, in each form"}
		},
		Run: func(x *mc.X) {
			switch x.Choose(4, "part") {
			case 3:
				runRepeated(x)
			case 0:
				runArgs(x)
			case 1:
				runTwins(x)
			default:
				routingPart(x, true)
			}
		},
	})
}

var _ = http.MethodGet
