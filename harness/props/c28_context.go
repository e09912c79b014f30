package props

import (
	gocontext "context"
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"strip.verif/mc"
)

// ---- typed values in nested contexts

// cxEntry is one stored value
type cxEntry struct {
	typ  int
	name string
	form int // 0: *T, 1: **T, 2: nil *T, 3: **T holding nil
	id   int
	ptr  interface{} // the *T
}

type cxNode struct {
	parent *cxNode
	entry  *cxEntry
	ctx    gocontext.Context
}

// cxType drives one type
type cxType struct {
	name string
	put  func(ctx gocontext.Context, form, id int, names []string) (gocontext.Context, interface{})
	// get looks up a T (form 0) or *T (form 1): id -1 for a value left alone
	get func(ctx gocontext.Context, form int, must bool, names []string) (id int, ptr interface{}, err error)
}

func cxDrive[T any](name string, make func(int) T, id func(T) int) cxType {
	return cxType{name,
		func(ctx gocontext.Context, form, i int, names []string) (gocontext.Context, interface{}) {
			v := make(i)
			p := &v
			switch form {
			case 0:
				return utils.CtxWithValue(ctx, p, names...), p
			case 1:
				return utils.CtxWithValue(ctx, &p, names...), p
			case 2:
				return utils.CtxWithValue(ctx, (*T)(nil), names...), nil
			}
			var n *T
			return utils.CtxWithValue(ctx, &n, names...), nil
		},
		func(ctx gocontext.Context, form int, must bool, names []string) (int, interface{}, error) {
			find := func(v interface{}) (err error) {
				if must {
					if p := catch(func() { utils.MustCtxFindValue(ctx, v, names...) }); p != nil {
						if e, ok := p.(error); ok && e == utils.CtxValueNotFound {
							return e
						}
						panic(p)
					}
					return nil
				}
				return utils.CtxFindValue(ctx, v, names...)
			}
			if form == 0 {
				v := make(-1)
				err := find(&v)
				return id(v), nil, err
			}
			var p *T
			err := find(&p)
			if p == nil {
				return -1, nil, err
			}
			return id(*p), p, err
		},
	}
}

type cxA struct{ N int }
type cxB struct{ N int }
type cxI interface{ num() int }
type cxN int
type cxS []int
type cxG[T any] struct{ V T }

func (n cxN) num() int { return int(n) }

func cxLocal1() cxType {
	type cxA struct{ N int }
	return cxDrive("local cxA", func(i int) cxA { return cxA{i} }, func(v cxA) int { return v.N })
}

func cxLocal2() cxType {
	type cxA struct{ N int }
	return cxDrive("other local cxA", func(i int) cxA { return cxA{i} }, func(v cxA) int { return v.N })
}

var cxTypes = []cxType{
	cxDrive("cxA", func(i int) cxA { return cxA{i} }, func(v cxA) int { return v.N }),
	cxDrive("cxB", func(i int) cxB { return cxB{i} }, func(v cxB) int { return v.N }),
	cxDrive("[]int", func(i int) []int { return []int{i} }, func(v []int) int { return v[0] }),
	cxDrive("[]string", func(i int) []string { return []string{fmt.Sprint(i)} }, func(v []string) int {
		var n int
		fmt.Sscan(v[0], &n)
		return n
	}),
	cxDrive("map[string]int", func(i int) map[string]int { return map[string]int{"k": i} }, func(v map[string]int) int { return v["k"] }),
	cxDrive("func() int", func(i int) func() int { return func() int { return i } }, func(v func() int) int { return v() }),
	cxDrive("struct{ N int }", func(i int) struct{ N int } { return struct{ N int }{i} }, func(v struct{ N int }) int { return v.N }),
	cxDrive("struct{ M int }", func(i int) struct{ M int } { return struct{ M int }{i} }, func(v struct{ M int }) int { return v.M }),
	cxDrive("cxI", func(i int) cxI { return cxN(i) }, func(v cxI) int { return v.num() }),
	cxDrive("cxN", func(i int) cxN { return cxN(i) }, func(v cxN) int { return int(v) }),
	cxDrive("cxS", func(i int) cxS { return cxS{i} }, func(v cxS) int { return v[0] }),
	cxDrive("cxG[int]", func(i int) cxG[int] { return cxG[int]{i} }, func(v cxG[int]) int { return v.V }),
	cxDrive("cxG[int8]", func(i int) cxG[int8] { return cxG[int8]{int8(i)} }, func(v cxG[int8]) int { return int(v.V) }),
	cxLocal1(), cxLocal2(),
	cxDrive("http.Header", func(i int) http.Header { return http.Header{"A": {strings.Repeat("x", i+1)}} }, func(v http.Header) int { return len(v["A"][0]) - 1 }),
	cxDrive("[2]int", func(i int) [2]int { return [2]int{i} }, func(v [2]int) int { return v[0] }),
}

var cxNames = []string{"", "n", "m", ":", "n:", "N"}

// cxDesc is a description made when it is needed
type cxDesc func() string

func (d cxDesc) String() string { return d() }

func cxNested(x *mc.X) {
	max := 3
	if x.Thorough {
		max = 4
	}
	types := len(cxTypes)
	n := 1 + x.Choose(max, "stores")
	// a few types and names matter at a time
	names, forms := cxNames, 4
	if n > 2 {
		names, forms = cxNames[:2], 2
		types = 4
	}
	if n > 3 {
		types = 3
	}
	nodes := []*cxNode{{ctx: gocontext.Background()}}
	type foreign string
	nodes[0].ctx = gocontext.WithValue(nodes[0].ctx, foreign("utils:cxA:"), 1)
	for i := 0; i < n; i++ {
		par := nodes[x.Choose(len(nodes), "parent")]
		e := &cxEntry{typ: x.Choose(types, "type"), form: x.Choose(forms, "form"), id: i}
		nm := x.Choose(len(names)+1, "name")
		var arg []string
		if nm > 0 {
			e.name = names[nm-1]
			arg = []string{e.name}
			if nm == 2 {
				arg = append(arg, "ignored")
			}
		}
		if i == 0 {
			x.Ready()
		}
		node := &cxNode{parent: par, entry: e}
		x.Op()
		if p := catch(func() { node.ctx, e.ptr = cxTypes[e.typ].put(par.ctx, e.form, e.id, arg) }); p != nil {
			x.Failf("panic", "storing a %s panics: %v", cxTypes[e.typ].name, p)
		}
		nodes = append(nodes, node)
	}
	x.Ready()
	stored := map[int]bool{}
	for _, node := range nodes[1:] {
		stored[node.entry.typ] = true
	}
	for ni, node := range nodes {
		for t, typ := range cxTypes {
			if n > 1 && !stored[t] {
				continue // all types are looked up after a single store
			}
			for _, name := range append([]string{"none"}, names...) {
				var found *cxEntry
				for a := node; a != nil && found == nil; a = a.parent {
					if e := a.entry; e != nil && e.typ == t && e.name == name {
						found = e
					}
				}
				for form := 0; form < 2; form++ {
					for _, must := range []bool{false, true} {
						x.Op()
						var id int
						var ptr interface{}
						var err error
						arg := []string{name}
						if name == "" && must {
							arg = nil
						}
						desc := cxDesc(func() string {
							return fmt.Sprintf("context %d, looking for a %s (as pointer: %v) named %q", ni, typ.name, form == 1, name)
						})
						if p := catch(func() { id, ptr, err = typ.get(node.ctx, form, must, arg) }); p != nil {
							x.Failf("panic", "%s, panics: %v", desc, p)
						}
						if found == nil {
							if err != utils.CtxValueNotFound || id != -1 {
								x.Failf("found", "%s: value %d, %v, want none", desc, id, err)
							}
							continue
						}
						if err != nil {
							x.Failf("found", "%s: %v, want value %d", desc, err, found.id)
						}
						want := found.id
						if found.form >= 2 {
							want = -1
						}
						if id != want || form == 1 && ptr != found.ptr {
							x.Failf("found", "%s: value %d, want %d (same pointer: %v)", desc, id, want, ptr == found.ptr)
						}
					}
				}
			}
		}
	}
	var st []string
	for _, nd := range nodes[1:] {
		st = append(st, fmt.Sprintf("%d%d%s", nd.entry.typ, nd.entry.form, nd.entry.name))
	}
	x.State(join(st))
}

// ---- the request's context in handlers

type cxMark struct{ Who string }

func cxRequest(x *mc.X) {
	places := []string{"filter 1", "filter 2", "route filter", "inner filter", "action", "filter 2 after", "filter 1 after"}
	target := mc.Pick(x, "request", []string{"/r/x", "/none", "/r/x/y"})
	acts := map[string]int{}
	for _, p := range places {
		acts[p] = x.Choose(5, p)
		if p == "filter 2" {
			x.Ready()
		}
	}
	x.Ready()
	var roots []strip.Context
	var fail []string
	// what the contexts of the request and of the nested part are marked with
	globalMark, reqMark := "", ""
	nestMark, nestOwn := "", false
	step := func(place string, nested bool, ctx strip.Context, req *http.Request) {
		x.Op()
		bad := func(f string, a ...interface{}) { fail = append(fail, place+": "+fmt.Sprintf(f, a...)) }
		for i, c := range []gocontext.Context{req.Context(), ctx, ctx.GetContext()} {
			from := []string{"the request", "the context", "its inner context"}[i]
			var got strip.Context
			if err := utils.CtxFindValue(c, &got); err != nil || got == nil {
				bad("no context in %s: %v", from, err)
				continue
			}
			roots = append(roots, got)
			if roots[0] != got {
				bad("another context in %s", from)
			}
			var r *http.Request
			if err := got.Find(&r, ""); err != nil || r != req {
				bad("the context in %s knows another request (%v)", from, err)
			}
			var gotp *strip.Context
			if err := utils.CtxFindValue(c, &gotp); err != nil || gotp == nil || *gotp != got {
				bad("no pointer to the context in %s: %v", from, err)
			}
			want := globalMark
			if nested && nestOwn {
				want = nestMark
			}
			if i == 0 {
				want = reqMark
			}
			var m cxMark
			err := utils.CtxFindValue(c, &m)
			if want == "" && err != utils.CtxValueNotFound || want != "" && (err != nil || m.Who != want) {
				bad("the mark in %s is %q (%v), want %q", from, m.Who, err, want)
			}
		}
		m := cxMark{place}
		switch acts[place] {
		case 1: // a derived context
			ctx.ReplaceContext(utils.CtxWithValue(ctx.GetContext(), &m))
		case 2: // a request with a derived context
			req = req.WithContext(utils.CtxWithValue(req.Context(), &m))
			ctx.Provide(req)
			reqMark = place
		case 3: // both, as the request logger does
			req = req.WithContext(utils.CtxWithValue(req.Context(), &m))
			ctx.Provide(req)
			ctx.ReplaceContext(req.Context())
			reqMark = place
		case 4: // a derived context without a mark
			c, cancel := gocontext.WithCancel(ctx.GetContext())
			x.Defer(cancel)
			ctx.ReplaceContext(c)
			return
		}
		if acts[place] == 1 || acts[place] == 3 {
			if nested {
				nestMark, nestOwn = place, true
			} else {
				globalMark = place
			}
		}
	}
	sp := newApp()
	around := func(place string) interface{} {
		return func(ctx strip.Context, req *http.Request) {
			step(place, false, ctx, req)
			ctx.Next()
			var r *http.Request
			ctx.Find(&r, "")
			step(place+" after", false, ctx, r)
		}
	}
	in := func(place string) func(ctx strip.Context, req *http.Request) {
		return func(ctx strip.Context, req *http.Request) { step(place, true, ctx, req) }
	}
	sp.Filter(around("filter 1"), around("filter 2"))
	sp.NotFound(in("inner filter"), in("action"))
	sp.Routers(strip.Router("/r", strip.Filter(in("route filter")),
		strip.Router("/x", strip.Filter(in("inner filter")), strip.Any(in("action")))))
	req := newReq("GET", target)
	outer := gocontext.WithValue(gocontext.Background(), cxNames[1], "outer")
	_, p := serve(sp, req.WithContext(outer))
	desc := fmt.Sprintf("%s with %v", target, acts)
	if p != nil {
		x.Failf("panic", "%s panics: %v", desc, p)
	}
	if len(fail) > 0 {
		x.Failf("request", "%s: %s", desc, strings.Join(fail, "; "))
	}
	x.Statef("%s %d %s %s %s", target, len(roots), globalMark, reqMark, nestMark)
}

// ---- loggers carried by contexts

// cxLoggers looks up the logger in a tree of contexts: the innermost one, or the global logger
func cxLoggers(x *mc.X) {
	n := 4
	if x.Thorough {
		n = 5
	}
	type node struct {
		ctx  gocontext.Context
		want strip.Logger
		desc string
	}
	logs := []strip.Logger{strip.NewLogger(discard{}), strip.NewReqLogger(discard{}, "r"), helpers.X}
	pool := []node{{gocontext.Background(), helpers.X, "background"}}
	for i := 0; i < n; i++ {
		if i == 1 {
			x.Ready()
		}
		from := pool[x.Choose(len(pool), "from")]
		k := x.Choose(7, "derivation")
		x.Op()
		switch k {
		case 0, 1, 2:
			from.ctx, from.want = helpers.WithLogger(from.ctx, logs[k]), logs[k]
			from.desc += fmt.Sprintf(", logger %d", k)
		case 3:
			from.ctx = gocontext.WithValue(from.ctx, "log", logs[1])
			from.desc += ", untyped value"
		case 4:
			var adv strip.LoggerAdv = helpers.X
			from.ctx = utils.CtxWithValue(from.ctx, &adv)
			from.desc += ", logger of another type"
		case 5:
			from.ctx = utils.CtxWithValue(from.ctx, &logs[1], "named")
			from.desc += ", named logger"
		case 6:
			c, cancel := gocontext.WithCancel(from.ctx)
			defer cancel()
			from.ctx = c
			from.desc += ", cancel"
		}
		pool = append(pool, from)
	}
	for _, nd := range pool {
		var got strip.Logger
		if p := catch(func() { got = helpers.GetLogger(nd.ctx) }); p != nil || got != nd.want {
			x.Failf("logger", "%s: the logger is %v, want %v (panic %v)", nd.desc, got, nd.want, p)
		}
	}
	x.State(pool[len(pool)-1].desc)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C28",
		Model: "a tree of contexts with one (type, name, value) each; lookup is the nearest ancestor with the same type and name",
		Assumptions: []string{
			"basic types, values instead of pointers and more than two pointer levels are refused by design",
			"a stored nil pointer leaves the destination alone; a context is derived from GetContext or from the request's context",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"stores": map[bool]int{true: 4, false: 3}[th], "types": len(cxTypes), "types with three or more stores": 4, "names": len(cxNames) + 1, "forms": 4, "handlers per request": 7, "acts per handler": 5}
		},
		Run: func(x *mc.X) {
			switch x.Choose(3, "mode") {
			case 0:
				cxNested(x)
			case 1:
				cxRequest(x)
			default:
				cxLoggers(x)
			}
		},
	})
}
