package props

import (
	"fmt"
	"strings"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

// what served a request: declaration and action
var served []string

// declared actions, one controller per shape
type cGet struct{ Tag string }

func (c cGet) Get() { served = append(served, c.Tag+".Get") }

type cHead struct{ Tag string }

func (c cHead) Head() { served = append(served, c.Tag+".Head") }

type cPost struct{ Tag string }

func (c *cPost) Post() { served = append(served, c.Tag+".Post") }

type cFoo struct{ Tag string }

func (c cFoo) Foo()  { served = append(served, c.Tag+".Foo") }
func (c cFoo) Get()  { served = append(served, c.Tag+".Get") }
func (c cFoo) Post() { served = append(served, c.Tag+".Post") }
func (c cFoo) Head() { served = append(served, c.Tag+".Head") }

type cGetPost struct{ Tag string }

func (c cGetPost) Get()  { served = append(served, c.Tag+".Get") }
func (c cGetPost) Post() { served = append(served, c.Tag+".Post") }

type cAll struct{ Tag string }

func (c *cAll) All() { served = append(served, c.Tag+".All") }

type cAllPut struct{ Tag string }

func (c cAllPut) All() { served = append(served, c.Tag+".All") }
func (c cAllPut) Put() { served = append(served, c.Tag+".Put") }
func (c cAllPut) Any() { served = append(served, c.Tag+".Any") }

type cFull struct{ Tag string }

func (c cFull) Foo()     { served = append(served, c.Tag+".Foo") }
func (c cFull) Get()     { served = append(served, c.Tag+".Get") }
func (c cFull) Head()    { served = append(served, c.Tag+".Head") }
func (c cFull) Any()     { served = append(served, c.Tag+".Any") }
func (c cFull) Options() { served = append(served, c.Tag+".Options") }

type cAny struct{ Tag string }

func (c cAny) Any() { served = append(served, c.Tag+".Any") }

// every action
type cEvery struct{ Tag string }

func (c *cEvery) Foo()     { served = append(served, c.Tag+".Foo") }
func (c *cEvery) All()     { served = append(served, c.Tag+".All") }
func (c *cEvery) Any()     { served = append(served, c.Tag+".Any") }
func (c *cEvery) Get()     { served = append(served, c.Tag+".Get") }
func (c *cEvery) Post()    { served = append(served, c.Tag+".Post") }
func (c *cEvery) Put()     { served = append(served, c.Tag+".Put") }
func (c *cEvery) Head()    { served = append(served, c.Tag+".Head") }
func (c *cEvery) Delete()  { served = append(served, c.Tag+".Delete") }
func (c *cEvery) Options() { served = append(served, c.Tag+".Options") }
func (c *cEvery) Patch()   { served = append(served, c.Tag+".Patch") }
func (c *cEvery) Trace()   { served = append(served, c.Tag+".Trace") }
func (c *cEvery) Connect() { served = append(served, c.Tag+".Connect") }

var everyHas = strs("Foo All Any Get Post Put Head Delete Options Patch Trace Connect")
var everyShapes = []declShape{
	{name: "func", make: fn, fun: true},
	{name: "every", make: func(t string) interface{} { return &cEvery{t} }, has: everyHas},
	{name: "every named", make: func(t string) interface{} { return &cEvery{t} }, has: everyHas, action: "Foo"},
}

// a way to declare a handler: what it is, which methods it has, the named action
type declShape struct {
	name   string
	make   func(tag string) interface{}
	fun    bool
	has    []string // methods of the struct
	action string   // Action(name)
}

func fn(tag string) interface{} {
	return func() { served = append(served, tag+".func") }
}

var getShapes = []declShape{
	{name: "func", make: fn, fun: true},
	{name: "struct", make: func(t string) interface{} { return cGet{t} }, has: strs("Get")},
	{name: "named", make: func(t string) interface{} { return &cFoo{t} }, has: strs("Foo Get Post Head"), action: "Foo"},
}
var postShapes = []declShape{
	{name: "func", make: fn, fun: true},
	{name: "struct", make: func(t string) interface{} { return &cPost{t} }, has: strs("Post")},
	{name: "named", make: func(t string) interface{} { return cFoo{t} }, has: strs("Foo Get Post Head"), action: "Get"},
}
var headShapes = []declShape{
	{name: "func", make: fn, fun: true},
	{name: "struct", make: func(t string) interface{} { return cHead{t} }, has: strs("Head")},
}
var allShapes = []declShape{
	{name: "func", make: fn, fun: true},
	{name: "GetPost", make: func(t string) interface{} { return cGetPost{t} }, has: strs("Get Post")},
	{name: "All", make: func(t string) interface{} { return &cAll{t} }, has: strs("All")},
	{name: "AllPutAny", make: func(t string) interface{} { return cAllPut{t} }, has: strs("All Put Any")},
	{name: "named", make: func(t string) interface{} { return &cFull{t} }, has: strs("Foo Get Head Any Options"), action: "Foo"},
	{name: "named2", make: func(t string) interface{} { return cFull{t} }, has: strs("Foo Get Head Any Options"), action: "Get"},
}
var anyShapes = []declShape{
	{name: "func", make: fn, fun: true},
	{name: "Any", make: func(t string) interface{} { return cAny{t} }, has: strs("Any")},
	{name: "AllPutAny", make: func(t string) interface{} { return &cAllPut{t} }, has: strs("All Put Any")},
	{name: "named", make: func(t string) interface{} { return cFull{t} }, has: strs("Foo Get Head Any Options"), action: "Foo"},
}

var requestMethods = []string{"GET", "get", "gEt", "POST", "Post", "HEAD", "head", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "FOO", "foo", "ALL", "any", "PURGE", "purge", "M-SEARCH", "delete", "Options", "patCH", "tRaCe", "cONNECT", "put", "*", "**"}

type methodDecl struct {
	tag   string
	shape *declShape
}

func has(list []string, s string) bool {
	for _, v := range list {
		if v == s {
			return true
		}
	}
	return false
}

// methodName is the struct method for an HTTP method: GET -> Get.
func methodName(m string) string {
	m = strings.ToUpper(m)
	return m[:1] + strings.ToLower(m[1:])
}

type methodSlot struct {
	tag    string
	shapes []declShape
	decl   func(c strip.Handler) strip.MethodHandler
}

var everySlots = []methodSlot{
	{"get", everyShapes, strip.Get}, {"post", everyShapes, strip.Post}, {"put", everyShapes, strip.Put}, {"head", everyShapes, strip.Head}, {"delete", everyShapes, strip.Delete},
	{"options", everyShapes, strip.Options}, {"patch", everyShapes, strip.Patch}, {"trace", everyShapes, strip.Trace}, {"connect", everyShapes, strip.Connect},
}

func runMethods(x *mc.X, every bool) {
	slots := []methodSlot{
		{"get", getShapes, strip.Get}, {"post", postShapes, strip.Post}, {"head", headShapes, strip.Head},
		{"all", allShapes, strip.All}, {"any", anyShapes, strip.Any},
	}
	if every {
		// one or two methods, All and Any with structs that have every method
		i := x.Choose(len(everySlots), "method")
		slots = []methodSlot{everySlots[i]}
		if j := x.Choose(len(everySlots)-i, "second method"); j > 0 {
			slots = append(slots, everySlots[i+j])
		}
		slots = append(slots, methodSlot{"all", everyShapes, strip.All}, methodSlot{"any", everyShapes, strip.Any})
	}
	decl := map[string]*declShape{}
	var handlers []strip.Handler
	var desc []string
	for _, s := range slots {
		i := x.Choose(len(s.shapes)+1, s.tag)
		if i == 0 {
			continue
		}
		sh := &s.shapes[i-1]
		decl[s.tag] = sh
		h := s.decl(sh.make(s.tag))
		if sh.action != "" {
			h = h.Action(sh.action)
		}
		handlers = append(handlers, h)
		desc = append(desc, s.tag+"="+sh.name)
	}
	where := x.Choose(3, "route") // root, plain, parameter
	if x.Bool("reverse") {
		for i, j := 0, len(handlers)-1; i < j; i, j = i+1, j-1 {
			handlers[i], handlers[j] = handlers[j], handlers[i]
		}
	}
	split := x.Choose(len(handlers)+1, "split")
	if where == 0 && split > 0 {
		x.Skip()
	}
	x.Ready()
	sp := newApp()
	sp.NotFound(func() { served = append(served, "notfound") })
	path := "/"
	switch where {
	case 0:
		sp.Routers(handlers...)
	default:
		pat := "/r"
		path = "/r"
		if where == 2 {
			pat, path = "/r/:id", "/r/1"
		}
		sp.Routers(strip.Router(pat, handlers[:split]...), strip.Router(pat, handlers[split:]...))
	}
	for _, m := range requestMethods {
		served = nil
		want := "notfound"
		up := strings.ToUpper(m)
		one := func(tag string, d *declShape, act string) string {
			if d.fun {
				return tag + ".func"
			}
			if d.action != "" {
				act = d.action
			}
			return tag + "." + act
		}
		all, any, own := decl["all"], decl["any"], decl[strings.ToLower(up)]
		switch {
		case own != nil && strings.ToLower(up) != "all" && strings.ToLower(up) != "any":
			want = one(strings.ToLower(up), own, methodName(up))
		case up == "HEAD" && decl["get"] != nil:
			want = one("get", decl["get"], "Get")
		case all != nil && all.fun:
			want = "all.func"
		case all != nil && has(all.has, methodName(up)):
			want = "all." + methodName(up)
		case all != nil && all.action != "":
			want = "all." + all.action
		case all != nil && has(all.has, "All"):
			want = "all.All"
		case any != nil:
			want = one("any", any, "Any")
		}
		_, p := serve(sp, newReq(m, path))
		x.Op()
		d := fmt.Sprintf("%s route %d split %d", strings.Join(desc, " "), where, split)
		x.Logf("%s: %s -> %v", d, m, served)
		if p != nil {
			x.Failf("method", "declared: %s\n%s request panicked: %v", d, m, p)
		}
		if len(served) != 1 || served[0] != want {
			x.Failf("method", "declared: %s\n%s request was served by %v, expected %s", d, m, served, want)
		}
		x.State(d + m)
	}
}

// A struct's state is private to a request.

type innerState struct{ M int }

type stateful struct {
	innerState
	N    int
	S    string
	L    []int
	P    *int
	next []func()
	F    [2]int
}

var seenStates []string

func (s *stateful) observe(who string) {
	p := "nil"
	if s.P != nil {
		p = fmt.Sprint(*s.P)
	}
	seenStates = append(seenStates, fmt.Sprint(who, " M=", s.M, " N=", s.N, " S=", s.S, " L=", s.L, " P=", p, " F=", s.F, " next=", len(s.next)))
	s.M++
	s.N += 7
	s.S += "x"
	s.L = append(s.L, 1)
	v := 42
	s.P = &v
	s.next = append(s.next, func() {})
	s.F[1]++
}

func (s *stateful) Get()  { s.observe("Get") }
func (s *stateful) Post() { s.observe("Post") }
func (s *stateful) All()  { s.observe("All") }

type statefulVal struct{ stateful }

func (s statefulVal) Get()  { s.observe("Get") }
func (s statefulVal) Post() { s.observe("Post") }
func (s statefulVal) All()  { s.observe("All") }

// controllers of a single field
type lone struct{ M int }

func (s *lone) see(who string) {
	seenStates = append(seenStates, fmt.Sprint(who, " M=", s.M))
	s.M++
}
func (s *lone) Get()  { s.see("Get") }
func (s *lone) Post() { s.see("Post") }
func (s *lone) All()  { s.see("All") }

type loneIn struct{ lone }

func runFresh(x *mc.X) {
	kind := x.Choose(9, "declared as")
	n := 3
	if x.Thorough {
		n = 5
	}
	var seq []string
	for i := 0; i < n; i++ {
		seq = append(seq, mc.Pick(x, "request", []string{"GET /r/1", "HEAD /r/1", "POST /r/1", "PUT /q", "GET /q", "GET /r/2"}))
	}
	x.Ready()
	one := 1
	base := stateful{N: 5, S: "s", L: make([]int, 1, 8), P: &one, F: [2]int{3, 4}}
	base.M = 9
	want := "M=9 N=5 S=s L=[0] P=1 F=[3 4] next=0"
	var c interface{}
	switch kind {
	case 0:
		c = base
	case 1:
		c = &base
	case 2:
		c = statefulVal{base}
	case 3:
		c = &statefulVal{base}
	case 4:
		c = (*stateful)(nil)
		want = "M=0 N=0 S= L=[] P=nil F=[0 0] next=0"
	case 5:
		pp := &base
		c = &pp
	case 6:
		c, want = lone{9}, "M=9"
	case 7:
		c, want = &lone{9}, "M=9"
	case 8:
		c, want = &loneIn{lone{9}}, "M=9"
	}
	sp := newApp()
	sp.Routers(
		strip.Router("/r/:id", strip.Get(c), strip.Post(c)),
		strip.Router("/q", strip.All(c)),
	)
	for i, s := range seq {
		seenStates = nil
		m, path, _ := strings.Cut(s, " ")
		_, p := serve(sp, newReq(m, path))
		x.Op()
		act := map[string]string{"GET": "Get", "HEAD": "Get", "POST": "Post", "PUT": "All"}[m]
		if p != nil || len(seenStates) != 1 || seenStates[0] != act+" "+want {
			x.Failf("fresh", "declared as kind %d, requests %v: request %d (%s) saw %v (panic %v), expected %s %s", kind, seq[:i+1], i+1, s, seenStates, p, act, want)
		}
	}
	x.Statef("fresh %d %v", kind, seq)
	x.Logf("fresh %d %v", kind, seq)
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C03",
		Model:       "decision list over the declared handlers (method, HEAD to GET, All, Any, not found) against the real application; request sequences on struct actions",
		Assumptions: []string{"at most one handler is declared per method, All and Any on one route"},
		Bounds: func(th bool) map[string]interface{} {
			n := 3
			if th {
				n = 5
			}
			return map[string]interface{}{"declarations": "every combination of GET, POST, HEAD, All and Any handlers as function, struct or struct with named action, at three kinds of route, in two orders, split over two Router calls; every pair of the nine methods with All and Any the same way",
				"request methods": len(requestMethods), "request sequence length on stateful structs": n}
		},
		Run: func(x *mc.X) {
			switch x.Choose(4, "part") {
			case 3:
				runTwins(x)
			case 0:
				runFresh(x)
			case 1:
				runMethods(x, false)
			case 2:
				runMethods(x, true)
			}
		},
	})
}
