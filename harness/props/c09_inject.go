package props

import (
	"fmt"
	htmltpl "html/template"
	"reflect"
	"strings"
	texttpl "text/template"

	"github.com/wujiu2020/strip/inject"
	"strip.verif/mc"
)

type injA struct{ N int }

func (a *injA) ID() int { return a.N }

type injB struct {
	N    int
	From string // what it was built from
}

type injI interface{ ID() int }

// convertible to the other type, but another type
type injC injB

type injU1 = []string
type injU2 = map[string]int

// values of the reference model
type rval struct {
	typ  string // "*A" "A" "*B" "I(A)" "U1" "U2" "nilI"
	n    int
	from string
}

func (v rval) String() string { return fmt.Sprintf("%s#%d%s", v.typ, v.n, v.from) }

type regKind struct {
	name string // registered name: type and optional :name
	desc string
	val  string // type of the registered value; "" for providers
	out  string
	deps []string // dependency names with the wanted form: "*A", "A", "*B", "I", "*A:n"
}

var regKinds = []regKind{
	{"A", "value *A", "*A", "", nil},
	{"A", "func() *A", "", "*A", nil},
	{"A", "func(*B) *A", "", "*A", []string{"*B"}},
	{"B", "value *B", "*B", "", nil},
	{"B", "func(*A) *B", "", "*B", []string{"*A"}},
	{"I", "value *A as I", "*A", "", nil},
	{"I", "func(*A) I", "", "I", []string{"*A"}},
	{"I", "value *B as I", "*B", "", nil}, // cannot be assigned
	{"A:n", "value *A named n", "*A", "", nil},
	{"B", "func(*A named n) *B", "", "*B", []string{"*A:n"}},
	{"U1", "value *[]string", "U1", "", nil},
	{"U2", "value *map", "U2", "", nil},
	{"A", "func() A", "", "A", nil},
	{"B", "func(A) *B", "", "*B", []string{"A"}},
	{"B", "func(I) *B", "", "*B", []string{"I"}},
	{"A", "func() nil *A", "", "nil*A", nil},
	{"A:n", "func() *A named n", "", "*A", nil},
	{"I", "func(*B) nil I", "", "nilI", []string{"*B"}},
	{"B", "func(*A named n, *A) *B", "", "*B", []string{"*A:n", "*A"}},
	{"B", "func(*A, *A named n) *B", "", "*B", []string{"*A", "*A:n"}},
	{"B", "value *C as B", "*C", "", nil}, // can be converted, but not assigned
	// from here: pairs of types that are written alike
	{"T1", "value of a local type T", "T1", "", nil},
	{"T2", "value of another local type T", "T2", "", nil},
	{"TH", "value *html/template.Template", "TH", "", nil},
	{"TX", "value *text/template.Template", "TX", "", nil},
	{"TH[]", "value []*html/template.Template", "TH[]", "", nil},
	{"TX[]", "func() []*text/template.Template", "", "TX[]", nil},
	{"T1:n", "value of a local type T named n", "T1", "", nil},
	{"B", "func(T, other T, *html/template.Template, *text/template.Template named n) *B", "", "*B", []string{"T1", "T2", "TH", "TX:n"}},
	{"TX:n", "value *text/template.Template named n", "TX", "", nil},
}

// a local type, like many functions have one
func twinOne() twin {
	type T struct{ N int }
	return twin{
		func(id int) interface{} { return &T{id} },
		func(inj inject.Injector, names ...string) (int, error) {
			var t *T
			if err := inj.Find(&t, names...); err != nil {
				return 0, err
			}
			return t.N, nil
		},
	}
}

func twinTwo() twin {
	type T struct{ N int }
	return twin{
		func(id int) interface{} { return &T{id} },
		func(inj inject.Injector, names ...string) (int, error) {
			var t *T
			if err := inj.Find(&t, names...); err != nil {
				return 0, err
			}
			return t.N, nil
		},
	}
}

type twin struct {
	value func(int) interface{}
	find  func(inject.Injector, ...string) (int, error)
}

var twins = []twin{twinOne(), twinTwo()}

// func(T, other T, html, text) *B
func (w *realWorld) twinFunc(id int) interface{} {
	in := []reflect.Type{reflect.TypeOf(twins[0].value(0)).Elem(), reflect.TypeOf(twins[1].value(0)).Elem(), reflect.TypeOf((*htmltpl.Template)(nil)), reflect.TypeOf((*texttpl.Template)(nil))}
	return reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf((*injB)(nil))}, false), func(a []reflect.Value) []reflect.Value {
		from := fmt.Sprintf("(%d)(%d)(%s)(%s)", a[0].Field(0).Int(), a[1].Field(0).Int(), a[2].Interface().(*htmltpl.Template).Name(), a[3].Interface().(*texttpl.Template).Name())
		return []reflect.Value{reflect.ValueOf(w.newB(id, from))}
	}).Interface()
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// what histories are made of
type injSet struct {
	regs, queries []int
}

func injSets() (sets []injSet) {
	sets = make([]injSet, 2)
	add := func(to *[]int, i int) { *to = append(*to, i) }
	for i, k := range regKinds {
		if k.name[0] == 'T' || len(k.deps) == 4 {
			add(&sets[1].regs, i)
		} else {
			add(&sets[0].regs, i)
		}
	}
	for i, q := range queries {
		if q.kind == "find" && q.deps[0][0] == 'T' {
			add(&sets[1].queries, i)
		} else {
			add(&sets[0].queries, i)
			if q.desc == "Find *B" {
				add(&sets[1].queries, i)
			}
		}
	}
	return
}

type query struct {
	desc string
	deps []string // what must be resolved, in order
	kind string   // find, invoke, apply, exists
	out  string   // invoke: type of the function's own result
}

var queries = []query{
	{"Find *A", []string{"*A"}, "find", ""},
	{"Find A", []string{"A"}, "find", ""},
	{"Find *B", []string{"*B"}, "find", ""},
	{"Find I", []string{"I"}, "find", ""},
	{"Find *A named n", []string{"*A:n"}, "find", ""},
	{"Find []string", []string{"U1"}, "find", ""},
	{"Find map", []string{"U2"}, "find", ""},
	{"Invoke func(*A, *B) *A", []string{"*A", "*B"}, "invoke", "*A"},
	{"Invoke func(I) *B", []string{"I"}, "invoke", "*B"},
	{"Invoke func() *A", nil, "invoke", "*A"},
	{"Invoke func() I", nil, "invoke", "I"},
	{"Invoke func(A)", []string{"A"}, "invoke", ""},
	{"Invoke func(*B, *A)", []string{"*B", "*A"}, "invoke", ""},
	{"Apply {A *A, B *B}", []string{"*A", "*B"}, "apply", ""},
	{"Apply {I, nested A, named *A}", []string{"I", "A", "*A:n"}, "apply", ""},
	{"Exists *A", []string{"*A"}, "exists", ""},
	{"Find T", []string{"T1"}, "find", ""},
	{"Find other T", []string{"T2"}, "find", ""},
	{"Find html", []string{"TH"}, "find", ""},
	{"Find text", []string{"TX"}, "find", ""},
	{"Find []html", []string{"TH[]"}, "find", ""},
	{"Find []text", []string{"TX[]"}, "find", ""},
	{"Find T named n", []string{"T1:n"}, "find", ""},
	{"Find other T named n", []string{"T2:n"}, "find", ""},
	{"Find text named n", []string{"TX:n"}, "find", ""},
}

type refScope struct {
	regs   map[string]*refReg
	caches map[string]refCached
	parent *refScope
}
type refReg struct {
	kind *regKind
	id   int
	runs int
}
type refCached struct {
	v   rval
	reg *refReg
}

func newRefScope(parent *refScope) *refScope {
	return &refScope{map[string]*refReg{}, map[string]refCached{}, parent}
}

func (s *refScope) lookup(name string) *refReg {
	for ; s != nil; s = s.parent {
		if r := s.regs[name]; r != nil {
			return r
		}
	}
	return nil
}

// form "*A:n" -> registered name "A:n"
func regName(form string) string { return strings.TrimPrefix(form, "*") }

var errMissing, errCycle, errAssign = fmt.Errorf("missing"), fmt.Errorf("cycle"), fmt.Errorf("not assignable")

type ambiguous struct{}

func (s *refScope) resolve(form string, stack []*refReg) (rval, error) {
	name := regName(form)
	r := s.lookup(name)
	if r == nil {
		return rval{}, errMissing
	}
	v, err := s.instance(name, r, stack)
	if err != nil {
		return rval{}, err
	}
	return assignRef(v, form)
}

func (s *refScope) instance(name string, r *refReg, stack []*refReg) (rval, error) {
	if c, ok := s.caches[name]; ok {
		if c.reg != r {
			panic(ambiguous{}) // an outer scope re-registered what an inner one already built
		}
		return c.v, nil
	}
	if r.kind.val != "" {
		return rval{r.kind.val, r.id * 100, ""}, nil
	}
	for _, o := range stack {
		if o == r {
			return rval{}, errCycle
		}
	}
	stack = append(stack[:len(stack):len(stack)], r)
	var in []rval
	for _, d := range r.kind.deps {
		v, err := s.resolve(d, stack)
		if err != nil {
			return rval{}, err
		}
		in = append(in, v)
	}
	r.runs++
	v := rval{typ: r.kind.out, n: r.id*100 + r.runs}
	if v.typ == "*B" {
		v.from = fromText(in)
	}
	switch v.typ {
	case "I":
		v.typ = "*A" // dynamic type
	case "nil*A", "nilI":
		v.n = 0
	}
	s.caches[name] = refCached{v, r}
	return v, nil
}

func fromText(in []rval) string {
	s := ""
	for _, v := range in {
		if v.typ == "nilI" || v.typ == "nil*A" {
			s += "(nil)"
			continue
		}
		s += fmt.Sprintf("(%d)", v.n)
	}
	return s
}

func assignRef(v rval, form string) (rval, error) {
	base, _, _ := strings.Cut(form, ":")
	switch base {
	case "*A":
		switch v.typ {
		case "*A", "nil*A":
			return v, nil
		}
	case "A":
		switch v.typ {
		case "A", "*A":
			v.typ = "A"
			return v, nil
		case "nil*A":
			return rval{typ: "A"}, nil // nothing to copy
		}
	case "*B":
		if v.typ == "*B" {
			return v, nil
		}
	case "I":
		switch v.typ {
		case "*A", "nilI":
			return v, nil
		}
	case "U1", "U2", "T1", "T2", "TH", "TX", "TH[]", "TX[]":
		if v.typ == base {
			return v, nil
		}
	}
	return rval{}, errAssign
}

// the real side

type realWorld struct {
	nextID int
	runs   map[int]int
	dep    inject.Dep // the same in every registration
	last   []rval     // what an invoked function received
	calls  int
}

func (w *realWorld) newA(id int) *injA {
	w.runs[id]++
	return &injA{id*100 + w.runs[id]}
}
func (w *realWorld) newB(id int, from string) *injB {
	w.runs[id]++
	return &injB{id*100 + w.runs[id], from}
}

func aText(a *injA) string {
	if a == nil {
		return "(nil)"
	}
	return fmt.Sprintf("(%d)", a.N)
}

func (w *realWorld) register(inj inject.Injector, k int, id int) {
	switch regKinds[k].desc {
	case "value *A":
		inj.Provide(&injA{id * 100})
	case "func() *A":
		inj.Provide(func() *injA { return w.newA(id) })
	case "func(*B) *A":
		inj.Provide(func(b *injB) *injA { return w.newA(id) })
	case "value *B":
		inj.Provide(&injB{id * 100, ""})
	case "func(*A) *B":
		inj.Provide(func(a *injA) *injB { return w.newB(id, aText(a)) })
	case "value *A as I":
		if id%2 == 0 {
			// what is said last counts
			inj.ProvideAs(inject.Object{Value: &injA{id * 100}, Type: (*injB)(nil)}, (*injI)(nil))
			return
		}
		inj.ProvideAs(&injA{id * 100}, (*injI)(nil))
	case "value *C as B":
		inj.ProvideAs(&injC{id * 100, ""}, (*injB)(nil))
	case "func(*A) I":
		inj.Provide(func(a *injA) injI { return w.newA(id) })
	case "value *B as I":
		inj.ProvideAs(&injB{id * 100, ""}, (*injI)(nil))
	case "value *A named n":
		if id%2 == 0 {
			inj.ProvideAs(&inject.Object{Value: &injA{id * 100}, Name: "m"}, nil, "n")
			return
		}
		inj.ProvideAs(&injA{id * 100}, nil, "n")
	case "func(*A named n) *B":
		inj.Provide(inject.Provide{w.dep, func(a *injA) *injB { return w.newB(id, aText(a)) }})
	case "value *[]string":
		v := []string{fmt.Sprint(id * 100)}
		inj.Provide(&v)
	case "value *map":
		v := map[string]int{"n": id * 100}
		inj.Provide(inject.Object{Value: &v})
	case "func() A":
		inj.Provide(&inject.Object{Value: func() injA { return *w.newA(id) }})
	case "func(A) *B":
		inj.Provide(func(a injA) *injB { return w.newB(id, aText(&a)) })
	case "func(I) *B":
		inj.Provide(func(i injI) *injB {
			if i == nil {
				return w.newB(id, "(nil)")
			}
			return w.newB(id, fmt.Sprintf("(%d)", i.ID()))
		})
	case "func() nil *A":
		inj.Provide(func() *injA { w.runs[id]++; return nil })
	case "func() *A named n":
		inj.ProvideAs(func() *injA { return w.newA(id) }, nil, "n")
	case "func(*B) nil I":
		inj.Provide(func(b *injB) injI { w.runs[id]++; return nil })
	case "func(*A named n, *A) *B":
		inj.Provide(inject.Provide{w.dep, func(a, b *injA) *injB { return w.newB(id, aText(a)+aText(b)) }})
	case "func(*A, *A named n) *B":
		inj.Provide(inject.Provide{inject.Dep{1: "n"}, func(a, b *injA) *injB { return w.newB(id, aText(a)+aText(b)) }})
	case "value of a local type T":
		inj.Provide(twins[0].value(id * 100))
	case "value of another local type T":
		inj.Provide(twins[1].value(id * 100))
	case "value of a local type T named n":
		inj.ProvideAs(twins[0].value(id*100), nil, "n")
	case "value *html/template.Template":
		inj.Provide(htmltpl.New(fmt.Sprint(id * 100)))
	case "value *text/template.Template":
		inj.Provide(texttpl.New(fmt.Sprint(id * 100)))
	case "value *text/template.Template named n":
		inj.ProvideAs(texttpl.New(fmt.Sprint(id*100)), nil, "n")
	case "value []*html/template.Template":
		v := []*htmltpl.Template{htmltpl.New(fmt.Sprint(id * 100))}
		inj.Provide(&v)
	case "func() []*text/template.Template":
		inj.Provide(func() []*texttpl.Template {
			w.runs[id]++
			return []*texttpl.Template{texttpl.New(fmt.Sprint(id*100 + w.runs[id]))}
		})
	case "func(T, other T, *html/template.Template, *text/template.Template named n) *B":
		inj.Provide(inject.Provide{inject.Dep{3: "n"}, w.twinFunc(id)})
	default:
		panic("unknown registration")
	}
}

func rA(a *injA) rval {
	if a == nil {
		return rval{typ: "nil*A"}
	}
	return rval{typ: "*A", n: a.N}
}
func rAv(a injA) rval { return rval{typ: "A", n: a.N} }
func rB(b *injB) rval {
	if b == nil {
		return rval{typ: "nil*B"}
	}
	return rval{typ: "*B", n: b.N, from: b.From}
}
func rI(i injI) rval {
	if i == nil {
		return rval{typ: "nilI"}
	}
	if a, ok := i.(*injA); ok {
		return rA(a)
	}
	return rval{typ: fmt.Sprintf("%T", i)}
}

// the empty tag of inject:"" does not ask for injection: only the bare tag or a name does
type applyTwoInner struct {
	Av injA `inject`
}
type applyTwo struct {
	I     injI `inject`
	Inner applyTwoInner
	N     *injA `inject:"n"`
}
type applyPlain struct {
	A *injA `inject`
	B *injB `inject`
}

func (w *realWorld) query(inj inject.Injector, q *query) (out []rval, own []reflect.Value, err error) {
	w.calls = 0
	w.last = nil
	got := func(v ...rval) { w.calls++; w.last = v }
	switch q.desc {
	case "Find *A":
		var a *injA
		err = inj.Find(&a)
		out = []rval{rA(a)}
	case "Find A":
		var a injA
		err = inj.Find(&a, "")
		out = []rval{rAv(a)}
	case "Find *B":
		var b *injB
		err = inj.Find(&b)
		out = []rval{rB(b)}
	case "Find I":
		var i injI
		err = inj.Find(&i)
		out = []rval{rI(i)}
	case "Find *A named n":
		var a *injA
		err = inj.Find(&a, "n")
		out = []rval{rA(a)}
	case "Find []string":
		var u injU1
		if err = inj.Find(&u); err == nil {
			n := 0
			if len(u) == 1 {
				fmt.Sscan(u[0], &n)
			}
			out = []rval{{typ: "U1", n: n}}
		}
	case "Find map":
		var u injU2
		if err = inj.Find(&u); err == nil {
			out = []rval{{typ: "U2", n: u["n"]}}
		}
	case "Invoke func(*A, *B) *A":
		own, err = inj.Invoke(func(a *injA, b *injB) *injA { got(rA(a), rB(b)); return &injA{-7} })
	case "Invoke func(I) *B":
		own, err = inj.Invoke(func(i injI) *injB { got(rI(i)); return &injB{-7, ""} })
	case "Invoke func() *A":
		own, err = inj.Invoke(func() *injA { got(); return &injA{-7} })
	case "Invoke func() I":
		own, err = inj.Invoke(func() injI { got(); return &injA{-7} })
	case "Invoke func(A)":
		own, err = inj.Invoke(func(a injA) { got(rAv(a)) })
	case "Invoke func(*B, *A)":
		own, err = inj.Invoke(func(b *injB, a *injA) { got(rB(b), rA(a)) })
	case "Apply {A *A, B *B}":
		var s applyPlain
		err = inj.Apply(&s)
		out = []rval{rA(s.A), rB(s.B)}
	case "Apply {I, nested A, named *A}":
		var s applyTwo
		err = inj.Apply(&s)
		out = []rval{rI(s.I), rAv(s.Inner.Av), rA(s.N)}
	case "Exists *A":
		var a *injA
		err = inj.Exists(&a)
	case "Find T", "Find other T", "Find T named n", "Find other T named n":
		v := rval{typ: "T1"}
		f := twins[0].find
		if strings.Contains(q.desc, "other") {
			v.typ = "T2"
			f = twins[1].find
		}
		if strings.Contains(q.desc, "named") {
			v.n, err = f(inj, "n")
		} else {
			v.n, err = f(inj)
		}
		out = []rval{v}
	case "Find html":
		var t *htmltpl.Template
		if err = inj.Find(&t); err == nil {
			out = []rval{{typ: "TH", n: atoi(t.Name())}}
		}
	case "Find text":
		var t *texttpl.Template
		if err = inj.Find(&t); err == nil {
			out = []rval{{typ: "TX", n: atoi(t.Name())}}
		}
	case "Find text named n":
		var t *texttpl.Template
		if err = inj.Find(&t, "n"); err == nil {
			out = []rval{{typ: "TX", n: atoi(t.Name())}}
		}
	case "Find []html":
		var t []*htmltpl.Template
		if err = inj.Find(&t); err == nil && len(t) == 1 {
			out = []rval{{typ: "TH[]", n: atoi(t[0].Name())}}
		}
	case "Find []text":
		var t []*texttpl.Template
		if err = inj.Find(&t); err == nil && len(t) == 1 {
			out = []rval{{typ: "TX[]", n: atoi(t[0].Name())}}
		}
	default:
		panic("unknown query")
	}
	if q.kind == "invoke" {
		out = w.last
	}
	return
}

type injHist struct {
	x     *mc.X
	w     *realWorld
	refs  []*refScope
	injs  []inject.Injector
	log   []string
	ids   int
	names []string
}

func newInjHist(x *mc.X, scopes int) *injHist {
	h := &injHist{x: x, w: &realWorld{runs: map[int]int{}, dep: inject.Dep{0: "n"}}, names: []string{"outer", "inner", "innermost"}}
	for i := 0; i < scopes; i++ {
		inj := inject.New()
		var p *refScope
		if i > 0 {
			// the parent set last counts
			former := inject.New()
			former.Provide(&injA{-1}, &injB{-1, "former parent"})
			inj.SetParent(former)
			inj.SetParent(h.injs[i-1])
			p = h.refs[i-1]
		}
		h.injs = append(h.injs, inj)
		h.refs = append(h.refs, newRefScope(p))
	}
	return h
}

func (h *injHist) register(s, k int) {
	h.ids++
	h.log = append(h.log, fmt.Sprintf("%s: provide %s (#%d)", h.names[s], regKinds[k].desc, h.ids))
	h.w.register(h.injs[s], k, h.ids)
	r := &refReg{kind: &regKinds[k], id: h.ids}
	h.refs[s].regs[r.kind.name] = r
	delete(h.refs[s].caches, r.kind.name)
	h.x.Op()
}

func (h *injHist) query(s int, q *query) {
	x := h.x
	line := h.names[s] + ": " + q.desc
	h.log = append(h.log, line)
	x.Op()
	// reference; nothing may be left half done in the model, so resolve in order like a function call
	var want []rval
	var werr error
	if q.kind == "exists" {
		r := h.refs[s].lookup(regName(q.deps[0]))
		if r == nil {
			werr = errMissing
		} else if r.kind.val != "" {
			_, werr = assignRef(rval{typ: r.kind.val}, q.deps[0])
		}
	} else {
		for _, d := range q.deps {
			v, err := h.refs[s].resolve(d, nil)
			if err != nil {
				werr = err
				break
			}
			want = append(want, v)
		}
	}
	var out []rval
	var own []reflect.Value
	var err error
	if p := catch(func() { out, own, err = h.w.query(h.injs[s], q) }); p != nil {
		x.Failf("inject", "%s\npanic: %v", strings.Join(h.log, "\n"), p)
	}
	x.Logf("%s -> %v %v", line, out, err)
	if (err != nil) != (werr != nil) {
		x.Failf("inject", "%s\nerror %v, expected %v", strings.Join(h.log, "\n"), err, werr)
	}
	if q.kind == "invoke" {
		n := 1
		if werr != nil {
			n = 0
		}
		if h.w.calls != n {
			x.Failf("inject", "%s\nthe invoked function ran %d times, expected %d", strings.Join(h.log, "\n"), h.w.calls, n)
		}
	}
	if werr != nil {
		return
	}
	if q.kind != "exists" && fmt.Sprint(out) != fmt.Sprint(want) {
		x.Failf("inject", "%s\ngot %v, expected %v", strings.Join(h.log, "\n"), out, want)
	}
	if q.out != "" {
		ok := len(own) == 1 && own[0].IsValid()
		if ok {
			switch v := own[0].Interface().(type) {
			case *injA:
				ok = v.N == -7
			case *injB:
				ok = v.N == -7
			default:
				ok = false
			}
		}
		if !ok {
			x.Failf("inject", "%s\nthe result is not the function's own", strings.Join(h.log, "\n"))
		}
	}
	// how often every provider ran
	for i := range h.refs {
		for _, r := range h.refs[i].regs {
			if r.kind.val == "" && h.w.runs[r.id] != r.runs {
				x.Failf("inject", "%s\nprovider #%d (%s) ran %d times, expected %d", strings.Join(h.log, "\n"), r.id, r.kind.desc, h.w.runs[r.id], r.runs)
			}
		}
	}
}

var injAlphabets = injSets()

// functions with a variadic last parameter: the rest is a dependency of the slice type
func runInjectRest(x *mc.X) {
	type dep struct{ got []string }
	how := x.Choose(4, "the slice is") // absent, a value, made by a function, made and nil
	n := x.Choose(3, "elements")
	named := x.Bool("named")
	outer := x.Bool("the slice is in the outer scope")
	use := x.Choose(4, "user")
	first := x.Bool("another dependency first")
	times := 1 + x.Choose(2, "times")
	x.Ready()
	list := []string{"a", "b", "c"}[:n:n]
	if how == 3 {
		list = nil
	}
	parent := inject.New()
	inj := inject.New()
	inj.SetParent(parent)
	where := inj
	if outer {
		where = parent
	}
	name := ""
	if named {
		name = "n"
		where.ProvideAs(&[]string{"wrong"}, nil)
	}
	made := 0
	switch how {
	case 1:
		where.ProvideAs(&list, nil, name)
	case 2, 3:
		where.ProvideAs(func() []string { made++; return list }, nil, name)
	}
	a := &injA{N: 7}
	inj.Provide(a)
	var got [][]string
	ran := 0
	var f interface{}
	pos := 0
	if first {
		pos = 1
		f = func(b *injA, ss ...string) *dep {
			if b != a {
				x.Failf("rest", "the other dependency is %v", b)
			}
			ran++
			return &dep{ss}
		}
	} else {
		f = func(ss ...string) *dep { ran++; return &dep{ss} }
	}
	var prov interface{} = f
	if named {
		// the name belongs to the parameter
		prov = inject.Provide{inject.Dep{pos: "n"}, f}
	}
	desc := fmt.Sprintf("slice kind %d of %d, named %v, outer %v, user %d, first %v, %d times", how, n, named, outer, use, first, times)
	var err error
	if p := catch(func() {
		switch use {
		case 0:
			for i := 0; i < times && err == nil; i++ {
				x.Op()
				var out []reflect.Value
				if out, err = inj.Invoke(prov); err == nil {
					got = append(got, out[0].Interface().(*dep).got)
				}
			}
		case 1, 2:
			if use == 2 && !outer {
				inj.Provide(prov)
			} else {
				parent.Provide(a, prov)
			}
			for i := 0; i < times && err == nil; i++ {
				x.Op()
				var d *dep
				if err = inj.Find(&d); err == nil {
					got = append(got, d.got)
				}
			}
		case 3:
			inj.Provide(prov)
			for i := 0; i < times && err == nil; i++ {
				x.Op()
				var st struct {
					D *dep `inject`
				}
				if err = inj.Apply(&st); err == nil {
					got = append(got, st.D.got)
				}
			}
		}
	}); p != nil {
		x.Failf("rest", "%s: panic %v", desc, p)
	}
	if how == 0 {
		if err == nil || ran != 0 {
			x.Failf("rest", "%s: a missing slice is no error (%d runs)", desc, ran)
		}
		x.State(desc)
		return
	}
	if err != nil {
		x.Failf("rest", "%s: %v", desc, err)
	}
	for _, g := range got {
		if !equalStrings(g, list) {
			x.Failf("rest", "%s: the function gets %q, want %q", desc, g, list)
		}
	}
	runs := 1
	if use == 0 {
		runs = times
	}
	if ran != runs || len(got) != times || how != 1 && made != 1 {
		x.Failf("rest", "%s: %d runs, %d results, the slice is made %d times", desc, ran, len(got), made)
	}
	x.State(desc)
}

// which fields of a struct are filled: the tagged ones of the struct and of the structs in it, three levels deep
type injField struct {
	name  string
	tag   reflect.StructTag
	typ   reflect.Type
	want  string // what is injected: "", "1" (unnamed), "2" (named n), "?" (missing)
	inner []*injField
	wrap  string
	other interface{} // a field of another kind, which is left alone
}

var injLeaves = []injField{
	{tag: "inject", want: "1"}, {tag: `inject:"n"`, want: "2"}, {tag: `inject:"-"`}, {}, {tag: `json:"a" inject:"n"`, want: "2"}, {tag: `json:"inject"`}, {tag: `inject:"missing"`, want: "?"}, {tag: `inject:""`}, {tag: `inject:" n"`, want: "?"},
	{other: (*interface{})(nil)}, {other: (*error)(nil)}, {other: new(string)}, {other: new(func())}, {other: new(map[string]int)},
}

var injWraps = []string{"struct", "embedded", "pointer", "nil pointer", "interface to pointer", "interface to struct", "slice", "pointer to pointer", "tagged away"}

func injType(fields []*injField) reflect.Type {
	var fs []reflect.StructField
	for i, f := range fields {
		f.name = fmt.Sprintf("F%d", i)
		sf := reflect.StructField{Name: f.name, Type: f.typ, Tag: f.tag}
		if f.other != nil {
			sf.Type = reflect.TypeOf(f.other).Elem()
		}
		if f.wrap != "" {
			in := injType(f.inner)
			f.typ = in
			switch f.wrap {
			case "struct":
				sf.Type = in
			case "tagged away":
				sf.Type, sf.Tag = in, `inject:"-"`
			case "embedded":
				sf.Type, sf.Anonymous = in, true
			case "pointer", "nil pointer":
				sf.Type = reflect.PtrTo(in)
			case "interface to pointer", "interface to struct":
				sf.Type = reflect.TypeOf((*interface{})(nil)).Elem()
			case "slice":
				sf.Type = reflect.SliceOf(in)
			case "pointer to pointer":
				sf.Type = reflect.PtrTo(reflect.PtrTo(in))
			}
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

// fill prepares a struct of those fields and returns, for every leaf, where it is and what it shall be
func injFill(v reflect.Value, fields []*injField, level int, reached bool, leaf func(get func() reflect.Value, f *injField, reached bool)) {
	for _, f := range fields {
		v := v.FieldByName(f.name)
		if f.other != nil {
			switch v.Interface().(type) {
			case nil:
				if f.tag == "" && v.Type().NumMethod() > 0 {
					v.Set(reflect.ValueOf(errMissing))
				}
			case string:
				v.SetString("text")
			}
			continue
		}
		if f.wrap == "" {
			if v.Kind() == reflect.Struct {
				v.Set(reflect.ValueOf(injA{N: 99}))
			} else {
				v.Set(reflect.ValueOf(&injA{N: 99}))
			}
			leaf(func() reflect.Value { return v }, f, reached)
			continue
		}
		in := reflect.New(f.typ)
		down := reached && level < 3
		switch f.wrap {
		case "struct", "embedded":
			in = v.Addr()
		case "tagged away":
			in, down = v.Addr(), false
		case "pointer":
			v.Set(in)
		case "nil pointer":
			continue
		case "interface to pointer":
			v.Set(in)
		case "interface to struct":
			injFill(in.Elem(), f.inner, level+1, false, func(func() reflect.Value, *injField, bool) {})
			v.Set(in.Elem())
			continue
		case "slice":
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			in, down = v.Index(0).Addr(), false
		case "pointer to pointer":
			p := reflect.New(in.Type())
			p.Elem().Set(in)
			v.Set(p)
			down = false
		}
		injFill(in.Elem(), f.inner, level+1, down, leaf)
	}
}

func runInjectFields(x *mc.X) {
	// one field with structs in it, others beside it
	var mkFields func(level, n int) []*injField
	text := ""
	top := 0
	mkFields = func(level, n int) (out []*injField) {
		for i := 0; i < n; i++ {
			if level == 1 {
				top = i
			}
			k := len(injLeaves)
			if level < 4 && (top == 0 || x.Thorough && top == 1 && level < 3) {
				k += len(injWraps)
			}
			k = x.Choose(k, "field")
			f := &injField{}
			if k < len(injLeaves) {
				*f = injLeaves[k]
				f.typ = reflect.TypeOf((*injA)(nil))
				if f.other != nil {
					text += fmt.Sprintf(" %T", f.other)
					out = append(out, f)
					continue
				}
				if level == 1 && x.Bool("by value") {
					f.typ = f.typ.Elem()
				}
				text += fmt.Sprintf(" %q", f.tag)
			} else {
				f.wrap = injWraps[k-len(injLeaves)]
				text += " " + f.wrap + "{"
				f.inner = mkFields(level+1, 1)
				text += " }"
			}
			out = append(out, f)
		}
		return
	}
	n := 2
	if x.Thorough {
		n = 2 + x.Choose(2, "three fields")
	}
	fields := mkFields(1, n)
	x.Ready()
	inj := inject.New()
	outer := inject.New()
	inj.SetParent(outer)
	inj.Provide(&injA{N: 1})
	outer.ProvideAs(func() *injA { return &injA{N: 2} }, nil, "n")
	typ := injType(fields)
	st := reflect.New(typ)
	type leafAt struct {
		get     func() reflect.Value
		f       *injField
		reached bool
	}
	var leaves []leafAt
	injFill(st.Elem(), fields, 1, true, func(get func() reflect.Value, f *injField, reached bool) {
		leaves = append(leaves, leafAt{get, f, reached})
	})
	x.Op()
	var err error
	if p := catch(func() { err = inj.Apply(st.Interface()) }); p != nil {
		x.Failf("fields", "struct {%s }: panic %v", text, p)
	}
	missing := false
	for _, l := range leaves {
		if l.reached && l.f.want == "?" {
			missing = true
		}
	}
	if (err != nil) != missing {
		x.Failf("fields", "struct {%s }: error %v, a dependency is missing: %v", text, err, missing)
	}
	if err == nil {
		for _, l := range leaves {
			want := 99
			if l.reached && l.f.want != "" {
				want = atoi(l.f.want)
			}
			if got := int(reflect.Indirect(l.get()).FieldByName("N").Int()); got != want {
				x.Failf("fields", "struct {%s }: the field tagged %q holds %d, want %d", text, l.f.tag, got, want)
			}
		}
	}
	x.State(text)
}

func runInject(x *mc.X) {
	switch x.Choose(4, "kind") {
	case 3:
		runTwinFields(x)
		return
	case 1:
		runInjectRest(x)
		return
	case 2:
		runInjectFields(x)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ambiguous); ok {
				x.Skip()
			}
			panic(r)
		}
	}()
	battery := x.Bool("battery")
	depth := 4
	scopes := 2
	if x.Thorough {
		depth = 5
		scopes = x.Choose(2, "third scope") + 2
	}
	if battery {
		depth--
	}
	if scopes == 3 {
		depth--
	}
	set := injAlphabets[x.Choose(2, "types written alike")]
	nRegs, nQueries := len(set.regs), len(set.queries)
	nOps := nRegs + nQueries
	h := newInjHist(x, scopes)
	for i := 0; i < depth; i++ {
		if i == 2 {
			x.Ready()
		}
		lo, n := 0, nOps
		if i == 0 {
			n = nRegs
		}
		if i == depth-1 && !battery {
			lo, n = nRegs, nQueries
		}
		s := x.Choose(scopes, "scope")
		k := lo + x.Choose(n, "operation")
		if k < nRegs {
			h.register(s, set.regs[k])
		} else {
			h.query(s, &queries[set.queries[k-nRegs]])
		}
	}
	if battery {
		for s := scopes - 1; s >= 0; s-- {
			for _, i := range set.queries {
				h.query(s, &queries[i])
			}
		}
	}
	for _, s := range h.refs {
		for _, k := range sortedCaches(s.caches) {
			x.State(k)
		}
	}
	x.Statef("%v", h.log)
}

func sortedCaches(m map[string]refCached) []string {
	var out []string
	for k, c := range m {
		out = append(out, k+c.v.String())
	}
	return out
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C09",
		Model: "reference injector tree (nearest registration, per-scope instance cache, assignability); every history is executed on real injectors and values, errors, provider run counts and function executions are compared",
		Assumptions: []string{
			"histories in which an outer scope re-registers what an inner scope has already built are not judged (the inner scope keeps its instance)",
		},
		Bounds: func(th bool) map[string]interface{} {
			d := 4
			if th {
				d = 5
			}
			return map[string]interface{}{"struct fields": "2 (thorough 3), nested up to 4 levels in every way", "registrations": len(regKinds), "queries": len(queries), "scopes": "2 (thorough also 3, one operation less)", "history length": d, "and one operation less followed by every query in every scope": true}
		},
		Run: runInject,
	})
}
