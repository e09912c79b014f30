package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"strip.verif/mc"
)

type cy0 struct{ X int }
type cy1 struct{ X int }
type cy2 struct{ X int }
type cy3 struct{ X int }
type cyMissing struct{ X int }

var cyTypes = []reflect.Type{reflect.TypeOf(&cy0{}), reflect.TypeOf(&cy1{}), reflect.TypeOf(&cy2{}), reflect.TypeOf(&cy3{})}
var cyMissingType = reflect.TypeOf(&cyMissing{})

var cyFuncs = map[string]interface{}{}

// a provider is known by its type and name
func cyNode(label, i int) (reflect.Type, string) {
	switch {
	case label == 1 && i < 2: // two of one type
		return cyTypes[0], []string{"", "a"}[i]
	case label == 1:
		return cyTypes[i], "a"
	case label == 2: // all of one type
		return cyTypes[0], []string{"", "a", "b", "c"}[i]
	}
	return cyTypes[i], ""
}

func cyTag(name string) reflect.StructTag {
	if name == "" {
		return "inject"
	}
	return reflect.StructTag(`inject:"` + name + `"`)
}

// deps: bit i is a dependency on node i, bit n on one nobody provides
func cyProvider(label, i, deps, n int, rev bool) interface{} {
	key := fmt.Sprint(label, i, deps, n, rev)
	if f := cyFuncs[key]; f != nil {
		return f
	}
	var in []reflect.Type
	names := inject.Dep{}
	for d := 0; d <= n; d++ {
		e := d
		if rev {
			e = n - d
		}
		if deps>>e&1 == 1 {
			if e == n {
				in = append(in, cyMissingType)
			} else {
				t, name := cyNode(label, e)
				if name != "" {
					names[len(in)] = name
				}
				in = append(in, t)
			}
		}
	}
	out, name := cyNode(label, i)
	f := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{out}, false), func(args []reflect.Value) []reflect.Value {
		return []reflect.Value{reflect.New(out.Elem())}
	}).Interface()
	if len(names) > 0 {
		f = inject.Provide{names, f}
	}
	if name != "" {
		f = inject.Object{Value: f, Name: name}
	}
	cyFuncs[key] = f
	return f
}

type cyOp struct {
	desc string
	inj  int
	need []int
	run  func(inj inject.Injector) error
}

var cyScopes = []string{"first", "second", "third"}

func cyOps(label, n, kinds int) []cyOp {
	var ops []cyOp
	fields := make([]reflect.StructField, n)
	for i := 0; i < n; i++ {
		t, name := cyNode(label, i)
		fields[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: cyTag(name)}
	}
	for inj := 0; inj < 3; inj++ {
		inj := inj
		add := func(desc string, need []int, f func(inject.Injector) error) {
			ops = append(ops, cyOp{cyScopes[inj] + " " + desc, inj, need, f})
		}
		for i := 0; i < n; i++ {
			i := i
			add(fmt.Sprintf("Find %d", i), []int{i}, func(in inject.Injector) error {
				t, name := cyNode(label, i)
				return in.Find(reflect.New(t).Interface(), name)
			})
		}
		if kinds == 1 {
			continue
		}
		if kinds == 3 {
			// fields of nested structs, to the depth that is injected
			nest := func(f ...reflect.StructField) reflect.Type { return reflect.StructOf(f) }
			field := func(t reflect.Type) reflect.StructField { return reflect.StructField{Name: "Nested", Type: t} }
			for i := 0; i < n; i++ {
				for _, ptr := range []bool{false, true} {
					t := nest(fields[i])
					for depth := 2; depth <= 3; depth++ {
						if ptr {
							t = reflect.PointerTo(t)
						}
						t = nest(field(t))
						cyAddApply(add, t, depth, ptr, []int{i})
						for j := 0; j < n; j++ {
							if j != i {
								u := reflect.StructOf(append([]reflect.StructField{t.Field(0)}, fields[j]))
								cyAddApply(add, u, depth, ptr, []int{i, j})
							}
						}
					}
				}
			}
			continue
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				ti, ni := cyNode(label, i)
				tj, nj := cyNode(label, j)
				f := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{ti, tj}, nil, false), func([]reflect.Value) []reflect.Value { return nil }).Interface()
				if ni != "" || nj != "" {
					f = inject.Provide{inject.Dep{0: ni, 1: nj}, f}
				}
				add(fmt.Sprintf("Invoke(%d,%d)", i, j), []int{i, j}, func(in inject.Injector) error {
					_, err := in.Invoke(f)
					return err
				})
				st := reflect.StructOf([]reflect.StructField{fields[i], fields[j]})
				add(fmt.Sprintf("Apply(%d,%d)", i, j), []int{i, j}, func(in inject.Injector) error {
					return in.Apply(reflect.New(st).Interface())
				})
			}
		}
	}
	return ops
}

func cyAddApply(add func(string, []int, func(inject.Injector) error), t reflect.Type, depth int, ptr bool, need []int) {
	add(fmt.Sprintf("Apply nested %d deep (pointers: %v) %v", depth, ptr, need), need, func(in inject.Injector) error {
		v := reflect.New(t)
		// pointers to the nested structs
		for e := v.Elem(); e.Kind() == reflect.Struct && e.NumField() > 0; {
			f := e.FieldByName("Nested")
			if !f.IsValid() {
				break
			}
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			e = f
		}
		return in.Apply(v.Interface())
	})
}

var cyOpCache = map[int][]cyOp{}

// a bounded family of graphs and histories
type cySpace struct {
	n       int
	place   [][]int // scope sets a type may be provided in
	topo    int     // 1: chain, 2: chain or siblings
	missing bool
	hist    int
	kinds   int // 1: Find only, 2: Find, Invoke, Apply, 3: Find, Apply of nested structs
	revs    bool
	label   int // 0: nodes of different types, 1: two of one type, 2: all of one type
}

var (
	cyOuter  = [][]int{{0}}
	cyEither = [][]int{{0}, {1}}
	cyTwo    = [][]int{{0}, {1}, {0, 1}}
	cyAll    = [][]int{{}, {0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}
)

var cyQuick = []cySpace{
	{2, cyAll, 2, false, 3, 1, false, 0},
	{2, cyTwo, 2, true, 2, 2, false, 0},
	{3, cyEither, 2, false, 2, 1, true, 0},
	{3, cyOuter, 1, true, 1, 2, true, 0},
	{4, cyOuter, 1, false, 1, 1, true, 0},
	{3, cyTwo, 1, false, 1, 1, false, 0},
	{2, cyTwo, 2, true, 1, 3, false, 0},
	{3, cyOuter, 1, true, 1, 3, true, 0},
	{3, cyEither, 1, false, 1, 3, false, 0},
	{2, cyTwo, 2, true, 2, 1, false, 1},
	{2, cyTwo, 1, false, 1, 2, false, 1},
	{3, cyOuter, 1, true, 1, 2, true, 1},
	{3, cyOuter, 1, true, 1, 2, true, 2},
	{3, cyEither, 1, false, 1, 1, false, 2},
}

var cyThorough = []cySpace{
	{2, cyAll, 2, false, 4, 1, false, 0},
	{2, cyTwo, 2, true, 3, 2, false, 0},
	{3, cyTwo, 2, false, 2, 1, false, 0},
	{3, cyEither, 1, true, 2, 2, false, 0},
	{3, cyOuter, 1, true, 2, 2, true, 0},
	{4, cyOuter, 1, true, 1, 1, true, 0},
	{4, cyEither, 1, false, 1, 1, false, 0},
	{2, cyTwo, 2, true, 2, 3, false, 0},
	{3, cyEither, 2, true, 1, 3, true, 0},
	{2, cyAll, 2, false, 3, 1, false, 1},
	{2, cyTwo, 2, true, 2, 2, false, 1},
	{3, cyEither, 1, true, 2, 2, false, 1},
	{3, cyEither, 1, true, 2, 1, true, 2},
	{4, cyOuter, 1, true, 1, 1, true, 2},
}

func runCycles(x *mc.X) {
	spaces := cyQuick
	if x.Thorough {
		spaces = cyThorough
	}
	sp := spaces[x.Choose(len(spaces), "space")]
	masks := 1 << sp.n
	if sp.missing {
		masks <<= 1
	}
	nodes := make([][3]int, sp.n) // dependencies per scope, -1: not provided there
	for i := range nodes {
		nodes[i] = [3]int{-1, -1, -1}
		for _, k := range sp.place[x.Choose(len(sp.place), "place")] {
			nodes[i][k] = x.Choose(masks, "deps")
		}
	}
	parent := [3]int{-1, 0, x.Choose(sp.topo, "siblings") ^ 1}
	rev := sp.revs && x.Bool("dependency order")
	key := sp.label*100 + sp.n*10 + sp.kinds
	ops := cyOpCache[key]
	if ops == nil {
		ops = cyOps(sp.label, sp.n, sp.kinds)
		cyOpCache[key] = ops
	}
	x.Ready()
	var injs []inject.Injector
	for k := range parent {
		injs = append(injs, inject.New())
		if k > 0 {
			injs[k].SetParent(injs[parent[k]])
		}
		for i := range nodes {
			if nodes[i][k] >= 0 {
				injs[k].Provide(cyProvider(sp.label, i, nodes[i][k], sp.n, rev))
			}
		}
	}
	describe := func() string {
		s := ""
		for i := range nodes {
			t, name := cyNode(sp.label, i)
			s += fmt.Sprintf("%d is %v %q, ", i, t, name)
		}
		s += fmt.Sprintf("the second scope is inside the first, the third inside the %s\n", cyScopes[parent[2]])
		for i := range nodes {
			for k := range parent {
				if nodes[i][k] >= 0 {
					s += fmt.Sprintf("%s scope: %d needs %s\n", cyScopes[k], i, maskText(nodes[i][k], sp.n))
				}
			}
		}
		return s
	}
	// reference: resolvable from scope k iff everything reachable is registered and acyclic
	deps := func(k, i int) int {
		for ; k >= 0; k = parent[k] {
			if nodes[i][k] >= 0 {
				return nodes[i][k]
			}
		}
		return -1
	}
	var ok func(k, i, stack int) bool
	ok = func(k, i, stack int) bool {
		if i == sp.n || stack>>i&1 == 1 {
			return false
		}
		m := deps(k, i)
		if m < 0 {
			return false
		}
		for d := 0; d <= sp.n; d++ {
			if m>>d&1 == 1 && !ok(k, d, stack|1<<i) {
				return false
			}
		}
		return true
	}
	var log []int
	for t := 0; t < sp.hist; t++ {
		o := x.Choose(len(ops), "operation")
		op := &ops[o]
		log = append(log, o)
		want := true
		for _, i := range op.need {
			want = want && ok(op.inj, i, 0)
		}
		if x.Verbose {
			x.Logf("%s%s", describe(), op.desc)
		}
		var err error
		p := catch(func() { err = op.run(injs[op.inj]) })
		x.Op()
		if p != nil || (err == nil) != want {
			var s []string
			for _, o := range log {
				s = append(s, ops[o].desc)
			}
			x.Failf("cycle", "%shistory: %s\nresult: error %v, panic %v; expected success: %v", describe(), strings.Join(s, ", "), err, p, want)
		}
	}
	x.Statef("%d %v %v %v", sp.label, nodes, parent, log)
}

func maskText(m, n int) string {
	var s []string
	for i := 0; i <= n; i++ {
		if m>>i&1 == 1 {
			if i == n {
				s = append(s, "missing")
			} else {
				s = append(s, fmt.Sprint(i))
			}
		}
	}
	if s == nil {
		return "nothing"
	}
	return strings.Join(s, "+")
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C10",
		Model:       "reachability over the dependency graph (acyclic and complete) against the result of real resolutions; a hang or crash of the process is a violation",
		Assumptions: []string{"providers are not re-registered during a history"},
		Bounds: func(th bool) map[string]interface{} {
			sp := cyQuick
			if th {
				sp = cyThorough
			}
			var out []string
			for _, s := range sp {
				out = append(out, fmt.Sprintf("every dependency graph on %d %s (missing dependency: %v), each type provided in one of the scope sets %v, %d scope topologies, every history of %d resolutions (%s)", s.n, []string{"types", "providers, two of one type with different names", "providers of one type with different names"}[s.label], s.missing, s.place, s.topo, s.hist, []string{"", "Find", "Find, Invoke, Apply", "Find, Apply of nested structs"}[s.kinds]))
			}
			return map[string]interface{}{"families": out}
		},
		Run: runCycles,
	})
}
