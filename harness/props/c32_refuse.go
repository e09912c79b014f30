package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/sessions"
	staticserve "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"strip.verif/mc"
)

// structs with every combination of where methods are
type dcNone struct{}
type dcGet struct {
	Rw http.ResponseWriter `inject`
}
type dcAny struct {
	Rw http.ResponseWriter `inject`
}
type dcAll struct {
	Rw http.ResponseWriter `inject`
}
type dcPtr struct {
	Rw http.ResponseWriter `inject`
}
type dcEmb struct {
	*dcInner
	Rw http.ResponseWriter `inject`
}
type dcInner struct{}

func (c dcGet) Get()               { c.Rw.Write([]byte("Get")) }
func (c dcGet) Other()             { c.Rw.Write([]byte("Other")) }
func (c dcAny) Any()               { c.Rw.Write([]byte("Any")) }
func (c dcAll) All()               { c.Rw.Write([]byte("All")) }
func (c *dcPtr) Get()              { c.Rw.Write([]byte("Get")) }
func (c *dcPtr) Post()             { c.Rw.Write([]byte("Post")) }
func (c *dcPtr) Any()              { c.Rw.Write([]byte("Any")) }
func (c *dcPtr) get()              {}
func (c dcEmb) Put(rest ...string) { c.Rw.Write([]byte("Put")) }
func (*dcInner) Delete()           {}

type dcHandler struct {
	name    string
	value   func() interface{}
	kind    string          // func, struct, bad
	methods map[string]bool // of a struct
}

func dcHas(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

var dcHandlers = []dcHandler{
	{"func()", func() interface{} { return func(rw http.ResponseWriter) { rw.Write([]byte("func")) } }, "func", nil},
	{"func() result", func() interface{} { return func(rw http.ResponseWriter) error { rw.Write([]byte("func")); return nil } }, "func", nil},
	{"struct without methods", func() interface{} { return dcNone{} }, "struct", dcHas()},
	{"struct with Get and Other", func() interface{} { return dcGet{} }, "struct", dcHas("Get", "Other")},
	{"pointer to struct with Get and Other", func() interface{} { return &dcGet{} }, "struct", dcHas("Get", "Other")},
	{"nil pointer to struct with Get and Other", func() interface{} { return (*dcGet)(nil) }, "struct", dcHas("Get", "Other")},
	{"struct with Any", func() interface{} { return dcAny{} }, "struct", dcHas("Any")},
	{"struct with All", func() interface{} { return dcAll{} }, "struct", dcHas("All")},
	{"struct with methods of the pointer", func() interface{} { return dcPtr{} }, "struct", dcHas("Get", "Post", "Any")},
	{"struct with an embedded method", func() interface{} { return dcEmb{} }, "struct", dcHas("Delete", "Put")},
	{"nil", func() interface{} { return nil }, "bad", nil},
	{"int", func() interface{} { return 1 }, "bad", nil},
	{"string", func() interface{} { return "/path" }, "bad", nil},
	{"slice of funcs", func() interface{} { return []interface{}{func() {}} }, "bad", nil},
	{"map", func() interface{} { return map[string]int{} }, "bad", nil},
	{"pointer to int", func() interface{} { return new(int) }, "bad", nil},
	{"method handler", func() interface{} { return strip.Get(func() {}) }, "bad", nil},
	{"provider list", func() interface{} { return inject.Provide{func() {}} }, "bad", nil},
}

// declared in the same place
var dcBeside = []struct {
	name, method string
	value        func() strip.Handler
}{
	{"Get(func)", "Get", func() strip.Handler { return strip.Get(func() {}) }},
	{"All(func)", "All", func() strip.Handler { return strip.All(func() {}) }},
	{"All(struct with Get)", "All", func() strip.Handler { return strip.All(dcGet{}) }},
	{"All(struct with All)", "All", func() strip.Handler { return strip.All(&dcAll{}) }},
	{"Any(struct with Any)", "Any", func() strip.Handler { return strip.Any(dcAny{}) }},
	{"Filter(func)", "", func() strip.Handler { return strip.Filter(func() {}) }},
	{"Router of the same path", "", func() strip.Handler { return strip.Router("/n", strip.Any(dcAny{})) }},
}

var dcMethods = []struct {
	name string
	mk   func(strip.Handler) strip.MethodHandler
}{
	{"Get", strip.Get}, {"Post", strip.Post}, {"Put", strip.Put}, {"Head", strip.Head}, {"Delete", strip.Delete},
	{"Options", strip.Options}, {"Patch", strip.Patch}, {"Trace", strip.Trace}, {"Connect", strip.Connect}, {"All", strip.All}, {"Any", strip.Any},
}

var dcActions = []string{"none", "Get", "Other", "other", "get", "Any", "Nope"}

// handlers, methods, action names
func refuseHandlers(x *mc.X) {
	h := dcHandlers[x.Choose(len(dcHandlers), "handler")]
	m := dcMethods[x.Choose(len(dcMethods), "method")]
	act := mc.Pick(x, "action", dcActions)
	flt := x.Choose(len(dcFilters)+1, "filter")
	nested := x.Choose(3, "nested")
	beside := 0
	if flt == 0 && nested < 2 {
		beside = x.Choose(len(dcBeside)*2+1, "beside")
	}
	x.Ready()
	valid := true
	switch h.kind {
	case "bad":
		valid = false
	case "func":
		valid = act == "none"
	case "struct":
		switch {
		case act != "none":
			valid = h.methods[act]
		case m.name == "All":
		default:
			valid = h.methods[m.name]
		}
	}
	desc := fmt.Sprintf("%s(%s)", m.name, h.name)
	if act != "none" {
		desc += fmt.Sprintf(".Action(%q)", act)
	}
	if flt > 0 {
		desc += fmt.Sprintf(".Filter(%s)", dcFilters[flt-1].name)
		valid = valid && dcFilters[flt-1].valid
	}
	desc += []string{"", " in a router", " in two routers"}[nested]
	same := false // one method declared twice here
	if beside > 0 {
		b := dcBeside[(beside-1)/2]
		desc += fmt.Sprintf(" %s %s", []string{"after", "before"}[beside%2], b.name)
		same = b.method == m.name
		if (m.name == "All" || m.name == "Any") && same && beside%2 == 1 {
			x.Skip() // of two declarations by All or Any only the last one counts
		}
	}
	sp := newApp()
	sp.Routers(strip.Router("/ok", strip.Get(func(rw http.ResponseWriter) { rw.Write([]byte("fine")) })))
	x.Op()
	p := catch(func() {
		mh := m.mk(h.value())
		if act != "none" {
			mh = mh.Action(act)
		}
		if flt > 0 {
			mh = mh.Filter(dcFilters[flt-1].value())
		}
		var d strip.Handler = mh
		switch nested {
		case 1:
			d = strip.Router("/n", mh)
			if beside > 0 {
				b := dcBeside[(beside-1)/2].value()
				if beside%2 == 1 {
					d = strip.Router("/n", mh, b)
				} else {
					d = strip.Router("/n", b, mh)
				}
			}
		case 2:
			d = strip.Router("/m", strip.Router("/n", mh))
		}
		if nested == 0 && beside > 0 {
			b := dcBeside[(beside-1)/2].value()
			if beside%2 == 1 {
				sp.Routers(d, b)
			} else {
				sp.Routers(b, d)
			}
			return
		}
		sp.Routers(d)
	})
	x.Logf("%s: panic %v", desc, p)
	if (p == nil) != valid {
		x.Failf("refuse", "%s is refused: %v, expected %v", desc, p, !valid)
	}
	still := func(when string) {
		r, p := serve(sp, newReq("GET", "/ok"))
		if p != nil || r.body.String() != "fine" {
			x.Failf("refuse", "%s: a route declared before answers %q, panic %v %s", desc, r.body.String(), p, when)
		}
	}
	still("after the declaration")
	if valid {
		// no request panics
		for _, mt := range []string{"GET", "POST", "HEAD", "DELETE", "CONNECT", "OTHER", "get"} {
			x.Op()
			r, p := serve(sp, newReq(mt, []string{"/", "/n", "/m/n"}[nested]))
			if p != nil {
				x.Failf("serve", "%s is accepted, but %s panics: %v", desc, mt, p)
			}
			up := strings.ToUpper(mt)
			name := up[:1] + strings.ToLower(up[1:])
			want := ""
			if h.kind == "func" && (m.name == "All" || m.name == "Any" || m.name == name) {
				want = "func"
			} else if h.kind == "struct" {
				switch {
				case m.name == name || m.name == "Get" && name == "Head":
					want = act
					if act == "none" {
						want = m.name
					}
				case m.name == "All" && h.methods[name]:
					want = name
				case m.name == "All" && act != "none":
					want = act
				case m.name == "All" && h.methods["All"]:
					want = "All"
				case m.name == "Any":
					want = "Any"
					if act != "none" {
						want = act
					}
				}
			}
			got := r.body.String()
			if beside > 0 {
				if r.code == 500 {
					x.Failf("serve", "%s: %s answers 500 %q", desc, mt, got)
				}
				continue
			}
			if want == "" && r.code != 404 && up != "HEAD" {
				x.Failf("serve", "%s: %s answers %d %q, expected 404", desc, mt, r.code, got)
			}
			if want != "" && want != "Delete" && got != want {
				x.Failf("serve", "%s: %s answers %d %q, expected %q", desc, mt, r.code, got, want)
			}
		}
		still("after requests")
	}
	x.State(desc)
}

var dcFilters = []struct {
	name  string
	value func() interface{}
	valid bool
}{
	{"func", func() interface{} { return func() {} }, true},
	{"func(ctx)", func() interface{} { return func(strip.Context) {} }, true},
	{"FilterFunc", func() interface{} { return strip.FilterFunc(func() inject.Provider { return func() {} }) }, true},
	{"func() Provider", func() interface{} { return func() inject.Provider { return func() {} } }, true},
	{"Provide", func() interface{} { return inject.Provide{inject.Dep{}, func(strip.Context) {}} }, true},
	{"nil", func() interface{} { return nil }, false},
	{"string", func() interface{} { return "auth" }, false},
	{"int", func() interface{} { return 1 }, false},
	{"struct", func() interface{} { return dcGet{} }, false},
	{"pointer to func", func() interface{} { f := func() {}; return &f }, false},
	{"slice of funcs", func() interface{} { return []func(){func() {}} }, false},
	{"Dep", func() interface{} { return inject.Dep{} }, false},
	{"filter handler", func() interface{} { return strip.Filter(func() {}) }, false},
}

// filters at every place they are given
func refuseFilters(x *mc.X) {
	f := dcFilters[x.Choose(len(dcFilters), "filter")]
	second := x.Choose(len(dcFilters)+1, "second filter")
	place := x.Choose(8, "place")
	x.Ready()
	fs := []interface{}{f.value()}
	valid := f.valid
	desc := f.name
	if second > 0 {
		fs = append(fs, dcFilters[second-1].value())
		valid = valid && dcFilters[second-1].valid
		desc += ", " + dcFilters[second-1].name
	}
	sp := newApp()
	h := func(rw http.ResponseWriter) { rw.Write([]byte("fine")) }
	sp.Routers(strip.Router("/ok", strip.Get(h)))
	x.Op()
	p := catch(func() {
		switch place {
		case 0:
			sp.Filter(fs...)
		case 1:
			sp.NotFound(fs...)
		case 2:
			sp.Routers(strip.Filter(fs...), strip.Router("/r", strip.Get(h)))
		case 3:
			sp.Routers(strip.Router("/r", strip.Filter(fs...), strip.Get(h)))
		case 4:
			sp.Routers(strip.Router("/r", strip.Get(h).Filter(fs...)))
		case 5:
			sp.Routers(strip.Router("/r", strip.Get(h).Exempt(fs...)))
		case 6:
			sp.Routers(strip.Router("/r", strip.Exempt(fs...), strip.Get(h)))
		case 7:
			sp.Routers(strip.Router("/q", strip.Router("/r", strip.Exempt(fs...), strip.Filter(fs...), strip.Get(h))), strip.Router("/r", strip.Get(h)))
		}
	})
	desc = fmt.Sprintf("filters %s at place %d", desc, place)
	if (p == nil) != valid {
		x.Failf("refuse", "%s are refused: %v, expected %v", desc, p, !valid)
	}
	for _, t := range []string{"/ok", "/r", "/none", "/q/r"} {
		x.Op()
		r, p := serve(sp, newReq("GET", t))
		if p != nil || t == "/ok" && r.body.String() != "fine" {
			x.Failf("serve", "%s: %s answers %q, panic %v", desc, t, r.body.String(), p)
		}
	}
	x.State(desc)
}

// paths that conflict
var dcSegs = []string{"x", ":a", ":b", ":a:go", ":b:go", "*:w", "*:v"}

func dcParam(seg string) (param, wild string) {
	switch {
	case strings.HasPrefix(seg, "*:"):
		return "", seg[2:]
	case seg[0] == ':':
		return strings.SplitN(seg[1:], ":", 2)[0], ""
	}
	return "", ""
}

func refusePaths(x *mc.X) {
	n := 3
	max := 2
	if x.Thorough {
		max = 3
	}
	nested := x.Choose(2, "nested routers")
	sp := newApp()
	sp.Routers(strip.Router("/ok", strip.Get(func(rw http.ResponseWriter) { rw.Write([]byte("fine")) })))
	// reference: names in use below a node
	params, wilds := map[string]string{}, map[string]string{}
	var log []string
	for i := 0; i < n; i++ {
		k := 1 + x.Choose(max, "segments")
		segs := make([]string, k)
		for j := range segs {
			segs[j] = mc.Pick(x, "segment", dcSegs)
		}
		if i == 0 {
			x.Ready()
		}
		valid := true
		at := ""
		for j, s := range segs {
			pa, wi := dcParam(s)
			if pa != "" {
				if params[at] != "" && params[at] != pa {
					valid = false
				}
			}
			if wi != "" {
				if wilds[at] != "" && wilds[at] != wi {
					valid = false
				}
				if j < k-1 {
					valid = false
				}
				if nested == 1 && j < k-1 {
					x.Skip() // a router inside a wild one is never reached
				}
			}
			if !valid {
				break
			}
			if pa != "" {
				params[at] = pa
			}
			if wi != "" {
				wilds[at] = wi
			}
			at += "/" + s
		}
		path := "/" + strings.Join(segs, "/")
		log = append(log, path)
		x.Op()
		p := catch(func() {
			h := strip.Get(func(rw http.ResponseWriter) { rw.Write([]byte(path)) })
			var d strip.Handler = strip.Router(path, h)
			if nested == 1 {
				d = h
				for j := k - 1; j >= 0; j-- {
					d = strip.Router("/"+segs[j], d)
				}
			}
			sp.Routers(d)
		})
		if (p == nil) != valid {
			x.Failf("refuse", "after %v the path %s is refused: %v, expected %v", log[:i], path, p, !valid)
		}
		for _, t := range []string{"/ok", "/" + strings.Repeat("/z", k), "/x/z:go", "/z"} {
			r, p := serve(sp, newReq("GET", t))
			if p != nil || t == "/ok" && r.body.String() != "fine" {
				x.Failf("serve", "after %v: %s answers %q, panic %v", log, t, r.body.String(), p)
			}
		}
		x.State(join(log))
		if !valid {
			return // what a refused path leaves behind is not judged any further
		}
	}
}

// everything else that is refused
type dcCall struct {
	name  string
	valid bool
	run   func(e *dcEnv)
}

type dcEnv struct {
	sp  *strip.Strip
	inj inject.Injector
	par *params.Params
}

type dcNeed struct {
	X *injA `inject`
}
type dcSet struct{ Name string }
type dcBase int

func dcProviders() (out []dcCall) {
	vals := []struct {
		name  string
		value func() interface{}
		valid bool
	}{
		{"*A", func() interface{} { return &injA{1} }, true},
		{"func() *A", func() interface{} { return func() *injA { return &injA{1} } }, true},
		{"Provide{func() *A}", func() interface{} { return inject.Provide{func() *injA { return &injA{1} }} }, true},
		{"Provide{Dep, func() *A}", func() interface{} { return inject.Provide{inject.Dep{}, func() *injA { return &injA{1} }} }, true},
		{"pointer to slice", func() interface{} { return &[]int{1} }, true},
		{"A", func() interface{} { return injA{1} }, false},
		{"nil", func() interface{} { return nil }, false},
		{"nil *A", func() interface{} { return (*injA)(nil) }, false},
		{"nil func", func() interface{} { return (func() *injA)(nil) }, false},
		{"Provide{}", func() interface{} { return inject.Provide{} }, false},
		{"Provide{Dep}", func() interface{} { return inject.Provide{inject.Dep{}} }, false},
		{"Provide{nil}", func() interface{} { return inject.Provide{nil} }, false},
		{"Provide{func, Dep}", func() interface{} { return inject.Provide{func() *injA { return &injA{1} }, inject.Dep{}} }, false},
		{"Provide{nil func}", func() interface{} { return inject.Provide{(func() *injA)(nil)} }, false},
		{"int", func() interface{} { return 1 }, false},
		{"slice", func() interface{} { return []int{1} }, false},
		{"map", func() interface{} { return map[string]int{} }, false},
		{"string", func() interface{} { return "x" }, false},
	}
	forms := []struct {
		name string
		run  func(e *dcEnv, v interface{})
	}{
		{"injector.Provide(%s)", func(e *dcEnv, v interface{}) { e.inj.Provide(v) }},
		{"injector.Provide(*B, %s)", func(e *dcEnv, v interface{}) { e.inj.Provide(&injB{}, v) }},
		{"injector.ProvideAs(%s, nil)", func(e *dcEnv, v interface{}) { e.inj.ProvideAs(v, nil) }},
		{"injector.ProvideAs(%s, nil, name)", func(e *dcEnv, v interface{}) { e.inj.ProvideAs(v, nil, "name") }},
		{"injector.ProvideAs(%s, interface)", func(e *dcEnv, v interface{}) { e.inj.ProvideAs(v, (*injI)(nil)) }},
		{"injector.Provide(Object{%s})", func(e *dcEnv, v interface{}) { e.inj.Provide(inject.Object{Value: v}) }},
		{"injector.Provide(&Object{%s})", func(e *dcEnv, v interface{}) { e.inj.Provide(&inject.Object{Value: v, Name: "n"}) }},
		{"application.Provide(%s)", func(e *dcEnv, v interface{}) { e.sp.Provide(v) }},
		{"application.ProvideAs(%s)", func(e *dcEnv, v interface{}) { e.sp.ProvideAs(v, nil, "x") }},
	}
	for _, v := range vals {
		for _, f := range forms {
			v, f := v, f
			out = append(out, dcCall{fmt.Sprintf(f.name, v.name), v.valid, func(e *dcEnv) { f.run(e, v.value()) }})
		}
	}
	return
}

func dcOthers() []dcCall {
	var a *injA
	var i injI
	var n int
	var s string
	var set dcSet
	var list []string
	call := func(name string, valid bool, run func(e *dcEnv)) dcCall { return dcCall{name, valid, run} }
	out := []dcCall{
		call("Find(&pointer)", true, func(e *dcEnv) { e.inj.Find(&a) }),
		call("Find(&interface)", true, func(e *dcEnv) { e.inj.Find(&i) }),
		call("Find(&slice)", true, func(e *dcEnv) { e.inj.Find(&list) }),
		call("Find(int)", false, func(e *dcEnv) { e.inj.Find(1) }),
		call("Find(struct)", false, func(e *dcEnv) { e.inj.Find(set) }),
		call("Find(nil)", false, func(e *dcEnv) { e.inj.Find(nil) }),
		call("Exists(&pointer)", true, func(e *dcEnv) { e.inj.Exists(&a) }),
		call("Exists(int)", false, func(e *dcEnv) { e.inj.Exists(1) }),
		call("Exists(nil)", false, func(e *dcEnv) { e.inj.Exists(nil) }),
		call("Invoke(nil)", false, func(e *dcEnv) { e.inj.Invoke(nil) }),
		call("Invoke(int)", false, func(e *dcEnv) { e.inj.Invoke(1) }),
		call("Invoke(nil func)", false, func(e *dcEnv) { e.inj.Invoke((func())(nil)) }),
		call("Invoke(func)", true, func(e *dcEnv) { e.inj.Invoke(func() {}) }),
		call("Apply(&struct)", true, func(e *dcEnv) { e.inj.Apply(&dcNeed{}) }),
		call("Apply(&int)", true, func(e *dcEnv) { mustErr(e.inj.Apply(&n)) }),
		call("Apply(int)", true, func(e *dcEnv) { mustErr(e.inj.Apply(1)) }),
		call("Apply(nil)", true, func(e *dcEnv) { mustErr(e.inj.Apply(nil)) }),
		call("Apply(nil *struct)", true, func(e *dcEnv) { mustErr(e.inj.Apply((*dcNeed)(nil))) }),
		call("Apply(func)", true, func(e *dcEnv) { mustErr(e.inj.Apply(func() {})) }),
		call("Config.Bind(&int)", true, func(e *dcEnv) { e.sp.Config.Bind(&n, "k") }),
		call("Config.Bind(&string)", true, func(e *dcEnv) { e.sp.Config.Bind(&s, "sec::k") }),
		call("Config.Bind(int)", false, func(e *dcEnv) { e.sp.Config.Bind(n, "k") }),
		call("Config.Bind(string)", false, func(e *dcEnv) { e.sp.Config.Bind(s, "k") }),
		call("Config.Bind(struct)", false, func(e *dcEnv) { e.sp.Config.Bind(set, "k") }),
		call("Config.Bind(nil)", false, func(e *dcEnv) { e.sp.Config.Bind(nil, "k") }),
		call("config.Decode(&struct)", true, func(e *dcEnv) { config.Decode(e.sp.Config, &set) }),
		call("config.Decode(struct)", false, func(e *dcEnv) { config.Decode(e.sp.Config, set) }),
		call("config.Decode(&int)", false, func(e *dcEnv) { config.Decode(e.sp.Config, &n) }),
		call("config.Decode(int)", false, func(e *dcEnv) { config.Decode(e.sp.Config, n) }),
		call("config.Decode(nil)", false, func(e *dcEnv) { config.Decode(e.sp.Config, nil) }),
		call("params.Bind(&int)", true, func(e *dcEnv) { e.par.Bind(&n, "k") }),
		call("params.Bind(&struct)", true, func(e *dcEnv) { e.par.Bind(&set, "k") }),
		call("params.Bind(int)", false, func(e *dcEnv) { e.par.Bind(n, "k") }),
		call("params.Bind(struct)", false, func(e *dcEnv) { e.par.Bind(set, "k") }),
		call("params.Bind(slice)", false, func(e *dcEnv) { e.par.Bind([]int{}, "k") }),
		call("params.Bind(nil)", false, func(e *dcEnv) { e.par.Bind(nil, "k") }),
		call("params.Bind(nil *int)", false, func(e *dcEnv) { e.par.Bind((*int)(nil), "k") }),
		call("params.BindValuesToStruct(&struct)", true, func(e *dcEnv) { e.par.BindValuesToStruct(&set) }),
		call("params.BindValuesToStruct(struct)", false, func(e *dcEnv) { e.par.BindValuesToStruct(set) }),
		call("params.BindValuesToStruct(&int)", false, func(e *dcEnv) { e.par.BindValuesToStruct(&n) }),
		call("params.BindValuesToStruct(int)", false, func(e *dcEnv) { e.par.BindValuesToStruct(n) }),
		call("Router(\"/\")", false, func(e *dcEnv) { strip.Router("/", strip.Get(func() {})) }),
		call("Router(\"\")", false, func(e *dcEnv) { strip.Router("", strip.Get(func() {})) }),
		call("Router(\" \")", false, func(e *dcEnv) { strip.Router(" ", strip.Get(func() {})) }),
		call("Router(\" / \")", false, func(e *dcEnv) { strip.Router(" / ") }),
		call("Router(\"x\")", true, func(e *dcEnv) { e.sp.Routers(strip.Router("x", strip.Get(func() {}))) }),
		call("NewSessionManager without key", false, func(e *dcEnv) { sessions.NewSessionManager(confProvider{}) }),
		call("NewSessionManager with key", true, func(e *dcEnv) {
			sessions.NewSessionManager(confProvider{conf: sessions.Config{SecretKey: "k", SessionExpire: 1}})
		}),
		call("ServeFilter without directory", false, func(e *dcEnv) { staticserve.ServeFilter("", "") }),
		call("ServeFilter with directory", true, func(e *dcEnv) { staticserve.ServeFilter("", "/nonexistent") }),
		call("LoadClassicFilters()", true, func(e *dcEnv) { helpers.LoadClassicFilters(e.sp) }),
		call("LoadClassicFilters(LoggerOption)", true, func(e *dcEnv) { helpers.LoadClassicFilters(e.sp, reqlogger.LoggerOption{}) }),
		call("LoadClassicFilters(hook)", true, func(e *dcEnv) {
			helpers.LoadClassicFilters(e.sp, helpers.HookFunc(func(*strip.Strip, helpers.HookFlag) {}))
		}),
		call("LoadClassicFilters(*LoggerOption)", false, func(e *dcEnv) { helpers.LoadClassicFilters(e.sp, &reqlogger.LoggerOption{}) }),
		call("LoadClassicFilters(func)", false, func(e *dcEnv) { helpers.LoadClassicFilters(e.sp, func() {}) }),
		call("LoadClassicFilters(nil)", false, func(e *dcEnv) { helpers.LoadClassicFilters(e.sp, nil) }),
		call("CtxWithValue(*struct)", true, func(e *dcEnv) { utils.CtxWithValue(newReq("GET", "/").Context(), &set) }),
		call("CtxWithValue(**struct)", true, func(e *dcEnv) { p := &set; utils.CtxWithValue(newReq("GET", "/").Context(), &p) }),
		call("CtxWithValue(*named int)", true, func(e *dcEnv) { b := dcBase(1); utils.CtxWithValue(newReq("GET", "/").Context(), &b) }),
		call("CtxWithValue(***struct)", false, func(e *dcEnv) { p := &set; q := &p; utils.CtxWithValue(newReq("GET", "/").Context(), &q) }),
		call("CtxWithValue(struct)", false, func(e *dcEnv) { utils.CtxWithValue(newReq("GET", "/").Context(), set) }),
		call("CtxWithValue(*int)", false, func(e *dcEnv) { utils.CtxWithValue(newReq("GET", "/").Context(), &n) }),
		call("CtxWithValue(*string)", false, func(e *dcEnv) { utils.CtxWithValue(newReq("GET", "/").Context(), &s) }),
		call("CtxWithValue(string)", false, func(e *dcEnv) { utils.CtxWithValue(newReq("GET", "/").Context(), s) }),
		call("CtxFindValue(struct)", false, func(e *dcEnv) { utils.CtxFindValue(newReq("GET", "/").Context(), set) }),
		call("CtxFindValue(*int)", false, func(e *dcEnv) { utils.CtxFindValue(newReq("GET", "/").Context(), &n) }),
	}
	return out
}

func mustErr(err error) {
	if err == nil {
		panic("no error")
	}
}

var dcCalls = append(dcProviders(), dcOthers()...)

func refuseCalls(x *mc.X) {
	k := 2
	if x.Thorough {
		k = 3
	}
	e := &dcEnv{sp: newApp(), inj: inject.New(), par: &params.Params{}}
	e.sp.Routers(strip.Router("/ok", strip.Get(func(a *dcSet, rw http.ResponseWriter) { rw.Write([]byte(a.Name)) })))
	e.sp.Provide(&dcSet{"fine"})
	e.sp.ImportConfig(&ownConf{map[string]string{}})
	e.inj.Provide(&dcSet{"kept"})
	var log []string
	for i := 0; i < k; i++ {
		c := dcCalls[x.Choose(len(dcCalls), "call")]
		if i == 0 {
			x.Ready()
		}
		log = append(log, c.name)
		x.Op()
		p := catch(func() { c.run(e) })
		if (p == nil) != c.valid {
			x.Failf("refuse", "%s: refused: %v, expected %v", strings.Join(log, "; "), p, !c.valid)
		}
		// what was declared before still holds
		var s *dcSet
		if err := e.inj.Find(&s); err != nil || s.Name != "kept" {
			x.Failf("refuse", "%s: an instance provided before: %v, %v", strings.Join(log, "; "), s, err)
		}
	}
	r, p := serve(e.sp, newReq("GET", "/ok"))
	if p != nil || r.body.String() != "fine" {
		x.Failf("refuse", "%s: a route declared before answers %q, panic %v", strings.Join(log, "; "), r.body.String(), p)
	}
	x.State(join(log))
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C32",
		Model: "a predicate of validity over every kind of declaration; valid ones must be accepted and be served without a panic, invalid ones must be refused when they are made",
		Assumptions: []string{
			"functions in handlers and filters are not nil; lists of providers used as filters end in a function",
			"routers inside a wild router are not judged (they are accepted and never reached)",
		},
		Bounds: func(th bool) map[string]interface{} {
			s, k := 2, 2
			if th {
				s, k = 3, 3
			}
			return map[string]interface{}{"handlers": len(dcHandlers), "methods": len(dcMethods), "actions": len(dcActions), "filters": len(dcFilters), "paths": 3, "segments per path": s, "segment alphabet": len(dcSegs), "other calls": len(dcCalls), "calls in a row": k}
		},
		Run: func(x *mc.X) {
			switch x.Choose(4, "mode") {
			case 0:
				refuseHandlers(x)
			case 1:
				refuseFilters(x)
			case 2:
				refusePaths(x)
			default:
				refuseCalls(x)
			}
		},
	})
}
