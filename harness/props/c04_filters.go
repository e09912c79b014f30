package props

import (
	"fmt"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"strip.verif/mc"
)

// filter kinds: a filter is declared in any of the accepted forms
func makeFilter(kind int, id string, ran *[]string) interface{} {
	f := func() { *ran = append(*ran, id) }
	switch kind {
	case 1:
		return strip.FilterFunc(func() inject.Provider { return f })
	case 2:
		return func() inject.Provider { return f }
	case 3:
		return inject.Provide{inject.Dep{0: ""}, func(ctx strip.Context) { f() }}
	}
	return f
}

type scopeOpt struct{ add, exempt string } // filters as letters

var scopeOpts = []scopeOpt{
	{}, {"a", ""}, {"b", ""}, {"abc", ""}, {"", "a"}, {"ba", "a"}, {"d", "b"}, {"cab", "bd"},
}

var scopeNames = []string{"global", "root", "root.GET", "r", "r.GET", "r.POST", "r/s", "r/s.GET", "r/:t", "r/:t.GET", "r(2)", "r(2)/s.POST", "r.ALL", "q.ANY"}

// reference: a scope's filters are added once each, then its exemptions applied
func addFilters(list string, o scopeOpt) string {
	for _, f := range o.add {
		if !strings.ContainsRune(list, f) {
			list += string(f)
		}
	}
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(o.exempt, r) {
			return -1
		}
		return r
	}, list)
}

func runFilters(x *mc.X) {
	k := 3
	if x.Thorough {
		k = 4
	}
	rot := x.Choose(5, "filter kinds")
	opts := make([]scopeOpt, len(scopeNames))
	used := 0
	var desc []string
	for i := range opts {
		if used == k {
			break
		}
		o := x.Choose(len(scopeOpts), scopeNames[i])
		if o > 0 {
			used++
			opts[i] = scopeOpts[o]
			desc = append(desc, fmt.Sprintf("%s: Filter(%s) Exempt(%s)", scopeNames[i], opts[i].add, opts[i].exempt))
		}
	}
	x.Ready()
	var ran []string
	fs := map[rune]interface{}{}
	boxed := func(c rune) interface{} {
		if p, ok := fs[c].(inject.Provide); ok {
			return p // a new interface value of the same provider
		}
		return fs[c]
	}
	// functions made alike, closures of one literal, are still different filters
	kinds := [][]int{{0, 1, 2, 3}, {2, 3, 0, 1}, {0, 0, 0, 0}, {3, 3, 2, 1}, {0, 0, 0, 0}}
	var list inject.Provide // beginnings of one list are different filters
	for i, c := range "abcd" {
		fs[c] = makeFilter(kinds[rot][i], string(c), &ran)
		list = append(list, fs[c])
	}
	if rot == 4 {
		for i, c := range "abcd" {
			fs[c] = list[:i+1]
		}
	}
	pick := func(s string) (out []interface{}) {
		for _, c := range s {
			out = append(out, boxed(c))
		}
		return
	}
	scope := func(i int, hs ...strip.Handler) []strip.Handler {
		var out []strip.Handler
		if opts[i].add != "" {
			out = append(out, strip.Filter(pick(opts[i].add)...))
		}
		if opts[i].exempt != "" {
			out = append(out, strip.Exempt(pick(opts[i].exempt)...))
		}
		return append(out, hs...)
	}
	meth := func(i int, h strip.MethodHandler) strip.Handler {
		if opts[i].add != "" {
			h = h.Filter(pick(opts[i].add)...)
		}
		if opts[i].exempt != "" {
			h = h.Exempt(pick(opts[i].exempt)...)
		}
		return h
	}
	router := func(p string, hs []strip.Handler) strip.Handler { return strip.Router(p, hs...) }
	hd := func(id string) interface{} { return func() { ran = append(ran, id) } }
	sp := newApp()
	sp.NotFound(hd("nf1"), hd("nf2"))
	if opts[0].add != "" {
		// two calls: the order of registration counts
		sp.Filter(pick(opts[0].add[:1])...)
		sp.Filter(pick(opts[0].add[1:])...)
	}
	sp.Routers(scope(1,
		meth(2, strip.Get(hd("root"))),
		router("/r", scope(3,
			meth(4, strip.Get(hd("r.get"))),
			router("/s", scope(6, meth(7, strip.Get(hd("s.get"))))),
			router("/:t", scope(8, meth(9, strip.Get(hd("t.get"))))),
			meth(5, strip.Post(hd("r.post"))),
			meth(12, strip.All(hd("r.all"))),
		)),
		router("/r", scope(10,
			strip.Put(hd("r2.put")),
			router("/s", []strip.Handler{meth(11, strip.Post(hd("s2.post")))}),
		)),
		router("/q", []strip.Handler{meth(13, strip.Any(hd("q.any"))), router("/deep/er", []strip.Handler{strip.Get(hd("deep"))})}),
	)...)
	reqs := []struct {
		req    string
		id     string
		scopes []int
	}{
		{"GET /", "root", []int{1, 2}},
		{"GET /r", "r.get", []int{1, 3, 4}},
		{"HEAD /r", "r.get", []int{1, 3, 4}},
		{"POST /r", "r.post", []int{1, 3, 5}},
		{"DELETE /r", "r.all", []int{1, 3, 12}},
		{"PUT /r", "r2.put", []int{1, 10}},
		{"GET /r/s", "s.get", []int{1, 3, 6, 7}},
		{"POST /r/s", "s2.post", []int{1, 10, 11}},
		{"GET /r/x", "t.get", []int{1, 3, 8, 9}},
		{"GET /q", "q.any", []int{1, 13}},
		{"GET /q/deep/er", "deep", []int{1}},
		{"GET /nope", "", nil},
		{"PATCH /r/x", "", nil},
	}
	globals := addFilters("", scopeOpt{add: opts[0].add})
	for _, r := range reqs {
		ran = nil
		var want []string
		for _, c := range globals {
			want = append(want, string(c))
		}
		if r.id == "" {
			want = append(want, "nf1", "nf2")
		} else {
			list := ""
			for _, s := range r.scopes {
				list = addFilters(list, opts[s])
			}
			for _, c := range list {
				want = append(want, string(c))
			}
			want = append(want, r.id)
		}
		m, path, _ := strings.Cut(r.req, " ")
		_, p := serve(sp, newReq(m, path))
		x.Op()
		x.Logf("%s: %s ran %v", strings.Join(desc, "; "), r.req, ran)
		if p != nil || !equalStrings(ran, want) {
			x.Failf("filters", "%s (filter kinds %d)\n%s ran %v (panic %v), expected %v", strings.Join(desc, "\n"), rot, r.req, ran, p, want)
		}
		x.State(strings.Join(want, " ") + r.req)
	}
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C04",
		Model:       "reference list computation (add once, then exempt, scope by scope) against the filters the real application runs",
		Assumptions: []string{"global filters and route filters are separate lists: a filter registered in both runs in both", "an exemption removes what its scope and the enclosing ones added; an inner scope may add the filter again"},
		Bounds: func(th bool) map[string]interface{} {
			k := 3
			if th {
				k = 4
			}
			return map[string]interface{}{"scopes": len(scopeNames), "options per scope": len(scopeOpts), "scopes with filters or exemptions at once": k, "requests per application": 13, "filters": "4, declared in the four accepted forms, rotated, and as the beginnings of one provider list"}
		},
		Run: runFilters,
	})
}
