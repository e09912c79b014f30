package props

import (
	"fmt"
	"strconv"
	"time"

	"github.com/wujiu2020/strip/caches"
	"strip.verif/mc"
	"strip.verif/vclock"
)

// lnState is the contract for one key.
type lnState struct {
	there bool
	n     int
	exp   int // -1: never
	now   int
}

// lnPass is the passage of time.
func lnPass(sec int) func() (string, func(lnState) (lnState, bool)) {
	return func() (string, func(lnState) (lnState, bool)) {
		vclock.Add(time.Duration(sec) * time.Second)
		return "", func(s lnState) (lnState, bool) {
			s.now += sec
			if s.there && s.exp >= 0 && s.now > s.exp {
				s.there = false
			}
			return s, true
		}
	}
}

// lnCop runs an operation on a provider and says what it does and whether its
// result says so.
func lnCop(c caches.CacheProvider, o cop) func() (string, func(lnState) (lnState, bool)) {
	return func() (string, func(lnState) (lnState, bool)) {
		text, has, err := runCop(c, o)
		res := ""
		switch {
		case err != nil:
			res = fmt.Sprintf(" = error %v", err)
		case o.kind == "get":
			res = fmt.Sprintf(" = %q", text)
		case o.kind == "has":
			res = fmt.Sprintf(" = %v", has)
		}
		return res, func(s lnState) (lnState, bool) {
			hit := err == nil
			if err != nil && err != caches.ErrMissedKey {
				return s, false
			}
			exp := func() int {
				t := 60
				if len(o.params) > 0 {
					t = o.params[0]
				}
				if t < 0 {
					return -1
				}
				return s.now + t
			}
			by := 1
			if len(o.params) > 0 {
				by = o.params[0]
			}
			was := s.there
			switch o.kind {
			case "get":
				return s, hit == s.there && (!hit || text == strconv.Itoa(s.n))
			case "has":
				return s, hit && has == s.there
			case "set":
				s.there, s.n, s.exp = true, o.val.(int), exp()
				return s, hit
			case "clean":
				s.there = false
				return s, hit
			case "gc":
				return s, hit
			case "touch":
				if was {
					s.exp = exp()
				}
			case "delete":
				s.there = false
			case "incr":
				if was {
					s.n += by
				}
			case "decr":
				if was {
					s.n -= by
				}
			default:
				panic(o.kind)
			}
			return s, hit == was
		}
	}
}

var lnStarts = []string{"no entry", "entry for a minute", "entry for a second"}

func lnOps(th bool) []cop {
	ops := []cop{
		{kind: "get"}, {kind: "has"}, {kind: "set", val: 50}, {kind: "set", val: 70, params: []int{-1}}, {kind: "delete"},
		{kind: "incr"}, {kind: "decr", params: []int{2}}, {kind: "touch"}, {kind: "touch", params: []int{-1}},
	}
	if th {
		ops = append(ops, cop{kind: "clean"}, cop{kind: "gc"}, cop{kind: "incr", params: []int{-3}})
	}
	for i := range ops {
		if ops[i].kind != "clean" && ops[i].kind != "gc" {
			ops[i].key = "k1"
		}
	}
	return ops
}

// users and the operations of each
func lnShapes(th bool) [][]int {
	if th {
		return [][]int{{1, 1}, {2, 1}, {1, 1, 1}, {2, 2}, {3, 1}}
	}
	return [][]int{{1, 1}, {2, 1}, {1, 1, 1}}
}

func runC34(x *mc.X) {
	b := mc.Pick(x, "back end", backends)
	start := x.Choose(len(lnStarts), "at the start")
	shared := x.Bool("one provider for all")
	shapes := lnShapes(x.Thorough)
	if shared && !x.Thorough {
		shapes = shapes[:2]
	}
	shape := mc.Pick(x, "users", shapes)
	ops := lnOps(x.Thorough)
	plan := make([][]cop, len(shape))
	first := -1
	for u, n := range shape {
		for i := 0; i < n; i++ {
			k := x.Choose(len(ops), fmt.Sprintf("operation of user %d", u))
			if u > 0 && shape[u] == shape[u-1] && i == 0 && k < first {
				x.Skip() // the users are alike
			}
			if i == 0 {
				first = k
			}
			o := ops[k]
			if start == 2 && o.kind == "touch" {
				x.Skip() // it may be too late or not
			}
			plan[u] = append(plan[u], o)
		}
	}
	x.Ready()
	vclock.Set(time.Unix(1200000000, 0))
	g := &lnGate{changed: make(chan struct{}, 1)}
	b.reset(g.decide)
	b.between(g.pause)
	prov := make([]caches.CacheProvider, len(shape))
	for u := range prov {
		if u > 0 && shared {
			prov[u] = prov[0]
			continue
		}
		var err error
		if prov[u], err = b.cache("p1"); err != nil {
			x.Failf("new", "%s: %v", b.name, err)
		}
	}
	r := &lnRun[lnState]{x: x, what: b.name + ", " + lnStarts[start], gate: g}
	st := lnState{}
	if start > 0 {
		st = lnState{there: true, n: 40, exp: []int{0, 60, 1}[start]}
		if err := prov[0].Set("k1", 40, st.exp); err != nil {
			x.Failf("error", "%s: set: %v", b.name, err)
		}
	}
	var users []func()
	for u := range shape {
		u := u
		users = append(users, func() {
			for _, o := range plan[u] {
				r.op(u, o.String(), lnCop(prov[u], o))
			}
		})
	}
	now := 0
	var meanwhile func()
	if start == 2 {
		meanwhile = func() {
			now = 2
			r.alone("2 s pass", lnPass(2))
		}
	}
	r.run(users, lnInterrupts(len(shape), x.Thorough), meanwhile)
	// what is there afterwards, before and after the entries expire
	for _, at := range []int{50, 90} {
		r.alone(fmt.Sprintf("%d s pass", at-now), lnPass(at-now))
		now = at
		for _, kind := range []string{"get", "has"} {
			o := cop{kind: kind, key: "k1"}
			r.alone(o.String(), lnCop(prov[len(prov)-1], o))
		}
	}
	r.judge(st)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C34",
		Model: "one key as a sequential object: a search for an order of the operations, compatible with when they ran, that explains every result and what is read afterwards",
		Assumptions: []string{
			"the in-process servers follow the documented behaviour of memcached 1.6, Redis and MongoDB 3.6 for the commands used; each request takes effect at once, but for an upsert of MongoDB, which first finds nothing and then inserts",
			"a single request is never delayed past the lifetime of a touch",
			"incr and decr only of integers stored as such",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"operations of each user": fmt.Sprint(lnShapes(th)), "operations": len(lnOps(th)), "back ends": len(backends), "interleavings": "every order in which the server can get the requests, with the entry expiring at every place in between", "interruptions of an operation between two of its requests": lnTraits(th)}
		},
		Run: runC34, Init: startFakes,
	})
}
