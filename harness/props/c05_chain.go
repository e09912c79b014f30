package props

import (
	"context"
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

// a handler's behaviour is a short program:
// w write, s set a status, n ask for the next handler, p panic, d recover a
// panic of later handlers when asking (deferred)
var chainProgs = []string{"", "w", "s", "n", "nw", "wn", "sn", "p", "np", "wp"}
var chainProgsWild = []string{"nn", "wnn", "dn", "nnw", "dnn"}

type chainRun struct {
	events []string
}

func (c *chainRun) handler(id int, prog string) interface{} {
	return func(ctx strip.Context, rw http.ResponseWriter) {
		c.events = append(c.events, fmt.Sprintf("+%d", id))
		rec := strings.Contains(prog, "d")
		for _, op := range prog {
			switch op {
			case 'w':
				rw.Write([]byte{byte('A' + id)})
			case 's':
				rw.WriteHeader(201)
			case 'n':
				func() {
					if rec {
						defer func() { recover() }()
					}
					ctx.Next()
				}()
			case 'p':
				panic(fmt.Sprintf("panic of %d", id))
			}
		}
		c.events = append(c.events, fmt.Sprintf("-%d", id))
	}
}

// reference interpreter; panics propagate as a Go panic
type chainRef struct {
	progs   []string
	events  []string
	started bool
	body    string
}

type refPanic struct{}

func (r *chainRef) from(i int) {
	for ; i < len(r.progs); i++ {
		asked := false
		r.events = append(r.events, fmt.Sprintf("+%d", i))
		for _, op := range r.progs[i] {
			switch op {
			case 'w':
				r.started = true
				r.body += string(rune('A' + i))
			case 's':
				r.started = true
			case 'n':
				asked = true
				r.from(i + 1)
			case 'p':
				panic(refPanic{})
			}
		}
		r.events = append(r.events, fmt.Sprintf("-%d", i))
		if asked || r.started {
			return
		}
	}
}

func runChain(x *mc.X) {
	wild := x.Bool("asking more than once")
	max := 5
	if wild {
		max = 4
	}
	if x.Thorough {
		max++
	}
	n := x.Choose(max, "handlers") + 1
	shape := x.Choose(4, "last") // 0 action, 1 struct action, 2 not-found handler, 3 the same for the method
	g := x.Choose(n, "global filters")
	progs := make([]string, n)
	alpha := chainProgs
	if wild {
		alpha = append(append([]string{}, chainProgs...), chainProgsWild...)
	}
	isWild := false
	for i := range progs {
		k := x.Choose(len(alpha), "behaviour")
		progs[i] = alpha[k]
		isWild = isWild || k >= len(chainProgs)
	}
	if shape == 1 && progs[n-1] != "w" {
		x.Skip() // the struct action has one behaviour
	}
	if wild != isWild {
		x.Skip()
	}
	x.Ready()
	run := &chainRun{}
	sp := newApp()
	sp.NotFound()
	for i := 0; i < g; i++ {
		sp.Filter(run.handler(i, progs[i]))
	}
	switch shape {
	case 0, 1:
		var fs []interface{}
		for i := g; i < n-1; i++ {
			fs = append(fs, run.handler(i, progs[i]))
		}
		var h strip.MethodHandler
		if shape == 0 {
			h = strip.Get(run.handler(n-1, progs[n-1]))
		} else {
			chainStruct = run
			chainStructID = n - 1
			h = strip.Get(chainAction{})
		}
		// half of the route filters on the router, half on the method
		k := len(fs) / 2
		sp.Routers(strip.Router("/r", strip.Filter(fs[:k]...), h.Filter(fs[k:]...)))
	case 2, 3:
		if shape == 3 {
			sp.Routers(strip.Router("/r", strip.Post(func() { x.Note("chain", "the handler of another method ran") })))
		}
		var fs []interface{}
		for i := g; i < n; i++ {
			fs = append(fs, run.handler(i, progs[i]))
		}
		sp.NotFound(fs...)
	}
	desc := fmt.Sprintf("%d global filters, then route filters and last handler (shape %d): %s", g, shape, quoteAll(progs))
	first := true
again:
	run.events = nil
	req := newReq("GET", "/r")
	if !first {
		// the client of the second request has gone already
		gone, cancel := context.WithCancel(context.Background())
		cancel()
		req = req.WithContext(gone)
	}
	r, p := serve(sp, req)
	x.Op()
	x.Logf("%s: %v", desc, run.events)
	ref := &chainRef{progs: progs}
	refP := catch(func() { ref.from(0) })
	body := r.body.String()
	if !wild {
		if !equalStrings(run.events, ref.events) {
			x.Failf("chain", "%s\nevents %v, expected %v", desc, run.events, ref.events)
		}
		if (p != nil) != (refP != nil) {
			x.Failf("chain", "%s\npanic %v, expected %v", desc, p, refP)
		}
		if refP == nil && body != ref.body {
			x.Failf("chain", "%s\nbody %q, expected %q", desc, body, ref.body)
		}
	} else {
		// at most once, in order, nested
		seen := map[string]bool{}
		last := -1
		var stack []string
		for _, e := range run.events {
			if seen[e] {
				x.Failf("chain", "%s\nevents %v: %s happened twice", desc, run.events, e)
			}
			seen[e] = true
			if e[0] == '+' {
				var id int
				fmt.Sscan(e[1:], &id)
				if id <= last {
					x.Failf("chain", "%s\nevents %v: out of order", desc, run.events)
				}
				last = id
				stack = append(stack, e[1:])
			} else {
				// handlers a panic ended have no leave event
				for len(stack) > 0 && stack[len(stack)-1] != e[1:] {
					if !strings.Contains(strings.Join(progs, ""), "p") {
						x.Failf("chain", "%s\nevents %v: not nested", desc, run.events)
					}
					stack = stack[:len(stack)-1]
				}
				if len(stack) == 0 {
					x.Failf("chain", "%s\nevents %v: not nested", desc, run.events)
				}
				stack = stack[:len(stack)-1]
			}
		}
	}
	if first {
		desc += ", second request, of a client that has gone"
		first = false
		goto again
	}
	x.State(desc + strings.Join(run.events, ""))
}

var chainStruct *chainRun
var chainStructID int

type chainAction struct {
	Ctx strip.Context       `inject`
	Rw  http.ResponseWriter `inject`
}

func (c chainAction) Get() {
	chainStruct.handler(chainStructID, "w").(func(strip.Context, http.ResponseWriter))(c.Ctx, c.Rw)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C05",
		Model: "reference interpreter of a handler chain; events and body of the real chain are compared exactly when every handler asks at most once, otherwise: at most once each, in order, properly nested",
		Assumptions: []string{
			"handlers that ask for the next one several times, or recover a later panic themselves, are only held to running every handler at most once, in order",
		},
		Bounds: func(th bool) map[string]interface{} {
			n := 5
			if th {
				n = 6
			}
			return map[string]interface{}{"handlers": n, "behaviours": len(chainProgs), "further behaviours up to one handler less": len(chainProgsWild), "split into global and route level": "every position", "last handler": "action, struct action, not-found handler (no such route, no such method)"}
		},
		Run: runChain,
	})
}
