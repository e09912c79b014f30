package props

import (
	"errors"
	"fmt"
	"html"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

type odd struct {
	A int
	B []string
}

type failingString struct{}

func (failingString) String() string { panic("no string") }

type failingError struct{}

func (*failingError) Error() string { panic("no error text") }

// panicValues: how the panic is raised and the text fmt prints for it
var panicValues = []struct {
	name  string
	raise func()
	shown bool
}{
	{"string", func() { panic("oops") }, true},
	{"html", func() { panic("<script>alert(1)</script> %d %s") }, true},
	{"entities", func() { panic("&amp;lt;b&#34; &lt;i&gt;") }, true},
	{"empty", func() { panic("") }, true},
	{"error", func() { panic(errors.New("an error")) }, true},
	{"wrapped", func() { panic(fmt.Errorf("w: %w", errWrite)) }, true},
	{"int", func() { panic(42) }, true},
	{"nil", func() { panic(nil) }, false},
	{"struct", func() { panic(odd{1, []string{"<"}}) }, false},
	{"ptr", func() { panic(&odd{1, nil}) }, false},
	{"abort", func() { panic(http.ErrAbortHandler) }, true},
	{"stringer", func() { panic(failingString{}) }, false},
	{"nilerror", func() { panic((*failingError)(nil)) }, false},
	{"deref", func() { var p *odd; p.A = 1 }, true},
	{"index", func() { var s []int; i := 3; s[i] = 1 }, true},
	{"map", func() { var m map[string]int; m["<&>"] = 1 }, true},
	{"div", func() { z := 0; _ = 1 / z }, true},
	{"type", func() { var v interface{} = 1; _ = v.(string) }, true},
	{"func", func() { panic(func() {}) }, false},
	{"chan", func() { panic(make(chan int)) }, false},
	{"ctx", func() { panic([]interface{}{1, "<b>", nil}) }, false},
	{"long", func() { panic(strings.Repeat("x<y", 5000)) }, true},
	{"deep", func() { deepPanic[struct{ a, b int }](40) }, true},
}

// generic so that the stack names need escaping: "<", ">" and "&" appear in the source text too
func deepPanic[T any](n int) {
	var t *T
	if n > 0 && t == nil {
		func(s string) { deepPanic[T](n - 1) }("<a href='x'>&amp;</a>")
		return
	}
	func(s string) { panic(s + "<&>\"'") }("<script>1 < 2 && 3 > 2</script>")
}

type missing struct{}

// programs: w write, s status 202, h set a header, n next, p panic, m ask for a dependency nobody provides,
// l announce a body that never comes, d deferred write after the panic
var recoveryProgs = []string{"p", "wp", "sp", "hp", "swp", "np", "nwp", "wnp", "m", "n", "", "w", "dp", "lp"}

type recoveryRun struct {
	raise  func()
	raised bool
	// what was set when the panic was raised
	status int
	body   string
	setSt  int
	before int // number of writes
}

func (c *recoveryRun) handler(prog string) interface{} {
	if prog == "m" {
		return func(m *missing, rw http.ResponseWriter) { rw.Write([]byte("never")) }
	}
	return func(ctx strip.Context, rw http.ResponseWriter) {
		for _, op := range prog {
			switch op {
			case 'w':
				rw.Write([]byte("[w]"))
				c.body += "[w]"
				if c.setSt == 0 {
					c.setSt = 200
				}
			case 's':
				rw.WriteHeader(202)
				if c.body == "" {
					c.setSt = 202
				}
			case 'h':
				rw.Header().Set("X-Set", "1")
			case 'l':
				rw.Header().Set("Content-Length", "7")
				rw.Header().Set("Content-Encoding", "br")
				rw.Header().Set("Content-Type", "image/png")
			case 'n':
				ctx.Next()
			case 'd':
				defer func() {
					rw.Write([]byte("[d]"))
					c.body += "[d]"
					if c.setSt == 0 {
						c.setSt = 200
					}
				}()
			case 'p':
				c.raised = true
				c.raise()
			}
		}
	}
}

// without a logger the panic is printed there
var muteStderr sync.Once

// panicText is the text of what a function panics with
func panicText(raise func()) (text string) {
	defer func() { text = fmt.Sprint(recover()) }()
	raise()
	return
}

// panicSite is the source line that panics
func panicSite(raise func()) (site string) {
	defer func() {
		recover()
		pcs := make([]uintptr, 200)
		frames := runtime.CallersFrames(pcs[:runtime.Callers(0, pcs)])
		in := false
		for {
			f, more := frames.Next()
			if in && !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "internal/runtime/") {
				site = fmt.Sprintf("%s:%d", f.File, f.Line)
				return
			}
			in = in || f.Function == "runtime.gopanic"
			if !more {
				panic("no frame of the panic")
			}
		}
	}()
	raise()
	return
}

// lists tells whether a text has a source line in it
func lists(text, site string) bool {
	for {
		i := strings.Index(text, site)
		if i < 0 {
			return false
		}
		text = text[i+len(site):]
		if text == "" || text[0] < '0' || text[0] > '9' {
			return true
		}
	}
}

// the markup of the page itself
var pageRE = regexp.MustCompile(`</?(html|head|title|style|body|h1|pre|div|span)( (class|type)="[a-z/ ]*")?>`)
var tagRE = regexp.MustCompile(`</?(div|span)( class="[a-z ]*")?>`)

func runRecovery(x *mc.X) {
	mode := mc.Pick(x, "mode", []strip.Mode{strip.ModeDev, strip.ModeTest, strip.ModeProd, "other"})
	pv := panicValues[x.Choose(len(panicValues), "panic value")]
	where := x.Choose(5, "recovery at") // 0 first global, 1 second global after a filter asking next, 2 route, 3 global and route, 4 not-found
	n := x.Choose(3, "handlers after it") + 1
	if !x.Thorough && n > 2 {
		x.Skip()
	}
	progs := make([]string, n)
	for i := range progs {
		progs[i] = mc.Pick(x, "behaviour", recoveryProgs)
	}
	strct := x.Bool("struct action")
	if strct && (n != 1 || where == 4 || progs[0] == "m") {
		x.Skip()
	}
	noLogger := n == 1 && x.Bool("no logger")
	x.Ready()
	run := &recoveryRun{raise: pv.raise}
	sp := newApp()
	sp.Config.RunMode = mode
	var log lgPrinter
	sp.SetLogger(strip.NewLogger(&log))
	if noLogger {
		muteStderr.Do(func() { os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) })
		sp.Provide(func(*missing) strip.Logger { return nil })
	}
	outerBefore, outerAfter := false, false
	pass := func(ctx strip.Context) { outerBefore = true; ctx.Next(); outerAfter = true }
	var fs []interface{}
	for i := 0; i < n-1; i++ {
		fs = append(fs, run.handler(progs[i]))
	}
	last := run.handler(progs[n-1])
	var act strip.MethodHandler
	if strct {
		recoveryStruct = last
		act = strip.Get(recoveryAction{})
	} else {
		act = strip.Get(last)
	}
	rec := strip.RecoveryFilter()
	switch where {
	case 0:
		sp.Filter(rec)
		sp.Routers(strip.Router("/r", act.Filter(fs...)))
	case 1:
		sp.Filter(pass)
		sp.Filter(rec)
		sp.Filter(fs...)
		sp.Routers(strip.Router("/r", act))
	case 2:
		sp.Filter(pass)
		sp.Routers(strip.Router("/r", strip.Filter(rec), act.Filter(fs...)))
	case 3:
		sp.Filter(rec, pass)
		sp.Routers(strip.Router("/r", strip.Filter(func() interface{} { return nil }, rec), act.Filter(fs...)))
	case 4:
		sp.Filter(rec)
		sp.NotFound(append(fs, last)...)
	}
	sp.Routers(strip.Router("/ok", strip.Get(func(rw http.ResponseWriter) { rw.Write([]byte("fine")) })))
	desc := fmt.Sprintf("mode %s, panic value %s, recovery at %d, behaviours %s, struct %v, without logger %v", mode, pv.name, where, quoteAll(progs), strct, noLogger)
	r, p := serve(sp, newReq("GET", "/r"))
	x.Op()
	x.Logf("%s: panic %v, status %d, %d bytes", desc, p, r.code, r.body.Len())
	if p != nil {
		x.Failf("recovery", "%s\nthe panic escaped: %v", desc, p)
	}
	if (where == 1 || where == 2) && (!outerBefore || !outerAfter) {
		x.Failf("recovery", "%s\nthe filter outside the recovery filter was not resumed", desc)
	}
	// did a panic happen: a program with p or m that was reached
	raised := run.raised
	if !raised {
		for _, pr := range progs {
			raised = raised || pr == "m"
		}
	}
	if !noLogger {
		logged := 0
		for _, c := range log.calls {
			if t := fmt.Sprint(c...); strings.Contains(t, "PANIC") {
				logged++
				if run.raised && !lists(t, panicSite(pv.raise)) {
					x.Failf("recovery", "%s\nthe log does not name the line %s of the panic: %q", desc, panicSite(pv.raise), clip(t))
				}
			}
		}
		// a dependency nobody provides is a panic only if the handler is reached
		if logged > 1 || run.raised && logged == 0 || !raised && logged > 0 {
			x.Failf("recovery", "%s\nthe panic is logged %d times", desc, logged)
		}
	}
	body := r.body.String()
	switch {
	case run.setSt != 0:
		if r.code != run.setSt || body != run.body || r.extra != 0 {
			x.Failf("recovery", "%s\nstatus %d body %q (heads %d), expected %d %q", desc, r.code, body, r.heads, run.setSt, run.body)
		}
	case raised:
		if r.code != 500 || r.extra != 0 {
			x.Failf("recovery", "%s\nstatus %d (heads %d), expected 500", desc, r.code, r.heads)
		}
		if l := r.sent.Get("Content-Length"); l != "" && l != fmt.Sprint(len(body)) || r.sent.Get("Content-Encoding") != "" {
			x.Failf("announced", "%s\nthe 500 with a body of %d bytes is sent with Content-Length %q, Content-Encoding %q, which were meant for another body", desc, len(body), l, r.sent.Get("Content-Encoding"))
		}
		if mode != strip.ModeDev {
			if body != "" {
				x.Failf("recovery", "%s\nbody %q, expected none", desc, body)
			}
			break
		}
		if ct := r.sent.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
			x.Failf("recovery", "%s\ncontent type %q of the page", desc, ct)
		}
		if !strings.HasPrefix(body, "<html>") || !strings.HasSuffix(body, "</html>\n") && !strings.HasSuffix(body, "</html>") {
			x.Failf("recovery", "%s\nnot a complete page: %q", desc, clip(body))
		}
		// what is shown is text, not markup
		plainPage := pageRE.ReplaceAllString(body, "")
		if strings.ContainsAny(plainPage, "<>") {
			x.Failf("recovery", "%s\nthe page has markup of the panic: %q", desc, clip(plainPage))
		}
		if run.raised && pv.shown && !strings.Contains(html.UnescapeString(plainPage), panicText(pv.raise)) {
			x.Failf("recovery", "%s\nthe page does not show the panic value %q: %q", desc, panicText(pv.raise), clip(plainPage))
		}
		if pv.name == "entities" && run.raised && strings.Contains(body, panicText(pv.raise)) {
			x.Failf("recovery", "%s\nthe page holds the panic value %q as markup", desc, panicText(pv.raise))
		}
		_, rest, ok := strings.Cut(body, `<div class="stack">`)
		if i := strings.LastIndex(body, `<div class="stack">`); ok && i >= 0 {
			rest = body[i+len(`<div class="stack">`):]
		}
		rest, _, ok2 := strings.Cut(rest, "</body>")
		if !ok || !ok2 {
			x.Failf("recovery", "%s\nno stack in the page", desc)
		}
		if !run.raised {
			break // dependency error: the stack is the framework's
		}
		plain := tagRE.ReplaceAllString(rest, "")
		if strings.ContainsAny(plain, "<>") || strings.Contains(plain, "&&") {
			x.Failf("recovery", "%s\nstack text not escaped: %q", desc, clip(plain))
		}
		if !lists(html.UnescapeString(plain), panicSite(pv.raise)) {
			x.Failf("recovery", "%s\nthe page does not show where the panic came from: %q", desc, clip(plain))
		}
	default:
		// no panic, nothing written
		if r.code != 200 || body != "" || r.extra != 0 {
			x.Failf("recovery", "%s\nstatus %d body %q without a panic", desc, r.code, body)
		}
	}
	if strings.Contains(progs[0], "h") && run.raised && r.sent.Get("X-Set") != "1" {
		x.Failf("recovery", "%s\na header set before the panic is lost", desc)
	}
	r2, p2 := serve(sp, newReq("GET", "/ok"))
	x.Op()
	if where != 1 && (p2 != nil || r2.code != 200 || r2.body.String() != "fine") {
		x.Failf("recovery", "%s\na later request got status %d body %q panic %v", desc, r2.code, r2.body.String(), p2)
	}
	x.State(desc)
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:400] + "..." + s[len(s)-200:]
	}
	return s
}

var recoveryStruct interface{}

type recoveryAction struct {
	Ctx strip.Context       `inject`
	Rw  http.ResponseWriter `inject`
}

func (c recoveryAction) Get() {
	recoveryStruct.(func(strip.Context, http.ResponseWriter))(c.Ctx, c.Rw)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C06",
		Model: "what the client must receive, computed from what was set when the panic was raised",
		Assumptions: []string{
			"functions registered to run when the head is sent do not panic themselves",
			"panic values can be formatted by fmt (no self-containing maps)",
		},
		Bounds: func(th bool) map[string]interface{} {
			n := 2
			if th {
				n = 3
			}
			return map[string]interface{}{"panic values": len(panicValues), "handler behaviours": len(recoveryProgs), "handlers after the recovery filter": n, "positions": 5, "modes": 4}
		},
		Run: runRecovery,
	})
}
