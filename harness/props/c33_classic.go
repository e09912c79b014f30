package props

import (
	gocontext "context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils/helpers"
	"strip.verif/mc"
)

// everything this process writes to its standard error, which is where the loggers write
var clErr struct {
	once sync.Once
	f    *os.File
}

func clCapture() {
	clErr.once.Do(func() {
		name := []byte("stderr\x00")
		fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0) // memfd_create
		if e == 0 {
			clErr.f = os.NewFile(fd, "stderr")
		} else {
			f, err := os.CreateTemp("", "stderr")
			if err != nil {
				panic(err)
			}
			os.Remove(f.Name())
			clErr.f = f
		}
		if err := syscall.Dup3(int(clErr.f.Fd()), 2, 0); err != nil {
			panic(err)
		}
	})
	clErr.f.Truncate(0)
	clErr.f.Seek(0, io.SeekStart)
}

func clText() string {
	fi, err := clErr.f.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, fi.Size())
	n, _ := clErr.f.ReadAt(b, 0)
	clErr.f.Truncate(0)
	clErr.f.Seek(0, io.SeekStart)
	return string(b[:n])
}

type clHookKind int

const (
	clPass clHookKind = iota
	clRespond
	clPanic
	clAround
	clNoFilter
)

var clHooks = []string{"passes", "responds", "panics", "around", "adds nothing"}

type clAction struct {
	name   string
	method string
	target string
	status int
	body   string
	panics bool
	logs   int // lines of its own
}

var clActions = []clAction{
	{"text", "GET", "/text", 200, "body", false, 0},
	{"code", "GET", "/code", 201, "body", false, 0},
	{"panic", "GET", "/panic", 500, "", true, 0},
	{"params", "POST", "/params/7?q=x", 200, "x7", false, 0},
	{"log", "GET", "/log", 200, "logged", false, 4},
	{"nothing", "GET", "/nothing", 200, "", false, 0},
	{"missing", "GET", "/none", 404, "404 Not Found", false, 0},
	{"write and panic", "GET", "/wpanic", 202, "some", true, 0},
	{"status only", "GET", "/status", 418, "", false, 0},
}

type clStruct struct {
	Log    strip.Logger    `inject`
	ReqLog strip.ReqLogger `inject`
	Req    *http.Request   `inject`
	Ctx    strip.Context   `inject`
}

func (s *clStruct) Get() string {
	s.Log.Error("own line 1")
	s.ReqLog.Error("own line 2")
	helpers.GetLogger(s.Req.Context()).Error("own line 3")
	helpers.GetLogger(s.Ctx.GetContext()).Error("own line 4")
	return "logged"
}

func clRoutes(sp *strip.Strip) {
	sp.Routers(
		strip.Router("/text", strip.Get(func() string { return "body" })),
		strip.Router("/code", strip.Get(func() (string, int) { return "body", 201 })),
		strip.Router("/panic", strip.Get(func() string { panic("went wrong") })),
		strip.Router("/params/:id", strip.Post(func(p *params.Params) string { return p.Get("q") + p.Get("id") })),
		strip.Router("/log", strip.Get(&clStruct{})),
		strip.Router("/nothing", strip.Get(func() {})),
		strip.Router("/wpanic", strip.Get(func(rw http.ResponseWriter) string {
			rw.WriteHeader(202)
			rw.Write([]byte("some"))
			panic("went wrong")
		})),
		strip.Router("/status", strip.Get(func() int { return 418 })),
	)
}

const clColor = "\x1b[1;"

var clLine = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d\.\d{6} `)

func classicServe(x *mc.X) {
	mode := mc.Pick(x, "mode", []strip.Mode{strip.ModeDev, strip.ModeTest, strip.ModeProd, "other"})
	option := mc.Pick(x, "logger option", []string{"none", "zero", "flat", "color", "stack", "quiet", "two"})
	global := x.Bool("global logger")
	nHooks := x.Choose(3, "hooks")
	var hooks []clHookKind
	for i := 0; i < nHooks; i++ {
		hooks = append(hooks, clHookKind(x.Choose(len(clHooks), "hook")))
	}
	first := x.Choose(len(clActions), "request")
	second := -1
	if x.Thorough {
		second = x.Choose(len(clActions), "second request")
	}
	x.Ready()
	x.Op()
	clCapture()
	sp := strip.New()
	sp.Config.RunMode = mode
	var trail []string
	var flags []string
	if global {
		helpers.UseGlobalLogger(sp)
		if sp.Logger() != strip.Logger(helpers.X) {
			x.Failf("logger", "UseGlobalLogger does not set the logger of the application")
		}
	}
	helpers.LoadClassicProviders(sp)
	color, flat, line := mode.IsDev(), mode.IsProd(), true
	begin, stack := true, false
	var opts []interface{}
	o := reqlogger.LoggerOption{}
	switch option {
	case "flat":
		o.FlatLine = true
	case "color":
		o.ColorMode, o.LineInfo = true, true
	case "stack":
		o.LogStackLevel = strip.LevelError
	case "quiet":
		o.ReqBegFilter = func(strip.Context, http.ResponseWriter, *http.Request, string) string { return "" }
	case "two":
		opts = append(opts, reqlogger.LoggerOption{ColorMode: true, FlatLine: true, LineInfo: true})
	}
	for i, k := range hooks {
		i, k := i, k
		opts = append(opts, helpers.HookFunc(func(app *strip.Strip, flag helpers.HookFlag) {
			if app != sp {
				x.Failf("hook", "a hook is called with another application")
			}
			flags = append(flags, fmt.Sprint(i, flag))
			if flag != helpers.HookFlagBeforeAll {
				return
			}
			name := fmt.Sprintf("h%d", i)
			switch k {
			case clPass:
				app.Filter(func(ctx strip.Context) {
					trail = append(trail, name)
					if !global {
						return
					}
					var rl strip.ReqLogger
					if err := ctx.Find(&rl, ""); err != nil || rl != helpers.X.(strip.ReqLogger) {
						x.Failf("logger", "UseGlobalLogger does not provide the request logger of filters around the request logger: %v", err)
					}
				})
			case clRespond:
				app.Filter(func(rw http.ResponseWriter) {
					trail = append(trail, name)
					rw.WriteHeader(403)
					rw.Write([]byte(name))
				})
			case clPanic:
				app.Filter(func() {
					trail = append(trail, name)
					panic("hook")
				})
			case clAround:
				app.Filter(func(ctx strip.Context) {
					trail = append(trail, name)
					ctx.Next()
					trail = append(trail, name+" after")
				})
			}
		}))
		if i == 0 && option != "none" {
			opts = append(opts, o)
		}
	}
	if nHooks == 0 && option != "none" {
		opts = append(opts, o)
	}
	if option != "none" {
		color, flat, line = o.ColorMode, o.FlatLine, o.LineInfo
		begin, stack = option != "quiet", o.LogStackLevel == strip.LevelError
	}
	helpers.LoadClassicFilters(sp, opts...)
	clRoutes(sp)
	desc := fmt.Sprintf("mode %q, logger option %s, global logger %v, hooks", mode, option, global)
	for _, k := range hooks {
		desc += " " + clHooks[k]
	}
	wantFlags := []string{"0 1", "1 1"}[:nHooks]
	before := []string{}
	for _, f := range flags {
		if strings.HasSuffix(f, " 1") {
			before = append(before, f)
		}
	}
	if join(before) != join(wantFlags) {
		x.Failf("hook", "%s: hooks were called %v, expected %v", desc, before, wantFlags)
	}
	for n, ai := range []int{first, second} {
		if ai < 0 {
			continue
		}
		a := clActions[ai]
		trail = nil
		path, query, _ := strings.Cut(a.target, "?")
		req := newReq(a.method, path)
		req.URL.RawQuery = query
		req.Header.Set(reqlogger.HeaderReqid, "client-request-id")
		req.RemoteAddr = "192.0.2.1:99"
		clText()
		r, p := serve(sp, req)
		x.Op()
		out := clText()
		d := fmt.Sprintf("%s; request %d %s %s: status %d, body %q, output %q", desc, n, a.method, a.target, r.code, clip(r.body.String()), clip(out))
		if p != nil {
			x.Failf("panic", "%s\nthe panic escaped: %v", d, p)
		}
		// the first line of every record, without what follows, like a stack
		heads := ""
		for _, l := range strings.SplitAfter(out, "\n") {
			if clLine.MatchString(l) {
				l, _, _ = strings.Cut(l, `\n`)
				heads += strings.TrimSuffix(l, "\n") + "\n"
			}
		}
		// what the hooks leave of it
		status, body, panics, reached := a.status, a.body, a.panics, true
		var want []string
		var after []string
		for i, k := range hooks {
			if k != clNoFilter {
				want = append(want, fmt.Sprintf("h%d", i))
			}
			if k == clAround {
				after = append([]string{fmt.Sprintf("h%d after", i)}, after...)
			}
			if k == clRespond {
				status, body, panics, reached = 403, fmt.Sprintf("h%d", i), false, false
			}
			if k == clPanic {
				status, body, panics, reached = 500, "", true, false
			}
			if !reached {
				break
			}
		}
		if !panics {
			want = append(want, after...)
		}
		if join(trail) != join(want) {
			x.Failf("hook", "%s\nfilters of the hooks: %v, expected %v", d, trail, want)
		}
		got := r.body.String()
		if panics && status == 500 && mode.IsDev() {
			if !strings.HasPrefix(got, "<html>") {
				x.Failf("response", "%s\nno page about the panic", d)
			}
			got = ""
		}
		if r.code != status || got != body {
			x.Failf("response", "%s\nexpected status %d and body %q", d, status, body)
		}
		// the request's own log
		if has := r.sent.Get(reqlogger.HeaderReqid) == "client-request-id" && r.sent.Get(reqlogger.HeaderResponseTime) != ""; has != reached {
			x.Failf("log", "%s\nrequest id and time in the head: %v, expected %v", d, has, reached)
		}
		count := func(s string) int { return strings.Count(heads, s) }
		want1 := func(what string, got, want int) {
			if got != want {
				x.Failf("log", "%s\n%s: %d, expected %d", d, what, got, want)
			}
		}
		b2i := map[bool]int{true: 1}
		want1("begin lines", count("[REQ_BEG] "+a.method+" "+req.Host+a.target+" 192.0.2.1\n"), b2i[reached && begin])
		want1("end lines", count(fmt.Sprintf("[REQ_END] %d ", status)), b2i[reached && !panics])
		want1("end lines of any status", count("[REQ_END]"), b2i[reached && !panics])
		want1("panics", count("PANIC: "), b2i[panics])
		own := 0
		if reached {
			own = a.logs
		}
		for i := 1; i <= own; i++ {
			want1(fmt.Sprintf("own line %d", i), count(fmt.Sprintf(" own line %d", i)), 1)
		}
		want1("own lines", count(" own line "), own)
		ids := own + b2i[reached && begin] + b2i[reached && !panics] + b2i[reached && panics]
		want1("lines with the request's id", count("[client-request-id]"), ids)
		lines := len(clLine.FindAllString(out, -1))
		appLine := b2i[panics && !reached]
		want1("lines", lines, ids+appLine)
		cl, ln := 0, 0
		if color {
			cl = ids
		}
		if line {
			ln = own + b2i[reached && panics]
		}
		if appLine == 1 {
			if !global || mode.IsDev() {
				cl++
			}
			if global {
				ln++
			}
		}
		want1("coloured lines", count(clColor), cl)
		want1("lines with a source position", count(`["`), ln)
		multi := strings.Count(strings.TrimSpace(out), "\n")+1 > lines
		wantMulti := panics && reached && !flat || panics && !reached && global && !mode.IsProd() || stack && own > 0 && !flat
		if out != "" && multi != wantMulti {
			x.Failf("log", "%s\nlines are broken: %v, expected %v", d, multi, wantMulti)
		}
		x.Statef("%s %s", desc, a.name)
	}
}

// the server itself
func classicRun(x *mc.X) {
	mode := mc.Pick(x, "mode", []strip.Mode{strip.ModeDev, strip.ModeTest, strip.ModeProd, "other"})
	where := mc.Pick(x, "address", []string{"127.0.0.1:0", "localhost:0", "127.0.0.1:bad", ":-1", "127.0.0.1:99999", "taken"})
	global := x.Bool("global logger")
	closeNow := x.Bool("closed before a request")
	earlier := x.Bool("after a run that failed")
	x.Ready()
	x.Op()
	clCapture()
	sp := strip.New()
	addr := where
	if addr == "taken" {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			x.Failf("listen", "%v", err)
		}
		defer l.Close()
		addr = l.Addr().String()
	}
	i := strings.LastIndex(addr, ":")
	sp.ImportConfig(&ownConf{map[string]string{"run_mode": string(mode), "http_addr": addr[:i], "http_port": addr[i+1:]}})
	if global {
		helpers.UseGlobalLogger(sp)
	}
	helpers.LoadClassicProviders(sp)
	helpers.LoadClassicFilters(sp)
	clRoutes(sp)
	listening := make(chan string, 1)
	sp.Server.BaseContext = func(l net.Listener) gocontext.Context {
		listening <- l.Addr().String()
		return gocontext.Background()
	}
	if earlier {
		port := sp.Config.HttpPort
		sp.Config.HttpPort = "bad"
		if err := sp.Run(); err == nil {
			x.Failf("run", "mode %s: running at port %q returned no error", mode, sp.Config.HttpPort)
		}
		sp.Config.HttpPort = port
	}
	clText()
	done := make(chan error, 1)
	go func() { done <- sp.Run() }()
	var err error
	served := false
	select {
	case at := <-listening:
		served = true
		if !closeNow {
			tr := &http.Transport{DisableKeepAlives: true}
			c := &http.Client{Transport: tr}
			resp, e := c.Get("http://" + at + "/text")
			if e != nil {
				x.Failf("run", "mode %s: a request fails: %v", mode, e)
			}
			b, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.StatusCode != 200 || string(b) != "body" || resp.Header.Get(strip.HeaderPoweredBy) == "" {
				x.Failf("run", "mode %s: answer %d %q %v", mode, resp.StatusCode, b, resp.Header)
			}
		}
		sp.Server.Close()
		err = <-done
	case err = <-done:
	}
	out := clText()
	want := strings.HasSuffix(addr, ":0")
	if served != want {
		x.Failf("run", "mode %s, address %s: listening %v (%v), expected %v", mode, addr, served, err, want)
	}
	if err == nil || want && !errors.Is(err, http.ErrServerClosed) {
		x.Failf("run", "mode %s, address %s: Run returned %v", mode, addr, err)
	}
	paint := func(s string) string {
		if mode.IsDev() {
			return "\x1b[1;32m" + s + "\x1b[0m"
		}
		return s
	}
	if addr[:i] == "" {
		addr = "127.0.0.1" + addr // an empty setting leaves the default
	}
	line := fmt.Sprintf(" Teapot listening on %s in [%s] mode\n", paint(addr), paint(string(mode)))
	if strings.Count(out, line) != 1 || strings.Count(out, "[INFO]") < 1 {
		x.Failf("run", "mode %s, address %s, global logger %v: output %q has no line %q", mode, addr, global, out, line)
	}
	tag := "[EMERGENCY]"
	if strings.Count(out, tag) != 1 || strings.Count(out, err.Error()) != 1 {
		x.Failf("run", "mode %s, address %s: output %q has no emergency line with the error %v", mode, addr, out, err)
	}
	if colored := strings.Contains(out, clColor); colored != mode.IsDev() {
		x.Failf("run", "mode %s: output %q is coloured: %v", mode, out, colored)
	}
	x.Statef("%s %s %v %v %v", mode, where, global, closeNow, want)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C33",
		Model: "the documented stack: recovery, then the filters of the hooks, then the request logger, then the results of actions; responses and every line of the log are compared",
		Assumptions: []string{
			"times and source positions in a line are not judged; the hooks' flag after all filters is never used by the framework and not judged",
		},
		Bounds: func(th bool) map[string]interface{} {
			n := 1
			if th {
				n = 2
			}
			return map[string]interface{}{"modes": 4, "logger options": 7, "hooks": 2, "kinds of hook": len(clHooks), "requests in a row": n, "kinds of request": len(clActions), "server addresses": 6}
		},
		Run: func(x *mc.X) {
			if x.Choose(2, "mode") == 0 {
				classicServe(x)
			} else {
				classicRun(x)
			}
		},
	})
}
