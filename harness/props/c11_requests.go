package props

import (
	"bytes"
	"compress/gzip"
	stdctx "context"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"sort"
	"strings"

	"github.com/wujiu2020/strip"
	sgzip "github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/apires"
	"strip.verif/mc"
	"strip.verif/vsched"
)

type ccThing struct{ Path, Log string }
type ccDeep struct{ T *ccThing }
type ccShared struct{ Name string }
type ccVal struct{ Path string }

type ccAction struct {
	Log    strip.Logger   `inject`
	Req    *http.Request  `inject`
	P      *params.Params `inject`
	T      *ccThing       `inject`
	D      *ccDeep        `inject`
	S      *ccShared      `inject`
	Rw     http.ResponseWriter
	Base   int
	Text   string
	Nested struct {
		V *ccVal `inject`
	}
}

func (a *ccAction) body(name string, x string, n int) string {
	a.Base++
	a.Text += x
	vsched.Point("action")
	return fmt.Sprintf("%s %s %d|%s|%s|%s|%s|%s|%d %s|%s|%v", name, x, n, a.Req.URL.Path, a.P.Get("q"), a.T.Path, a.D.T.Path, a.S.Name, a.Base, a.Text, a.Nested.V.Path, a.P.Values)
}

func (a *ccAction) Get(x string, n int) string  { return a.body("get", x, n) }
func (a *ccAction) Post(x string, n int) string { return a.body("post", x, n) }

// lines of the thread that prints, so that printing orders nothing
type ccOut struct{ lines [4][]string }

//go:norace
func (o *ccOut) Print(args ...interface{}) {
	i := vsched.Self()
	if i < 0 {
		i = 0
	}
	o.lines[i] = append(o.lines[i], strings.TrimSpace(fmt.Sprint(args...)))
}

type ccCtxVal struct{ Path string }

func ccApp(out *ccOut) *strip.Strip {
	// results that all requests of the application share
	ccSharedErr := apires.NewResError(409, 7, "conflict", "data")
	ccSharedRet := apires.Ret(202)
	ccSharedRaw := apires.RawWith("raw", 0)
	sp := strip.New()
	appLog := strip.NewLogger(out)
	sp.SetLogger(appLog)
	sp.Provide(params.ParamsParser())
	sp.Provide(&ccShared{"shared"})
	sp.Provide(func(req *http.Request, log strip.Logger, s *ccShared) *ccThing {
		vsched.Point("provider")
		return &ccThing{Path: req.URL.Path + s.Name}
	})
	sp.Provide(func(t *ccThing) *ccDeep { return &ccDeep{t} })
	sp.Filter(
		strip.RecoveryFilter(),
		reqlogger.ReqLoggerFilter(out, reqlogger.LoggerOption{PrefixFilter: func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string {
			return "<" + req.URL.Path + ">"
		}}),
		sgzip.All(),
		strip.GenericOutFilter(),
		func(ctx strip.Context, req *http.Request, rw http.ResponseWriter) {
			rw.Header().Set("X-Path", req.URL.Path)
			ctx.Provide(&ccVal{req.URL.Path})
			c := utils.CtxWithValue(ctx.GetContext(), &ccCtxVal{req.URL.Path})
			ctx.ReplaceContext(c)
			vsched.Point("filter")
			ctx.Next()
			vsched.Point("filter after")
			rw.Header().Set("X-Too-Late", req.URL.Path)
		},
	)
	routeFilter := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, info *strip.RouteInfo) {
		vsched.Point("route filter")
		rw.Header().Add("X-Route", fmt.Sprint(info.Path, info.Values))
	}
	sp.Routers(
		strip.Router("/s/:a/:b", strip.All(&ccAction{Base: 40, Text: "t"}).Filter(routeFilter)),
		strip.Router("/f/:x", strip.Filter(routeFilter), strip.Get(func(p *params.Params, info *strip.RouteInfo, log strip.Logger, v *ccVal) string {
			log.Info("in handler", p.Get("x"))
			vsched.Point("handler")
			return fmt.Sprint(p.Get("x"), p.Get("q"), info.Values, v.Path)
		})),
		strip.Router("/r/:x", strip.Get(func(info *strip.RouteInfo) *apires.ResError {
			if info.Get("x") == "shared" {
				return ccSharedErr
			}
			return ccSharedErr.WithData("for " + info.Get("x"))
		})),
		strip.Router("/ret", strip.Get(func() *apires.ResBody { return ccSharedRet })),
		strip.Router("/raw", strip.Get(func() *apires.RawBody { return ccSharedRaw })),
		strip.Router("/panic/:x", strip.Get(func(info *strip.RouteInfo) {
			vsched.Point("handler")
			panic("boom " + info.Get("x"))
		})),
		strip.Router("/wild/*:rest", strip.Get(func(ctx strip.Context, rw http.ResponseWriter, info *strip.RouteInfo) {
			var v ccCtxVal
			err := utils.CtxFindValue(ctx.GetContext(), &v)
			vsched.Point("handler")
			io.WriteString(rw, fmt.Sprint(err, v.Path, info.Get("rest")))
			var c strip.Context
			vsched.Point("handler")
			err = utils.CtxFindValue(ctx.GetContext(), &c)
			io.WriteString(rw, fmt.Sprint(err, c != nil && c.Written()))
		})),
		strip.Router("/log/:x", strip.Get(func(ctx strip.Context, req *http.Request, rl strip.ReqLogger, rw http.ResponseWriter) string {
			rl.(strip.ReqLoggerAdv).SetPrefix("[" + req.URL.Path + "]")
			appLog.Warnf("request %s", req.URL.Path)
			vsched.Point("handler")
			appLog.Error("request", req.URL.Path)
			var l strip.Logger
			err := utils.CtxFindValue(req.Context(), &l)
			l.Warn("from context")
			return fmt.Sprint(err, rl.ReqId() == req.Header.Get("X-Reqid"), rl.ReqId() == rw.Header().Get("X-Reqid"), " ", rl.ReqId())
		})),
	)
	sp.NotFound(func(req *http.Request, rw http.ResponseWriter, v *ccVal) {
		rw.WriteHeader(404)
		vsched.Point("not found")
		io.WriteString(rw, "nothing at "+req.URL.Path+v.Path)
	})
	return sp
}

// requests; %d is the thread
var ccRequests = []string{
	"GET /s/x%d/1%d?q=%d",
	"POST /s/y%d/2%d q=f%d",
	"GET /f/z%d?q=%d gzip",
	"GET /r/e%d",
	"GET /r/shared",
	"GET /ret",
	"GET /raw",
	"GET /panic/p%d",
	"GET /wild/a%d/b%d",
	"GET /log/l%d id",
	"GET /log/l%d",
	"DELETE /s/none/%d",
	"GET /missing/%d gzip",
}

func ccRequest(k, thread int) *http.Request {
	f := strings.Fields(strings.ReplaceAll(ccRequests[k], "%d", fmt.Sprint(thread)))
	path, query, _ := strings.Cut(f[1], "?")
	req := newReq(f[0], path)
	req.URL.RawQuery = query
	req.Host = fmt.Sprintf("h%d.example", thread)
	req.RemoteAddr = fmt.Sprintf("192.0.2.%d:99", thread)
	req = req.WithContext(stdctx.Background())
	if len(f) > 2 {
		switch f[2] {
		case "gzip":
			req.Header.Set("Accept-Encoding", "gzip")
		case "id":
			req.Header.Set("X-Reqid", fmt.Sprintf("client-id-%d", thread))
		default:
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			req.Body = io.NopCloser(strings.NewReader(f[2]))
		}
	}
	return req
}

var ccTimes = regexp.MustCompile(`[0-9]+\.[0-9]+ms`)

func ccDescribe(r *rec, p interface{}, lines []string) string {
	body := r.body.String()
	if r.sent.Get("Content-Encoding") == "gzip" {
		z, err := gzip.NewReader(bytes.NewReader(r.body.Bytes()))
		if err == nil {
			var b []byte
			b, err = io.ReadAll(z)
			body = string(b)
		}
		if err != nil {
			body = "not gzip: " + err.Error()
		}
	}
	var hdr []string
	for k, v := range r.sent {
		if k != "X-Response-Time" {
			hdr = append(hdr, fmt.Sprint(k, v))
		}
	}
	sort.Strings(hdr)
	s := fmt.Sprintf("%d %v\n%s\npanic %v\n", r.code, hdr, body, p)
	for _, l := range lines {
		// a recovered panic is logged with the stack of the goroutine
		if i := strings.Index(l, "\n"); i >= 0 {
			l = l[:i]
		}
		s += l + "\n"
	}
	s = ccTimes.ReplaceAllString(s, "T")
	if id := r.sent.Get("X-Reqid"); id != "" && !strings.HasPrefix(id, "client") {
		s = strings.ReplaceAll(s, id, "ID")
	}
	return s
}

var ccSolo = map[[2]int]string{}

func ccAlone(k, thread int) string {
	key := [2]int{k, thread}
	if s, ok := ccSolo[key]; ok {
		return s
	}
	out := &ccOut{}
	r, p := serve(ccApp(out), ccRequest(k, thread))
	s := ccDescribe(r, p, out.lines[0])
	ccSolo[key] = s
	return s
}

// a family of executions
type ccMode struct {
	n      int
	coarse bool
	bound  int
	pairs  int
}

const (
	ccAllKinds = iota // every combination of request kinds
	ccSame            // requests of one kind
	ccFirst           // the first kind with every other
)

var ccQuick = []ccMode{{2, true, 1, ccAllKinds}, {2, false, 1, ccSame}, {2, false, 1, ccFirst}, {2, true, 2, ccSame}}
var ccThorough = []ccMode{{2, false, 1, ccAllKinds}, {2, true, 2, ccAllKinds}, {3, true, 1, ccAllKinds}, {3, true, 2, ccSame}}

func runRequests(x *mc.X) {
	modes := ccQuick
	if x.Thorough {
		modes = ccThorough
	}
	mode := modes[x.Choose(len(modes), "mode")]
	n, coarse, bound := mode.n, mode.coarse, mode.bound
	kinds := make([]int, n)
	switch mode.pairs {
	case ccSame:
		kinds[0] = x.Choose(len(ccRequests), "requests")
		for i := range kinds {
			kinds[i] = kinds[0]
		}
	case ccFirst:
		kinds[0] = 0
		kinds[1] = x.Choose(len(ccRequests), "request")
	default:
		from := 0
		for i := range kinds {
			kinds[i] = from + x.Choose(len(ccRequests)-from, "request")
			from = kinds[i]
		}
	}
	k := 0
	choose := func(n int, label string) int {
		if k == 2 {
			x.Ready()
		}
		k++
		return x.Choose(n, label)
	}
	want := make([]string, n)
	for i := range kinds {
		want[i] = ccAlone(kinds[i], i)
	}
	var trace func(string, ...interface{})
	if x.Verbose {
		trace = x.Logf
		for i, k := range kinds {
			x.Logf("request %d: %s", i, strings.ReplaceAll(ccRequests[k], "%d", fmt.Sprint(i)))
		}
	}
	out := &ccOut{}
	sp := ccApp(out)
	recs := make([]*rec, n)
	reqs := make([]*http.Request, n)
	panics := make([]interface{}, n)
	for i := range recs {
		recs[i] = newRec()
		reqs[i] = ccRequest(kinds[i], i)
	}
	s := vsched.New(choose, bound, trace)
	s.Coarse = coarse
	x.Defer(s.End)
	for i := range recs {
		i := i
		s.Go(fmt.Sprintf("request %d", i), func() {
			panics[i] = catch(func() { sp.ServeHTTP(recs[i], reqs[i]) })
		})
	}
	r := s.Run()
	x.Ready()
	x.Ops(s.Steps)
	if r.Panic != nil {
		if mc.Control(r.Panic) {
			panic(r.Panic)
		}
		x.Failf("panic", "%s: %v\n%s", r.PanicOf, r.Panic, r.Stack)
	}
	if r.Deadlock || r.Stuck {
		x.Failf("deadlock", "deadlock: %s", r.Blocked)
	}
	for i := range recs {
		got := ccDescribe(recs[i], panics[i], out.lines[i])
		x.State(got)
		if got != want[i] {
			x.Failf("isolation", "requests %v\nrequest %d (%s) was answered\n%s\nserved alone it is answered\n%s", kinds, i, ccRequests[kinds[i]], got, want[i])
		}
	}
	x.Statef("%v %d %d", kinds, s.Steps, s.Preemptions)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C11",
		Model: "the real request handling of one application under a controlled scheduler that enumerates all schedules up to a preemption bound, built with the race detector (hand-offs of the scheduler are hidden from it); every response and log line is compared with the request served alone",
		Assumptions: []string{
			"a data race is reported when two conflicting accesses of an explored execution are not ordered by synchronisation of the code itself",
			"net/http is replaced by direct calls of ServeHTTP",
		},
		Bounds: func(th bool) map[string]interface{} {
			ms := ccQuick
			if th {
				ms = ccThorough
			}
			var out []string
			for _, m := range ms {
				out = append(out, fmt.Sprintf("%d requests, %s, coarse %v, %d preemptions", m.n, []string{"every combination of kinds", "of one kind", "the first kind with every kind"}[m.pairs], m.coarse, m.bound))
			}
			return map[string]interface{}{"request kinds": len(ccRequests), "families": out,
				"scheduling points": "fine: every function entry of the framework and every call-out; coarse: every synchronisation operation and call-out"}
		},
		Run:          runRequests,
		Instrumented: true,
		MaxProcs:     1,
	})
}
