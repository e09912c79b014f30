package props

import (
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"strip.verif/mc"
	"strip.verif/vclock"
)

type rlLines struct{ lines []string }

func (p *rlLines) Print(v ...interface{}) { p.lines = append(p.lines, fmt.Sprint(v...)) }

// rlCase is one request and everything around it
type rlCase struct {
	ids    []string // X-Reqid of the client
	method string
	target string
	host   string
	remote string
	header map[string]string
	opt    reqlogger.LoggerOption
	reqid  string // request id filter
	prefix string // prefix filter
	beg    string // begin and end filter: "", "none", "change"
	inner  []string
	outer  bool // recovery outside the logger
	ops    []string
	form   string // action, struct, notfound
	nested bool
	failAt int
}

func (c *rlCase) String() string {
	return fmt.Sprintf("%s http://%s%s from %s, X-Reqid %q %v; options color %v line %v short %v flat %v stack %d reqid filter %q prefix %q begin/end filter %q; filters recovery outside: %v, inside: %v; handler (%s): %v", c.method, c.host, c.target, c.remote, c.ids, c.header,
		c.opt.ColorMode, c.opt.LineInfo, c.opt.ShortLine, c.opt.FlatLine, c.opt.LogStackLevel, c.reqid, c.prefix, c.beg, c.outer, c.inner, c.form, c.ops)
}

// rlSeen is what a handler saw of one request
type rlSeen struct {
	reqHeader []string
	logIds    []string
	logged    []string // the messages logged, in order
	panicked  bool
}

// rlWorld serves requests through one application
type rlWorld struct {
	x     *mc.X
	c     *rlCase
	out   rlLines
	sp    *strip.Strip
	seen  map[string]*rlSeen // by path
	inner *rec
	inReq *http.Request
}

type rlStruct struct {
	Log    strip.Logger        `inject`
	ReqLog strip.ReqLogger     `inject`
	Ctx    strip.Context       `inject`
	Rw     http.ResponseWriter `inject`
	Req    *http.Request       `inject`
	W      *rlWorld            `inject`
}

func (s *rlStruct) Get()  { s.W.handle(s.Log, s.ReqLog, s.Ctx, s.Rw, s.Req) }
func (s *rlStruct) Post() { s.W.handle(s.Log, s.ReqLog, s.Ctx, s.Rw, s.Req) }

func (w *rlWorld) handle(log strip.Logger, rlog strip.ReqLogger, ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	s := &rlSeen{reqHeader: req.Header.Values(reqlogger.HeaderReqid)}
	w.seen[req.URL.Path] = s
	s.logIds = append(s.logIds, rlog.ReqId())
	say := func(l strip.Logger) {
		m := fmt.Sprintf("message %d of %s", len(s.logged), req.URL.Path)
		s.logged = append(s.logged, m)
		l.Error(m)
	}
	if id, ok := log.(strip.ReqLogger); ok {
		s.logIds = append(s.logIds, id.ReqId())
	}
	if req.URL.Path == "/nested" {
		say(log)
		rw.Write([]byte("nested"))
		say(rlog)
		return
	}
	for _, op := range w.c.ops {
		switch op {
		case "say":
			say(log)
		case "log":
			say(log)
			say(rlog)
			say(helpers.GetLogger(req.Context()))
			say(helpers.GetLogger(ctx))
			var l strip.Logger
			if err := utils.CtxFindValue(ctx.GetContext(), &l); err != nil {
				w.x.Failf("context", "%v: no logger in the context: %v", w.c, err)
			}
			say(l)
			var p *strip.Logger
			utils.MustCtxFindValue(req.Context(), &p)
			say(*p)
			var found strip.ReqLogger
			if err := ctx.Find(&found, ""); err != nil {
				w.x.Failf("context", "%v: no request logger in the injector: %v", w.c, err)
			}
			say(found)
		case "404":
			rw.WriteHeader(404)
		case "201":
			rw.WriteHeader(201)
		case "body":
			rw.Write([]byte(strings.Repeat("b", 700)))
		case "empty":
			rw.Write(nil)
		case "flush":
			rw.(http.Flusher).Flush()
		case "set id":
			rw.Header().Set(reqlogger.HeaderReqid, "another-id-12345")
		case "add id":
			rw.Header().Add(reqlogger.HeaderReqid, "another-id-12345")
		case "edit request": // to call another service, say
			req.Header.Set(reqlogger.HeaderReqid, "another-id-12345")
			req.Header.Set("X-Real-Ip", "203.0.113.9")
			req.Method, req.Host = "PUT", "other.example"
			req.URL = &url.URL{Path: "/other"}
			req.RequestURI = "/other"
		case "del id":
			rw.Header().Del(reqlogger.HeaderReqid)
		case "set time":
			rw.Header().Set(reqlogger.HeaderResponseTime, "1ms")
		case "wait":
			vclock.Add(1234567 * time.Microsecond)
		case "nested":
			w.inReq = newReq("GET", "/nested")
			w.inReq.Header.Set(reqlogger.HeaderReqid, "nested-id-0")
			w.inner = newRec()
			w.sp.ServeHTTP(w.inner, w.inReq)
		case "broken":
			rw.Write([]byte(strings.Repeat("c", 500)))
		case "panic":
			s.panicked = true
			panic("handler")
		}
	}
}

func (w *rlWorld) filter(name string) interface{} {
	switch name {
	case "recovery":
		return strip.RecoveryFilter()
	case "gzip":
		return gzip.All()
	}
	return strip.GenericOutFilter()
}

var (
	rlEnd  = regexp.MustCompile(`^\[REQ_END\] ([0-9]+) ([0-9.]+)k ([0-9.]+)ms$`)
	rlTime = regexp.MustCompile(`^([0-9.]+)ms$`)
)

func rlNear(a string, b, by float64) bool {
	f, err := strconv.ParseFloat(a, 64)
	return err == nil && f-b < by && b-f < by
}

func rlRun(x *mc.X, c *rlCase) {
	x.Op()
	vclock.Set(epoch.Add(12345))
	w := &rlWorld{x: x, c: c, seen: map[string]*rlSeen{}}
	sp := newApp()
	w.sp = sp
	sp.Provide(w)
	c.opt.ReqidFilter, c.opt.PrefixFilter, c.opt.ReqBegFilter, c.opt.ReqEndFilter = nil, nil, nil, nil
	if c.reqid != "" {
		c.opt.ReqidFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, id string) string {
			return c.reqid + id
		}
	}
	if c.prefix != "" {
		c.opt.PrefixFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string {
			return s + c.prefix
		}
	}
	if c.beg != "" {
		c.opt.ReqBegFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string {
			if c.beg == "none" {
				return ""
			}
			return s + " more"
		}
		c.opt.ReqEndFilter = c.opt.ReqBegFilter
	}
	if c.outer {
		sp.Filter(strip.RecoveryFilter())
	}
	sp.Filter(reqlogger.ReqLoggerFilter(&w.out, c.opt))
	for _, f := range c.inner {
		sp.Filter(w.filter(f))
	}
	sp.NotFound(w.handle)
	switch c.form {
	case "action":
		sp.Routers(strip.Router("/a", strip.Get(w.handle), strip.Post(w.handle)), strip.Router("/nested", strip.Get(w.handle)))
	case "struct":
		sp.Routers(strip.Router("/a", strip.All(&rlStruct{})), strip.Router("/nested", strip.Get(&rlStruct{})))
	}

	u, err := url.ParseRequestURI(c.target)
	if err != nil {
		panic(err)
	}
	req := newReq(c.method, "")
	req.URL, req.Host, req.RemoteAddr = u, c.host, c.remote
	req.RequestURI = c.target
	for k, v := range c.header {
		req.Header.Set(k, v)
	}
	for _, id := range c.ids {
		req.Header.Add(reqlogger.HeaderReqid, id)
	}
	req.Header.Set("Accept-Encoding", "gzip")
	start := vclock.Now()
	wrote := -1.0 // elapsed when the head was sent
	r := newRec()
	tr := &rlTimed{rec: r, start: start, at: &wrote}
	if len(c.ops) > 0 && c.ops[0] == "broken" {
		r.failNext = 100
	}
	if p := catch(func() { sp.ServeHTTP(tr, req) }); p != nil {
		x.Failf("panic", "%v: panic %v", c, p)
	}
	total := float64(vclock.Now().Sub(start).Nanoseconds()) / 1e6

	// the id
	client := ""
	if len(c.ids) > 0 {
		client = c.ids[0]
	}
	id := r.sent.Get(reqlogger.HeaderReqid)
	if l := len(client); l >= 10 && l <= 32 {
		if id != c.reqid+client {
			x.Failf("id", "%v: the id is %q", c, id)
		}
	} else {
		fresh, ok := strings.CutPrefix(id, c.reqid)
		if _, ns := reqlogger.DecodeReqId(fresh); !ok || ns != start.UnixNano() {
			x.Failf("id", "%v: the id is %q, not a new one", c, id)
		}
	}
	w.one(r, id, start, wrote, total, u.Path, fmt.Sprintf("%s %s%s %s", c.method, c.host, c.target, rqAddr(c)), c.outer && !contains(c.inner, "recovery"))
	if w.inner != nil {
		w.one(w.inner, c.reqid+"nested-id-0", start, -1, -1, "/nested", "GET host.example/nested 192.0.2.1", false)
	}
	n := 0
	for _, s := range w.seen {
		n += len(s.logged)
		if s.panicked {
			n++
		}
	}
	if c.beg != "none" {
		n += 2 * len(w.seen)
		if s := w.seen[u.Path]; s != nil && s.panicked && !contains(c.inner, "recovery") {
			n--
		}
	}
	if len(w.out.lines) != n {
		x.Failf("lines", "%v: %d lines logged, want %d: %q", c, len(w.out.lines), n, w.out.lines)
	}
	x.Statef("%v %d %d", c, r.code, r.body.Len())
}

func contains(ss []string, s string) bool {
	for _, t := range ss {
		if s == t {
			return true
		}
	}
	return false
}

// rlTimed notes when the head is sent
type rlTimed struct {
	*rec
	start time.Time
	at    *float64
}

func (t *rlTimed) note() {
	if t.rec.heads == 0 {
		*t.at = float64(vclock.Now().Sub(t.start).Nanoseconds()) / 1e6
	}
}
func (t *rlTimed) WriteHeader(code int)        { t.note(); t.rec.WriteHeader(code) }
func (t *rlTimed) Write(b []byte) (int, error) { t.note(); return t.rec.Write(b) }
func (t *rlTimed) Flush()                      { t.note(); t.rec.Flush() }

// the address the request comes from
func rqAddr(c *rlCase) string {
	if a := c.header["X-Real-Ip"]; a != "" {
		return a
	}
	if a := c.header["X-Forwarded-For"]; a != "" {
		return strings.Split(a, ",")[0]
	}
	if h, _, ok := strings.Cut(c.remote, ":"); ok {
		return h
	}
	return c.remote
}

// one judges one request: its response, what its handler saw and its lines
func (w *rlWorld) one(r *rec, id string, start time.Time, wrote, total float64, path, what string, outside bool) {
	x, c := w.x, w.c
	if ids := r.sent.Values(reqlogger.HeaderReqid); len(ids) != 1 || ids[0] != id {
		x.Failf("id", "%v: response of %s has the ids %q, want %q", c, path, ids, id)
	}
	t := r.sent.Values(reqlogger.HeaderResponseTime)
	if len(t) != 1 || rlTime.FindStringSubmatch(t[0]) == nil {
		x.Failf("time", "%v: response of %s has the times %q", c, path, t)
	}
	if wrote >= 0 && !rlNear(rlTime.FindStringSubmatch(t[0])[1], wrote, 0.0006) {
		x.Failf("time", "%v: response of %s after %vms has the time %q", c, path, wrote, t)
	}
	s := w.seen[path]
	if s == nil {
		x.Failf("handler", "%v: the handler of %s did not run", c, path)
	}
	if len(s.reqHeader) != 1 || s.reqHeader[0] != id {
		x.Failf("id", "%v: the handler of %s sees the ids %q, want %q", c, path, s.reqHeader, id)
	}
	if len(s.logIds) != 2 || s.logIds[0] != id || s.logIds[1] != id {
		x.Failf("id", "%v: the loggers of %s have the ids %q, want %q", c, path, s.logIds, id)
	}
	// the lines of this request
	var lines []string
	for _, l := range w.out.lines {
		plain := lgColor.ReplaceAllString(l, "")
		if c.opt.ColorMode != (plain != l) {
			x.Failf("lines", "%v: line %q", c, l)
		}
		if strings.Contains(plain, "["+id+"]") {
			lines = append(lines, plain)
		}
	}
	want := append([]string{}, s.logged...)
	tags := make([]string, len(want))
	for i := range tags {
		tags[i] = "[ERROR]"
	}
	if s.panicked {
		want, tags = append(want, "PANIC"), append(tags, "[ERROR]")
	}
	more := ""
	if c.beg == "change" {
		more = " more"
	}
	if c.beg != "none" {
		want, tags = append([]string{"[REQ_BEG] " + what + more}, want...), append([]string{"[INFO]"}, tags...)
		if !s.panicked || !outside {
			want, tags = append(want, "[REQ_END]"), append(tags, "[INFO]")
		}
	}
	if len(lines) != len(want) {
		x.Failf("lines", "%v: request %s logs %q, want %q", c, path, lines, want)
	}
	for i, l := range lines {
		rest, ok := strings.CutPrefix(l, tags[i]+"["+id+"]"+c.prefix)
		if !ok {
			x.Failf("head", "%v: line %q, want the id %q and the prefix %q", c, l, id, c.prefix)
		}
		if tags[i] == "[ERROR]" && c.opt.LineInfo {
			loc := lgLine.FindString(rest)
			if loc == "" {
				x.Failf("head", "%v: line %q without the position", c, l)
			}
			rest = rest[len(loc):]
		}
		if c.opt.FlatLine && strings.Contains(rest, "\n") {
			x.Failf("head", "%v: line %q", c, l)
		}
		rest, ok = strings.CutPrefix(rest, " ")
		if want[i] == "PANIC" {
			if !strings.HasPrefix(rest, "PANIC") {
				x.Failf("lines", "%v: line %q, want the panic", c, l)
			}
			continue
		}
		nl := "\n"
		if c.opt.FlatLine {
			nl = "\\n"
		}
		text, stack, more := strings.Cut(rest, nl)
		level := strip.LevelError
		if tags[i] == "[INFO]" {
			level = strip.LevelInformational
		}
		if stacked := c.opt.LogStackLevel >= level; stacked != strings.Contains(stack, ".go:") || !stacked && stack != "" || !ok || !more && !c.opt.FlatLine {
			x.Failf("lines", "%v: line %q", c, l)
		}
		if want[i] != "[REQ_END]" {
			if text != want[i] {
				x.Failf("lines", "%v: line %q, want %q", c, l, want[i])
			}
			continue
		}
		if c.beg == "change" {
			text, ok = strings.CutSuffix(text, " more")
			if !ok {
				x.Failf("lines", "%v: end line %q without the change of the filter", c, l)
			}
		}
		m := rlEnd.FindStringSubmatch(text)
		if m == nil || m[1] != fmt.Sprint(r.code) || !rlNear(m[2], float64(r.body.Len())/1024, 0.0006) || total >= 0 && !rlNear(m[3], total, 0.0006) {
			x.Failf("end", "%v: end line %q after sending status %d and %d bytes in %vms", c, l, r.code, r.body.Len(), total)
		}
	}
}

func rlBase() *rlCase {
	return &rlCase{method: "GET", target: "/a", host: "h.example", remote: "192.0.2.7:99", form: "action"}
}

var rlOps = []string{"log", "404", "201", "body", "empty", "flush", "set id", "add id", "del id", "edit request", "set time", "wait", "nested", "panic"}

var rlInner = [][]string{{}, {"recovery"}, {"out"}, {"gzip"}, {"recovery", "gzip"}, {"gzip", "recovery", "out"}, {"out", "recovery", "gzip"}}

func rlHas(ops []string, s string) int {
	n := 0
	for _, o := range ops {
		if o == s {
			n++
		}
	}
	return n
}

func rlId(n int, kind int) string {
	return strings.Repeat([]string{"a", "0", " ", "%", "-"}[kind], n)
}

func rlIds(x *mc.X) {
	c := rlBase()
	n := x.Choose(46, "length")
	if n == 45 {
		n = 1000
	}
	kind := x.Choose(5, "character")
	x.Ready()
	if n > 0 {
		id := rlId(n, kind)
		c.ids = []string{id}
		switch x.Choose(3, "how many") {
		case 1:
			c.ids = append(c.ids, "second-id-9876")
		case 2:
			c.ids = append([]string{"short"}, id)
		}
	}
	c.reqid = mc.Pick(x, "request id filter", []string{"", "f-", "a-long-prefix-of-more-than-32-characters-"})
	c.form = mc.Pick(x, "handler", []string{"action", "struct", "notfound"})
	c.ops = mc.Pick(x, "operations", [][]string{{"log"}, {"del id", "body"}, {"log", "nested", "log"}})
	rlRun(x, c)
}

func rlShapes(x *mc.X) {
	c := rlBase()
	c.form = mc.Pick(x, "handler", []string{"action", "struct", "notfound"})
	c.method = mc.Pick(x, "method", []string{"GET", "POST", "HEAD", "PATCH", "X"})
	c.target = mc.Pick(x, "target", []string{"/a", "/a?q=1&r=%20", "/%0A", "/a%2Fb", "/%25d?%s%v", "/a/", "/é?"})
	x.Ready()
	c.host = mc.Pick(x, "host", []string{"h.example", "h.example:80", "[2001:db8::1]:8080", "", "%s"})
	c.remote = mc.Pick(x, "remote", []string{"192.0.2.7:99", "192.0.2.7", ":1"})
	switch x.Choose(4, "forwarded") {
	case 1:
		c.header = map[string]string{"X-Forwarded-For": "198.51.100.1, 10.0.0.1"}
	case 2:
		c.header = map[string]string{"X-Real-Ip": "198.51.100.2"}
	case 3:
		c.header = map[string]string{"X-Real-Ip": "198.51.100.2", "X-Forwarded-For": "198.51.100.1"}
	}
	if c.remote == ":1" && c.header == nil || strings.HasPrefix(c.target, "/é") {
		return // no address; the URL is not the one sent
	}
	if c.form != "notfound" && (c.method == "PATCH" || c.method == "X") || c.form == "struct" && c.method == "HEAD" {
		c.form = "notfound"
	}
	if c.method != "X" {
		c.ops = mc.Pick(x, "operations", [][]string{nil, {"404", "body"}, {"wait"}})
	}
	rlRun(x, c)
}

func rlHandlers(x *mc.X) {
	c := rlBase()
	max := 3
	if x.Thorough {
		max = 4
	}
	c.inner = mc.Pick(x, "filters", rlInner)
	n := x.Choose(max+1, "operations")
	for i := 0; i < n; i++ {
		c.ops = append(c.ops, mc.Pick(x, "operation", rlOps))
		if i == 0 {
			x.Ready()
		}
		if c.ops[i] == "panic" && i < n-1 {
			return // the others do not happen
		}
	}
	if n == 0 {
		x.Ready()
	}
	c.outer = x.Bool("recovery outside")
	if c.outer && contains(c.inner, "recovery") || rlHas(c.ops, "nested") > 1 || rlHas(c.ops, "panic") == 1 && !c.outer && !contains(c.inner, "recovery") || rlHas(c.ops, "panic") > 1 {
		return
	}
	c.form = mc.Pick(x, "handler", []string{"action", "struct", "notfound"})
	rlRun(x, c)
}

func rlOptions(x *mc.X) {
	c := rlBase()
	c.ops = mc.Pick(x, "operations", [][]string{{}, {"log"}, {"404", "wait", "log"}, {"log", "body", "nested", "wait"}, {"log", "panic"}, {"broken", "log"}})
	c.form = mc.Pick(x, "handler", []string{"action", "struct", "notfound"})
	x.Ready()
	c.inner = []string{"recovery"}
	c.opt.ColorMode = x.Bool("colour")
	c.opt.LineInfo = x.Bool("line")
	c.opt.ShortLine = x.Bool("short")
	c.opt.FlatLine = x.Bool("flat")
	c.opt.LogStackLevel = mc.Pick(x, "stack", []strip.Level{0, strip.LevelCritical, strip.LevelError, strip.LevelInformational, strip.LevelDebug})
	c.reqid = mc.Pick(x, "request id filter", []string{"", "f-"})
	c.prefix = mc.Pick(x, "prefix", []string{"", "[p]", "%d"})
	if c.opt.LogStackLevel > 0 && len(c.ops) > 0 { // stacks are slow
		if c.ops = []string{"say"}; c.form == "struct" {
			return
		}
	}
	c.beg = mc.Pick(x, "begin and end filter", []string{"", "none", "change"})
	c.ids = mc.Pick(x, "id", [][]string{nil, {"client-id-1"}})
	rlRun(x, c)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C25",
		Model: "one id per request, and the lines the request must log, computed from the request, the handler's operations and what the connection received",
		Assumptions: []string{
			"the request logger is outside of every filter that changes the response except recovery; a hijacked connection is not logged about",
			"ids are made at different instants; client ids are ASCII; the request id filter returns a text",
			"a panic that no filter inside the request logger recovers from is not a normal completion",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"client id length": "0-44, 1000", "handler operations": map[bool]int{true: 4, false: 3}[th], "operation kinds": len(rlOps), "inner filter chains": len(rlInner), "options": "all combinations"}
		},
		Run: func(x *mc.X) {
			switch x.Choose(4, "mode") {
			case 0:
				rlIds(x)
			case 1:
				rlShapes(x)
			case 2:
				rlHandlers(x)
			case 3:
				rlOptions(x)
			}
		},
	})
}
