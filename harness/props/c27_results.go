package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/apires"
	"strip.verif/mc"
)

// grStream is a stream that counts how often it is closed
type grStream struct {
	text   string
	end    error // instead of io.EOF
	crash  bool  // panics instead of an end
	closed int
	late   int // reads after the close
}

func (s *grStream) Read(b []byte) (int, error) {
	if s.closed > 0 {
		s.late++
	}
	if s.text == "" {
		if s.crash {
			panic("stream")
		}
		if s.end != nil {
			return 0, s.end
		}
		return 0, io.EOF
	}
	n := copy(b, s.text[:min(len(s.text), 700)])
	s.text = s.text[n:]
	return n, nil
}

func (s *grStream) Close() error { s.closed++; return nil }

type grReader struct{ s *grStream }

func (r grReader) Read(b []byte) (int, error) { return r.s.Read(b) }

// read by value, closed by pointer
type grWrap struct {
	io.Reader
	s *grStream
}

func (r *grWrap) Close() error { return r.s.Close() }

func grWrapped(s *grStream) interface{} { return &grWrap{grReader{s}, s} }
func grValueOf(s *grStream) interface{} { return grWrap{grReader{s}, s} }

type grResult struct {
	status int
	body   string
}

func (r *grResult) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	if r.status != 0 {
		rw.WriteHeader(r.status)
	}
	io.WriteString(rw, r.body+" of "+req.URL.Path)
}

func (r *grResult) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	rw.Write([]byte("as a handler"))
}

type grHandler struct {
	status int
	body   string
}

func (h *grHandler) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	rw.Header().Set("X-Handler", "yes")
	if h.status != 0 {
		rw.WriteHeader(h.status)
	}
	if h.body != "" {
		rw.Write([]byte(h.body + " of " + req.URL.Path))
	}
}

type (
	grName  string
	grBytes []byte
	grThing struct{ A, B int }
)

// grWant is the response a result stands for
type grWant struct {
	status int         // 0: none of its own
	body   string      // exact body
	json   interface{} // or JSON of this
	bad    bool        // or a JSON object telling that there is no JSON
	stream *grStream
	header string
	crash  bool
	nobody bool // 204
	api    bool
	once   bool
	fails  bool // the stream ends in an error
}

type grLines struct{ lines []string }

func (l *grLines) Print(v ...interface{}) { l.lines = append(l.lines, fmt.Sprint(v...)) }

// grCase is one kind of result: its type, a maker of values, and both kinds of actions returning it
type grCase struct {
	name string
	make func() (reflect.Value, grWant)
	typ  reflect.Type
	one  func(g *grRun) interface{} // struct actions with the result alone and with a status
	two  func(g *grRun) interface{}
}

type grRun struct {
	val  reflect.Value
	code int
	own  string
}

// act is what the action does itself
func (g *grRun) act(rw http.ResponseWriter) {
	switch g.own {
	case "header":
		rw.Header().Set("X-Own", "yes")
	case "status":
		rw.WriteHeader(202)
	case "body":
		rw.Write([]byte("own"))
	case "empty":
		rw.Write(nil)
	case "both":
		rw.WriteHeader(418)
		rw.Write([]byte("own"))
	case "flush":
		rw.(http.Flusher).Flush()
	}
}

func grOwn(own string) (written bool, status int, body string) {
	switch own {
	case "status":
		return true, 202, ""
	case "body":
		return true, 200, "own"
	case "empty", "flush":
		return true, 200, ""
	case "both":
		return true, 418, "own"
	}
	return false, 0, ""
}

type grOne[T any] struct {
	G  *grRun              `inject`
	Rw http.ResponseWriter `inject`
}

func (s *grOne[T]) Get() (v T) {
	s.G.act(s.Rw)
	if s.G.val.IsValid() {
		reflect.ValueOf(&v).Elem().Set(s.G.val)
	}
	return
}

type grTwo[T any] struct {
	G  *grRun              `inject`
	Rw http.ResponseWriter `inject`
}

func (s *grTwo[T]) Get() (v T, code int) {
	s.G.act(s.Rw)
	if s.G.val.IsValid() {
		reflect.ValueOf(&v).Elem().Set(s.G.val)
	}
	return v, s.G.code
}

func grOf[T any](name string, f func() (T, grWant)) grCase {
	return grCase{name,
		func() (reflect.Value, grWant) {
			v, w := f()
			return reflect.ValueOf(&v).Elem(), w
		},
		reflect.TypeOf((*T)(nil)).Elem(),
		func(g *grRun) interface{} { return &grOne[T]{} },
		func(g *grRun) interface{} { return &grTwo[T]{} },
	}
}

func grVal[T any](name string, v T, w grWant) grCase {
	return grOf(name, func() (T, grWant) { return v, w })
}

// grStreamCase makes a fresh stream for every response, as type T
func grStreamCase[T any](name string, s grStream, conv func(*grStream) interface{}, closes bool) grCase {
	return grOf(name, func() (v T, w grWant) {
		n := s
		w.body, w.crash = n.text, n.crash
		if closes {
			w.stream = &n
		}
		reflect.ValueOf(&v).Elem().Set(reflect.ValueOf(conv(&n)))
		return
	})
}

func grMe(s *grStream) interface{}   { return s }
func grOnly(s *grStream) interface{} { return grReader{s} }

// grAny are the kinds also returned as interface{}
func grAny(cs ...grCase) []grCase {
	out := append([]grCase{}, cs...)
	for _, c := range cs {
		c := c
		if c.typ.Kind() == reflect.Int {
			continue
		}
		n := grOf("interface{} of "+c.name, func() (interface{}, grWant) {
			v, w := c.make()
			if v.Kind() == reflect.Interface && v.IsNil() {
				return nil, w
			}
			return v.Interface(), w
		})
		out = append(out, n)
	}
	return out
}

func grLong(n int) string { return strings.Repeat("0123456789abcdef", n) }

type grJson struct{ err error }

func (j grJson) MarshalJSON() ([]byte, error) { return []byte(`{"own":[1,2]}`), j.err }

var grBodies = []struct {
	v   interface{}
	bad bool
}{
	{nil, false}, {grThing{1, 2}, false}, {&grThing{3, 4}, false}, {map[string]interface{}{"k": []int{1}, "<&>": nil}, false}, {[]string{}, false}, {"text \"q\" <b>\u2028", false}, {7, false}, {true, false},
	{grJson{}, false}, {grJson{errors.New("failed \"so\"\n")}, true}, {make(chan int), true}, {map[string]interface{}{"f": func() {}}, true}, {json.RawMessage(`{"raw": 1}`), false}, {struct{}{}, false}, {"", false},
}

var grCases = func() []grCase {
	errStream := errors.New("broken stream")
	out := grAny(
		grVal("text", "text", grWant{body: "text"}),
		grVal("empty text", "", grWant{}),
		grVal("long text", grLong(3000), grWant{body: grLong(3000)}),
		grVal("text of formats", "%s %d\n\x00é", grWant{body: "%s %d\n\x00é"}),
		grVal("bytes", []byte("b\x00\xff"), grWant{body: "b\x00\xff"}),
		grVal("no bytes", []byte{}, grWant{}),
		grVal("nil bytes", []byte(nil), grWant{}),
		grVal[io.Reader]("nil reader", nil, grWant{}),
		grVal[io.Reader]("nil buffer", (*bytes.Buffer)(nil), grWant{}),
		grVal("nil buffer pointer", (*bytes.Buffer)(nil), grWant{}),
		grVal[io.ReadCloser]("nil stream", (*grStream)(nil), grWant{}),
		grVal[http.Handler]("nil handler", nil, grWant{}),
		grVal[http.Handler]("nil handler pointer", (*grHandler)(nil), grWant{}),
		grVal("nil handler function", http.HandlerFunc(nil), grWant{}),
		grVal[http.Handler]("nil handler function as handler", http.HandlerFunc(nil), grWant{}),
		grVal[strip.ActionResult]("nil result", nil, grWant{}),
		grVal[strip.ActionResult]("nil result pointer", (*grResult)(nil), grWant{}),
		grVal[error]("nil error", nil, grWant{}),
		grVal[error]("nil api error as error", (*apires.ResError)(nil), grWant{}),
		grVal("nil api error", (*apires.ResError)(nil), grWant{}),
		grVal("nil api body", (*apires.ResBody)(nil), grWant{}),
		grVal[strip.ActionResult]("nil raw body", (*apires.RawBody)(nil), grWant{}),
		grVal[error]("error", errors.New("e"), grWant{}),
		grVal("structure", grThing{1, 2}, grWant{}),
		grVal("pointer", &grThing{1, 2}, grWant{}),
		grVal("map", map[string]int{"a": 1}, grWant{}),
		grVal("nil map", map[string]int(nil), grWant{}),
		grVal("boolean", true, grWant{}),
		grVal("float", 1.5, grWant{}),
		grVal("int64", int64(404), grWant{}),
		grVal("uint", uint(404), grWant{}),
		grVal("channel", make(chan int), grWant{}),
		grVal("function", func() {}, grWant{}),
		grVal("array", [2]byte{1, 2}, grWant{}),
		grVal("api body by value", apires.ResBody{Status: 404, Body: 1}, grWant{}),
		grVal[http.Handler]("handler with status", &grHandler{202, "handled"}, grWant{status: 202, body: "handled of /a", header: "X-Handler"}),
		grVal("handler", &grHandler{0, "handled"}, grWant{body: "handled of /a", header: "X-Handler"}),
		grVal("handler with status only", &grHandler{304, ""}, grWant{status: 304, header: "X-Handler"}),
		grVal[http.Handler]("handler that does nothing", &grHandler{}, grWant{header: "X-Handler"}),
		grVal("handler function", http.HandlerFunc((&grHandler{0, "func"}).ServeHTTP), grWant{body: "func of /a", header: "X-Handler"}),
		grVal("result", &grResult{0, "result"}, grWant{body: "result of /a"}),
		grVal[strip.ActionResult]("result with status", &grResult{409, "result"}, grWant{status: 409, body: "result of /a"}),
		grOf("buffer", func() (*bytes.Buffer, grWant) { return bytes.NewBufferString("buffer"), grWant{body: "buffer"} }),
		grOf("string reader", func() (io.Reader, grWant) { return strings.NewReader(grLong(2500)), grWant{body: grLong(2500)} }),
		grStreamCase[io.Reader]("reader", grStream{text: "read"}, grOnly, false),
		grStreamCase[io.Reader]("stream as reader", grStream{text: "read"}, grMe, true),
		grStreamCase[io.ReadCloser]("stream", grStream{text: grLong(400)}, grMe, true),
		grStreamCase[*grStream]("stream pointer", grStream{text: "read"}, grMe, true),
		grStreamCase[*grWrap]("wrapped stream", grStream{text: "read"}, grWrapped, true),
		grStreamCase[io.Reader]("wrapped stream as reader", grStream{text: "read"}, grWrapped, true),
		grStreamCase[grWrap]("wrapped stream by value", grStream{text: "read"}, grValueOf, false),
		grStreamCase[io.ReadCloser]("empty stream", grStream{}, grMe, true),
		grStreamCase[io.ReadCloser]("broken stream", grStream{text: grLong(100), end: errStream}, grMe, true),
		grStreamCase[io.ReadCloser]("crashing stream", grStream{text: "part", crash: true}, grMe, true),
		grStreamCase[io.ReadCloser]("stream crashing at once", grStream{crash: true}, grMe, true),
	)
	return out
}()

// api results
var grApiCases = func() (out []grCase) {
	errStream := errors.New("broken stream")
	var cs []grCase
	for _, status := range []int{0, 200, 201, 204, 404, 500} {
		status := status
		sent := status
		if sent == 0 {
			sent = 200
		}
		for i, b := range grBodies {
			b := b
			body := b.v
			if body == nil {
				body = struct{}{}
			}
			w := grWant{status: sent, json: body, bad: b.bad, nobody: sent == 204, api: true}
			jw := w
			cs = append(cs, grOf(fmt.Sprintf("api body %d with status %d", i, status), func() (*apires.ResBody, grWant) {
				if status == 0 {
					return &apires.ResBody{Body: b.v}, jw
				}
				if b.v == nil {
					return apires.Ret(status), jw
				}
				if status == 200 {
					return apires.With(b.v), jw
				}
				return apires.With(b.v, status), jw
			}))
			switch v := b.v.(type) {
			case nil:
				w.json, w.bad = nil, false
			case string:
				w.json, w.body = nil, v
			case json.RawMessage:
				continue
			}
			cs = append(cs, grOf(fmt.Sprintf("raw body %d with status %d", i, status), func() (strip.ActionResult, grWant) {
				if status == 0 {
					return &apires.RawBody{Body: b.v}, w
				}
				if b.v == nil {
					return apires.RawRet(status), w
				}
				if status == 200 {
					return apires.RawWith(b.v), w
				}
				return apires.RawWith(b.v, status), w
			}))
		}
		for i, s := range []grStream{{text: "read"}, {}, {text: grLong(900)}, {text: "part", end: errStream}, {text: "part", crash: true}} {
			s := s
			w := grWant{status: sent, body: s.text, nobody: sent == 204, api: true, once: true, crash: s.crash && sent != 204, fails: s.end != nil}
			cs = append(cs, grOf(fmt.Sprintf("raw stream %d with status %d", i, status), func() (*apires.RawBody, grWant) {
				n, w := s, w
				w.stream = &n
				return &apires.RawBody{Status: status, Body: &n}, w
			}), grOf(fmt.Sprintf("raw reader %d with status %d", i, status), func() (*apires.RawBody, grWant) {
				n := s
				return &apires.RawBody{Status: status, Body: grReader{&n}}, w
			}))
		}
		cs = append(cs, grVal("raw bytes", apires.RawWith([]byte("b\x00\xff"), sent), grWant{status: sent, body: "b\x00\xff", nobody: sent == 204, api: true}),
			grVal("raw no bytes", apires.RawWith([]byte(nil), sent), grWant{status: sent, nobody: sent == 204, api: true}))
	}
	return grAny(cs...)
}()

// grServe lets an action return the result and judges the response
func grServe(x *mc.X, desc string, mode strip.Mode, place, form string, c *grCase, g *grRun, w grWant) {
	x.Op()
	sp := newApp()
	logged := &grLines{}
	sp.SetLogger(strip.NewLogger(logged))
	sp.Config.RunMode = mode
	sp.Provide(g)
	ran := 0
	var act interface{}
	switch {
	case form == "struct" && g.code == 0:
		act = c.one(g)
	case form == "struct":
		act = c.two(g)
	default:
		outs := []reflect.Type{c.typ}
		if g.code != 0 {
			outs = append(outs, reflect.TypeOf(0))
		}
		in := reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()
		act = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{in}, outs, false), func(a []reflect.Value) []reflect.Value {
			ran++
			g.act(a[0].Interface().(http.ResponseWriter))
			res := []reflect.Value{g.val}
			if g.code != 0 {
				res = append(res, reflect.ValueOf(g.code))
			}
			return res
		}).Interface()
	}
	sp.Filter(strip.RecoveryFilter())
	route := []strip.Handler{strip.Get(act)}
	if place == "app" {
		sp.Filter(strip.GenericOutFilter())
	} else {
		route = append([]strip.Handler{strip.Filter(strip.GenericOutFilter())}, route...)
	}
	sp.Routers(strip.Router("/a", route...))
	r, p := serve(sp, newReq("GET", "/a"))
	if p != nil {
		x.Failf("panic", "%s: panic %v", desc, p)
	}
	own, status, body := grOwn(g.own)
	lines := 0
	if !own && !w.nobody && (w.bad || w.fails) {
		lines = 1 // an api result that can not be written whole
	}
	if !w.crash && len(logged.lines) != lines {
		x.Failf("log", "%s: logged %.400q, want %d lines", desc, logged.lines, lines)
	}
	if form != "struct" && ran != 1 {
		x.Failf("action", "%s: the action ran %d times", desc, ran)
	}
	if r.heads != 1 {
		x.Failf("heads", "%s: %d heads sent", desc, r.heads)
	}
	if own {
		if r.code != status || r.body.String() != body {
			x.Failf("own", "%s: the action sent %d %q, the response is %d %.300q", desc, status, body, r.code, r.body.String())
		}
		if w.stream != nil && w.stream.closed > 1 {
			x.Failf("close", "%s: stream closed %d times", desc, w.stream.closed)
		}
		return
	}
	if g.own == "header" && r.sent.Get("X-Own") != "yes" {
		x.Failf("header", "%s: the header set by the action is gone: %v", desc, r.sent)
	}
	if w.stream != nil && (w.stream.closed != 1 || w.stream.late > 0) {
		x.Failf("close", "%s: stream closed %d times, read %d times after it", desc, w.stream.closed, w.stream.late)
	}
	status = 200
	if g.code != 0 {
		status = g.code
	}
	if w.status != 0 {
		status = w.status // an api result or handler has the last word
	}
	if w.crash {
		if w.body == "" && !w.api && g.code == 0 {
			status = 500
		} else if w.body == "" {
			status = r.code
		}
		if r.code != status {
			x.Failf("crash", "%s: status %d", desc, r.code)
		}
		return
	}
	if r.code != status {
		x.Failf("status", "%s: status %d, want %d (body %.300q)", desc, r.code, status, r.body.String())
	}
	if w.header != "" && r.sent.Get(w.header) == "" {
		x.Failf("header", "%s: the header of the handler is gone: %v", desc, r.sent)
	}
	got := r.body.Bytes()
	if w.nobody {
		if len(got) != 0 {
			x.Failf("body", "%s: body %.300q, want none", desc, got)
		}
		return
	}
	if w.json == nil {
		if string(got) != w.body {
			x.Failf("body", "%s: body %.300q, want %.300q", desc, got, w.body)
		}
		return
	}
	if ct := r.sent.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		x.Failf("json", "%s: content type %q", desc, ct)
	}
	var have, want interface{}
	if err := json.Unmarshal(got, &have); err != nil {
		x.Failf("json", "%s: body %.300q: %v", desc, got, err)
	}
	if w.bad {
		m, _ := have.(map[string]interface{})
		if m["message"] == nil || m["code"] != 500.0 {
			x.Failf("json", "%s: body %.300q, want an error", desc, got)
		}
		return
	}
	text, err := json.Marshal(w.json)
	if err != nil {
		panic(err)
	}
	json.Unmarshal(text, &want)
	if !reflect.DeepEqual(have, want) {
		x.Failf("json", "%s: body %.300q, want %.300q", desc, got, text)
	}
}

var grModes = []strip.Mode{strip.ModeProd, strip.ModeDev, strip.ModeTest}

func grKinds(x *mc.X, cases []grCase, api bool) {
	c := &cases[x.Choose(len(cases), "result")]
	x.Ready()
	form := mc.Pick(x, "action", []string{"function", "struct"})
	mode := mc.Pick(x, "mode", grModes)
	place := mc.Pick(x, "filter", []string{"app", "route"})
	g := &grRun{}
	g.own = mc.Pick(x, "action itself", []string{"", "header", "status", "body", "empty", "both", "flush"})
	if !api {
		g.code = mc.Pick(x, "status", []int{0, 200, 201, 404, 599})
	}
	for i := 0; i < 2; i++ { // a result can be returned again
		var w grWant
		if i == 0 || !api {
			g.val, w = c.make()
		} else {
			_, w = c.make()
		}
		desc := fmt.Sprintf("%s action in mode %s with the filter for the %s that does itself %q and returns %s with status %d, time %d", form, mode, place, g.own, c.name, g.code, i+1)
		if w.once && i == 1 {
			break // already read
		}
		grServe(x, desc, mode, place, form, c, g, w)
		x.State(desc)
	}
}

// a status alone
var grStatus = grVal("status", 0, grWant{})

func grStatuses(x *mc.X) {
	code := 200 + x.Choose(400, "status")
	x.Ready()
	form := mc.Pick(x, "action", []string{"function", "struct", "with nil", "with unsupported"})
	place := mc.Pick(x, "filter", []string{"app", "route"})
	g := &grRun{own: mc.Pick(x, "action itself", []string{"", "status"})}
	c := &grStatus
	switch form {
	case "with nil":
		g.code = code
		n := grVal[error]("nil", nil, grWant{})
		c = &n
	case "with unsupported":
		g.code = code
		n := grVal("structure", grThing{}, grWant{})
		c = &n
	}
	desc := fmt.Sprintf("status %d returned by a %s action that does itself %q, filter for the %s", code, form, g.own, place)
	if g.code == 0 {
		g.val = reflect.ValueOf(code)
		grServe(x, desc, strip.ModeProd, place, form, c, g, grWant{status: code})
	} else {
		g.val, _ = c.make()
		grServe(x, desc, strip.ModeProd, place, "function", c, g, grWant{})
	}
	x.State(desc)
}

// ---- deriving errors

type grErr struct {
	err     *apires.ResError
	status  int
	code    int
	message string
	data    interface{}
	path    string
}

var grDatas = []interface{}{nil, "text", errors.New("from error"), map[string]interface{}{"a": 1.0}, 7}

// json is the object the error stands for
func (e *grErr) json() map[string]interface{} {
	m := map[string]interface{}{}
	if e.code != 0 {
		m["code"] = e.code
	}
	if e.message != "" {
		m["message"] = e.message
	}
	if e.data != nil {
		m["data"] = e.data
	}
	return m
}

func grErrors(x *mc.X) {
	status := mc.Pick(x, "status", []int{400, 0, 200, 500, 204})
	code := mc.Pick(x, "code", []int{0, 4711, -1})
	msg := mc.Pick(x, "message", []string{"", "first %d"})
	data := x.Choose(len(grDatas)+1, "data")
	x.Ready()
	e := &grErr{status: status, code: code, message: msg}
	if data < len(grDatas) {
		e.data = grDatas[data]
		e.err = apires.NewResError(status, code, msg, grDatas[data])
	} else {
		e.err = apires.NewResError(status, code, msg)
	}
	e.path = fmt.Sprintf("NewResError(%d, %d, %q, data %d)", status, code, msg, data)
	all := []*grErr{e}
	max := 2
	if x.Thorough {
		max = 3
	}
	for n := x.Choose(max+1, "derivations"); n > 0; n-- {
		from := all[x.Choose(len(all), "from")]
		d := *from
		op := x.Choose(2+len(grDatas)*2, "derivation")
		switch {
		case op == 0:
			d.message = "second"
			d.err = from.err.WithMsg("second")
			d.path += ".WithMsg"
		case op == 1:
			d.message = "formatted 1 %"
			d.err = from.err.WithMsgf("formatted %d %s", 1, "%")
			d.path += ".WithMsgf"
		case op%2 == 0:
			d.data = grDatas[op/2-1]
			switch v := d.data.(type) {
			case error:
				d.message = v.Error()
			case string:
				d.message = v
			}
			d.err = from.err.WithData(d.data)
			d.path += fmt.Sprintf(".WithData(%v)", d.data)
		default:
			d.data, d.message = grDatas[op/2-1], "given"
			d.err = from.err.WithData(d.data, "given")
			d.path += fmt.Sprintf(".WithData(%v, given)", d.data)
		}
		all = append(all, &d)
	}
	mode := grModes[x.Choose(2, "mode")]
	if text := (*apires.ResError)(nil).Error(); text != "" {
		x.Failf("derive", "the text of no error is %q", text)
	}
	for i, e := range all {
		if e.err == nil || e.err.Status != e.status || e.err.Code != e.code || e.err.Message != e.message || !reflect.DeepEqual(e.err.Data, e.data) || e.err.HttpCode() != e.status {
			x.Failf("derive", "of the errors %v, %s is %+v", grPaths(all), e.path, e.err)
		}
		if ok, s := apires.GetHttpCode(e.err); !ok || s != e.status || !apires.IsResError(e.err) || !e.err.EqualAny(apires.NewResError(1, 1, ""), apires.NewResError(e.status, e.code, "other")) || e.err.EqualAny(apires.NewResError(e.status, e.code+1, e.message)) {
			x.Failf("derive", "%s has the code %d", e.path, s)
		}
		var have, want interface{}
		text, _ := json.Marshal(e.json())
		json.Unmarshal(text, &want)
		if err := json.Unmarshal([]byte(e.err.Error()), &have); err != nil || !reflect.DeepEqual(have, want) {
			x.Failf("derive", "of the errors %v, the text of %s is %q", grPaths(all), e.path, e.err.Error())
		}
		for j, e2 := range all {
			if i != j && e.err == e2.err {
				x.Failf("derive", "%s is the same error as %s", e.path, e2.path)
			}
		}
		w := grWant{status: e.status, json: e.json(), nobody: e.status == 204, api: true}
		if w.status == 0 {
			w.status = 200
		}
		c := grOf("api error", func() (error, grWant) { return e.err, w })
		if i%2 == 0 {
			c = grOf("api error", func() (*apires.ResError, grWant) { return e.err, w })
		}
		g := &grRun{}
		g.val, _ = c.make()
		grServe(x, "of the errors "+grPaths(all)+", returning "+e.path, mode, "app", "function", &c, g, w)
	}
	x.State(grPaths(all))
}

func grPaths(all []*grErr) string {
	var s []string
	for _, e := range all {
		s = append(s, e.path)
	}
	return strings.Join(s, "; ")
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C27",
		Model: "a table from kind of result to status, headers, body and closes",
		Assumptions: []string{
			"statuses are valid (200-599); a status next to a result of its own status (handler, API result): the latter is sent",
			"named text and byte types, and values of types other than those listed in the documentation of the filter, are unsupported",
			"a result next to its own response is ignored; whether a stream returned then is closed is not judged",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"results": len(grCases), "API results": len(grApiCases), "statuses alone": 400, "derivations of errors": map[bool]int{true: 3, false: 2}[th]}
		},
		Run: func(x *mc.X) {
			switch x.Choose(4, "kind") {
			case 0:
				grKinds(x, grCases, false)
			case 1:
				grKinds(x, grApiCases, true)
			case 2:
				grStatuses(x)
			case 3:
				grErrors(x)
			}
		},
	})
}
