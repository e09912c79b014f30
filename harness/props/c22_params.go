package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"strip.verif/mc"
)

// ---- where parameters come from

type parSrc struct {
	names  []string
	values url.Values
}

func (s *parSrc) add(k, v string) {
	if s.values == nil {
		s.values = url.Values{}
	}
	s.values[k] = append(s.values[k], v)
	s.names = append(s.names, url.QueryEscape(k)+"="+url.QueryEscape(v))
}

func valuesText(v url.Values) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%q", k, v[k]))
	}
	return strings.Join(out, " ")
}

var parTypes = []string{"", "application/x-www-form-urlencoded", "Application/X-WWW-Form-Urlencoded ; charset=UTF-8", "application/x-www-form-urlencoded;charset=utf-8", "multipart", "MULTIPART", "application/json", "text/plain"}

func parBody(kind string, body *parSrc) (string, io.ReadCloser) {
	if strings.ToLower(kind) != "multipart" {
		return kind, io.NopCloser(strings.NewReader(strings.Join(body.names, "&")))
	}
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	for _, n := range body.names {
		k, v, _ := strings.Cut(n, "=")
		k, _ = url.QueryUnescape(k)
		v, _ = url.QueryUnescape(v)
		w.WriteField(k, v)
	}
	w.Close()
	if kind == "MULTIPART" {
		return fmt.Sprintf("Multipart/Form-Data;Boundary=%q", w.Boundary()), io.NopCloser(bytes.NewReader(b.Bytes()))
	}
	return w.FormDataContentType(), io.NopCloser(bytes.NewReader(b.Bytes()))
}

func parSources(x *mc.X) {
	method := mc.Pick(x, "method", []string{"GET", "POST", "PUT", "PATCH", "DELETE"})
	kind := mc.Pick(x, "content type", parTypes)
	route := mc.Pick(x, "route", []string{"/p", "/p/:a", "/p/:a/:b", "/w/*:a"})
	max := 3
	if x.Thorough {
		max = 4
	}
	n := x.Choose(max+1, "pairs")
	var query, body parSrc
	opts := []string{"a=1", "a=2", "b=1", "c=%26 +é"}
	for i := 0; i < n; i++ {
		o := mc.Pick(x, "pair", opts)
		k, v, _ := strings.Cut(o, "=")
		if x.Choose(2, "place") == 0 {
			query.add(k, v)
		} else {
			body.add(k, v)
		}
	}
	early := x.Bool("a filter has read them")
	x.Ready()
	x.Op()
	sp := newApp()
	sp.Provide(params.ParamsParser())
	var got *params.Params
	var sub *params.Params
	var seen string
	if early {
		sp.Filter(func(p *params.Params) { seen = valuesText(p.Values) })
	}
	sp.Routers(strip.Router(route, strip.Any(func(p *params.Params, ctx strip.Context) {
		got = p
		ctx.Find(&sub, "")
	})))
	req := newReq(method, strings.NewReplacer(":a", "ra", ":b", "rb", "*:a", "ra/x").Replace(route))
	want := url.Values{}
	rv := url.Values{}
	switch route {
	case "/p/:a":
		rv["a"] = []string{"ra"}
	case "/p/:a/:b":
		rv["a"], rv["b"] = []string{"ra"}, []string{"rb"}
	case "/w/*:a":
		req.URL.Path = "/w/ra/x"
		rv["a"] = []string{"ra/x"}
	}
	req.URL.RawQuery = strings.Join(query.names, "&")
	ct, rd := parBody(kind, &body)
	req.Body = rd
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	form := url.Values{}
	hasBody := method == "POST" || method == "PUT" || method == "PATCH"
	if strings.Contains(strings.ToLower(kind), "urlencoded") && hasBody || strings.ToLower(kind) == "multipart" {
		form = body.values
	}
	unrouted := url.Values{}
	for i, s := range []url.Values{query.values, rv, form} {
		for k, v := range s {
			want[k] = append(want[k], v...)
			if i != 1 {
				unrouted[k] = append(unrouted[k], v...)
			}
		}
	}
	desc := fmt.Sprintf("%s %s?%s with body %q of type %q on route %s", method, req.URL.Path, req.URL.RawQuery, body.names, kind, route)
	if early {
		desc += " after a filter has read the parameters"
	}
	if _, p := serve(sp, req); p != nil {
		x.Failf("panic", "%s panics: %v", desc, p)
	}
	if got == nil || got != sub {
		x.Failf("provide", "%s: handlers of one request get parameters %v and %v", desc, got, sub)
	}
	if early && seen != valuesText(unrouted) {
		x.Failf("sources", "%s: the filter sees %s, want %s", desc, seen, valuesText(unrouted))
	}
	lost := ""
	if early && len(rv) > 0 && len(got.Route.Values) == 0 && valuesText(got.Values) == valuesText(unrouted) {
		lost = valuesText(rv)
		want, rv = unrouted, nil
	}
	for _, c := range []struct {
		name      string
		got, want url.Values
	}{{"unified", got.Values, want}, {"query", got.Query, query.values}, {"route", got.Route.Values, rv}, {"form", got.Form, form}} {
		if valuesText(c.got) != valuesText(c.want) {
			x.Failf("sources", "%s: %s parameters %s, want %s", desc, c.name, valuesText(c.got), valuesText(c.want))
		}
	}
	for _, k := range []string{"a", "b", "c", "none"} {
		w := ""
		if len(want[k]) > 0 {
			w = want[k][0]
		}
		var s string
		got.Bind(&s, k)
		if got.Get(k) != w || s != w {
			x.Failf("sources", "%s: parameter %s reads %q and binds %q, want %q", desc, k, got.Get(k), s, w)
		}
	}
	if lost != "" {
		x.Failf("early-filter", "%s: the handler does not get the parameters of the route, %s", desc, lost)
	}
	x.State(desc)
}

// requests that are malformed keep what can be read
func parMalformed(x *mc.X) {
	q := mc.Pick(x, "query", []string{"", "a=1", "%zz=1&a=1", "a=1;b=2", "a=%", "a=1&&=&b", "a[=1", "=x"})
	bi := x.Choose(8, "body")
	method := mc.Pick(x, "method", []string{"POST", "GET"})
	x.Ready()
	x.Op()
	req := newReq(method, "/p/route")
	req.URL.RawQuery = q
	ct, body := "application/x-www-form-urlencoded", ""
	mp := "multipart/form-data; boundary=B"
	switch bi {
	case 1:
		body = "b=%zz&c=1"
	case 2:
		body = "b=1;c=2&d=%"
	case 3:
		ct, body = mp, "--B\r\nContent-Disposition: form-data; name=\"b\"\r\n\r\nval"
	case 4:
		ct, body = mp, "nothing of the kind"
	case 5:
		ct, body = "multipart/form-data", "--B\r\n"
	case 6:
		ct, body = mp, ""
	case 7:
		ct, body = ";;;", "b=1"
	}
	req.Header.Set("Content-Type", ct)
	req.Body = io.NopCloser(strings.NewReader(body))
	sp := newApp()
	sp.Provide(params.ParamsParser())
	var got *params.Params
	sp.Routers(strip.Router("/p/:r", strip.Any(func(p *params.Params) { got = p })))
	_, p := serve(sp, req)
	desc := fmt.Sprintf("%s with query %q and body %q of type %s", method, q, body, ct)
	if p != nil {
		x.Failf("panic", "%s panics: %v", desc, p)
	}
	if got == nil {
		x.Failf("malformed", "%s: the handler does not run", desc)
	}
	wq := req.URL.Query()
	if valuesText(got.Query) != valuesText(wq) {
		x.Failf("malformed", "%s: query %s, want %s", desc, valuesText(got.Query), valuesText(wq))
	}
	for k, v := range wq {
		if len(got.Values[k]) < len(v) || !equalStrings(got.Values[k][:len(v)], v) {
			x.Failf("malformed", "%s: unified parameter %s is %q, the query has %q", desc, k, got.Values[k], v)
		}
	}
	if got.Get("r") != "route" {
		x.Failf("malformed", "%s: the route parameter is %q", desc, got.Get("r"))
	}
	x.Statef("%s %s", desc, valuesText(got.Values))
}

// ---- binding

type (
	pStr   string
	pInt8  int8
	pBool  bool
	pFloat float32
)

var parScalars = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(time.Time{}),
	reflect.TypeOf(pStr("")), reflect.TypeOf(pInt8(0)), reflect.TypeOf(pBool(false)), reflect.TypeOf(pFloat(0)),
}

var parValues = []string{
	"", "0", "1", "-1", "7", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
	"true", "false", "on", "TRUE", " true ", "off", "yes", "1.5", "-2e3", "1e39", "1e400", "16777217", "inf", "NaN", "0x10", "010", "1_000", "+5", "++5", "+-5", " 7", "text", "é", "{}", "[1]", "null", "\x00",
	"2006-01-02", "2006-01-02 15:04", "2006-01-02 15:04:05", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05+08:00", "2006-13-02", "2006-01-02 25:00", "2006-1-2",
}

var parTimes = map[string]int64{
	"2006-01-02": 1136160000, "2006-01-02 15:04": 1136214240, "2006-01-02 15:04:05": 1136214245, "2006-01-02T15:04:05Z": 1136214245, "2006-01-02T15:04:05+08:00": 1136214245 - 8*3600,
}

// what a single value binds to
func parWant(v string, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	if t == reflect.TypeOf(time.Time{}) {
		if u, ok := parTimes[v]; ok {
			r.Set(reflect.ValueOf(time.Unix(u, 0)))
		} else if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			r.Set(reflect.ValueOf(time.Unix(n, 0)))
		}
		return r
	}
	switch t.Kind() {
	case reflect.String:
		r.SetString(v)
	case reflect.Bool:
		switch strings.ToLower(strings.TrimSpace(v)) {
		case "true", "on", "1":
			r.SetBool(true)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n, err := strconv.ParseInt(v, 10, t.Bits()); err == nil {
			r.SetInt(n)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n, err := strconv.ParseUint(v, 10, t.Bits()); err == nil {
			r.SetUint(n)
		}
	case reflect.Float32, reflect.Float64:
		if f, err := strconv.ParseFloat(v, t.Bits()); err == nil {
			r.SetFloat(f)
		}
	}
	return r
}

// parEqual compares bound values; empty slices and maps count as absent
func parEqual(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if t, ok := a.Interface().(time.Time); ok {
		u := b.Interface().(time.Time)
		return t.Equal(u) && t.IsZero() == u.IsZero()
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || math.IsNaN(a.Float()) && math.IsNaN(b.Float())
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return parEqual(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !parEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			o := b.MapIndex(k)
			if !o.IsValid() || !parEqual(a.MapIndex(k), o) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if !parEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return fmt.Sprintf("%#v", v.Interface())
	}
	return fmt.Sprintf("%s %s", v.Type(), b)
}

type parShape struct {
	name string
	make func(t reflect.Type, a, b string) (url.Values, reflect.Value)
}

func slice(t reflect.Type, vs ...reflect.Value) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(vs))
	for _, v := range vs {
		s = reflect.Append(s, v)
	}
	return s
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func structOf(t reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}, {Name: "G", Type: t}})
}

func structVal(t reflect.Type, f, g reflect.Value) reflect.Value {
	s := reflect.New(structOf(t)).Elem()
	if f.IsValid() {
		s.Field(0).Set(f)
	}
	if g.IsValid() {
		s.Field(1).Set(g)
	}
	return s
}

var parShapes = []parShape{
	{"absent", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"y": {a}, "xx": {b}}, reflect.Zero(t)
	}},
	{"value", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x": {a, b}, "xx": {b}}, parWant(a, t)
	}},
	{"pointer", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x": {a, b}}, ptrTo(parWant(a, t))
	}},
	{"absent pointer", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"y": {a}}, reflect.Zero(reflect.PtrTo(t))
	}},
	{"pointer to pointer", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x": {a}}, ptrTo(ptrTo(parWant(a, t)))
	}},
	{"slice x", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x": {a, b}, "xy": {b}, "xy[]": {b}}, slice(t, parWant(a, t), parWant(b, t))
	}},
	{"slice x[]", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x[]": {a, b}, "y[]": {b}}, slice(t, parWant(a, t), parWant(b, t))
	}},
	{"slice x[i]", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x[1]": {b}, "x[0]": {a, b}}, slice(t, parWant(a, t), parWant(b, t))
	}},
	{"slice x[10]", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		z := reflect.Zero(t)
		return url.Values{"x[2]": {b}, "x[10]": {a}}, slice(t, z, z, parWant(b, t), z, z, z, z, z, z, z, parWant(a, t))
	}},
	{"slice x[i] and x[]", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x[1]": {b}, "x[]": {a, b}}, slice(t, reflect.Zero(t), parWant(b, t), parWant(a, t), parWant(b, t))
	}},
	{"absent slice", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"y[]": {a}, "y": {a}, "xx": {a}}, slice(t)
	}},
	{"slice of pointers", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x[]": {a, b}}, slice(reflect.PtrTo(t), ptrTo(parWant(a, t)), ptrTo(parWant(b, t)))
	}},
	{"slice of slices", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x[0][1]": {a}, "x[1][]": {b, a}}, slice(reflect.SliceOf(t), slice(t, reflect.Zero(t), parWant(a, t)), slice(t, parWant(b, t), parWant(a, t)))
	}},
	{"struct", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x.F": {a, b}, "x.None": {b}, "x.f": {b}, "y.G": {b}, "x.": {b}, "xx.G": {b}}, structVal(t, parWant(a, t), reflect.Value{})
	}},
	{"struct in struct", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		st := structOf(t)
		return url.Values{"x.F.G": {a}, "x.F.F": {b}, "x.G.F": {a}}, structVal(st, structVal(t, parWant(b, t), parWant(a, t)), structVal(t, parWant(a, t), reflect.Value{}))
	}},
	{"struct five deep", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		st := structOf(t)
		v := structVal(t, parWant(a, t), parWant(b, t))
		for i := 0; i < 4; i++ {
			v = structVal(st, v, reflect.Value{})
			st = structOf(st)
		}
		return url.Values{"x.F.F.F.F.F": {a}, "x.F.F.F.F.G": {b}}, v
	}},
	{"slices and structs in each other", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		s1 := structOf(t)
		l1 := slice(s1, structVal(t, reflect.Value{}, parWant(a, t)), structVal(t, parWant(b, t), reflect.Value{}))
		s2 := structVal(l1.Type(), reflect.Value{}, l1)
		return url.Values{"x[1].G[0].G": {a}, "x[1].G[1].F": {b}}, slice(s2.Type(), structVal(l1.Type(), slice(s1), slice(s1)).Convert(s2.Type()), s2)
	}},
	{"slice in struct", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x.F[]": {a, b}, "x.G[1]": {b}}, structVal(reflect.SliceOf(t), slice(t, parWant(a, t), parWant(b, t)), slice(t, reflect.Zero(t), parWant(b, t)))
	}},
	{"pointer in struct", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"x.F": {a}}, structVal(reflect.PtrTo(t), ptrTo(parWant(a, t)), reflect.Value{})
	}},
	{"slice of structs", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		st := structOf(t)
		return url.Values{"x[1].F": {a}, "x[0].G": {b}, "x[1].G": {b}}, slice(st, structVal(t, reflect.Value{}, parWant(b, t)), structVal(t, parWant(a, t), parWant(b, t)))
	}},
	{"map to values", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), parWant(a, t))
		m.SetMapIndex(reflect.ValueOf("l m"), parWant(b, t))
		return url.Values{"x[k]": {a, b}, "x[l m]": {b}, "y[k]": {b}, "xx[k]": {b}}, m
	}},
	{"map from values", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		m := reflect.MakeMap(reflect.MapOf(t, reflect.TypeOf("")))
		if t != reflect.TypeOf(time.Time{}) && a != "NaN" {
			m.SetMapIndex(parWant(a, t), reflect.ValueOf("v"))
			return url.Values{"x[" + a + "]": {"v"}}, m
		}
		return url.Values{}, m
	}},
	{"absent map", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		return url.Values{"y[k]": {a}, "y": {a}}, reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	}},
	{"map as JSON", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), parWant(a, t))
		m.SetMapIndex(reflect.ValueOf("é"), parWant(b, t))
		txt, _ := json.Marshal(map[string]string{"k": a, "é": b})
		return url.Values{"x": {string(txt)}}, m
	}},
	{"malformed map as JSON", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		txt, _ := json.Marshal(map[string]string{"k": a})
		return url.Values{"x": {string(txt) + []string{" x", "}", ",", `{"l":1}`}[len(b)%4]}}, reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	}},
	{"names that differ in case", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Fg", Type: t}, {Name: "FG", Type: t}})).Elem()
		s.Field(0).Set(parWant(a, t))
		s.Field(1).Set(parWant(b, t))
		return url.Values{"x.Fg": {a}, "x.FG": {b}, "x.fg": {"8"}}, s
	}},
	{"map as JSON with plain values", func(t reflect.Type, a, b string) (url.Values, reflect.Value) {
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		var plain interface{}
		d := json.NewDecoder(strings.NewReader(a))
		d.UseNumber()
		if d.Decode(&plain) != nil || d.More() {
			return url.Values{}, m
		}
		switch plain.(type) {
		case json.Number, bool:
			m.SetMapIndex(reflect.ValueOf("k"), parWant(fmt.Sprint(plain), t))
			return url.Values{"x": {`{"k": ` + a + `}`}}, m
		}
		return url.Values{}, m
	}},
}

// parFill sets a value to something that is not zero.
func parFill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString("before")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(99)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(99)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(99)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		parFill(p.Elem())
		v.Set(p)
	case reflect.Slice:
		e := reflect.New(v.Type().Elem()).Elem()
		parFill(e)
		v.Set(reflect.Append(reflect.Zero(v.Type()), e, e, e))
	case reflect.Map:
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		parFill(k)
		parFill(e)
		m := reflect.MakeMap(v.Type())
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(99, 0)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				parFill(v.Field(i))
			}
		}
	}
}

func parBind(x *mc.X) {
	t := parScalars[x.Choose(len(parScalars), "type")]
	sh := parShapes[x.Choose(len(parShapes), "shape")]
	x.Ready()
	seconds := []string{"", "1", "300", "text", "2006-01-02"}
	if x.Thorough {
		seconds = parValues
	}
	for _, a := range parValues {
		for _, b := range seconds {
			vals, want := sh.make(t, a, b)
			for how := 0; how < 4; how++ {
				x.Op()
				var got reflect.Value
				p := catch(func() {
					switch how {
					case 0:
						got = params.Bind(&params.Params{Values: vals}, "x", want.Type())
					case 1:
						d := reflect.New(want.Type())
						(&params.Params{Values: vals}).Bind(d.Interface(), "x")
						got = d.Elem()
					case 3: // what was there before does not stay
						d := reflect.New(want.Type())
						parFill(d.Elem())
						(&params.Params{Values: vals}).Bind(d.Interface(), "x")
						got = d.Elem()
					case 2:
						st := reflect.New(reflect.StructOf([]reflect.StructField{
							{Name: "X", Type: want.Type(), Tag: `param:"x"`}, {Name: "Y", Type: want.Type(), Tag: `param:"-"`}, {Name: "Z", Type: reflect.TypeOf("")}}))
						st.Elem().Field(2).SetString("before")
						params.BindValuesToStruct(st.Interface(), vals)
						got = st.Elem().Field(0)
						if !st.Elem().Field(1).IsZero() || st.Elem().Field(2).String() != "" {
							x.Failf("bind", "binding %s to a struct sets other fields: %s", valuesText(vals), show(st.Elem()))
						}
					}
				})
				if p != nil {
					x.Failf("panic", "binding x of %s to %v panics: %v", valuesText(vals), want.Type(), p)
				}
				if !parEqual(got, want) {
					x.Failf("bind", "%s: binding x of %s gives %s, want %s", sh.name, valuesText(vals), show(got), show(want))
				}
			}
		}
		x.Statef("%v %s %q", t, sh.name, a)
	}
}

// ---- every name, whatever it looks like

type ParEmb struct {
	Name string
	Deep []int
}
type parHidden struct{ Inner string }
type parOdd struct {
	*ParEmb
	*parHidden
	A     int
	B     []string
	M     map[string]int
	S     struct{ A int }
	P     *int
	L     []struct{ A []int }
	I     interface{}
	F     func()
	C     chan int
	hid   int
	Arr   [2]int
	Self  *parOdd
	Selfs []parOdd
}

var parDests = []reflect.Type{
	reflect.TypeOf([]int(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf([][]int(nil)), reflect.TypeOf([]struct{ A int }(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(map[int]string(nil)),
	reflect.TypeOf(parOdd{}), reflect.TypeOf(&parOdd{}), reflect.TypeOf([]parOdd(nil)), reflect.TypeOf(map[string][]int(nil)), reflect.TypeOf(map[struct{ A int }]int(nil)),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(func() {}), reflect.TypeOf([2]int{}), reflect.TypeOf(map[interface{}]interface{}(nil)), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf(0), reflect.TypeOf((*[]int)(nil)),
	reflect.TypeOf((*map[string]int)(nil)), reflect.TypeOf([]*int(nil)), reflect.TypeOf(map[string]struct{ A int }(nil)), reflect.TypeOf([]time.Time(nil)), reflect.TypeOf([]multipart.FileHeader(nil)),
}

var parAlpha = []string{"[", "]", ".", "0", "9", "A", "B", "-", "L", "M"}
var parTails = []string{"", "[99999999]", "[999999999]", "[4294967296]", "[9223372036854775807]", "[9223372036854775808]", "[00]", "[+1]", "[0x1]", "[1e3]", ".Name", ".Inner", ".Deep[0]", ".hid", ".ParEmb", ".ParEmb.Name", ".parHidden.Inner", ".Self.Self.A", ".Selfs[0].Selfs[0].A", "[0].Name", "[0].Inner",
	".L[99999999999].A", ".L[0].A[99999999999]", "[0][99999999999]", ".M[99999999999]", "[", "]", "[]", "[].A", "[][]", "[[]]", "..", "[0]]", "[0][", "[a]", "[a].A", ".I", ".F", ".C", ".Arr", ".Arr[0]", ".S", ".P", ".L"}

func parNames(x *mc.X) {
	var key string
	if x.Choose(2, "kind") == 0 {
		max := 5
		if x.Thorough {
			max = 6
		}
		n := x.Choose(max+1, "length")
		for i := 0; i < n; i++ {
			key += mc.Pick(x, "character", parAlpha)
			if i == 2 {
				x.Ready()
			}
		}
		x.Ready()
	} else {
		key = mc.Pick(x, "tail", parTails) + mc.Pick(x, "tail", parTails)
		x.Ready()
	}
	for _, t := range parDests {
		for _, v := range []string{"1", "{\"a\":1}"} {
			if v != "1" && len(key) > 3 {
				continue
			}
			x.Op()
			vals := url.Values{"x" + key: {v}, "x": {v, "2"}}
			p := catch(func() {
				r := params.Bind(&params.Params{Values: vals}, "x", t)
				if r.Type() != t {
					x.Failf("type", "binding %s to a %v gives a %v", valuesText(vals), t, r.Type())
				}
			})
			if p != nil {
				x.Failf("panic", "binding x of %s to %v panics: %v", valuesText(vals), t, p)
			}
		}
	}
	x.State(key)
}

// structs bound by tag, with embedded ones
type ParBase struct {
	ID   int    `param:"id"`
	Name string `param:"name,omitempty"`
}
type parBase2 struct {
	Low string `param:"low"`
}
type ParOpt struct {
	Opt *string `param:"opt"`
	N   int8    `param:"n"`
}
type parHid2 struct {
	H string `param:"h"`
}
type parForm struct {
	ParBase
	parBase2
	*ParOpt
	*parHid2
	Plain  string
	Tagged pStr      `param:"tag"`
	Skip   string    `param:"-"`
	hidden string    `param:"hidden"`
	List   []int     `param:"list"`
	When   time.Time `param:"when"`
}

func parTagged(x *mc.X) {
	names := []string{"id", "name", "low", "opt", "n", "h", "Plain", "tag", "-", "hidden", "list[]", "when", "Skip", "Name", "ParBase"}
	vals := url.Values{}
	mask := 0
	for i, n := range names {
		if x.Choose(2, n) == 1 {
			mask |= 1 << i
			v := "7"
			if n == "opt" && mask&2 == 2 {
				v = ""
			}
			if n == "n" && mask&1 == 1 {
				v = "700"
			}
			vals[n] = []string{v}
		}
	}
	pre := x.Choose(2, "embedded pointer set")
	x.Ready()
	x.Op()
	has := func(n string) bool { return vals[n] != nil }
	s := func(n string) string { return vals.Get(n) }
	num := func(n string) int {
		if has(n) {
			return 7
		}
		return 0
	}
	w := &parForm{Skip: "kept", hidden: "kept"}
	w.ID, w.Name, w.Low, w.Plain, w.Tagged = num("id"), s("name"), s("low"), s("Plain"), pStr(s("tag"))
	if has("list[]") {
		w.List = []int{7}
	}
	if has("when") {
		w.When = time.Unix(7, 0)
	}
	f := &parForm{Skip: "kept", hidden: "kept"}
	if pre == 1 {
		f.ParOpt = &ParOpt{N: 3}
	}
	if pre == 1 || has("opt") || has("n") {
		w.ParOpt = &ParOpt{}
		if has("opt") {
			w.Opt = ptr(s("opt"))
		}
		if has("n") && s("n") == "7" {
			w.N = 7
		}
	}
	p := catch(func() { (&params.Params{Values: vals}).BindValuesToStruct(f) })
	if p != nil {
		x.Failf("panic", "binding %s to a struct with embedded structs panics: %v", valuesText(vals), p)
	}
	f.parHid2 = nil // a struct that can not be set is left alone or filled
	if !parEqual(reflect.ValueOf(*f), reflect.ValueOf(*w)) || f.hidden != w.hidden || f.Low != w.Low {
		x.Failf("tagged", "%s binds to %+v %+v, want %+v %+v", valuesText(vals), *f, f.ParOpt, *w, w.ParOpt)
	}
	x.Statef("%d %d", mask, pre)
}

type ParQ struct {
	D string `param:"d"`
}
type ParS struct {
	B string `param:"b"`
}
type ParR struct {
	*ParQ
	C string `param:"c"`
}
type ParO struct {
	A string `param:"a"`
	ParS
	*ParR
	E string `param:"e"`
}
type parDeep struct {
	*ParO
	X string `param:"x"`
}

// parNested: structs embedded in embedded structs
func parNested(x *mc.X) {
	vals := url.Values{}
	mask := 0
	for i, n := range []string{"a", "b", "c", "d", "e", "x"} {
		switch x.Choose(3, n) {
		case 1:
			vals[n] = []string{n + "1", "2"}
			mask |= 1 << i
		case 2:
			vals[n] = []string{""}
			mask |= 1 << (i + 8)
		}
	}
	x.Ready()
	x.Op()
	var got parDeep
	if p := catch(func() { params.BindValuesToStruct(&got, vals) }); p != nil {
		x.Failf("panic", "binding %s to embedded structs panics: %v", valuesText(vals), p)
	}
	var v [6]string
	if o := got.ParO; o != nil {
		v[0], v[1], v[4] = o.A, o.B, o.E
		if r := o.ParR; r != nil {
			v[2] = r.C
			if r.ParQ != nil {
				v[3] = r.D
			}
		}
	}
	v[5] = got.X
	for i, n := range []string{"a", "b", "c", "d", "e", "x"} {
		if v[i] != vals.Get(n) {
			x.Failf("embedded", "%s binds %s to %q", valuesText(vals), n, v[i])
		}
	}
	any := func(ns ...string) bool {
		for _, n := range ns {
			if _, ok := vals[n]; ok {
				return true
			}
		}
		return false
	}
	if (got.ParO != nil) != any("a", "b", "c", "d", "e") || got.ParO != nil && ((got.ParR != nil) != any("c", "d") || got.ParR != nil && (got.ParQ != nil) != any("d")) {
		x.Failf("embedded", "%s: embedded structs that are there do not match the values", valuesText(vals))
	}
	x.Statef("%d", mask)
}

// JSON bodies
func parJson(x *mc.X) {
	bodies := []string{"", "{}", `{"a":1}`, `{"a":1,"zz":{"y":2}}`, `{"a":1,"b":"x","c":[1,2]}`, `{"a":12345678901234567}`, "null", "[1]", `"s"`, "{", `{"a":}`, `{"a":"x"}`, `{"A":2}`, "\x00", strings.Repeat("x", 2000), `{"b":"` + strings.Repeat("y", 3000) + `"}`, `{"i":12345678901234567}`, "  ", "{" + strings.Repeat(" ", 600)}
	body := mc.Pick(x, "body", bodies)
	num := x.Choose(3, "use numbers")
	chunk := mc.Pick(x, "pieces", []int{1, 100, 10000})
	fail := mc.Pick(x, "broken off after", []int{-1, 0, 1, 7, len(body)})
	if fail > len(body) {
		fail = len(body)
	}
	x.Ready()
	x.Op()
	type dst struct {
		A int         `json:"a"`
		B string      `json:"b"`
		C []int       `json:"c"`
		I interface{} `json:"i"`
	}
	var got, want dst
	got.B, want.B = "before", "before"
	sp := newApp()
	sp.Provide(params.ParamsParser())
	var err error
	ran := false
	sp.Routers(strip.Router("/up", strip.Post(func(p *params.Params) {
		ran = true
		if num == 0 {
			err = p.BindJsonBody(&got)
		} else {
			err = p.BindJsonBody(&got, num == 2)
		}
	})))
	req := newReq("POST", "/up")
	req.Header.Set("Content-Type", "application/json")
	req.Body = io.NopCloser(&pieces{s: body, n: chunk, fail: fail})
	_, p := serve(sp, req)
	var werr error
	if fail >= 0 {
		werr = errRead
	} else if body != "" {
		d := json.NewDecoder(strings.NewReader(body))
		if num == 2 {
			d.UseNumber()
		}
		werr = d.Decode(&want)
	}
	if p != nil || !ran {
		x.Failf("panic", "binding the JSON body %.80q: %v, handler ran %v", body, p, ran)
	}
	if (err != nil) != (werr != nil) || !reflect.DeepEqual(got, want) {
		x.Failf("json", "the JSON body %.80q binds to %+v, %v, want %+v, %v", body, got, err, want, werr)
	}
	if err != nil && len(err.Error()) > 1000 {
		x.Failf("json", "the error for a body of %d bytes has %d", len(body), len(err.Error()))
	}
	x.Statef("%.80q %d %d %d", body, num, chunk, fail)
}

// ---- what the application adds

type parOwn struct{ Kind, Text string }
type parOwnInt int
type parOwnFloat float64

// binders of an application's own types, files and time formats are used wherever such a value is bound
func parCustom(x *mc.X) {
	what := x.Choose(5, "what")
	shape := x.Choose(9, "shape")
	a := mc.Pick(x, "first", []string{"a", "", "12", "é", "2006-01-02", "02.01.2006 15:04 +0200", "2006/01/02"})
	b := mc.Pick(x, "second", []string{"b", "", "31.12.1999 00:00 -0330"})
	x.Ready()
	x.Op()
	defer func(t map[reflect.Type]params.Binder, f []string, loc *time.Location) {
		params.TypeBinders, params.TimeFormats, time.Local = t, f, loc
	}(params.TypeBinders, params.TimeFormats, time.Local)
	was := params.TypeBinders
	params.TypeBinders = map[reflect.Type]params.Binder{}
	for k, v := range was {
		params.TypeBinders[k] = v
	}
	var typ reflect.Type
	var want func(s string) interface{}
	files := map[string]*multipart.FileHeader{}
	file := func(s string) *multipart.FileHeader {
		if files[s] == nil {
			files[s] = &multipart.FileHeader{Filename: s}
		}
		return files[s]
	}
	switch what {
	case 0:
		typ = reflect.TypeOf(parOwn{})
		params.TypeBinders[typ] = params.Binder{Bind: params.ValueBinder(func(v string, t reflect.Type) reflect.Value {
			return reflect.ValueOf(parOwn{t.Name(), "own " + v})
		})}
		want = func(s string) interface{} { return parOwn{"parOwn", "own " + s} }
	case 1: // before the binder of its kind
		typ = reflect.TypeOf(parOwnInt(0))
		params.TypeBinders[typ] = params.Binder{Bind: params.ValueBinder(func(v string, t reflect.Type) reflect.Value {
			return reflect.ValueOf(len(v)) // converted to the type
		})}
		want = func(s string) interface{} { return parOwnInt(len(s)) }
	case 4:
		typ = reflect.TypeOf(parOwnFloat(0))
		params.TypeBinders[typ] = params.Binder{Bind: params.ValueBinder(func(v string, t reflect.Type) reflect.Value {
			return reflect.ValueOf(int8(len(v))) // of another kind, converted to the type
		})}
		want = func(s string) interface{} { return parOwnFloat(len(s)) }
	case 2:
		typ = reflect.TypeOf(time.Time{})
		time.Local = time.FixedZone("here", 3600)
		params.TimeFormats = append([]string{"", "02.01.2006 15:04 -0700", "2006/01/02"}, params.TimeFormats...)
		want = func(s string) interface{} {
			switch s {
			case "12":
				return time.Unix(12, 0)
			case "2006-01-02", "2006/01/02":
				return time.Unix(1136156400, 0)
			case "02.01.2006 15:04 +0200":
				return time.Unix(1136207040, 0)
			case "31.12.1999 00:00 -0330":
				return time.Unix(946611000, 0)
			}
			return time.Time{}
		}
	case 3:
		typ = reflect.TypeOf((*multipart.FileHeader)(nil))
		params.TypeBinders[typ] = params.Binder{Bind: func(p *params.Params, name string, t reflect.Type) reflect.Value {
			if fs := p.Files[name]; len(fs) > 0 {
				return reflect.ValueOf(fs[0])
			}
			return reflect.Zero(t)
		}}
		want = func(s string) interface{} { return file(s) }
	}
	p := &params.Params{Values: url.Values{"other": {"1"}}, Files: map[string][]*multipart.FileHeader{}}
	put := func(k string, vs ...string) {
		for _, v := range vs {
			if what == 3 {
				p.Files[k] = append(p.Files[k], file(v))
			} else {
				p.Values[k] = append(p.Values[k], v)
			}
		}
	}
	v := func(s string) reflect.Value { return reflect.ValueOf(want(s)) }
	var exp reflect.Value
	switch shape {
	case 0:
		exp = reflect.Zero(typ)
	case 1:
		put("x", a, b)
		exp = v(a)
	case 2:
		put("x", a, b)
		exp = slice(typ, v(a), v(b))
	case 3:
		put("x[]", a, b)
		exp = slice(typ, v(a), v(b))
	case 4:
		put("x[1]", a)
		put("x[0]", b)
		exp = slice(typ, v(b), v(a))
	case 5:
		put("x[1]", a)
		put("x[]", b)
		exp = slice(typ, reflect.Zero(typ), v(a), v(b))
	case 6:
		if what == 3 {
			return // files in structs, maps and behind pointers are not supported
		}
		put("x.F", a)
		exp = structVal(typ, v(a), reflect.Value{})
	case 7:
		if what == 3 {
			return
		}
		put("x", a)
		exp = ptrTo(v(a))
	case 8:
		if what == 3 {
			return
		}
		put("x[k]", a)
		put("x[l]", b)
		exp = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), typ))
		exp.SetMapIndex(reflect.ValueOf("k"), v(a))
		exp.SetMapIndex(reflect.ValueOf("l"), v(b))
	}
	got := reflect.New(exp.Type())
	if e := catch(func() { p.Bind(got.Interface(), "x") }); e != nil {
		x.Failf("panic", "binding %s, files %v to %v with an own binder panics: %v", valuesText(p.Values), p.Files, exp.Type(), e)
	}
	if !parEqual(got.Elem(), exp) {
		x.Failf("own", "binding %s, files %v to %v with an own binder or format gives %s, want %s", valuesText(p.Values), p.Files, exp.Type(), show(got.Elem()), show(exp))
	}
	x.Statef("%d %d %q %q", what, shape, a, b)
}

// uploads
func parUpload(x *mc.X) {
	limit := mc.Pick(x, "memory limit", []string{"", "100", "1000000"})
	size := mc.Pick(x, "size", []int{0, 50, 5000, 40000})
	n := 1 + x.Choose(2, "files")
	x.Ready()
	x.Op()
	tmp := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("up.%d", os.Getpid()))
	os.MkdirAll(tmp, 0o755)
	os.Setenv("TMPDIR", tmp)
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	w.WriteField("a", "1")
	var contents []string
	for i := 0; i < n; i++ {
		c := strings.Repeat(fmt.Sprint(i), size)
		contents = append(contents, c)
		f, _ := w.CreateFormFile("file", fmt.Sprintf("f%d.txt", i))
		io.WriteString(f, c)
	}
	w.Close()
	sp := newApp()
	if limit != "" {
		sp.ImportConfig(&ownConf{map[string]string{"max_memory": limit}})
	}
	sp.Provide(params.ParamsParser())
	var errs []string
	ran := false
	sp.Routers(strip.Router("/up", strip.Post(func(p *params.Params) {
		ran = true
		if p.Get("a") != "1" || len(p.Files["file"]) != n {
			errs = append(errs, fmt.Sprintf("field %q, %d files", p.Get("a"), len(p.Files["file"])))
			return
		}
		for i, h := range p.Files["file"] {
			if h.Filename != fmt.Sprintf("f%d.txt", i) || h.Size != int64(size) {
				errs = append(errs, fmt.Sprintf("file %d is %s of %d bytes", i, h.Filename, h.Size))
			}
			f, err := h.Open()
			if err != nil && (limit != "100" || size*n <= 100) {
				errs = append(errs, err.Error())
				continue
			}
			if err != nil {
				x.Note("upload-spilled", "file of %d bytes with memory limit %q can not be opened by the handler: %v", size, limit, err)
				continue
			}
			if got := readAll(f); got != contents[i] {
				errs = append(errs, fmt.Sprintf("file %d holds %d bytes", i, len(got)))
			}
			f.Close()
		}
	})))
	req := newReq("POST", "/up")
	req.Header = http.Header{"Content-Type": {w.FormDataContentType()}}
	req.Body = io.NopCloser(bytes.NewReader(b.Bytes()))
	_, p := serve(sp, req)
	if p != nil || !ran || errs != nil {
		x.Failf("upload", "%d files of %d bytes, memory limit %q: %v %v", n, size, limit, p, errs)
	}
	if left, _ := os.ReadDir(tmp); len(left) > 0 {
		x.Failf("upload", "%d files of %d bytes, memory limit %q: %d temporary files stay", n, size, limit, len(left))
	}
	x.Statef("%s %d %d", limit, size, n)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C22",
		Model: "values by source in request order; reference binding of every scalar type by strconv at its size, composed over pointers, slices, structs and maps",
		Assumptions: []string{
			"the order of unindexed elements given under different names is not judged, nor is the meaning of malformed names, only that they are harmless",
			"absent slices and maps may be nil or empty",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"pairs per request": map[bool]int{true: 4, false: 3}[th], "types": len(parScalars), "values": len(parValues), "shapes": len(parShapes), "destinations for odd names": len(parDests), "length of odd names": map[bool]int{true: 6, false: 5}[th], "tails": len(parTails) * len(parTails)}
		},
		Init: func() { clearEnv(); time.Local = time.UTC },
		Run: func(x *mc.X) {
			switch x.Choose(9, "mode") {
			case 0:
				parSources(x)
			case 1:
				parMalformed(x)
			case 2:
				parBind(x)
			case 3:
				parNames(x)
			case 4:
				parTagged(x)
			case 5:
				parJson(x)
			case 6:
				parUpload(x)
			case 7:
				parCustom(x)
			case 8:
				parNested(x)
			}
		},
	})
}
