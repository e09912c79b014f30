package props

import (
	"bufio"
	"bytes"
	stdgzip "compress/gzip"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/utils/apires"
	"strip.verif/mc"
)

// accepted: does this Accept-Encoding header accept gzip (RFC 9110 12.5.3)?
func acceptsGzip(h string) bool {
	star := false
	for _, e := range strings.Split(h, ",") {
		name, params, _ := strings.Cut(e, ";")
		name = strings.ToLower(strings.TrimSpace(name))
		zero := false
		for _, p := range strings.Split(params, ";") {
			k, v, ok := strings.Cut(p, "=")
			if ok && strings.EqualFold(strings.TrimSpace(k), "q") {
				v = strings.TrimSpace(v)
				zero = strings.Trim(v, "0.") == "" && v != ""
			}
		}
		switch name {
		case "gzip", "x-gzip":
			return !zero
		case "*":
			star = !zero
		}
	}
	return star
}

var acceptHeaders = []string{"-", "", "gzip", "deflate, gzip", "gzip, br", "gzip;q=0", "gzip; q=0.0", "deflate;q=0.5, gzip;q=0, br", "gzip;q=0.5", "gzip;q=1.000", "identity", "br", "GZIP", "notgzip", "gzip ; q=0.001", "gzip;level=0", "gzip;q", "br;q=0, gzip", "gzip;Q=0", "gzip ; q = 0"}

type gzipAction struct {
	name string
	h    func(b []byte) interface{}
	body func(b []byte) string // what it writes
	code int
	page bool // recovery writes the body in development mode
}

type eofReader struct{ r io.Reader }

func (e eofReader) Read(b []byte) (int, error) { return e.r.Read(b) }

func bs(b []byte) string { return string(b) }

var gzipActions = []gzipAction{
	{"nothing", func(b []byte) interface{} { return func() {} }, nil, 200, false},
	{"status only", func(b []byte) interface{} { return func(rw http.ResponseWriter) { rw.WriteHeader(404) } }, nil, 404, false},
	{"204", func(b []byte) interface{} { return func(rw http.ResponseWriter) { rw.WriteHeader(204) } }, nil, 204, false},
	{"304", func(b []byte) interface{} { return func(rw http.ResponseWriter) { rw.WriteHeader(304) } }, nil, 304, false},
	{"write", func(b []byte) interface{} { return func(rw http.ResponseWriter) { rw.Write(b) } }, bs, 200, false},
	{"write empty", func(b []byte) interface{} { return func(rw http.ResponseWriter) { rw.Write(nil) } }, nil, 200, false},
	{"status write write", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.WriteHeader(201); rw.Write(b); rw.Write([]byte("tail")) }
	}, func(b []byte) string { return string(b) + "tail" }, 201, false},
	{"lengths", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) {
			rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
			rw.Header().Set("Content-Type", "x/y")
			rw.Write(b)
		}
	}, bs, 200, false},
	{"partial", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) {
			rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
			rw.Header().Set("Content-Range", fmt.Sprintf("bytes 0-%d/%d", len(b)-1, len(b)+1))
			rw.WriteHeader(206)
			rw.Write(b)
		}
	}, bs, 206, false},
	{"write flush write", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) {
			rw.Write([]byte("1"))
			rw.(http.Flusher).Flush()
			rw.Write(b)
		}
	}, func(b []byte) string { return "1" + string(b) }, 200, false},
	{"write flush write flush", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) {
			rw.Write(b)
			rw.(http.Flusher).Flush()
			rw.Write([]byte("2"))
			rw.(http.Flusher).Flush()
		}
	}, func(b []byte) string { return string(b) + "2" }, 200, false},
	{"flush write", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.(http.Flusher).Flush(); rw.Write(b) }
	}, bs, 200, false},
	{"status flush", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.WriteHeader(202); rw.(http.Flusher).Flush() }
	}, nil, 202, false},
	{"copy", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.WriteHeader(201); io.Copy(rw, eofReader{bytes.NewReader(b)}) }
	}, bs, 201, false},
	{"write copy", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.Write([]byte("1")); io.Copy(rw, eofReader{bytes.NewReader(b)}) }
	}, func(b []byte) string { return "1" + string(b) }, 200, false},
	{"string", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { io.WriteString(rw, string(b)); io.WriteString(rw, "tail") }
	}, func(b []byte) string { return string(b) + "tail" }, 200, false},
	{"returns string", func(b []byte) interface{} { return func() (string, int) { return string(b), 203 } }, bs, 203, false},
	{"returns bytes", func(b []byte) interface{} { return func() []byte { return b } }, bs, 200, false},
	{"returns reader", func(b []byte) interface{} { return func() io.Reader { return eofReader{bytes.NewReader(b)} } }, bs, 200, false},
	{"returns status", func(b []byte) interface{} { return func() int { return 404 } }, nil, 404, false},
	{"returns handler", func(b []byte) interface{} {
		return func() http.Handler {
			return http.HandlerFunc(func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(202); rw.Write(b) })
		}
	}, bs, 202, false},
	{"returns raw", func(b []byte) interface{} { return func() *apires.RawBody { return apires.RawWith(string(b), 202) } }, bs, 202, false},
	{"http.Error", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { http.Error(rw, string(b), 400) }
	}, func(b []byte) string { return string(b) + "\n" }, 400, false},
	{"removes encoding", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.Header().Del("Content-Encoding"); rw.WriteHeader(416); rw.Write(b) }
	}, bs, 416, false},
	{"own encoding", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.Header().Set("Content-Encoding", "br"); rw.Write(b) }
	}, bs, 200, false},
	{"range error", func(b []byte) interface{} {
		return func(rw http.ResponseWriter, req *http.Request) {
			req.Header.Set("Range", "bytes=5000000-")
			http.ServeContent(rw, req, "x.txt", epoch, bytes.NewReader(append([]byte("z"), b...)))
		}
	}, func(b []byte) string { return "invalid range: failed to overlap\n" }, 416, false},
	{"serve content", func(b []byte) interface{} {
		return func(rw http.ResponseWriter, req *http.Request) {
			http.ServeContent(rw, req, "x.txt", epoch, bytes.NewReader(b))
		}
	}, bs, 200, false},
	{"panic", func(b []byte) interface{} { return func() { panic("boom") } }, nil, 500, true},
	{"write panic", func(b []byte) interface{} { return func(rw http.ResponseWriter) { rw.Write(b); panic("boom") } }, bs, 200, false},
	{"status panic", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.WriteHeader(402); panic("boom") }
	}, nil, 402, false},
	{"header panic", func(b []byte) interface{} {
		return func(rw http.ResponseWriter) { rw.Header().Set("X", "y"); panic("boom") }
	}, nil, 500, true},
}

var gzipChains = [][]string{
	{"G"}, {"R", "G"}, {"G", "R"}, {"G", "O"}, {"O", "G"},
	{"R", "G", "O"}, {"R", "O", "G"}, {"G", "R", "O"}, {"G", "O", "R"}, {"O", "R", "G"}, {"O", "G", "R"},
	{"P", "G", "P"}, {"R", "P", "G", "P", "O"}, {"G", "G2"}, {"R", "G", "O", "G2"}, {"A", "R", "G"}, {"G", "A", "O"},
	{"W", "G"}, {"R", "W", "G"}, {"G", "W", "R"}, {"F", "G"},
}

func runGzip(x *mc.X) {
	chain := gzipChains[x.Choose(len(gzipChains), "chain")]
	act := &gzipActions[x.Choose(len(gzipActions), "action")]
	accept := mc.Pick(x, "accept", acceptHeaders)
	level := x.Choose(len(chain)+1, "filters on the route from")
	nf := x.Bool("not-found handler")
	dev := x.Bool("dev")
	vary := x.Bool("vary set before")
	sizes := []int{0, 1, 700}
	if x.Thorough {
		sizes = []int{0, 1, 2, 511, 512, 513, 40000}
	}
	size := mc.Pick(x, "size", sizes)
	has := func(s string) bool {
		for _, c := range chain {
			if c == s {
				return true
			}
		}
		return false
	}
	if act.code == 500 && !has("R") || strings.Contains(act.name, "panic") && !has("R") {
		x.Skip()
	}
	if (act.name == "lengths" || act.name == "partial") && has("W") || has("F") && act.code == 500 {
		x.Skip()
	}
	if strings.HasPrefix(act.name, "returns") && (!has("O") || nf) {
		x.Skip()
	}
	if act.body == nil && size != sizes[0] || nf && level != len(chain) {
		x.Skip()
	}
	x.Ready()
	data := make([]byte, size)
	for i := range data {
		data[i] = byte('a' + i*i%23)
	}
	sp := newApp()
	sp.Config.RunMode = strip.ModeProd
	if dev {
		sp.Config.RunMode = strip.ModeDev
	}
	afterText := ""
	mkf := func(c string) interface{} {
		switch c {
		case "G", "G2":
			return gzip.All()
		case "R":
			return strip.RecoveryFilter()
		case "O":
			return strip.GenericOutFilter()
		case "P":
			return func(ctx strip.Context) { ctx.Next() }
		case "W":
			// the body has begun before the rest of the chain
			return func(ctx strip.Context, rw http.ResponseWriter) { rw.Write([]byte("pre")); ctx.Next() }
		case "F":
			return func(ctx strip.Context, rw http.ResponseWriter) { rw.(http.Flusher).Flush(); ctx.Next() }
		case "A":
			// writes afterwards if nobody did
			return func(ctx strip.Context) {
				ctx.Next()
				if !ctx.Written() {
					var rw http.ResponseWriter
					ctx.Find(&rw)
					afterText = "nothing written"
					rw.WriteHeader(299)
					rw.Write([]byte(afterText))
				}
			}
		}
		return nil
	}
	var global, local []interface{}
	for i, c := range chain {
		if i < level {
			global = append(global, mkf(c))
		} else {
			local = append(local, mkf(c))
		}
	}
	if vary {
		sp.Filter(func(rw http.ResponseWriter) {
			rw.Header().Set("Vary", "Origin")
			rw.Header().Set("ETag", `"e"`)
			rw.Header().Add("Set-Cookie", "a=1")
			rw.Header().Add("Set-Cookie", "b=2")
		})
	}
	sp.Filter(global...)
	if nf {
		sp.NotFound(act.h(data))
	} else {
		sp.Routers(strip.Router("/r", strip.Get(act.h(data)).Filter(local...)))
	}
	req := newReq("GET", "/r")
	if accept != "-" {
		req.Header.Set("Accept-Encoding", accept)
	}
	desc := fmt.Sprintf("chain %v (global up to %d), %s of %d bytes, Accept-Encoding %q, dev %v, not-found %v", chain, level, act.name, size, accept, dev, nf)
	r, p := serve(sp, req)
	x.Op()
	if p != nil {
		x.Failf("gzip", "%s\npanic %v", desc, p)
	}
	if r.heads != 1 || r.extra != 0 {
		x.Failf("gzip", "%s\n%d heads sent", desc, r.heads)
	}
	ce := r.sent.Get("Content-Encoding")
	body := r.body.Bytes()
	x.Logf("%s: %d encoding %q, %d bytes", desc, r.code, ce, len(body))
	noBody := r.code == 204 || r.code == 304
	want, code := "", act.code
	if act.body != nil {
		want = act.body(data)
	}
	if afterText != "" {
		want, code = afterText, 299
	}
	if has("W") || has("F") {
		code = 200
		if has("W") {
			want = "pre" + want
		}
	}
	decoded := body
	if act.name == "own encoding" && afterText == "" && !has("W") && !has("F") && ce != "br" {
		x.Failf("gzip", "%s\nthe handler announced br, the response %q", desc, ce)
	}
	if len(r.flushed) > 0 && afterText == "" && !nf {
		// what was written before the flush can be read then
		var at []int
		switch act.name {
		case "write flush write":
			at = []int{1}
		case "write flush write flush":
			at = []int{size, size + 1}
		}
		if has("W") {
			for i := range at {
				at[i] += 3
			}
		}
		if has("F") {
			at = append([]int{0}, at...)
		}
		for i, n := range at {
			if i >= len(r.flushed) {
				break
			}
			got := body[:r.flushed[i]]
			if ce == "gzip" {
				var out []byte
				if zr, err := stdgzip.NewReader(bytes.NewReader(got)); err == nil {
					out, _ = io.ReadAll(zr)
				}
				got = out
			}
			if string(got) != want[:n] && (len(want) >= n || acceptsGzip(accept)) {
				x.Failf("gzip", "%s\nat flush %d the client can read %q, written was %q", desc, i+1, clip(string(got)), clip(want[:n]))
			}
		}
	}
	if vary {
		// what was set before stays
		for _, h := range [][2]string{{"Vary", "Origin"}, {"ETag", `"e"`}, {"Set-Cookie", "a=1,b=2"}} {
			if got := strings.Join(r.sent.Values(h[0]), ","); got != h[1] && (h[0] != "Vary" || !varies(r.sent, h[1])) {
				x.Failf("headers", "%s\n%s was set to %q, %q is sent", desc, h[0], h[1], got)
			}
		}
	}
	switch ce {
	case "gzip":
		if !acceptsGzip(accept) || accept == "-" {
			x.Failf("gzip", "%s\ncompressed although the client does not accept it", desc)
		}
		if r.sent.Get("Content-Length") != "" {
			x.Failf("gzip", "%s\nContent-Length %q sent with a compressed body", desc, r.sent.Get("Content-Length"))
		}
		if !varies(r.sent, "Accept-Encoding") {
			x.Failf("gzip", "%s\nVary is %q", desc, r.sent.Values("Vary"))
		}
		br := bytes.NewReader(body)
		zr, err := stdgzip.NewReader(br)
		if err != nil {
			x.Failf("gzip", "%s\nannounced as gzip, but not a gzip stream (%v): %q", desc, err, clip(string(body)))
		}
		zr.Multistream(false)
		decoded, err = io.ReadAll(zr)
		if err != nil {
			x.Failf("gzip", "%s\nannounced as gzip, but the stream is not complete (%v)", desc, err)
		}
		if br.Len() != 0 {
			x.Failf("gzip", "%s\n%d bytes after the gzip stream: %q", desc, br.Len(), clip(string(body[len(body)-br.Len():])))
		}
	case "br":
		if act.name != "own encoding" {
			x.Failf("gzip", "%s\nencoding %q", desc, ce)
		}
	case "":
		if cl := r.sent.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(body)) && !noBody {
			x.Failf("gzip", "%s\nContent-Length %s for %d bytes", desc, cl, len(body))
		}
	default:
		x.Failf("gzip", "%s\nencoding %q", desc, ce)
	}
	if act.page && dev && afterText == "" && !has("W") {
		s := string(decoded)
		if !strings.HasPrefix(s, "<html>") || !strings.HasSuffix(strings.TrimSpace(s), "</html>") || !strings.Contains(s, "boom") {
			x.Failf("gzip", "%s\nthe recovery page arrives as %q", desc, clip(s))
		}
	} else if (has("W") || has("F")) && !acceptsGzip(accept) {
		// the filter does not ask for the next handler: the chain ends there
		if s := string(decoded); s != want && s != strings.TrimSuffix(want, strings.TrimPrefix(want, "pre")) && s != "" {
			x.Failf("gzip", "%s\nthe client gets %q, written was %q", desc, clip(s), clip(want))
		}
	} else if string(decoded) != want {
		x.Failf("gzip", "%s\nthe client decodes %q, written was %q", desc, clip(string(decoded)), clip(want))
	}
	if r.code != code {
		x.Failf("gzip", "%s\nstatus %d, expected %d", desc, r.code, code)
	}
	if !vary && !(dev && act.page) {
		// and the same once more
		x.Op()
		req := newReq("GET", "/r")
		if accept != "-" {
			req.Header.Set("Accept-Encoding", accept)
		}
		r2, p := serve(sp, req)
		if p != nil || r2.heads != 1 || r2.code != r.code || r2.sent.Get("Content-Encoding") != ce || !bytes.Equal(r2.body.Bytes(), body) {
			x.Failf("gzip", "%s\nrequested again: panic %v, %d heads, status %d, encoding %q, %d bytes", desc, p, r2.heads, r2.code, r2.sent.Get("Content-Encoding"), r2.body.Len())
		}
	}
	x.State(desc)
}

// varies tells whether the response varies on a header of the request.
func varies(h http.Header, name string) bool {
	for _, n := range strings.Split(strings.Join(h.Values("Vary"), ","), ",") {
		if n = strings.TrimSpace(n); n == "*" || strings.EqualFold(n, name) {
			return true
		}
	}
	return false
}

// taking over the connection behind the filter
func runGzipRaw(x *mc.X) {
	chain := mc.Pick(x, "chain", [][]string{{}, {"G"}, {"R", "G"}, {"G", "R"}, {"G", "G"}})
	accept := mc.Pick(x, "accept", acceptHeaders)
	conn := x.Choose(3, "connection") // supports it, cannot, refuses
	before := mc.Pick(x, "before", []string{"nothing", "header", "status", "Content-Type"})
	after := mc.Pick(x, "after", []string{"nothing", "write", "flush", "panic"})
	if after == "panic" && (len(chain) == 0 || chain[0] != "R" && chain[len(chain)-1] != "R") {
		x.Skip()
	}
	x.Ready()
	x.Op()
	sp := newApp()
	sp.Config.RunMode = strip.ModeProd
	for _, c := range chain {
		if c == "G" {
			sp.Filter(gzip.All())
		} else {
			sp.Filter(strip.RecoveryFilter())
		}
	}
	under := newRec()
	c, _ := net.Pipe()
	under.conn = c
	under.brw = bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c))
	var to http.ResponseWriter = under
	switch conn {
	case 1:
		to = plainRec{under}
	case 2:
		under.hijErr = errRead
	}
	desc := fmt.Sprintf("chain %v, Accept-Encoding %q, connection %d, %s before, %s after taking it over", chain, accept, conn, before, after)
	ran := false
	sp.Routers(strip.Get(func(rw http.ResponseWriter) {
		ran = true
		switch before {
		case "header":
			rw.Header().Set("X-A", "1")
		case "status":
			rw.WriteHeader(201)
		case "Content-Type":
			rw.Header().Set("Content-Type", "text/html")
		}
		h, ok := rw.(http.Hijacker)
		if !ok {
			x.Failf("take over", "%s: not offered", desc)
		}
		got, brw, err := h.Hijack()
		switch {
		case conn == 0 && (err != nil || got != under.conn || brw != under.brw):
			x.Failf("take over", "%s: %v, the same connection %v %v", desc, err, got == under.conn, brw == under.brw)
		case conn == 1 && err == nil || conn == 2 && err != errRead:
			x.Failf("take over", "%s: %v", desc, err)
		}
		switch after {
		case "write":
			n, err := rw.Write([]byte("text"))
			if conn != 0 && (n != 4 || err != nil) {
				x.Failf("take over", "%s: written %d, %v", desc, n, err)
			}
		case "flush":
			rw.(http.Flusher).Flush()
		case "panic":
			panic("boom")
		}
	}))
	req := newReq("GET", "/")
	if accept != "-" {
		req.Header.Set("Accept-Encoding", accept)
	}
	p := catch(func() { sp.ServeHTTP(to, req) })
	if p != nil || !ran {
		x.Failf("take over", "%s: ran %v, panic %v", desc, ran, p)
	}
	if conn == 0 {
		if under.heads != 0 || under.body.Len() != 0 || under.afterHij != 0 {
			x.Failf("take over", "%s: the response of the connection taken over has %d heads and %q", desc, under.heads+under.afterHij, under.body.String())
		}
	} else {
		want, code := "", 200
		if before == "status" {
			code = 201
		}
		if after == "write" {
			want = "text"
		}
		got := under.body.String()
		if under.sent.Get("Content-Encoding") == "gzip" {
			zr, err := stdgzip.NewReader(&under.body)
			if err != nil {
				x.Failf("take over", "%s: announced as gzip: %v", desc, err)
			}
			b, err := io.ReadAll(zr)
			if got = string(b); err != nil {
				x.Failf("take over", "%s: announced as gzip: %v", desc, err)
			}
		}
		if after == "panic" {
			if under.heads != 1 {
				x.Failf("take over", "%s: %d heads", desc, under.heads)
			}
		} else if under.heads != 1 || under.code != code || got != want {
			x.Failf("take over", "%s: %d heads, status %d, %q, want %d %q", desc, under.heads, under.code, got, code, want)
		}
	}
	x.State(desc)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C08",
		Model: "the bytes each action writes; the client's view is decoded with the standard library",
		Assumptions: []string{
			"a handler outside the filter that appends to an already finished compressed response, or a handler that sends pre-compressed data announced as gzip itself, is outside the guarantee",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"chains": len(gzipChains), "actions": len(gzipActions), "Accept-Encoding values": acceptHeaders, "every split of the chain into global and route level": true}
		},
		Run: func(x *mc.X) {
			if x.Choose(2, "mode") == 0 {
				runGzip(x)
			} else {
				runGzipRaw(x)
			}
		},
	})
}
