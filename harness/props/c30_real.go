package props

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"strip.verif/mc"
)

type rlAddr struct{ text, want string }

// every address in every form it is written in
var rlAddrs = func() (out []rlAddr) {
	for _, a := range []string{"1.2.3.4", "::1", "2001:db8::1", "fe80::1%eth0", "::ffff:1.2.3.4", "client.example", "unknown", "_hidden"} {
		forms := []string{a, "%s:8080", "[%s]", "[%s]:443"}
		if strings.Contains(a, ":") {
			forms[1] = ""
		} else {
			forms = forms[:2]
		}
		for i, f := range forms {
			if f == "" {
				continue
			}
			if i > 0 {
				f = fmt.Sprintf(f, a)
			}
			out = append(out, rlAddr{f, a}, rlAddr{" " + f + "\t", a})
		}
	}
	return
}()

type linePrinter struct{ lines []string }

func (p *linePrinter) Print(v ...interface{}) { p.lines = append(p.lines, fmt.Sprint(v...)) }

func rlAddress(x *mc.X) {
	blank := []rlAddr{{"-", ""}, {"", ""}, {"  ", ""}}
	real := mc.Pick(x, "real IP", append(blank, rlAddrs...))
	x.Ready()
	fwds := append(blank, rlAddrs...)
	fwd := mc.Pick(x, "forwarded for", fwds)
	if fwd.text != "-" {
		fwd.text += mc.Pick(x, "further entries", []string{"", ",9.9.9.9", ", [2::2]:1, 9.9.9.9", ",", ", "})
	}
	conns := []rlAddr{}
	for _, a := range rlAddrs {
		if !strings.ContainsAny(a.text, " \t") {
			conns = append(conns, a)
		}
	}
	if !x.Thorough {
		conns = conns[:8]
	}
	conn := mc.Pick(x, "connection", conns)
	x.Op()
	want := conn.want
	if fwd.want != "" {
		want = fwd.want
	}
	if real.want != "" {
		want = real.want
	}
	req := newReq("GET", "/p")
	req.RemoteAddr = conn.text
	if real.text != "-" {
		req.Header.Set("X-Real-Ip", real.text)
	}
	if fwd.text != "-" {
		req.Header.Set("X-Forwarded-For", fwd.text)
		if strings.HasSuffix(fwd.text, "9.9.9.9") {
			req.Header.Add("X-Forwarded-For", "8.8.8.8")
		}
	}
	desc := fmt.Sprintf("real IP %q, forwarded for %q, connection %q", real.text, fwd.text, conn.text)
	var out linePrinter
	sp := newApp()
	sp.Filter(reqlogger.ReqLoggerFilter(&out))
	sp.Provide(params.ParamsParser())
	var got, got2 string
	sp.Routers(strip.Router("/p", strip.Get(func(p *params.Params, r *http.Request) { got, got2 = p.RealIp(), params.RealIp(r) })))
	if _, p := serve(sp, req); p != nil {
		x.Failf("panic", "%s: panic %v", desc, p)
	}
	if got != want || got2 != want {
		x.Failf("address", "%s: client address %q and %q, want %q", desc, got, got2, want)
	}
	if len(out.lines) != 2 || !strings.HasSuffix(strings.TrimSpace(out.lines[0]), " "+want) || !strings.Contains(out.lines[0], "/p "+want) {
		x.Failf("log", "%s: logged %q, want address %q", desc, out.lines, want)
	}
	x.Statef("%q %q %q", real, fwd, conn)
}

func rlURL(x *mc.X) {
	hosts := []rlAddr{{"host.example", "host.example"}, {"Host.Example:8080", "Host.Example"}, {"1.2.3.4:1", "1.2.3.4"}, {"[::1]:8080", "[::1]"}, {"[2001:db8::1]", "[2001:db8::1]"}, {"localhost", "localhost"}, {"", ""}}
	fhosts := append([]rlAddr{{"-", ""}}, hosts...)
	fh := mc.Pick(x, "forwarded host", fhosts)
	h := mc.Pick(x, "host", hosts)
	fproto := mc.Pick(x, "forwarded protocol", []string{"", "https", "http", "wss"})
	scheme := mc.Pick(x, "scheme", []string{"", "http", "https"})
	x.Ready()
	orig := mc.Pick(x, "original URI", []string{"", "/", "/o", "/o/x?a=1&b=%20", "/o%2Fx", "/p/x", "/%41", "/o?", "/é", "/o;v=1?q#f", "relative", "%zz", "/%zz", "//h/x", "http://abs.example/y?z=1", "/o?a=b?c", "*", ":", "/a b"})
	secure := x.Bool("TLS")
	own := mc.Pick(x, "request URI", []string{"/p", "/p/x?a=1", "/p%2Fx", "/p?", "/", "/a%20b?c=%26", "//d/e"})
	x.Op()
	req := newReq("GET", "/")
	u, err := url.ParseRequestURI(own)
	if err != nil {
		panic(err)
	}
	if strings.HasPrefix(own, "//") { // as net/http reads a request line
		u, _ = url.ParseRequestURI("http:" + "//x" + own)
		u.Host, u.Scheme = "", ""
	}
	u.Scheme = scheme
	if scheme != "" {
		u.Host = "in.url"
	}
	req.URL = u
	req.Host = h.text
	if secure {
		req.TLS = &tls.ConnectionState{HandshakeComplete: true}
	}
	for k, v := range map[string]string{"X-Forwarded-Host": fh.text, "X-Forwarded-Proto": fproto, "X-Original-URI": orig} {
		if v != "" && v != "-" {
			req.Header.Set(k, v)
		}
	}
	desc := fmt.Sprintf("forwarded host %q, host %q, forwarded protocol %q, URL scheme %q, original URI %q, request URI %q", fh.text, h.text, fproto, scheme, orig, own)
	host, proto, uri := h.want, "http", own
	if fh.want != "" {
		host = fh.want
	}
	if scheme != "" {
		proto = scheme
	}
	if fproto != "" {
		proto = fproto
	}
	if orig != "" {
		uri = orig
	}
	before := *req.URL
	sp := newApp()
	sp.Provide(params.ParamsParser())
	sp.NotFound(func(p *params.Params) {
		for i := 0; i < 2; i++ {
			gh, gp, gu := p.RealHost(), p.RealProto(), p.RealURI()
			full, err := p.RealURL()
			if i == 1 {
				gh, gp, gu = params.RealHost(req), params.RealProto(req), params.RealURI(req)
				full, err = params.RealURL(req)
			}
			if gh != host {
				x.Note("host", "%s: host %q, want %q", desc, gh, host)
			}
			if gp != proto {
				x.Note("proto", "%s: protocol %q, want %q", desc, gp, proto)
			}
			if gu != uri {
				x.Note("uri", "%s: URI %q, want %q", desc, gu, uri)
			}
			in, werr := url.ParseRequestURI(uri)
			if (err != nil) != (werr != nil) {
				x.Note("url", "%s: full URL %v, %v, want error %v", desc, full, err, werr)
				continue
			}
			if err != nil {
				continue
			}
			want := url.URL{Scheme: proto, Host: host, Path: in.Path, RawPath: in.RawPath, RawQuery: in.RawQuery, ForceQuery: in.ForceQuery}
			if full.String() != want.String() || full.Host != host || full.Scheme != proto || full.Path != in.Path || full.RawQuery != in.RawQuery {
				x.Note("url", "%s: full URL %q, want %q", desc, full, want.String())
			}
			if in.Host == "" && in.Scheme == "" && strings.HasPrefix(uri, "/") && full.RequestURI() != in.RequestURI() {
				x.Note("url", "%s: the full URL asks for %q, want %q", desc, full.RequestURI(), in.RequestURI())
			}
		}
	})
	if _, p := serve(sp, req); p != nil {
		x.Failf("panic", "%s: panic %v", desc, p)
	}
	if *req.URL != before {
		x.Failf("url", "%s: the request's URL becomes %q", desc, req.URL)
	}
	x.Statef("%s|%s|%s|%s", host, proto, uri, own)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C30",
		Model: "precedence of the forwarding headers, with each address and host generated together with its form without port",
		Assumptions: []string{
			"a header that holds only space counts as not set; a connection address is never empty",
			"IPv6 literals keep their brackets as hosts and lose them as client addresses",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"address forms": len(rlAddrs), "real IP values": len(rlAddrs) + 3, "forwarded for values": len(rlAddrs)*5 + 11, "URIs": 18 * 7, "hosts": 7 * 8, "protocols": 12}
		},
		Init: clearEnv,
		Run: func(x *mc.X) {
			if x.Choose(2, "mode") == 0 {
				rlAddress(x)
			} else {
				rlURL(x)
			}
		},
	})
}
