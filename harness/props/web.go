package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"

	"github.com/wujiu2020/strip"
)

// rec is the underlying http.ResponseWriter of a request: it records what the
// connection receives, with net/http's rules.
type rec struct {
	hdr      http.Header
	heads    int // explicit and implicit heads sent
	extra    int // heads after the first
	code     int
	sent     http.Header // snapshot of the headers when the head was sent
	body     bytes.Buffer
	flushes  int
	flushed  []int // bytes of the body sent at each flush
	hijacked bool
	hijErr   error
	conn     net.Conn
	brw      *bufio.ReadWriter
	gone     chan bool
	afterHij int // heads after a hijack
	events   []string
	logEv    bool
	failNext int // next write fails after this many bytes, -1: no fault
}

func newRec() *rec { return &rec{hdr: http.Header{}, failNext: -1} }

func (r *rec) Header() http.Header { return r.hdr }

func (r *rec) WriteHeader(code int) {
	if r.logEv {
		r.events = append(r.events, fmt.Sprintf("head(%d)", code))
	}
	if r.hijacked {
		r.afterHij++
		return
	}
	r.heads++
	if r.heads > 1 {
		r.extra++
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	r.code = code
	r.sent = r.hdr.Clone()
}

var errWrite = errors.New("connection broken")

func (r *rec) Write(b []byte) (int, error) {
	if r.hijacked {
		return 0, http.ErrHijacked
	}
	if r.heads == 0 {
		if r.logEv {
			r.events = append(r.events, "implicit")
		}
		r.heads++
		r.code = 200
		r.sent = r.hdr.Clone()
	}
	if len(b) > 0 && r.failNext >= 0 {
		n := r.failNext
		if n > len(b) {
			n = len(b)
		}
		r.failNext = -1
		r.body.Write(b[:n])
		return n, errWrite
	}
	if r.logEv && len(b) > 0 {
		r.events = append(r.events, fmt.Sprintf("body(%q)", b))
	}
	return r.body.Write(b)
}

// ReadFrom and WriteString are there as on the connections of net/http.
func (r *rec) ReadFrom(src io.Reader) (n int64, err error) {
	b, err := io.ReadAll(src)
	if len(b) == 0 {
		r.Write(nil)
		return 0, err
	}
	k, werr := r.Write(b)
	if err == nil {
		err = werr
	}
	return int64(k), err
}

func (r *rec) WriteString(s string) (int, error) { return r.Write([]byte(s)) }

func (r *rec) Flush() {
	if r.hijacked {
		return
	}
	if r.heads == 0 {
		if r.logEv {
			r.events = append(r.events, "implicit-by-flush")
		}
		r.heads++
		r.code = 200
		r.sent = r.hdr.Clone()
	}
	r.flushes++
	r.flushed = append(r.flushed, r.body.Len())
	if r.logEv {
		r.events = append(r.events, "flush")
	}
}

func (r *rec) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if r.hijacked {
		return nil, nil, http.ErrHijacked
	}
	if r.hijErr != nil {
		return nil, nil, r.hijErr
	}
	r.hijacked = true
	return r.conn, r.brw, nil
}

func (r *rec) CloseNotify() <-chan bool {
	if r.gone == nil {
		r.gone = make(chan bool)
	}
	return r.gone
}

// plainRec is a connection that can only be written to.
type plainRec struct{ http.ResponseWriter }

// discard is a log printer that drops everything.
type discard struct{}

func (discard) Print(...interface{}) {}

// newApp is an application with a silent logger.
func newApp() *strip.Strip {
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(discard{}))
	return sp
}

// newReq builds a request without parsing surprises: path is the decoded path.
func newReq(method, path string) *http.Request {
	return &http.Request{
		Method:     method,
		URL:        &url.URL{Path: path},
		Proto:      "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1,
		Header:     http.Header{},
		Host:       "host.example",
		RemoteAddr: "192.0.2.1:1234",
		Body:       http.NoBody,
	}
}

// serve runs one request and returns what the connection received and the
// value of a panic that escaped.
func serve(sp http.Handler, req *http.Request) (r *rec, p interface{}) {
	r = newRec()
	p = catch(func() { sp.ServeHTTP(r, req) })
	return
}

func catch(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			rethrowControl(e)
			p = e
		}
	}()
	f()
	return nil
}

func readAll(r io.Reader) string {
	b, _ := io.ReadAll(r)
	return string(b)
}

func join(ss []string) string { return strings.Join(ss, " ") }
