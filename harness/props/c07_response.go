package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

// operations on a response
var respOps = []string{"status 201", "status 404", "write a", "write bc", "write nothing", "flush", "hook", "hook header", "hook status", "hook hook", "hijack", "short write", "copy de", "string f"}

// statuses and sizes for shorter sequences
var respWide = []string{"status 200", "status 202", "status 204", "status 206", "status 301", "status 304", "status 400", "status 500", "status 503", "status 599", "status 999", "write #512", "write #513", "write #4096", "write #70000", "write nothing", "flush", "hook", "hook header", "hook status", "short write", "copy #4096", "copy #", "string de"}

// on connections that support less
var respPoor = []string{"status 201", "status 404", "write a", "write nothing", "flush", "hook header", "hook status", "hijack"}

type respModel struct {
	sent    bool
	status  int // last status set, or sent
	size    int
	body    string
	hooks   []int
	ran     []string
	hij     bool
	hdr     map[string]bool
	flushes int
}

// head is sent: hooks run, last registered first
func (m *respModel) send(kinds []string) {
	if m.sent {
		return
	}
	m.sent = true
	for i := len(m.hooks) - 1; i >= 0; i-- {
		id := m.hooks[i]
		m.ran = append(m.ran, fmt.Sprint(id))
		switch kinds[id] {
		case "hook header":
			m.hdr[fmt.Sprintf("X-Hook-%d", id)] = true
		case "hook status":
			m.status = 418
		}
	}
	if m.status == 0 {
		m.status = 200
	}
}

func runResponse(x *mc.X) {
	max := 5
	if x.Thorough {
		max = 6
	}
	ops, method := respOps, "GET"
	conn := 0 // everything, 1: can only be written to, 2: refuses to be hijacked
	switch x.Choose(3, "kind") {
	case 1:
		ops = respWide
		max -= 2
		method = mc.Pick(x, "method", []string{"GET", "HEAD", "POST"})
	case 2:
		ops = respPoor
		max--
		conn = 1 + x.Choose(2, "connection")
	}
	n := x.Choose(max+1, "length")
	seq := make([]string, n)
	for i := range seq {
		seq[i] = mc.Pick(x, "operation", ops)
	}
	split := 0
	if n > 1 {
		// operations from this one on are those of the action
		split = x.Choose(2, "split") * n / 2
	}
	x.Ready()
	m := &respModel{hdr: map[string]bool{}}
	var hookRan []string
	under := newRec()
	var to http.ResponseWriter = under
	switch conn {
	case 0:
		c, _ := net.Pipe()
		under.conn = c
		under.brw = bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c))
	case 1:
		to = plainRec{under}
	case 2:
		under.hijErr = errRead
	}
	kinds := append([]string{}, seq...)
	desc := strings.Join(seq, ", ")
	do := func(rw strip.ResponseWriter, from, to int) {
		for i := from; i < to; i++ {
			i := i
			x.Op()
			op := seq[i]
			if text, ok := strings.CutPrefix(op, "status "); ok {
				code, _ := strconv.Atoi(text)
				rw.WriteHeader(code)
				if !m.sent {
					m.status = code
				}
			}
			how, what, _ := strings.Cut(op, " ")
			if how == "copy" || how == "string" || how == "write" && strings.HasPrefix(what, "#") {
				b := []byte(what)
				if text, ok := strings.CutPrefix(what, "#"); ok {
					size, _ := strconv.Atoi(text)
					b = bytes.Repeat([]byte("r"), size)
				}
				var k int
				var err error
				switch how {
				case "write":
					k, err = rw.Write(b)
				case "string":
					k, err = io.WriteString(rw, string(b))
				default:
					var n int64
					n, err = io.Copy(rw, eofReader{bytes.NewReader(b)})
					k = int(n)
				}
				if how != "copy" || len(b) > 0 {
					m.send(kinds)
				} else if under.heads > 0 {
					// copying nothing may start the response or not
					m.send(kinds)
				}
				switch {
				case m.hij:
					if len(b) > 0 && err == nil {
						x.Note("response", "operations %s: write after a hijack reported success", desc)
					}
				default:
					if k != len(b) || err != nil {
						x.Note("response", "operations %s: %s of %d bytes returned %d, %v", desc, how, len(b), k, err)
					}
					m.size += len(b)
					m.body += string(b)
				}
			}
			switch op {
			case "write a", "write bc", "write nothing", "short write":
				text := strings.TrimPrefix(op, "write ")
				var b []byte
				switch op {
				case "write nothing":
				case "short write":
					b = []byte("xyz")
					under.failNext = 1
				default:
					b = []byte(text)
				}
				k, err := rw.Write(b)
				m.send(kinds)
				switch {
				case m.hij:
					if len(b) > 0 && err == nil {
						x.Note("response", "operations %s: write after a hijack reported success", desc)
					}
				case op == "short write":
					if k != 1 || err == nil {
						x.Note("response", "operations %s: write of 3 bytes with a fault after 1 returned %d, %v", desc, k, err)
					}
					m.size++
					m.body += "x"
				default:
					if k != len(b) || err != nil {
						x.Note("response", "operations %s: write of %d bytes returned %d, %v", desc, len(b), k, err)
					}
					m.size += len(b)
					m.body += string(b)
				}
				under.failNext = -1
			case "flush":
				rw.Flush()
				if conn == 1 {
					break // nothing to flush
				}
				if !m.hij {
					m.send(kinds)
					m.flushes++
				} else {
					m.sent = m.sent || false
				}
			case "hook", "hook header", "hook status", "hook hook":
				rw.Before(func(w strip.ResponseWriter) {
					hookRan = append(hookRan, fmt.Sprint(i))
					if under.heads > 0 {
						x.Note("response", "operations %s: a hook ran after the head was sent", desc)
					}
					switch op {
					case "hook header":
						w.Header().Set(fmt.Sprintf("X-Hook-%d", i), "1")
					case "hook status":
						w.WriteHeader(418)
					case "hook hook":
						// too late, whether it runs is left open
						w.Before(func(strip.ResponseWriter) {})
					}
				})
				if !m.sent {
					m.hooks = append(m.hooks, i)
				}
			case "hijack":
				c, brw, err := rw.Hijack()
				if (err != nil) != (m.hij || conn != 0) {
					x.Note("response", "operations %s: hijack returned %v", desc, err)
				}
				if err == nil && (c != under.conn || brw != under.brw) {
					x.Note("response", "operations %s: hijack returned another connection", desc)
				}
				if conn == 2 && err != errRead {
					x.Note("response", "operations %s: refused hijack returned %v", desc, err)
				}
				if conn == 0 {
					m.hij = true
				}
			}
			if m.hij {
				continue // nothing is promised about the counters any more
			}
			if rw.Status() != m.status {
				x.Note("response", "operations %s: after operation %d the reported status is %d, expected %d", desc, i+1, rw.Status(), m.status)
			}
			if rw.Size() != m.size {
				x.Note("response", "operations %s: after operation %d the reported size is %d, expected %d", desc, i+1, rw.Size(), m.size)
			}
			if rw.Written() != (m.status != 0) {
				x.Note("response", "operations %s: after operation %d written is %v", desc, i+1, rw.Written())
			}
			if m.sent && under.code != m.status {
				x.Note("response", "operations %s: after operation %d the status sent is %d, expected %d", desc, i+1, under.code, m.status)
			}
			if !m.sent && under.heads != 0 {
				x.Note("response", "operations %s: after operation %d the head was sent too early", desc, i+1)
			}
		}
	}
	sp := newApp()
	var kept strip.ResponseWriter
	sp.Filter(func(ctx strip.Context, rw http.ResponseWriter) {
		if kept != nil {
			return // the request after
		}
		kept = rw.(strip.ResponseWriter)
		do(kept, 0, split)
		ctx.Next()
	})
	act := func(rw http.ResponseWriter) {
		do(rw.(strip.ResponseWriter), split, n)
	}
	after := func(rw http.ResponseWriter) {
		w := rw.(strip.ResponseWriter)
		if w.Written() || w.Status() != 0 || w.Size() != 0 {
			x.Note("response", "operations %s: the next request starts with status %d, size %d", desc, w.Status(), w.Size())
		}
		w.Before(func(w strip.ResponseWriter) { w.Header().Add("X-After", "1") })
		w.WriteHeader(202)
		w.Write([]byte("after"))
		if w.Status() != 202 || w.Size() != 5 {
			x.Note("response", "operations %s: the next request reports status %d, size %d", desc, w.Status(), w.Size())
		}
	}
	sp.Routers(strip.Get(act), strip.Post(act), strip.Router("/after", strip.Get(after)))
	hijBefore := 0
	p := catch(func() { sp.ServeHTTP(to, newReq(method, "/")) })
	x.Logf("%s -> heads %d status %d body %q hooks %v", desc, under.heads, under.code, under.body.String(), hookRan)
	if p != nil {
		x.Failf("response", "operations %s: panic %v", desc, p)
	}
	if !m.hij {
		m.send(kinds)
		if under.heads != 1 {
			x.Note("response", "operations %s: %d heads were sent", desc, under.heads)
		}
		if !equalStrings(hookRan, m.ran) {
			x.Note("response", "operations %s: hooks ran %v, expected %v", desc, hookRan, m.ran)
		}
		if under.code != m.status || kept.Status() != m.status {
			x.Note("response", "operations %s: status sent %d, reported %d, expected %d", desc, under.code, kept.Status(), m.status)
		}
		if kept.Size() != m.size {
			x.Note("response", "operations %s: reported size %d, expected %d", desc, kept.Size(), m.size)
		}
		for h := range m.hdr {
			if under.sent.Get(h) == "" {
				x.Note("response", "operations %s: header %s set by a hook was not sent", desc, h)
			}
		}
		if under.flushes != m.flushes {
			x.Note("response", "operations %s: %d flushes reached the connection, expected %d", desc, under.flushes, m.flushes)
		}
	} else {
		if under.afterHij != hijBefore {
			x.Note("response", "operations %s: a head was sent after the hijack", desc)
		}
		for i := range hookRan {
			for j := range hookRan[:i] {
				if hookRan[i] == hookRan[j] {
					x.Note("response", "operations %s: hook %s ran twice", desc, hookRan[i])
				}
			}
		}
	}
	if under.body.String() != m.body {
		x.Note("response", "operations %s: body %.40q (%d bytes), expected %.40q (%d)", desc, under.body.String(), under.body.Len(), m.body, len(m.body))
	}
	if under.extra != 0 {
		x.Note("response", "operations %s: several heads", desc)
	}
	if n, ok := kept.(http.CloseNotifier); conn != 1 && (!ok || n.CloseNotify() != under.CloseNotify()) {
		x.Note("response", "operations %s: the end of the connection is not passed on", desc)
	}
	ran := len(hookRan)
	if r, p := serve(sp, newReq("GET", "/after")); p != nil || r.heads != 1 || r.code != 202 || r.body.String() != "after" || len(r.sent["X-After"]) != 1 || len(hookRan) != ran {
		x.Note("response", "operations %s: the next request: panic %v, %d heads, status %d, body %q, header %v, %d hooks of the first one", desc, p, r.heads, r.code, r.body.String(), r.sent, len(hookRan)-ran)
	}
	x.Statef("%d %s %v %v %d %d %.20s %v %v %d", conn, method, m.sent, m.hij, m.status, m.size, m.body, m.hooks, m.ran, m.flushes)
	if x.Failed() {
		x.Failf("", "")
	}
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C07",
		Model: "reference response: status, head sent, hooks, size; every operation sequence is executed on the real response writer of a real request over a recording connection",
		Assumptions: []string{
			"hooks do not write the body or register hooks; copying an empty stream may start the response or not; statuses are final ones (200 and above)",
			"the recording connection follows net/http: an implicit 200 at the first write or flush, no writes after a hijack",
		},
		Bounds: func(th bool) map[string]interface{} {
			n := 5
			if th {
				n = 6
			}
			return map[string]interface{}{"operations": respOps, "sequence length": n, "operations of shorter sequences": respWide, "shorter sequence length": n - 2}
		},
		Run: runResponse,
	})
}
