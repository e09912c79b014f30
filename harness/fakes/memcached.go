package fakes

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Memcached is a memcached server, text protocol.
type Memcached struct {
	mu     sync.Mutex
	items  map[string]*mcItem
	cas    uint64
	ln     net.Listener
	addr   net.Addr
	decide Decider
	conns  map[net.Conn]bool
	// since the last collection
	accepted int
}

type mcItem struct {
	Entry
	flags string
	cas   uint64
}

var mcSeq int64

// NewMemcached listens on an abstract unix socket.
func NewMemcached() (*Memcached, error) {
	ln, err := net.Listen("unix", fmt.Sprintf("@strip-verif-%d-%d", os.Getpid(), atomic.AddInt64(&mcSeq, 1)))
	if err != nil {
		return nil, err
	}
	m := &Memcached{items: map[string]*mcItem{}, ln: ln, addr: ln.Addr(), conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			m.mu.Lock()
			m.conns[c] = true
			m.accepted++
			m.mu.Unlock()
			go m.serve(c)
		}
	}()
	return m, nil
}

// Reset empties the server.
func (m *Memcached) Reset(d Decider) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.items, m.decide, m.cas = map[string]*mcItem{}, d, 0
	// earlier clients keep their connections until they are collected
	for c := range m.conns {
		c.Close()
	}
	if m.accepted > 1000 {
		m.accepted = 0
		runtime.GC()
	}
}

// PickServer implements memcache.ServerSelector.
func (m *Memcached) PickServer(key string) (net.Addr, error) {
	m.mu.Lock()
	d := m.decide
	m.mu.Unlock()
	if d != nil && d("connect") == Refused {
		return nil, errors.New("connection refused")
	}
	return m.addr, nil
}

// Each implements memcache.ServerSelector.
func (m *Memcached) Each(f func(net.Addr) error) error {
	a, err := m.PickServer("")
	if err != nil {
		return err
	}
	return f(a)
}

// Dump is the live contents.
func (m *Memcached) Dump() map[string]Entry {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := map[string]Entry{}
	for k, v := range m.items {
		if !v.dead(now()) {
			out[k] = v.Entry
		}
	}
	return out
}

func (m *Memcached) get(k string) *mcItem {
	it := m.items[k]
	if it == nil || it.dead(now()) {
		delete(m.items, k)
		return nil
	}
	return it
}

func mcExpire(s string) (time.Time, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || n > 1<<31-1 || n < -1<<31 {
		return time.Time{}, errors.New("bad")
	}
	switch {
	case n == 0:
		return time.Time{}, nil
	case n < 0:
		return now(), nil
	case n > 60*60*24*30:
		return time.Unix(n, 0), nil
	}
	return now().Add(time.Duration(n) * time.Second), nil
}

func (m *Memcached) serve(c net.Conn) {
	defer func() {
		m.mu.Lock()
		delete(m.conns, c)
		m.mu.Unlock()
		c.Close()
	}()
	r := bufio.NewReader(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		args := strings.Fields(line)
		if len(args) == 0 {
			c.Write([]byte("ERROR\r\n"))
			continue
		}
		var data []byte
		switch args[0] {
		case "set", "add", "replace", "append", "prepend", "cas":
			n := -1
			if len(args) >= 5 {
				n, err = strconv.Atoi(args[4])
			}
			if n < 0 || err != nil {
				c.Write([]byte("CLIENT_ERROR bad command line format\r\n"))
				return
			}
			data = make([]byte, n+2)
			if _, err := io.ReadFull(r, data); err != nil {
				return
			}
			if string(data[n:]) != "\r\n" {
				c.Write([]byte("CLIENT_ERROR bad data chunk\r\n"))
				return
			}
			data = data[:n]
		}
		m.mu.Lock()
		d := m.decide
		m.mu.Unlock()
		f := None
		if d != nil {
			f = d(strings.TrimSpace(line))
		}
		out := "SERVER_ERROR out of memory storing object\r\n"
		switch f {
		case CutBefore:
			return
		case ErrorLine:
		default:
			m.mu.Lock()
			out = m.exec(args, data)
			m.mu.Unlock()
		}
		if args[len(args)-1] == "noreply" {
			continue
		}
		if !reply(c, f, []byte(out)) {
			return
		}
	}
}

func (m *Memcached) exec(a []string, data []byte) string {
	bad := "ERROR\r\n"
	for _, k := range a[1:] {
		if len(k) > 250 {
			return "CLIENT_ERROR bad command line format\r\n"
		}
	}
	switch a[0] {
	case "get", "gets", "gat", "gats":
		keys := a[1:]
		var exp time.Time
		var err error
		if strings.HasPrefix(a[0], "gat") {
			if len(a) < 3 {
				return bad
			}
			if exp, err = mcExpire(a[1]); err != nil {
				return "CLIENT_ERROR invalid exptime argument\r\n"
			}
			keys = a[2:]
		}
		s := ""
		for _, k := range keys {
			it := m.get(k)
			if it == nil {
				continue
			}
			if strings.HasPrefix(a[0], "gat") {
				it.Expire = exp
			}
			s += fmt.Sprintf("VALUE %s %s %d", k, it.flags, len(it.Value))
			if strings.HasSuffix(a[0], "s") {
				s += fmt.Sprint(" ", it.cas)
			}
			s += "\r\n" + it.Value + "\r\n"
		}
		return s + "END\r\n"
	case "set", "add", "replace", "append", "prepend", "cas":
		k, old := a[1], m.get(a[1])
		exp, err := mcExpire(a[3])
		if err != nil {
			return "CLIENT_ERROR bad command line format\r\n"
		}
		switch a[0] {
		case "add":
			if old != nil {
				return "NOT_STORED\r\n"
			}
		case "replace", "append", "prepend":
			if old == nil {
				return "NOT_STORED\r\n"
			}
		case "cas":
			if old == nil {
				return "NOT_FOUND\r\n"
			}
			if len(a) < 6 || fmt.Sprint(old.cas) != a[5] {
				return "EXISTS\r\n"
			}
		}
		m.cas++
		switch a[0] {
		case "append":
			old.Value, old.cas = old.Value+string(data), m.cas
		case "prepend":
			old.Value, old.cas = string(data)+old.Value, m.cas
		default:
			m.items[k] = &mcItem{Entry{string(data), exp}, a[2], m.cas}
		}
		return "STORED\r\n"
	case "delete":
		if len(a) < 2 || m.get(a[1]) == nil {
			return "NOT_FOUND\r\n"
		}
		delete(m.items, a[1])
		return "DELETED\r\n"
	case "touch":
		if len(a) < 3 {
			return bad
		}
		exp, err := mcExpire(a[2])
		if err != nil {
			return "CLIENT_ERROR invalid exptime argument\r\n"
		}
		it := m.get(a[1])
		if it == nil {
			return "NOT_FOUND\r\n"
		}
		it.Expire = exp
		return "TOUCHED\r\n"
	case "incr", "decr":
		if len(a) < 3 {
			return bad
		}
		n, err := strconv.ParseUint(a[2], 10, 64)
		if err != nil {
			return "CLIENT_ERROR invalid numeric delta argument\r\n"
		}
		it := m.get(a[1])
		if it == nil {
			return "NOT_FOUND\r\n"
		}
		v, err := strconv.ParseUint(strings.TrimRight(it.Value, " "), 10, 64)
		if err != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		if a[0] == "incr" {
			v += n // wraps around
		} else if v < n {
			v = 0
		} else {
			v -= n
		}
		s := strconv.FormatUint(v, 10)
		m.cas++
		it.cas = m.cas
		if pad := len(it.Value) - len(s); pad > 0 {
			// memcached replaces the digits in place and pads with spaces
			it.Value = s + strings.Repeat(" ", pad)
		} else {
			it.Value = s
		}
		return s + "\r\n"
	case "flush_all":
		m.items = map[string]*mcItem{}
		return "OK\r\n"
	case "version":
		return "VERSION 1.6.21\r\n"
	case "verbosity":
		return "OK\r\n"
	}
	return bad
}

// Keys lists the live keys.
func Keys(m map[string]Entry) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
