package fakes

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Redis is a Redis server.
type Redis struct {
	mu     sync.Mutex
	items  map[string]*Entry
	vers   map[string]int
	ver    int
	decide Decider
}

// NewRedis makes one.
func NewRedis() *Redis { return &Redis{items: map[string]*Entry{}, vers: map[string]int{}} }

// Reset empties the server.
func (s *Redis) Reset(d Decider) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.items, s.vers, s.decide = map[string]*Entry{}, map[string]int{}, d
}

// Dial connects.
func (s *Redis) Dial() (net.Conn, error) {
	s.mu.Lock()
	d := s.decide
	s.mu.Unlock()
	if d != nil && d("connect") == Refused {
		return nil, errors.New("connection refused")
	}
	a, b := net.Pipe()
	go s.serve(b)
	return a, nil
}

// Dump is the live contents.
func (s *Redis) Dump() map[string]Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]Entry{}
	for k, v := range s.items {
		if !v.dead(now()) {
			out[k] = *v
		}
	}
	return out
}

func (s *Redis) get(k string) *Entry {
	it := s.items[k]
	if it == nil {
		return nil
	}
	if it.dead(now()) {
		s.put(k, nil) // as a change for those who watch it, since Redis 6.0.9
		return nil
	}
	return it
}

type rstatus string
type rerr string
type rnil struct{}

func renc(v interface{}) string {
	switch v := v.(type) {
	case rstatus:
		return "+" + string(v) + "\r\n"
	case rerr:
		return "-" + string(v) + "\r\n"
	case rnil:
		return "$-1\r\n"
	case int:
		return fmt.Sprintf(":%d\r\n", v)
	case int64:
		return fmt.Sprintf(":%d\r\n", v)
	case string:
		return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
	case []interface{}:
		if v == nil {
			return "*-1\r\n"
		}
		o := fmt.Sprintf("*%d\r\n", len(v))
		for _, e := range v {
			o += renc(e)
		}
		return o
	}
	panic(v)
}

func rread(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 {
		return nil, errors.New("protocol")
	}
	var out []string
	for i := 0; i < n; i++ {
		line, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if !strings.HasPrefix(line, "$") {
			return nil, errors.New("protocol")
		}
		l, err := strconv.Atoi(strings.TrimRight(line[1:], "\r\n"))
		if err != nil || l < 0 {
			return nil, errors.New("protocol")
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:l]))
	}
	return out, nil
}

func (s *Redis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	watched := map[string]int{}
	var queue [][]string
	multi, bad := false, false
	for {
		args, err := rread(r)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		s.mu.Lock()
		d := s.decide
		s.mu.Unlock()
		f := None
		if d != nil {
			f = d(strings.Join(args, " "))
		}
		if f == CutBefore {
			return
		}
		cmd := strings.ToUpper(args[0])
		var out interface{}
		s.mu.Lock()
		switch {
		case f == ErrorLine:
			out = rerr("LOADING Redis is loading the dataset in memory")
			bad = bad || multi
		case multi && (cmd == "MULTI" || cmd == "WATCH"):
			out = rerr("ERR " + cmd + " inside MULTI is not allowed")
		case cmd == "MULTI":
			multi, bad, queue, out = true, false, nil, rstatus("OK")
		case cmd == "DISCARD":
			multi, watched, out = false, map[string]int{}, rstatus("OK")
		case cmd == "WATCH":
			for _, k := range args[1:] {
				s.get(k)
				watched[k] = s.vers[k]
			}
			out = rstatus("OK")
		case cmd == "UNWATCH":
			watched, out = map[string]int{}, rstatus("OK")
		case cmd == "EXEC" && !multi:
			out = rerr("ERR EXEC without MULTI")
		case cmd == "EXEC":
			dirty := false
			for k, v := range watched {
				s.get(k)
				dirty = dirty || s.vers[k] != v
			}
			if bad {
				out = rerr("EXECABORT Transaction discarded because of previous errors.")
			} else if dirty {
				out = []interface{}(nil)
			} else {
				res := []interface{}{}
				for _, q := range queue {
					res = append(res, s.exec(q))
				}
				out = res
			}
			multi, watched = false, map[string]int{}
		case multi:
			queue, out = append(queue, args), rstatus("QUEUED")
		default:
			out = s.exec(args)
		}
		s.mu.Unlock()
		if !reply(c, f, []byte(renc(out))) {
			return
		}
		if cmd == "QUIT" {
			return
		}
	}
}

func (s *Redis) put(k string, e *Entry) {
	s.ver++
	s.vers[k] = s.ver
	if e == nil {
		delete(s.items, k)
	} else {
		s.items[k] = e
	}
}

const (
	rSyntax = rerr("ERR syntax error")
	rInt    = rerr("ERR value is not an integer or out of range")
	rExp    = rerr("ERR invalid expire time")
	rArgs   = rerr("ERR wrong number of arguments")
)

func (s *Redis) exec(a []string) interface{} {
	cmd := strings.ToUpper(a[0])
	min := map[string]int{"GET": 2, "SET": 3, "SETEX": 4, "PSETEX": 4, "SETNX": 3, "GETSET": 3, "GETDEL": 2, "EXPIRE": 3, "PEXPIRE": 3, "EXPIREAT": 3, "PEXPIREAT": 3, "PERSIST": 2, "TTL": 2, "PTTL": 2, "DEL": 2, "UNLINK": 2, "EXISTS": 2, "INCR": 2, "DECR": 2, "INCRBY": 3, "DECRBY": 3, "MGET": 2, "MSET": 3, "TYPE": 2, "STRLEN": 2, "APPEND": 3, "KEYS": 2, "TOUCH": 2, "SELECT": 2}[cmd]
	if len(a) < min {
		return rArgs
	}
	unit := time.Second
	if strings.HasPrefix(cmd, "P") {
		unit = time.Millisecond
	}
	switch cmd {
	case "PING":
		if len(a) > 1 {
			return a[1]
		}
		return rstatus("PONG")
	case "QUIT", "SELECT":
		return rstatus("OK")
	case "GET", "GETDEL":
		e := s.get(a[1])
		if e == nil {
			return rnil{}
		}
		if cmd == "GETDEL" {
			s.put(a[1], nil)
		}
		return e.Value
	case "MGET":
		out := []interface{}{}
		for _, k := range a[1:] {
			if e := s.get(k); e != nil {
				out = append(out, e.Value)
			} else {
				out = append(out, rnil{})
			}
		}
		return out
	case "GETSET":
		e := s.get(a[1])
		s.put(a[1], &Entry{Value: a[2]})
		if e == nil {
			return rnil{}
		}
		return e.Value
	case "SETNX":
		if s.get(a[1]) != nil {
			return 0
		}
		s.put(a[1], &Entry{Value: a[2]})
		return 1
	case "SETEX", "PSETEX":
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return rInt
		}
		if n <= 0 {
			return rExp
		}
		s.put(a[1], &Entry{a[3], expireIn(n, unit)})
		return rstatus("OK")
	case "MSET":
		if len(a)%2 == 0 {
			return rArgs
		}
		for i := 1; i < len(a); i += 2 {
			s.put(a[i], &Entry{Value: a[i+1]})
		}
		return rstatus("OK")
	case "SET":
		e := &Entry{Value: a[2]}
		old := s.get(a[1])
		var nx, xx, get bool
		for i := 3; i < len(a); i++ {
			o := strings.ToUpper(a[i])
			switch o {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "GET":
				get = true
			case "KEEPTTL":
				if old != nil {
					e.Expire = old.Expire
				}
			case "EX", "PX", "EXAT", "PXAT":
				i++
				if i >= len(a) {
					return rSyntax
				}
				n, err := strconv.ParseInt(a[i], 10, 64)
				if err != nil {
					return rInt
				}
				if n <= 0 {
					return rerr("ERR invalid expire time in 'set' command")
				}
				switch o {
				case "EX":
					e.Expire = expireIn(n, time.Second)
				case "PX":
					e.Expire = expireIn(n, time.Millisecond)
				case "EXAT":
					e.Expire = time.Unix(n, 0)
				case "PXAT":
					e.Expire = time.Unix(0, 0).Add(time.Duration(n) * time.Millisecond)
				}
			default:
				return rSyntax
			}
		}
		if nx && xx {
			return rSyntax
		}
		if nx && old != nil || xx && old == nil {
			return rnil{}
		}
		s.put(a[1], e)
		if get {
			if old == nil {
				return rnil{}
			}
			return old.Value
		}
		return rstatus("OK")
	case "APPEND":
		e := s.get(a[1])
		if e == nil {
			e = &Entry{}
		}
		s.put(a[1], &Entry{e.Value + a[2], e.Expire})
		return len(e.Value) + len(a[2])
	case "STRLEN":
		if e := s.get(a[1]); e != nil {
			return len(e.Value)
		}
		return 0
	case "TYPE":
		if s.get(a[1]) == nil {
			return rstatus("none")
		}
		return rstatus("string")
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return rInt
		}
		e := s.get(a[1])
		if e == nil {
			return 0
		}
		var at time.Time
		if strings.HasSuffix(cmd, "AT") {
			at = time.Unix(0, 0).Add(time.Duration(n) * unit)
		} else {
			at = expireIn(n, unit)
		}
		if !now().Before(at) {
			s.put(a[1], nil)
		} else {
			s.put(a[1], &Entry{e.Value, at})
		}
		return 1
	case "PERSIST":
		e := s.get(a[1])
		if e == nil || e.Expire.IsZero() {
			return 0
		}
		s.put(a[1], &Entry{Value: e.Value})
		return 1
	case "TTL", "PTTL":
		e := s.get(a[1])
		if e == nil {
			return -2
		}
		if e.Expire.IsZero() {
			return -1
		}
		return int(e.Expire.Sub(now()) / unit)
	case "DEL", "UNLINK", "EXISTS", "TOUCH":
		n := 0
		for _, k := range a[1:] {
			if s.get(k) != nil {
				n++
				if cmd == "DEL" || cmd == "UNLINK" {
					s.put(k, nil)
				}
			}
		}
		return n
	case "INCR", "DECR", "INCRBY", "DECRBY":
		n := int64(1)
		if strings.HasSuffix(cmd, "BY") {
			var err error
			if n, err = strconv.ParseInt(a[2], 10, 64); err != nil {
				return rInt
			}
		}
		if strings.HasPrefix(cmd, "D") {
			n = -n
		}
		e := s.get(a[1])
		if e == nil {
			e = &Entry{Value: "0"}
		}
		v, err := strconv.ParseInt(e.Value, 10, 64)
		if err != nil {
			return rInt
		}
		if n > 0 && v > math.MaxInt64-n || n < 0 && v < math.MinInt64-n {
			return rerr("ERR increment or decrement would overflow")
		}
		s.put(a[1], &Entry{strconv.FormatInt(v+n, 10), e.Expire})
		return v + n
	case "FLUSHDB", "FLUSHALL":
		for k := range s.items {
			s.put(k, nil)
		}
		return rstatus("OK")
	case "DBSIZE":
		n := 0
		for k := range s.items {
			if s.get(k) != nil {
				n++
			}
		}
		return n
	case "KEYS":
		var ks []string
		for k := range s.items {
			if ok, _ := path.Match(a[1], k); ok && s.get(k) != nil {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		out := []interface{}{}
		for _, k := range ks {
			out = append(out, k)
		}
		return out
	case "TIME":
		return []interface{}{fmt.Sprint(now().Unix()), fmt.Sprint(now().Nanosecond() / 1000)}
	}
	return rerr("ERR unknown command '" + a[0] + "'")
}

func expireIn(n int64, unit time.Duration) time.Time {
	const far = 1 << 33 // seconds; a duration holds less
	if unit == time.Second && n > far || unit == time.Millisecond && n/1000 > far {
		n = far * int64(time.Second/unit)
	}
	return now().Add(time.Duration(n) * unit)
}
