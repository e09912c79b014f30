package props

import (
	"errors"
	"fmt"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/mediocregopher/radix.v2/redis"
	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/utils"
	"strip.verif/fakes"
	"strip.verif/mc"
	"strip.verif/vclock"
)

// The servers of a worker process; emptied before each execution.
var (
	fakeMc    *fakes.Memcached
	fakeRedis *fakes.Redis
	fakeMongo *fakes.Mongo
	mongoSess *mgo.Session
)

func startFakes() {
	if fakeMc != nil {
		return
	}
	var err error
	if fakeMc, err = fakes.NewMemcached(); err != nil {
		panic(err)
	}
	fakeRedis = fakes.NewRedis()
	fakeMongo = fakes.NewMongo()
	if mongoSess, err = fakeMongo.Session(); err != nil {
		panic(err)
	}
}

// backend is one kind of back end with its client configuration.
type backend struct {
	name     string
	keyField string
	auto     bool
	kept     bool // Redis connections are used again
}

var backends = []backend{{name: "memcached"}, {name: "redis"}, {name: "mongo", keyField: "_id"}, {name: "mongo-auto", keyField: "k", auto: true}}

func (b backend) mongo() bool { return strings.HasPrefix(b.name, "mongo") }

func (b backend) reset(d fakes.Decider) {
	startFakes()
	for _, p := range redisPools {
		p.Empty()
	}
	redisPools = nil
	redisConns.Store(0)
	switch {
	case b.name == "memcached":
		fakeMc.Reset(d)
	case b.name == "redis":
		fakeRedis.Reset(d)
	default:
		fakeMongo.Reset(d)
		mongoSess.ResetIndexCache()
	}
}

// between sets what happens within requests that are not atomic.
func (b backend) between(f func(string)) {
	if b.mongo() {
		fakeMongo.Between(f)
	}
}

func (b backend) connect(coll string) func(func(c *mgo.Collection) error) error {
	return func(f func(c *mgo.Collection) error) error {
		if fakeMongo.Refused() {
			return errors.New("connection refused")
		}
		s := mongoSess.Copy()
		defer s.Close()
		return f(s.DB("strip").C(coll))
	}
}

func mcClient() *memcache.Client {
	c := memcache.NewFromSelector(fakeMc)
	c.Timeout = time.Minute // a slow machine is not a fault
	return c
}

// open connections to Redis
var redisConns atomic.Int32

// the pools of an execution
var redisPools []*pool.Pool

// redisLost: the connections to Redis that are neither in a pool nor closed
func redisLost() int {
	n := int(redisConns.Load())
	for _, p := range redisPools {
		n -= p.Avail()
	}
	return n
}

type countedConn struct {
	net.Conn
	once sync.Once
}

func (c *countedConn) Close() error {
	c.once.Do(func() { redisConns.Add(-1) })
	return c.Conn.Close()
}

func (b backend) redisPool() *pool.Pool {
	size, started := 0, false
	if b.kept {
		size = 1
	}
	p, err := pool.NewCustom("tcp", "", size, func(network, addr string) (*redis.Client, error) {
		if !started {
			return nil, errors.New("not before it is needed")
		}
		c, err := fakeRedis.Dial()
		if err != nil {
			return nil, err
		}
		redisConns.Add(1)
		return redis.NewClient(&countedConn{Conn: c})
	}, pool.PingInterval(0))
	started = true
	if err != nil && !b.kept {
		panic(err)
	}
	redisPools = append(redisPools, p)
	return p
}

// keeps chooses whether connections are used again.
func (b backend) keeps(x *mc.X) backend {
	if b.name == "redis" {
		b.kept = x.Bool("connections are kept")
	}
	return b
}

func (b backend) cache(prefix string) (caches.CacheProvider, error) {
	switch b.name {
	case "memcached":
		return caches.NewMcProvider(caches.McConfig{KeyPrefix: prefix, Client: mcClient()})
	case "redis":
		return caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: prefix, Client: b.redisPool()})
	}
	// a collection per prefix
	return caches.NewMgoProvider(caches.MgoConfig{AutoExpire: b.auto, KeyField: b.keyField, ValueField: "v", ExpiredAtField: "e", Connect: b.connect("c" + prefix)})
}

// dump is the raw contents of the server: key -> value and expiry, without
// entries that expired.
func (b backend) dump() map[string]string {
	out := map[string]string{}
	show := func(v string, t time.Time) string {
		if t.IsZero() {
			return fmt.Sprintf("%q never", v)
		}
		return fmt.Sprintf("%q until %s", v, t.UTC().Format("2006-01-02 15:04:05.000"))
	}
	switch b.name {
	case "memcached":
		for k, e := range fakeMc.Dump() {
			out[k] = show(e.Value, e.Expire)
		}
	case "redis":
		for k, e := range fakeRedis.Dump() {
			out[k] = show(e.Value, e.Expire)
		}
	default:
		for _, c := range []string{"c", "cp1", "cp2", "csess"} {
			for k, d := range fakeMongo.Dump("strip."+c, b.keyField) {
				m := d.Map()
				t, _ := m["e"].(time.Time)
				if _, ok := m["expiredAt"]; ok {
					t, _ = m["expiredAt"].(time.Time)
				}
				if !vclock.Now().Before(t) {
					continue
				}
				v := m["v"]
				if _, ok := m["value"]; ok {
					v = m["value"]
				}
				out[c+"/"+k] = show(utils.ToStr(v), t)
			}
		}
	}
	return out
}

func showDump(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, "; ") + "}"
}

// ---- the contract

type centry struct {
	text  string
	isInt bool
	n     int64
	exp   time.Time // zero: never
}

type cmodel map[string]centry

func (m cmodel) clone() cmodel {
	o := cmodel{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// live: 1 yes, 0 no, -1 at this instant either
func (m cmodel) live(k string, now time.Time) (centry, int) {
	e, ok := m[k]
	switch {
	case !ok:
		return e, 0
	case e.exp.IsZero() || now.Before(e.exp):
		return e, 1
	case now.Equal(e.exp):
		return e, -1
	}
	return e, 0
}

func (m cmodel) String() string {
	var l []string
	for k, e := range m {
		t := "never"
		if !e.exp.IsZero() {
			t = fmt.Sprint(e.exp.Sub(vclock.Now()))
		}
		l = append(l, fmt.Sprintf("%s=%q/%s", k, e.text, t))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

type cop struct {
	kind   string
	key    string
	val    interface{}
	params []int
}

func (o cop) String() string {
	s := o.kind + "("
	if o.key != "" {
		s += o.key
	}
	if o.kind == "set" {
		s += fmt.Sprintf(", %T %#v", o.val, o.val)
	}
	for _, p := range o.params {
		s += fmt.Sprintf(", %d", p)
	}
	return s + ")"
}

func expireAt(params []int) time.Time {
	t := 60
	if len(params) > 0 && params[0] != 0 {
		t = params[0]
	}
	if t < 0 || t == far3 { // far3: memcached has no times beyond 2038, and nobody waits for them
		return time.Time{}
	}
	return vclock.Now().Add(time.Duration(t) * time.Second)
}

// text of a value as the cache stores it
func cacheText(v interface{}) (string, bool, int64) {
	switch v := v.(type) {
	case string:
		return v, false, 0
	case []byte:
		return string(v), false, 0
	case int:
		return strconv.Itoa(v), true, int64(v)
	case int64:
		return strconv.FormatInt(v, 10), true, v
	case bool:
		return strconv.FormatBool(v), false, 0
	}
	panic(v)
}

func (m cmodel) apply(o cop) (next cmodel, missed bool) {
	next = m.clone()
	e, live := m.live(o.key, vclock.Now())
	switch o.kind {
	case "set":
		t, i, n := cacheText(o.val)
		next[o.key] = centry{t, i, n, expireAt(o.params)}
	case "touch":
		if live == 0 {
			return next, true
		}
		e.exp = expireAt(o.params)
		next[o.key] = e
	case "delete":
		delete(next, o.key)
		return next, live == 0
	case "incr", "decr":
		if live == 0 {
			return next, true
		}
		if e.noNumber() {
			return next, false
		}
		by := int64(1)
		if len(o.params) > 0 {
			by = int64(o.params[0])
		}
		if o.kind == "decr" {
			by = -by
		}
		e.n += by
		e.text = strconv.FormatInt(e.n, 10)
		next[o.key] = e
	case "clean":
		next = cmodel{}
	case "get", "has":
		return next, live == 0
	case "gc":
	default:
		panic(o.kind)
	}
	return
}

// enabled: within the contract all back ends have in common
func (m cmodel) enabled(o cop) bool {
	if o.kind != "incr" && o.kind != "decr" {
		return true
	}
	e, live := m.live(o.key, vclock.Now())
	if live == 0 {
		return true
	}
	if !e.isInt {
		return e.noNumber()
	}
	n, _ := m.apply(o)
	return n[o.key].n >= 0
}

// noNumber: text no back end takes for a number
func (e centry) noNumber() bool {
	return !e.isInt && e.text != "" && (e.text[0] >= 'a' && e.text[0] <= 'z' || e.text[0] == 0)
}

// refused: a change of an entry that holds no number
func (m cmodel) refused(o cop) bool {
	e, live := m.live(o.key, vclock.Now())
	return (o.kind == "incr" || o.kind == "decr") && live == 1 && e.noNumber()
}

func runCop(c caches.CacheProvider, o cop) (text string, has bool, err error) {
	switch o.kind {
	case "set":
		err = c.Set(o.key, o.val, o.params...)
	case "touch":
		err = c.Touch(o.key, o.params...)
	case "delete":
		err = c.Delete(o.key)
	case "incr":
		err = c.Incr(o.key, o.params...)
	case "decr":
		err = c.Decr(o.key, o.params...)
	case "clean":
		err = c.Clean()
	case "gc":
		err = c.GC()
	case "get":
		var v utils.StrTo
		v, err = c.Get(o.key)
		text = string(v)
	case "has":
		has, err = c.Has(o.key)
	}
	return
}

func (m cmodel) observe(x *mc.X, b backend, c caches.CacheProvider, keys []string, hist *[]string) {
	for _, k := range keys {
		e, live := m.live(k, vclock.Now())
		if live < 0 {
			continue
		}
		v, err := c.Get(k)
		x.Op()
		switch {
		case live == 1 && err != nil:
			x.Failf("lost", "%s: after %s: get(%s) gives error %v, expected %q", b.name, strings.Join(*hist, ", "), k, err, e.text)
		case live == 1 && string(v) != e.text:
			key := "value"
			if b.name == "memcached" && e.isInt && strings.TrimRight(string(v), " ") == e.text && len(*hist) > 0 {
				key = "memcached-decr-pads"
			}
			x.Failf(key, "%s: after %s: get(%s) gives %q, expected %q", b.name, strings.Join(*hist, ", "), k, string(v), e.text)
		case live == 0 && err != caches.ErrMissedKey:
			x.Failf("kept", "%s: after %s: get(%s) gives %q, error %v, expected the missed-key error", b.name, strings.Join(*hist, ", "), k, string(v), err)
		}
		h, err := c.Has(k)
		x.Op()
		if err != nil || h != (live == 1) {
			x.Failf("has", "%s: after %s: has(%s) gives %v, error %v, expected %v", b.name, strings.Join(*hist, ", "), k, h, err, live == 1)
		}
	}
}

const (
	day  = 24 * 3600
	far  = 12 * 365 * day
	far2 = 400 * day
	far3 = 31 * 365 * day // beyond 2038
)

func cacheOps(thorough bool) (ops []cop) {
	vals := []interface{}{"a\r\nä b", "", 9}
	if thorough {
		vals = append(vals, []byte{0, 'x', 255}, true, int64(1)<<40)
	}
	for _, v := range vals {
		for _, p := range [][]int{nil, {0}, {5}, {31 * day}, {far2}, {far3}, {-1}} {
			if _, isInt := v.(int); !isInt && !thorough && len(p) > 0 && (p[0] == 0 || p[0] == far2 || p[0] == far3) {
				continue
			}
			ops = append(ops, cop{kind: "set", key: "k1", val: v, params: p})
		}
	}
	for _, p := range [][]int{nil, {0}, {5}, {31 * day}, {far3}, {-1}} {
		ops = append(ops, cop{kind: "touch", key: "k1", params: p})
	}
	for _, p := range [][]int{nil, {3}, {-2}} {
		ops = append(ops, cop{kind: "incr", key: "k1", params: p}, cop{kind: "decr", key: "k1", params: p})
	}
	ops = append(ops, cop{kind: "delete", key: "k1"}, cop{kind: "set", key: "k2", val: 7}, cop{kind: "touch", key: "k2", params: []int{5}},
		cop{kind: "incr", key: "k2"}, cop{kind: "delete", key: "k2"}, cop{kind: "clean"}, cop{kind: "gc"})
	return
}

// advance moves the clock next to an expiry of the model, or far ahead.
func advance(x *mc.X, m cmodel, farDone *bool) (string, bool) {
	var at []time.Time
	now := vclock.Now()
	for _, e := range m {
		if e.exp.After(now) {
			at = append(at, e.exp)
		}
	}
	sort.Slice(at, func(i, j int) bool { return at[i].Before(at[j]) })
	n := 3
	k := x.Choose(n, "how far")
	switch {
	case k == 2:
		if *farDone {
			return "", false
		}
		*farDone = true
		vclock.Add(far * time.Second)
		return "12 years pass", true
	case len(at) == 0:
		return "", false
	case k == 0:
		d := at[0].Add(-time.Second).Sub(now)
		if d <= 0 {
			return "", false
		}
		vclock.Add(d)
		return fmt.Sprint(d, " pass"), true
	}
	d := at[0].Add(500 * time.Millisecond).Sub(now)
	vclock.Add(d)
	return fmt.Sprint(d, " pass"), true
}

// valuesC14: values of every basic kind
var valuesC14 = []struct {
	val  interface{}
	text string
}{
	{int8(-5), "-5"}, {int16(300), "300"}, {int32(-70000), "-70000"}, {int64(1) << 62, "4611686018427387904"}, {-3, "-3"}, {0, "0"},
	{uint(7), "7"}, {uint8(200), "200"}, {uint16(60000), "60000"}, {uint32(4000000000), "4000000000"}, {uint64(1) << 40, "1099511627776"},
	{1.5, "1.5"}, {float32(-0.25), "-0.25"}, {1e21, "1000000000000000000000"}, {0.1, "0.1"}, {float32(0.1), "0.1"}, {uint64(1)<<63 + 1, "9223372036854775809"}, {math.MaxInt64, "9223372036854775807"}, {true, "true"}, {false, "false"},
	{"", ""}, {" x ", " x "}, {"12", "12"}, {"\"q\" \r\n\t", "\"q\" \r\n\t"}, {"ü€😀", "ü€😀"}, {strings.Repeat("long ", 4000), strings.Repeat("long ", 4000)},
	{[]byte{}, ""}, {[]byte{0, 10, 13, 255}, "\x00\n\r\xff"}, {sidText("named"), "named"},
}

type sidText string

// runC14values: one value of every kind, and large and repeated changes of
// numbers.
func runC14values(x *mc.X, b backend) {
	changes := []int{1, -1, 1 << 8, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<40 + 7, -(1 << 33)}
	kind := x.Choose(2, "values or numbers")
	key := mc.Pick(x, "key", []string{"k", "a:b/c.d-e_f", strings.Repeat("k", 200)})
	vclock.Set(time.Unix(1200000000, 0))
	if kind == 0 {
		v, w := mc.Pick(x, "value", valuesC14), mc.Pick(x, "value before", valuesC14)
		x.Ready()
		b.reset(nil)
		c, err := b.cache("p")
		if err == nil {
			err = c.Set(key, w.val)
		}
		if err == nil {
			err = c.Set(key, v.val)
		}
		got, gerr := c.Get(key)
		x.Op()
		if err != nil || gerr != nil || string(got) != v.text {
			x.Failf("value", "%s: set(%.20s, %T %.40q), then %T %.40q: errors %v, get gives %.60q, error %v", b.name, key, w.val, w.text, v.val, v.text, err, string(got), gerr)
		}
		x.Statef("%s %T", b.name, v.val)
		return
	}
	start := mc.Pick(x, "start", []int{0, 5, 1 << 31, 1 << 33, 1 << 45})
	d1, d2 := mc.Pick(x, "first change", changes), mc.Pick(x, "second change", changes)
	dec1, dec2 := x.Bool("decr first"), x.Bool("decr second")
	n1, n2 := start+d1, 0
	if dec1 {
		n1 = start - d1
	}
	n2 = n1 + d2
	if dec2 {
		n2 = n1 - d2
	}
	if n1 < 0 || n2 < 0 {
		x.Skip()
	}
	x.Ready()
	b.reset(nil)
	c, err := b.cache("p")
	if err == nil {
		err = c.Set(key, start)
	}
	change := func(dec bool, d int) {
		if err == nil && dec {
			err = c.Decr(key, d)
		} else if err == nil {
			err = c.Incr(key, d)
		}
	}
	change(dec1, d1)
	change(dec2, d2)
	got, gerr := c.Get(key)
	x.Op()
	if err != nil || gerr != nil || strings.TrimRight(string(got), " ") != strconv.Itoa(n2) {
		x.Failf("number", "%s: set(%d), changes by %d (decr %v) and %d (decr %v): errors %v, get gives %q, error %v, expected %d", b.name, start, d1, dec1, d2, dec2, err, string(got), gerr, n2)
	}
	x.Statef("%s %d", b.name, n2)
}

func runC14(x *mc.X) {
	b := mc.Pick(x, "back end", backends).keeps(x)
	if x.Bool("one value") {
		runC14values(x, b)
		return
	}
	always := x.Bool("observe after every step")
	ops := cacheOps(x.Thorough)
	depth := 3
	if x.Thorough {
		depth = 4
	}
	vclock.Set(time.Unix(1200000000, 0))
	b.reset(nil)
	keys := []string{"k1", "k2"}
	var hist []string
	m := cmodel{}
	var c caches.CacheProvider
	farDone := false
	for step := 0; step < depth; step++ {
		k := x.Choose(len(ops)+2, "operation")
		if step == 0 {
			x.Ready()
			var err error
			if c, err = b.cache(""); err != nil {
				x.Failf("new", "%s: %v", b.name, err)
			}
		}
		if k == len(ops)+1 {
			break // shorter history
		}
		if k == len(ops) {
			s, ok := advance(x, m, &farDone)
			if !ok {
				x.Skip()
			}
			if b.auto && x.Bool("TTL monitor runs") {
				fakeMongo.TTL()
				s += " (TTL pass)"
			}
			hist = append(hist, s)
		} else {
			o := ops[k]
			if !m.enabled(o) {
				x.Skip()
			}
			if _, live := m.live(o.key, vclock.Now()); live < 0 && o.kind != "set" {
				x.Skip()
			}
			next, missed := m.apply(o)
			hist = append(hist, o.String())
			_, _, err := runCop(c, o)
			x.Op()
			if n := redisLost(); n != 0 {
				x.Failf("connections", "%s: %s: %d connections are not given back", b.name, strings.Join(hist, ", "), n)
			}
			switch {
			case missed && err != caches.ErrMissedKey:
				x.Failf("missed", "%s: %s: the last operation is on a missing key and gives error %v, expected the missed-key error", b.name, strings.Join(hist, ", "), err)
			case m.refused(o):
				if err == nil || err == caches.ErrMissedKey {
					x.Failf("no number", "%s: %s: the last operation is on an entry that holds no number and gives error %v", b.name, strings.Join(hist, ", "), err)
				}
			case !missed && err != nil:
				x.Failf("error", "%s: %s: the last operation gives error %v", b.name, strings.Join(hist, ", "), err)
			}
			m = next
		}
		if always {
			m.observe(x, b, c, keys, &hist)
		}
		x.Statef("%s %s", b.name, m)
	}
	m.observe(x, b, c, keys, &hist)
	if n := redisLost(); n != 0 {
		x.Failf("connections", "%s: %s: %d connections are not given back", b.name, strings.Join(hist, ", "), n)
	}
}

// ---- failures and separation

// faulty lets the explorer choose the faults of the requests made while it is
// armed.
type faulty struct {
	x      *mc.X
	budget int
	armed  bool
	hit    []string // the faults of the present operation
	// none of these was at a request that was done all the same
	harmless bool
}

func (f *faulty) decide(request string) fakes.Fault {
	if !f.armed || f.budget == 0 {
		return fakes.None
	}
	k := fakes.None
	if request == "connect" {
		if f.x.Choose(2, "connect: refused?") == 1 {
			k = fakes.Refused
		}
	} else {
		k = fakes.Fault(f.x.Choose(5, "fault"))
	}
	if k != fakes.None {
		f.budget--
		f.harmless = f.harmless && (k == fakes.Refused || k == fakes.ErrorLine || k == fakes.CutBefore)
		f.hit = append(f.hit, fmt.Sprintf("%s at %q", k, request))
	}
	return k
}

// during runs f with faults and tells which there were.
func (f *faulty) during(do func()) []string {
	f.hit, f.armed, f.harmless = nil, true, true
	defer func() { f.armed = false }()
	do()
	return f.hit
}

func keyOf(prov, key string) string { return prov + "/" + key }

func faultOps(clean bool) (ops []cop) {
	for _, k := range []string{"k1", "k2"} {
		ops = append(ops, cop{kind: "get", key: k}, cop{kind: "has", key: k}, cop{kind: "set", key: k, val: "x"}, cop{kind: "set", key: k, val: 5, params: []int{5}},
			cop{kind: "touch", key: k, params: []int{90}}, cop{kind: "delete", key: k}, cop{kind: "incr", key: k, params: []int{3}}, cop{kind: "decr", key: k})
		if !clean {
			break
		}
	}
	if clean {
		ops = append(ops, cop{kind: "clean"}, cop{kind: "gc"})
	}
	return
}

func runC15(x *mc.X) {
	b := mc.Pick(x, "back end", backends).keeps(x)
	full := x.Bool("entries at the start")
	f := &faulty{x: x, budget: 1}
	depth := 2
	if x.Thorough {
		f.budget, depth = 2, 3
	}
	vclock.Set(time.Unix(1200000000, 0))
	provs := []string{"p1", "p2"}
	opsOf := [][]cop{faultOps(true), faultOps(false)}
	var cs [2]caches.CacheProvider
	var hist []string
	all := []string{"p1/k1", "p1/k2", "p2/k1", "p2/k2"}
	models := []cmodel{{}} // those the failures so far leave possible
	raw := map[string]string{}
	read := func(l string) (string, error, bool, error) {
		p, k := int(l[1]-'1'), l[3:]
		v, err := cs[p].Get(k)
		h, err2 := cs[p].Has(k)
		x.Ops(2)
		return string(v), err, h, err2
	}
	observe := func() {
		for _, l := range all {
			v, err, h, err2 := read(l)
			if err != nil && err != caches.ErrMissedKey || err2 != nil || h != (err == nil) {
				x.Failf("after", "%s: after %s: get(%s) gives %q, error %v, has gives %v, error %v", b.name, strings.Join(hist, ", "), l, v, err, h, err2)
			}
			var fit []cmodel
			for _, m := range models {
				e, live := m.live(l, vclock.Now())
				if live < 0 || (live == 1) == h && (!h || e.text == v) {
					fit = append(fit, m)
				}
			}
			if len(fit) == 0 {
				x.Failf("state", "%s: after %s: get(%s) gives %q, error %v; possible states: %v", b.name, strings.Join(hist, ", "), l, v, err, models)
			}
			models = fit
		}
	}
	for step := 0; step < depth; step++ {
		pi := x.Choose(2, "provider")
		o := mc.Pick(x, "operation", opsOf[pi])
		if step == 0 {
			x.Ready()
			b.reset(f.decide)
			for i := range cs {
				var err error
				if cs[i], err = b.cache(provs[i]); err != nil {
					x.Failf("new", "%s: %v", b.name, err)
				}
			}
			if full {
				m := cmodel{}
				for i, l := range all {
					before := b.dump()
					if err := cs[i/2].Set(l[3:], 20+i); err != nil {
						x.Failf("error", "%s: set: %v", b.name, err)
					}
					m[l] = centry{strconv.Itoa(20 + i), true, int64(20 + i), expireAt(nil)}
					for k, v := range b.dump() {
						if before[k] != v {
							if o, dup := raw[k]; dup {
								x.Failf("mixed", "%s: %s and %s are stored as %s", b.name, o, l, k)
							}
							raw[k] = l
						}
					}
				}
				models = []cmodel{m}
				hist = append(hist, "all four set to 20..23")
			}
		}
		o.key = keyOf(provs[pi], o.key)
		ok := true
		for _, m := range models {
			if !m.enabled(o) || m.refused(o) {
				ok = false
			}
		}
		if !ok {
			x.Skip()
		}
		var text string
		var h bool
		var err error
		call := o
		call.key = strings.TrimPrefix(o.key, provs[pi]+"/")
		before := b.dump()
		hit := f.during(func() { text, h, err = runCop(cs[pi], call) })
		x.Op()
		after := b.dump()
		what := fmt.Sprintf("%s %s", provs[pi], call)
		if len(hit) > 0 {
			what += fmt.Sprintf(" [%s] = error %v", strings.Join(hit, ", "), err)
		}
		hist = append(hist, what)
		failf := func(key, format string, a ...interface{}) {
			x.Failf(key, "%s: %s: %s; server before %s, after %s", b.name, strings.Join(hist, "; "), fmt.Sprintf(format, a...), showDump(before), showDump(after))
		}
		if n := redisLost(); n != 0 {
			failf("connections", "%d connections are not given back", n)
		}
		// which entries changed
		var changed []string
		for k, v := range after {
			if before[k] != v {
				changed = append(changed, k)
			}
		}
		for k := range before {
			if _, ok := after[k]; !ok {
				changed = append(changed, k)
			}
		}
		sort.Strings(changed)
		switch o.kind {
		case "clean":
			if len(changed) > 0 {
				for k := range after {
					if strings.HasPrefix(raw[k], provs[pi]) {
						failf("partial", "cleaned in part")
					}
				}
			}
		case "get", "has", "gc":
			if len(changed) > 0 {
				failf("changed", "%v changed", changed)
			}
		default:
			if len(changed) > 1 {
				failf("mixed", "%v changed", changed)
			}
			for _, k := range changed {
				if l, ok := raw[k]; ok && l != o.key {
					failf("mixed", "%s changed, which is %s", k, l)
				}
				raw[k] = o.key
			}
		}
		// the result
		var next []cmodel
		for _, m := range models {
			n, missed := m.apply(o)
			if o.kind == "clean" {
				// the others may go as well, if they share the server
				own := m.clone()
				for k := range own {
					if strings.HasPrefix(k, provs[pi]) {
						delete(own, k)
					}
				}
				if err == nil {
					next = append(next, own)
				}
			}
			e, live := m.live(o.key, vclock.Now())
			good := err == nil && !missed || err == caches.ErrMissedKey && missed
			switch o.kind {
			case "get":
				good = good && (err != nil || text == e.text)
			case "has":
				good = err == nil && h == (live == 1)
			}
			if good {
				next = append(next, n)
			} else if len(hit) > 0 && err != nil && err != caches.ErrMissedKey {
				next = append(next, m, n)
				if o.kind == "clean" {
					own := m.clone()
					for k := range own {
						if strings.HasPrefix(k, provs[pi]) {
							delete(own, k)
						}
					}
					next = append(next, own)
				}
			}
		}
		if len(next) == 0 {
			failf("result", "result %q %v error %v; possible states before: %v", text, h, err, models)
		}
		models = next
		observe()
		x.Statef("%s %v %v", b.name, models, len(hit))
	}
	// lifetimes
	for _, d := range []time.Duration{10 * time.Second, 60 * time.Second, 60 * time.Second} {
		vclock.Add(d)
		hist = append(hist, fmt.Sprint(d, " pass"))
		observe()
	}
}

// runC15new: faults while a provider is made.
func runC15new(x *mc.X) {
	b := mc.Pick(x, "back end", backends)
	f := &faulty{x: x, budget: 2}
	x.Ready()
	vclock.Set(time.Unix(1200000000, 0))
	b.reset(f.decide)
	var c caches.CacheProvider
	var err error
	hit := f.during(func() { c, err = b.cache("p1") })
	x.Op()
	if len(hit) > 0 && err == nil || len(hit) == 0 && err != nil {
		x.Failf("new", "%s: making the provider with faults %v gives error %v", b.name, hit, err)
	}
	if err != nil {
		if c, err = b.cache("p1"); err != nil {
			x.Failf("new", "%s: making the provider again after faults %v gives error %v", b.name, hit, err)
		}
	}
	if err = c.Set("k1", "v"); err != nil {
		x.Failf("new", "%s: set after faults %v gives error %v", b.name, hit, err)
	}
	if v, err := c.Get("k1"); err != nil || string(v) != "v" {
		x.Failf("new", "%s: get after faults %v gives %q, error %v", b.name, hit, string(v), err)
	}
	x.Statef("%s %v", b.name, hit)
}

// runC15keys: keys that not every back end takes.
func runC15keys(x *mc.X) {
	b := mc.Pick(x, "back end", backends)
	odd := mc.Pick(x, "key", []string{"a b", " a", "a ", "a\tb", "a\r\nset p1k1 0 0 1\r\nx", "a\x00b", "a\x7fb", "é", "a:b", "$a", "", strings.Repeat("l", 245), strings.Repeat("l", 251), strings.Repeat("l", 1000)})
	depth := 3
	if x.Thorough {
		depth = 4
	}
	ops := []cop{{kind: "get", key: odd}, {kind: "has", key: odd}, {kind: "set", key: odd, val: 7}, {kind: "touch", key: odd, params: []int{90}},
		{kind: "delete", key: odd}, {kind: "incr", key: odd}, {kind: "decr", key: odd}}
	seq := make([]cop, depth)
	for i := range seq {
		seq[i] = mc.Pick(x, "operation", ops)
	}
	x.Ready()
	vclock.Set(time.Unix(1200000000, 0))
	b.reset(nil)
	c, err := b.cache("p1")
	if err == nil {
		err = c.Set("k1", "v")
	}
	if err != nil {
		x.Failf("keys", "%s: %v", b.name, err)
	}
	before := showDump(b.dump())
	// memcached refuses blanks, control characters and more than 250 bytes
	refused := b.name == "memcached" && (len(odd)+2 > 250 || strings.ContainsFunc(odd, func(r rune) bool { return r <= ' ' || r == 0x7f }))
	held, value := false, 0
	var hist []string
	for _, o := range seq {
		text, has, err := runCop(c, o)
		x.Op()
		hist = append(hist, o.kind)
		bad := func(want string) {
			x.Failf("keys", "%s: %s with the key %.40q: %q, %v, error %v, expected %s", b.name, strings.Join(hist, ", "), odd, text, has, err, want)
		}
		if refused {
			if err == nil || err == caches.ErrMissedKey || has || text != "" {
				bad("an error of its own")
			}
			if now := showDump(b.dump()); now != before {
				bad("the entries " + before + ", they are " + now)
			}
			continue
		}
		switch {
		case o.kind == "set":
			if err != nil {
				bad("no error")
			}
			held, value = true, 7
			continue
		case o.kind == "has":
			if err != nil || has != held {
				bad(fmt.Sprint(held))
			}
			continue
		case !held:
			if err != caches.ErrMissedKey {
				bad("a missed key")
			}
			continue
		case err != nil:
			bad("no error")
		}
		switch o.kind {
		case "get":
			if text != strconv.Itoa(value) {
				bad(strconv.Itoa(value))
			}
		case "delete":
			held = false
		case "incr":
			value++
		case "decr":
			value--
		}
	}
	if v, err := c.Get("k1"); err != nil || string(v) != "v" {
		x.Failf("keys", "%s: after %s with the key %.40q another entry is %q, error %v", b.name, strings.Join(hist, ", "), odd, string(v), err)
	}
	x.Statef("%s %.40q %v %d", b.name, odd, held, value)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C14",
		Model: "a map from key to value and expiry, computed next to every operation on the real providers and client libraries, against in-process memcached, Redis and MongoDB servers on a virtual clock",
		Assumptions: []string{
			"the in-process servers follow the documented behaviour of memcached 1.6, Redis and MongoDB 3.6 for the commands used",
			"the instant of expiry itself is not judged; incr and decr only of integers stored as such and with a result of at least 0",
			"never means at least 12 years",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"history length": map[bool]int{true: 4, false: 3}[th], "operations": len(cacheOps(th)), "back ends": len(backends), "time": "to 1 s before and after the next expiry, 12 years; TTL monitor runs or not"}
		},
		Run: runC14, Init: startFakes,
	})
	mc.Register(&mc.Check{
		ID:    "C15",
		Model: "the set of states the failures so far leave possible, filtered by what is read back; the contents of the servers before and after each operation",
		Assumptions: []string{
			"the in-process servers follow the documented behaviour of memcached 1.6, Redis and MongoDB 3.6 for the commands used",
			"no prefix begins with another; clean may empty the whole server",
			"the application's Connect function copies the mgo session",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"history length": map[bool]int{true: 3, false: 2}[th], "faults per history": map[bool]int{true: 2, false: 1}[th], "fault kinds": "connection refused, error reply, cut before processing, after processing, within the reply; at every request", "operations": len(faultOps(true)) + len(faultOps(false)), "back ends": len(backends), "odd keys": "14, every sequence of up to 3 operations (thorough 4)"}
		},
		Run: func(x *mc.X) {
			switch x.Choose(3, "part") {
			case 0:
				runC15(x)
			case 1:
				runC15new(x)
			case 2:
				runC15keys(x)
			}
		}, Init: startFakes,
	})
}
