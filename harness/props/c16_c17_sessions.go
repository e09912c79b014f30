package props

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
	"strip.verif/mc"
	"strip.verif/vclock"
)

var sessBackends = []backend{{name: "memcached"}, {name: "redis"}, {name: "mongo", keyField: "_id"}, {name: "mongo-auto", keyField: "_id", auto: true}}

func (b backend) sessions(cfg sessions.Config) (sessions.SessionProvider, error) {
	return b.sessionsOf(cfg, "s")
}

// sessionsOf one of several applications that use the server.
func (b backend) sessionsOf(cfg sessions.Config, prefix string) (sessions.SessionProvider, error) {
	switch b.name {
	case "memcached":
		return sessions.NewMcProvider(sessions.McConfig{Config: cfg, KeyPrefix: prefix, Client: mcClient()})
	case "redis":
		return sessions.NewRedisProvider(sessions.RedisConfig{Config: cfg, KeyPrefix: prefix, Client: b.redisPool()})
	}
	return sessions.NewMgoProvider(sessions.MgoConfig{Config: cfg, AutoExpire: b.auto, Connect: b.connect("c" + prefix + "ess")})
}

// svalues: the contents of a session in the model
type svalues map[string]interface{}

func (v svalues) clone() svalues {
	o := svalues{}
	for k, e := range v {
		o[k] = e
	}
	return o
}

func (v svalues) String() string {
	var l []string
	for k, e := range v {
		l = append(l, fmt.Sprintf("%s:%#v", k, e))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

type sstored struct {
	v   svalues
	exp time.Time
}

// sstore: session id -> what the back end holds
type sstore map[string]sstored

func (s sstore) clone() sstore {
	o := sstore{}
	for k, e := range s {
		o[k] = e
	}
	return o
}

// read: the values under an id, or nil
func (s sstore) read(sid string) svalues {
	if e, ok := s[sid]; ok && vclock.Now().Before(e.exp) {
		return e.v
	}
	return nil
}

// scookie is a session cookie a client received.
type scookie struct {
	value   string
	sid     string
	created time.Time
}

// sopen is an open session object and what the model holds of it.
type sopen struct {
	s       sessions.SessionStore
	sid     string
	v       svalues
	changed bool
	closed  bool
	r       *http.Request
}

type sclient struct {
	name   string
	cookie *scookie
	old    []*scookie
	cur    *sopen
	prev   *sopen
}

// what sessions are regenerated with where there is none
var sparams = svalues{"k2": "new"}

type sworld struct {
	x      *mc.X
	b      backend
	cfg    sessions.Config
	ck     sessions.CookieConfig
	m      *sessions.SessionManager
	f      *faulty
	stores []sstore // possible
	cs     []*sclient
	sids   map[string]bool
	hist   []string
	params map[string]interface{}
}

func (w *sworld) failf(key, format string, a ...interface{}) {
	w.x.Failf(key, "%s: %s: %s", w.b.name, strings.Join(w.hist, "; "), fmt.Sprintf(format, a...))
}

func (w *sworld) request(c *scookie) *http.Request {
	r := httptest.NewRequest("GET", "/", nil)
	if c != nil {
		r.Header.Set("Cookie", "other=1; "+w.ck.CookieName+"="+c.value+"; more=2")
	}
	return r
}

func (w *sworld) valid(c *scookie) bool {
	return c != nil && !vclock.Now().After(c.created.Add(time.Duration(w.cfg.SessionExpire)*time.Second))
}

// setCookie finds the session cookie of a response: nil if there is none.
func (w *sworld) setCookie(rec *httptest.ResponseRecorder) *http.Cookie {
	var c *http.Cookie
	for _, k := range rec.Result().Cookies() {
		if k.Name == w.ck.CookieName {
			c = k
		}
	}
	return c
}

// issued judges a cookie that starts a session and returns it.
func (w *sworld) issued(rec *httptest.ResponseRecorder, s sessions.SessionStore) *scookie {
	c := w.setCookie(rec)
	if c == nil || c.MaxAge < 0 {
		w.failf("cookie", "no session cookie is set: %v", rec.Header()["Set-Cookie"])
	}
	age := w.ck.CookieExpire
	if age < 0 {
		age = 0
	}
	if strings.TrimPrefix(c.Domain, ".") != strings.TrimPrefix(w.ck.CookieDomain, ".") || c.Secure != w.ck.CookieSecure || c.MaxAge != age || !c.HttpOnly || c.Path != "/" {
		w.failf("cookie", "the cookie is %q, configured are domain %q, secure %v, age %d", c.Raw, w.ck.CookieDomain, w.ck.CookieSecure, w.ck.CookieExpire)
	}
	sid := s.Sid()
	if w.sids[sid] || len(sid) < 16 {
		w.failf("sid", "the new session has the id %q", sid)
	}
	w.sids[sid] = true
	return &scookie{c.Value, sid, vclock.Now()}
}

func (w *sworld) same(got map[string]interface{}, want svalues) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return false
		}
		if l, isList := v.([]string); isList {
			rv := reflect.ValueOf(g)
			if rv.Kind() != reflect.Slice || rv.Len() != len(l) {
				return false
			}
			for i := range l {
				if rv.Index(i).Interface() != interface{}(l[i]) {
					return false
				}
			}
			continue
		}
		switch n := v.(type) {
		case int:
			rv := reflect.ValueOf(g)
			if rv.Kind() < reflect.Int || rv.Kind() > reflect.Int64 || rv.Int() != int64(n) {
				return false
			}
		default:
			if g != v {
				return false
			}
		}
	}
	return true
}

// shows judges the accessors of a session object against the model.
func (w *sworld) shows(o *sopen) {
	all := o.s.Values()
	if !w.same(all, o.v) {
		w.failf("values", "the session shows %#v, expected %s", all, o.v)
	}
	for _, k := range []string{"k1", "k2", "k3"} {
		v, ok := o.v[k]
		if o.s.Has(k) != ok {
			w.failf("has", "has(%s) is %v, expected %s", k, !ok, o.v)
		}
		g := o.s.Get(k)
		good := true
		switch v := v.(type) {
		case nil:
			good = g.IsNil() && g.Value() == nil
		case string:
			good = g.String() == v && g.MustString() == v
		case int:
			good = g.MustInt() == v && g.MustInt64() == int64(v) && g.String() == fmt.Sprint(v)
		case bool:
			good = g.MustBool() == v
		case []string:
			l := g.MustSliceString()
			good = len(l) == len(v)
			for i := range l {
				good = good && l[i] == v[i]
			}
		}
		if !good {
			w.failf("get", "get(%s) is %#v, expected %#v", k, g.Value(), v)
		}
	}
	if o.s.Sid() != o.sid {
		w.failf("sid", "the session's id is %q, expected %q", o.s.Sid(), o.sid)
	}
	// what Values returns is a copy
	all["k3"] = "x"
	if o.s.Has("k3") != (o.v["k3"] != nil) {
		w.failf("alias", "a change to what Values returned shows in the session")
	}
}

func (w *sworld) dump() string {
	d := w.b.dump()
	return showDump(d)
}

// begin starts a session with a cookie; nil if that failed for a fault.
func (w *sworld) begin(c *sclient, k *scookie, faults bool) *sopen {
	r, rec := w.request(k), httptest.NewRecorder()
	var s sessions.SessionStore
	var at time.Time
	var err error
	var hit []string
	do := func() {
		if p := catch(func() { s, at, err = w.m.Start(&w.ck, rec, r) }); p != nil {
			w.x.Note("panic", "%s: %s: starting a session panics: %v", w.b.name, strings.Join(w.hist, "; "), p)
		}
	}
	before := w.dump()
	if faults {
		hit = w.f.during(do)
	} else {
		do()
	}
	w.x.Op()
	if w.x.Failed() {
		w.failf("panic", "panics")
	}
	if len(hit) > 0 {
		w.hist = append(w.hist, fmt.Sprintf("(%v)", hit))
	}
	if after := w.dump(); before != after {
		w.failf("changed", "starting a session changes the back end from %s to %s", before, after)
	}
	if err != nil {
		if len(hit) == 0 {
			w.failf("start", "starting a session gives error %v", err)
		}
		return nil
	}
	if s == nil {
		w.failf("start", "starting a session gives neither a session nor an error")
	}
	valid := w.valid(k)
	if valid && len(hit) > 0 {
		// the back end had to be read
		if s.Sid() == k.sid && len(w.stores) == 1 && len(w.stores[0].read(k.sid)) == 0 && len(s.Values()) == 0 {
			w.failf("start", "starting a session reports success although the back end failed")
		}
	}
	if !valid {
		nk := w.issued(rec, s)
		if c.cookie != nil {
			c.old = append(c.old, c.cookie)
		}
		c.cookie = nk
		o := &sopen{s: s, sid: nk.sid, v: svalues{}, r: r}
		w.shows(o)
		if !at.Equal(vclock.Now()) {
			w.failf("time", "the new session is said to be made at %v, not now", at)
		}
		return o
	}
	if sc := w.setCookie(rec); sc != nil {
		w.failf("cookie", "a cookie is set although the request has a valid one: %v", sc)
	}
	if !at.Equal(k.created) {
		w.failf("time", "the session is said to be made at %v instead of %v", at, k.created)
	}
	o := &sopen{s: s, sid: k.sid, r: r}
	got := s.Values()
	var fit []sstore
	for _, st := range w.stores {
		if w.same(got, st.read(k.sid)) {
			fit = append(fit, st)
		}
	}
	if len(fit) == 0 {
		w.failf("values", "client %s's session %s shows %#v; the back end may hold %v", c.name, k.sid, got, w.showStores())
	}
	w.stores = fit
	o.v = fit[0].read(k.sid).clone()
	w.shows(o)
	return o
}

func (w *sworld) showStores() string {
	var l []string
	for _, s := range w.stores {
		for k, e := range s {
			l = append(l, fmt.Sprintf("%s=%s for %v", k, e.v, e.exp.Sub(vclock.Now())))
		}
		l = append(l, "|")
	}
	return strings.Join(l, " ")
}

// after replaces the possible stores: those the operation leads to, and with
// an error also the present ones.
func (w *sworld) after(failed bool, f func(s sstore) sstore) {
	var out []sstore
	for _, s := range w.stores {
		out = append(out, f(s.clone()))
		if failed {
			out = append(out, s)
		}
	}
	w.stores = out
}

func (w *sworld) save(o *sopen) func(s sstore) sstore {
	v, t := o.v.clone(), vclock.Now().Add(time.Duration(w.cfg.SessionExpire)*time.Second)
	return func(s sstore) sstore {
		s[o.sid] = sstored{v, t}
		return s
	}
}

func (w *sworld) call(what string, do func() error) (hit []string, err error) {
	w.hist = append(w.hist, what)
	hit = w.f.during(func() {
		if p := catch(func() { err = do() }); p != nil {
			w.x.Note("panic", "%s: %s panics: %v", w.b.name, strings.Join(w.hist, "; "), p)
		}
	})
	w.x.Op()
	if w.x.Failed() {
		w.failf("panic", "panics")
	}
	if len(hit) > 0 {
		w.hist = append(w.hist, fmt.Sprintf("(%v: error %v)", hit, err))
	}
	return
}

func (w *sworld) flush(name string, o *sopen) {
	before := w.dump()
	hit, err := w.call(name+" flushes", o.s.Flush)
	if !o.changed || o.closed {
		if err != nil && len(hit) == 0 {
			w.failf("flush", "flushing without changes gives error %v", err)
		}
		if after := w.dump(); after != before {
			w.failf("flush", "flushing without changes (or a destroyed session) alters the back end from %s to %s", before, after)
		}
		return
	}
	if err != nil && len(hit) == 0 {
		w.failf("flush", "error %v", err)
	}
	if err == nil {
		o.changed = false
	}
	w.after(err != nil, w.save(o))
	if err == nil {
		// saved: whatever happened to the requests
		for i := range w.stores {
			if w.stores[i].read(o.sid) == nil {
				panic("model")
			}
		}
	}
}

type sop struct {
	name string
	do   func(w *sworld, c *sclient) bool // false: not applicable
}

func needOpen(f func(w *sworld, c *sclient)) func(w *sworld, c *sclient) bool {
	return func(w *sworld, c *sclient) bool {
		if c.cur == nil {
			return false
		}
		f(w, c)
		return true
	}
}

func sset(key string, v interface{}) sop {
	return sop{fmt.Sprintf("set %s", key), needOpen(func(w *sworld, c *sclient) {
		if w.x.Verbose {
			w.hist = append(w.hist, fmt.Sprintf("%s sets %s to %#v", c.name, key, v))
		} else {
			w.hist = append(w.hist, c.name+" sets "+key)
		}
		c.cur.s.Set(key, v)
		c.cur.v[key] = v
		c.cur.changed = true
	})}
}

var sopStart = sop{"start", func(w *sworld, c *sclient) bool {
	w.hist = append(w.hist, c.name+" starts")
	if o := w.begin(c, c.cookie, true); o != nil {
		c.prev, c.cur = c.cur, o
	}
	return true
}}

var sopDelete = sop{"delete", needOpen(func(w *sworld, c *sclient) {
	w.hist = append(w.hist, c.name+" deletes k1")
	c.cur.s.Delete("k1")
	delete(c.cur.v, "k1")
	c.cur.changed = true
})}

var sopClean = sop{"clean", needOpen(func(w *sworld, c *sclient) {
	w.hist = append(w.hist, c.name+" cleans")
	c.cur.s.Clean()
	c.cur.v, c.cur.changed = svalues{}, true
})}

var sopFlush = sop{"flush", needOpen(func(w *sworld, c *sclient) { w.flush(c.name, c.cur) })}

var sopFlushPrev = sop{"flush earlier", func(w *sworld, c *sclient) bool {
	if c.prev == nil {
		return false
	}
	w.flush(c.name+"'s earlier session", c.prev)
	return true
}}

var sopTouch = sop{"touch", needOpen(func(w *sworld, c *sclient) {
	hit, err := w.call(c.name+" touches", c.cur.s.Touch)
	if err != nil && err != caches.ErrMissedKey && len(hit) == 0 {
		w.failf("touch", "error %v", err)
	}
	t := vclock.Now().Add(time.Duration(w.cfg.SessionExpire) * time.Second)
	sid := c.cur.sid
	w.after(err != nil, func(s sstore) sstore {
		if v := s.read(sid); v != nil {
			s[sid] = sstored{v, t}
		}
		return s
	})
})}

var sopDestroy = sop{"destroy", needOpen(func(w *sworld, c *sclient) {
	sid := c.cur.sid
	hit, err := w.call(c.name+" destroys the session object", c.cur.s.Destroy)
	if err != nil && err != caches.ErrMissedKey && len(hit) == 0 {
		w.failf("destroy", "error %v", err)
	}
	c.cur.v, c.cur.closed = svalues{}, true
	w.after(err != nil && len(hit) > 0, func(s sstore) sstore { delete(s, sid); return s })
})}

var sopEnd = sop{"end", func(w *sworld, c *sclient) bool {
	if c.cookie == nil {
		return false
	}
	r, rec := w.request(c.cookie), httptest.NewRecorder()
	hit, err := w.call(c.name+" ends", func() error { return w.m.Destroy(&w.ck, rec, r) })
	if err != nil && len(hit) == 0 {
		w.failf("destroy", "error %v", err)
	}
	if !w.valid(c.cookie) {
		return true
	}
	sid := c.cookie.sid
	w.after(len(hit) > 0, func(s sstore) sstore { delete(s, sid); return s })
	if err == nil {
		k := w.setCookie(rec)
		if k == nil || k.MaxAge >= 0 || k.Path != "/" || strings.TrimPrefix(k.Domain, ".") != strings.TrimPrefix(w.ck.CookieDomain, ".") {
			w.failf("cookie", "the client is not told to drop its cookie: %v", rec.Header()["Set-Cookie"])
		}
		c.old = append(c.old, c.cookie)
		c.cookie = nil
	}
	return true
}}

var sopRegen = sop{"regenerate", func(w *sworld, c *sclient) bool {
	r, rec := w.request(c.cookie), httptest.NewRecorder()
	var s sessions.SessionStore
	hit, err := w.call(c.name+" regenerates", func() (err error) {
		s, _, err = w.m.Regenerate(&w.ck, rec, r, w.params)
		return
	})
	if err != nil && len(hit) == 0 {
		w.failf("regenerate", "error %v", err)
	}
	valid := w.valid(c.cookie)
	if err != nil {
		// the values may have been moved on the way, out of reach, but not if
		// nothing the back end failed at was done
		if valid && !w.f.harmless {
			sid := c.cookie.sid
			w.after(true, func(s sstore) sstore { delete(s, sid); return s })
		}
		if k := w.setCookie(rec); k != nil && k.MaxAge >= 0 {
			w.failf("regenerate", "a new cookie is set although regenerating gives error %v", err)
		}
		return true
	}
	if s == nil {
		w.failf("regenerate", "neither a session nor an error")
	}
	nk := w.issued(rec, s)
	o := &sopen{s: s, sid: nk.sid, r: r}
	if valid {
		old := c.cookie.sid
		got := s.Values()
		var fit []sstore
		t := vclock.Now().Add(time.Duration(w.cfg.SessionExpire) * time.Second)
		for _, st := range w.stores {
			st = st.clone()
			if v := st.read(old); v != nil {
				if w.same(got, v) {
					delete(st, old)
					st[nk.sid] = sstored{v, t}
					fit = append(fit, st)
					o.v = v.clone()
				}
			} else if w.same(got, sparams) {
				fit = append(fit, st)
				o.v, o.changed = sparams.clone(), true
			}
		}
		if len(fit) == 0 {
			w.failf("regenerate", "the new session shows %#v; the back end may have held %s", got, w.showStores())
		}
		w.stores = fit
	} else {
		o.v, o.changed = sparams.clone(), true
	}
	w.shows(o)
	// the rest of the request is in the new session
	if sid, at, ok := w.m.ReadSidFromRequest(r, w.ck.CookieName); !ok || sid != nk.sid || !at.Equal(nk.created) {
		w.failf("regenerate", "the request that regenerated the session reads as session %q made at %v (%v), not as the new one, %q", sid, at, ok, nk.sid)
	}
	if c.cookie != nil {
		c.old = append(c.old, c.cookie)
	}
	c.cookie = nk
	c.prev, c.cur = c.cur, o
	return true
}}

var sopOld = sop{"old cookie", func(w *sworld, c *sclient) bool {
	if len(c.old) == 0 {
		return false
	}
	k := c.old[w.x.Choose(len(c.old), "which old cookie")]
	w.hist = append(w.hist, c.name+" uses an old cookie")
	keep := c.cookie
	w.begin(c, k, true)
	if c.cookie != keep {
		c.old = append(c.old, c.cookie)
		c.cookie = keep
	}
	return true
}}

func spass(name string, num, den int) sop {
	return sop{name, func(w *sworld, c *sclient) bool {
		d := time.Duration(w.cfg.SessionExpire) * time.Second * time.Duration(num) / time.Duration(den)
		vclock.Add(d)
		w.hist = append(w.hist, fmt.Sprint(d, " pass"))
		if w.b.auto {
			fakeMongo.TTL()
		}
		return true
	}}
}

var sessValues = [][2]interface{}{
	{"te,xt|é\x00", 7},
	{nil, []string{"a", "", "b c"}},
	{"", -1 << 40},
	{false, []string{}},
}

type sstep struct {
	op sop
	c  int
}

func newWorld(x *mc.X, b backend, cfg sessions.Config, ck sessions.CookieConfig, budget int) *sworld {
	w := &sworld{x: x, b: b, cfg: cfg, ck: ck, f: &faulty{x: x, budget: budget}, stores: []sstore{{}}, sids: map[string]bool{}, params: sparams.clone()}
	vclock.Set(time.Unix(1200000000, 0))
	b.reset(w.f.decide)
	p, err := b.sessions(cfg)
	if err != nil {
		x.Failf("new", "%s: %v", b.name, err)
	}
	w.m = sessions.NewSessionManager(p)
	w.cs = []*sclient{{name: "A"}, {name: "B"}}
	return w
}

// finish judges every cookie once more, without faults.
func (w *sworld) finish() {
	for _, c := range w.cs {
		for _, o := range []*sopen{c.cur, c.prev} {
			if o != nil {
				w.shows(o)
			}
		}
	}
	w.hist = append(w.hist, "finally")
	for _, c := range w.cs {
		keep := c.cookie
		for _, k := range append([]*scookie{keep}, c.old...) {
			if k != nil {
				w.begin(c, k, false)
			}
			c.cookie = keep
		}
		// the application sends the cookie anew: what is stored counts
		for _, k := range append([]*scookie{keep}, c.old...) {
			if k == nil {
				continue
			}
			v, ok := sessions.EncodeSecureValue(k.sid, w.cfg.SecretKey, vclock.Now())
			if !ok {
				continue
			}
			w.begin(c, &scookie{value: v, sid: k.sid, created: vclock.Now()}, false)
			c.cookie = keep
		}
	}
}

func (w *sworld) run(steps []sstep, depth int) {
	x := w.x
	for n := 0; n < depth; n++ {
		k := x.Choose(len(steps)+1, "operation")
		if k == len(steps) {
			break
		}
		st := steps[k]
		if !st.op.do(w, w.cs[st.c]) {
			x.Skip()
		}
		for _, c := range w.cs {
			if c.cur != nil {
				w.shows(c.cur)
			}
		}
		if !reflect.DeepEqual(w.params, map[string]interface{}(sparams)) {
			w.failf("alias", "a change to the session shows in what it was regenerated with: %v", w.params)
		}
		x.Statef("%s %s %d", w.b.name, w.stateText(), n)
	}
	w.finish()
}

func (w *sworld) stateText() string {
	// ids are random: number them
	num := map[string]int{}
	id := func(s string) int {
		if _, ok := num[s]; !ok {
			num[s] = len(num)
		}
		return num[s]
	}
	var l []string
	for _, c := range w.cs {
		if c.cookie != nil {
			l = append(l, fmt.Sprint(c.name, id(c.cookie.sid), vclock.Now().Sub(c.cookie.created)))
		}
		for _, k := range c.old {
			l = append(l, fmt.Sprint("old", id(k.sid)))
		}
		for _, o := range []*sopen{c.cur, c.prev} {
			if o != nil {
				l = append(l, fmt.Sprint("open", id(o.sid), o.v, o.changed, o.closed))
			}
		}
	}
	for _, s := range w.stores {
		var ks []string
		for k, e := range s {
			ks = append(ks, fmt.Sprint(id(k), e.v, e.exp.Sub(vclock.Now())))
		}
		sort.Strings(ks)
		l = append(l, ks...)
	}
	return strings.Join(l, ";")
}

var sessConfigs = []sessions.Config{{SecretKey: "secret", SessionExpire: 100}, {SecretKey: "s", SessionExpire: 40 * day}}

func runC16(x *mc.X) {
	b := mc.Pick(x, "back end", sessBackends)
	cfg := mc.Pick(x, "session lifetime", sessConfigs)
	vals := mc.Pick(x, "values", sessValues[:map[bool]int{true: 4, false: 2}[x.Thorough]])
	saved := x.Bool("A has a saved session")
	steps := []sstep{{sopStart, 0}, {sset("k1", vals[0]), 0}, {sset("k2", vals[1]), 0}, {sopDelete, 0}, {sopClean, 0}, {sopFlush, 0}, {sopFlushPrev, 0}, {sopTouch, 0}, {sopDestroy, 0}, {sopEnd, 0},
		{sopStart, 1}, {sset("k1", true), 1}, {sopFlush, 1}, {spass("60%", 60, 100), 0}, {spass("45%", 45, 100), 0}}
	depth := 4
	if x.Thorough {
		depth = 5
	}
	k := x.Choose(len(steps), "first")
	x.Ready()
	w := newWorld(x, b, cfg, sessions.CookieConfig{CookieName: "SID", CookieDomain: ".example.com", CookieSecure: true, CookieExpire: 3600}, 0)
	if cfg.SessionExpire == 100 && b.mongo() {
		// collections run while time passes
		w.m.GC(time.Minute)
	}
	if saved {
		w.hist = append(w.hist, "A starts")
		w.cs[0].cur = w.begin(w.cs[0], nil, false)
		sset("k1", vals[0]).do(w, w.cs[0])
		sset("k2", vals[1]).do(w, w.cs[0])
		sopFlush.do(w, w.cs[0])
	}
	if !steps[k].op.do(w, w.cs[steps[k].c]) {
		x.Skip()
	}
	w.run(steps, depth-1)
}

// runC16cookies: configurations, and cookies that are not a session's.
func runC16cookies(x *mc.X) {
	ck := sessions.CookieConfig{
		CookieName:   mc.Pick(x, "name", []string{"SID", "a.b-c"}),
		CookieDomain: mc.Pick(x, "domain", []string{"", "example.com", ".example.com"}),
		CookieSecure: x.Bool("secure"),
		CookieExpire: mc.Pick(x, "age", []int{0, 1, 3600, -1}),
	}
	b := mc.Pick(x, "back end", sessBackends)
	cfg := mc.Pick(x, "session lifetime", sessConfigs)
	x.Ready()
	w := newWorld(x, b, cfg, ck, 0)
	vclock.Add(750 * time.Millisecond)
	c := w.cs[0]
	w.hist = append(w.hist, fmt.Sprintf("%+v; A starts", ck))
	o := w.begin(c, nil, false)
	o.s.Set("k1", "v")
	o.v["k1"], o.changed = "v", true
	w.flush("A", o)
	good := c.cookie
	// the same request sees the session it started
	if s, _, err := w.m.Start(&w.ck, httptest.NewRecorder(), o.r); err != nil || s.Sid() != o.sid {
		w.failf("again", "starting again in the same request gives another session (error %v)", err)
	}
	other, _ := sessions.EncodeSecureValue(good.sid, "another key", vclock.Now())
	future, _ := sessions.EncodeSecureValue(good.sid, cfg.SecretKey, vclock.Now().Add(-time.Duration(cfg.SessionExpire+1)*time.Second))
	bad := []string{"", "x", good.value[:len(good.value)-2], other, future, good.sid, "%zz"}
	for i, v := range bad {
		w.hist = append(w.hist[:1:1], fmt.Sprintf("cookie %q", v))
		c.cookie = nil
		n := w.begin(c, nil, false)
		rec := httptest.NewRecorder()
		s, _, err := w.m.Start(&w.ck, rec, w.request(&scookie{value: v}))
		x.Op()
		if err != nil || s.Sid() == good.sid || len(s.Values()) != 0 {
			w.failf("forged", "gives the session %q with %v, error %v", s.Sid(), s.Values(), err)
		}
		w.issued(rec, s)
		_, _ = n, i
	}
	// a cookie of the same name sent before the session's does not hide it
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Cookie", ck.CookieName+"=junk; "+ck.CookieName+"="+good.value)
	s, _, err := w.m.Start(&w.ck, httptest.NewRecorder(), r)
	if err != nil || s.Sid() != good.sid {
		w.failf("last", "the last cookie of the name is not the one used (error %v)", err)
	}
	// another application with the same key on the same server
	p, err := b.sessionsOf(cfg, "t")
	if err != nil {
		w.failf("new", "error %v", err)
	}
	if s, _, err = sessions.NewSessionManager(p).Start(&w.ck, httptest.NewRecorder(), w.request(good)); err != nil || len(s.Values()) != 0 {
		w.failf("mixed", "another application's session shows %v (error %v)", s.Values(), err)
	}
	// to the end of its life
	for _, late := range []bool{false, true} {
		at := good.created.Add(time.Duration(cfg.SessionExpire)*time.Second - 500*time.Millisecond)
		if late {
			at = at.Add(time.Second)
		}
		vclock.Add(at.Sub(vclock.Now()))
		rec := httptest.NewRecorder()
		s, _, err := w.m.Start(&w.ck, rec, w.request(good))
		x.Op()
		if err != nil || (s.Sid() != good.sid) != late || (w.setCookie(rec) != nil) != late {
			w.failf("lifetime", "%v after the cookie was made it gives the session %q (the cookie's is %q, error %v)", at.Sub(good.created), s.Sid(), good.sid, err)
		}
	}
	x.Statef("%+v %s", ck, b.name)
}

// runC16dummy: the store without a back end.
func runC16dummy(x *mc.X) {
	steps := []sop{sset("k1", "v"), sset("k2", 7), sset("k1", []string{"a", "b"}), sopDelete, sopClean, {"destroy", nil}, {"flush", nil}}
	w := &sworld{x: x, b: backend{name: "dummy store"}}
	var init map[string]interface{}
	v := svalues{}
	if x.Bool("initial values") {
		init = map[string]interface{}{"k1": "first"}
		v["k1"] = "first"
	}
	c := &sclient{name: "A", cur: &sopen{s: sessions.NewDummySessionStore("id", init), sid: "id", v: v}}
	other := &sopen{s: sessions.NewDummySessionStore("id2", init), sid: "id2", v: v.clone()}
	for n := 0; n < map[bool]int{true: 6, false: 4}[x.Thorough]; n++ {
		w.shows(c.cur)
		st := mc.Pick(x, "operation", steps)
		x.Op()
		switch st.name {
		case "destroy":
			w.hist = append(w.hist, st.name)
			if err := c.cur.s.Destroy(); err != nil {
				w.failf("dummy", "error %v", err)
			}
			c.cur.v = svalues{}
		case "flush":
			w.hist = append(w.hist, st.name)
			if err := c.cur.s.Flush(); err != nil {
				w.failf("dummy", "error %v", err)
			}
			if err := c.cur.s.Touch(); err != nil {
				w.failf("dummy", "error %v", err)
			}
		default:
			st.do(w, c)
		}
		x.Statef("dummy %s", c.cur.v)
	}
	w.shows(c.cur)
	w.shows(other) // another session with the same initial values
}

// ownProvider is a session provider of the user's own: in memory, failing when chosen.
type ownProvider struct {
	x    *mc.X
	has  map[string]map[string]interface{}
	err  error // of the last call
	log  []string
	plan bool
}

var errOwn = errors.New("own failure")

func (p *ownProvider) fails(what string, also ...error) error {
	outcomes := append([]error{nil, errOwn}, also...)
	p.err = nil
	if p.plan {
		p.err = outcomes[p.x.Choose(len(outcomes), what)]
	}
	p.log = append(p.log, fmt.Sprintf("%s: %v", what, p.err))
	return p.err
}

func (p *ownProvider) Config() *sessions.Config {
	return &sessions.Config{SecretKey: "k", SessionExpire: 1000}
}
func (p *ownProvider) GC() error { return nil }

func (p *ownProvider) store(sid string) sessions.SessionStore {
	return sessions.NewDummySessionStore(sid, p.has[sid])
}

func (p *ownProvider) Create(sid string, params ...map[string]interface{}) (sessions.SessionStore, error) {
	if err := p.fails("create", sessions.ErrDuplicateSid); err != nil {
		return nil, err
	}
	p.has[sid] = map[string]interface{}{}
	if len(params) > 0 {
		for k, v := range params[0] {
			p.has[sid][k] = v
		}
	}
	return p.store(sid), nil
}

func (p *ownProvider) Read(sid string) (sessions.SessionStore, error) {
	if err := p.fails("read"); err != nil {
		return nil, err
	}
	if p.has[sid] == nil {
		p.err = sessions.ErrNotFoundSession
		return nil, p.err
	}
	return p.store(sid), nil
}

func (p *ownProvider) Regenerate(oldsid, sid string) (sessions.SessionStore, error) {
	if err := p.fails("regenerate", sessions.ErrDuplicateSid); err != nil {
		return nil, err
	}
	if p.has[oldsid] == nil {
		p.err = sessions.ErrNotFoundSession
		return nil, p.err
	}
	p.has[sid] = p.has[oldsid]
	delete(p.has, oldsid)
	return p.store(sid), nil
}

func (p *ownProvider) Destroy(sid string) error {
	if err := p.fails("destroy"); err != nil {
		return err
	}
	delete(p.has, sid)
	return nil
}

// runC17own: the manager on a provider whose every call may fail
func runC17own(x *mc.X) {
	n := 4
	if x.Thorough {
		n = 6
	}
	p := &ownProvider{x: x, has: map[string]map[string]interface{}{}, plan: true}
	m := sessions.NewSessionManager(p)
	ck := &sessions.CookieConfig{CookieName: "SID", CookieExpire: 50}
	cookie, sid := "", ""
	for i := 0; i < n; i++ {
		op := x.Choose(4, "operation")
		if i == 0 {
			x.Ready()
		}
		x.Op()
		r := httptest.NewRequest("GET", "/", nil)
		if cookie != "" {
			r.Header.Set("Cookie", "SID="+cookie)
		}
		rec := httptest.NewRecorder()
		p.log = append(p.log, []string{"START", "REGENERATE", "DESTROY", "(the store forgets)"}[op])
		p.err = nil
		fail := func(f string, a ...interface{}) {
			x.Failf("own", "%s\n%s", strings.Join(p.log, ", "), fmt.Sprintf(f, a...))
		}
		var s sessions.SessionStore
		var err error
		var at time.Time
		var before map[string]interface{}
		if sid != "" {
			before = p.has[sid]
		}
		pa := catch(func() {
			switch op {
			case 0:
				s, at, err = m.Start(ck, rec, r)
			case 1:
				s, at, err = m.Regenerate(ck, rec, r, map[string]interface{}{"given": 1})
			case 2:
				err = m.Destroy(ck, rec, r)
			case 3:
				delete(p.has, sid)
			}
		})
		if pa != nil {
			fail("panic %v", pa)
		}
		var set *http.Cookie
		for _, k := range rec.Result().Cookies() {
			set = k
		}
		switch op {
		case 0, 1:
			if err != p.err || (err != nil) != (s == nil) {
				fail("the provider returned %v, the manager %v with %v", p.err, err, s)
			}
			if err != nil {
				if set != nil {
					fail("a cookie is set: %v", set)
				}
				break
			}
			fresh := op == 1 || sid == ""
			if (set != nil) != fresh {
				fail("cookie %v", set)
			}
			if at.IsZero() || at.After(vclock.Now()) {
				fail("created at %v", at)
			}
			if !fresh && s.Sid() != sid || fresh && s.Sid() == sid || p.has[s.Sid()] == nil {
				fail("the session has the id %q, the cookie's is %q", s.Sid(), sid)
			}
			want := before
			if op == 1 && before == nil {
				want = map[string]interface{}{"given": 1}
			}
			if len(s.Values()) != len(want) {
				fail("the session shows %v, want %v", s.Values(), want)
			}
			if fresh {
				cookie, sid = set.Value, s.Sid()
				p.has[sid]["n"] = i
			}
		case 2:
			if err != nil || sid != "" && (set == nil || set.MaxAge >= 0) || sid == "" && set != nil {
				fail("destroy returned %v and set %v", err, set)
			}
			if sid != "" && p.err == nil && p.has[sid] != nil {
				fail("the session is still stored")
			}
			if x.Bool("client keeps the cookie") {
				break
			}
			cookie, sid = "", ""
		}
		x.State(join(p.log))
	}
}

// gcProvider is a provider whose collections are counted and may fail.
type gcProvider struct {
	ownProvider
	cfg   sessions.Config
	at    []time.Duration // when it was collected
	start time.Time
	fail  int // collections that fail
}

func (p *gcProvider) Config() *sessions.Config { return &p.cfg }
func (p *gcProvider) GC() error {
	p.at = append(p.at, vclock.Now().Sub(p.start))
	if p.fail > 0 {
		p.fail--
		return errOwn
	}
	return nil
}

// runC17gc: collections go on, and no manager works without a key
func runC17gc(x *mc.X) {
	interval := mc.Pick(x, "interval", []time.Duration{-2, -time.Hour, 0, time.Second, 59 * time.Second, time.Minute, 90 * time.Second, time.Hour, 2 * time.Hour})
	fails := x.Choose(4, "failing collections")
	key := mc.Pick(x, "key", []string{"k", ""})
	steps := make([]time.Duration, 2)
	for i := range steps {
		steps[i] = mc.Pick(x, "time passes", []time.Duration{0, 30 * time.Second, time.Minute, 61 * time.Second, time.Hour, 5*time.Hour + time.Second})
	}
	x.Ready()
	x.Op()
	vclock.Set(time.Unix(1200000000, 0))
	p := &gcProvider{cfg: sessions.Config{SecretKey: key, SessionExpire: 1000}, start: vclock.Now(), fail: fails}
	var m *sessions.SessionManager
	if e := catch(func() { m = sessions.NewSessionManager(p) }); (e != nil) != (key == "") {
		x.Failf("key", "a manager with the secret key %q: %v", key, e)
	}
	if key == "" {
		x.State("no key")
		return
	}
	threads := runtime.NumGoroutine()
	if e := catch(func() {
		if interval == -2 {
			m.GC()
		} else {
			m.GC(interval)
		}
	}); e != nil {
		x.Failf("collect", "collecting every %v: %v", interval, e)
	}
	if vclock.Timers() == 0 && runtime.NumGoroutine() > threads {
		x.Skip() // scheduled in another way
	}
	every := interval
	if every < time.Minute {
		every = time.Hour
	}
	var total time.Duration
	for _, s := range steps {
		vclock.Add(s)
		total += s
	}
	// the first one at once (the default interval may make it two)
	var got []time.Duration
	for _, at := range p.at {
		if at != 0 {
			got = append(got, at)
		}
	}
	var want []time.Duration
	for t := every; t <= total; t += every {
		want = append(want, t)
	}
	if len(p.at) == len(got) || fmt.Sprint(got) != fmt.Sprint(want) {
		x.Failf("collect", "collecting every %v, the first %d fail: in %v collected at %v, want at 0s and %v", interval, fails, total, p.at, want)
	}
	x.Statef("%v %d %v", interval, fails, steps)
}

func runC17(x *mc.X) {
	switch x.Choose(3, "provider") {
	case 1:
		runC17own(x)
		return
	case 2:
		runC17gc(x)
		return
	}
	b := mc.Pick(x, "back end", sessBackends).keeps(x)
	saved := x.Bool("A has a saved session")
	steps := []sstep{{sopStart, 0}, {sset("k1", "v1"), 0}, {sopFlush, 0}, {sopFlushPrev, 0}, {sopTouch, 0}, {sopDestroy, 0}, {sopEnd, 0}, {sopRegen, 0}, {sopOld, 0},
		{sopRegen, 1}, {sset("k1", "B's"), 1}, {sopFlush, 1}, {spass("60%", 60, 100), 0}}
	depth, budget := 3, 1
	if x.Thorough {
		depth, budget = 4, 2
	}
	k := x.Choose(len(steps), "first")
	x.Ready()
	w := newWorld(x, b, sessConfigs[0], sessions.CookieConfig{CookieName: "SID", CookieDomain: "example.com", CookieExpire: 50}, budget)
	if saved {
		w.f.budget = 0
		w.hist = append(w.hist, "A starts")
		w.cs[0].cur = w.begin(w.cs[0], nil, false)
		sset("k1", "v0").do(w, w.cs[0])
		sopFlush.do(w, w.cs[0])
		w.f.budget = budget
	}
	if !steps[k].op.do(w, w.cs[steps[k].c]) {
		x.Skip()
	}
	w.run(steps, depth-1)
}

func init() {
	init := func() {
		log.SetOutput(io.Discard)
		startFakes()
	}
	assume := []string{
		"the in-process servers follow the documented behaviour of memcached 1.6, Redis and MongoDB 3.6 for the commands used",
		"the session lifetime is positive; the instant of expiry itself is not judged",
		"the application's Connect function copies the mgo session",
	}
	mc.Register(&mc.Check{
		ID:          "C16",
		Model:       "a map from session id to values and expiry, and the open sessions of two clients, computed next to every operation on the real manager, providers and client libraries over in-process servers on a virtual clock",
		Assumptions: assume,
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"history length": map[bool]int{true: 5, false: 4}[th], "operations": 15, "clients": 2, "back ends": len(sessBackends), "session lifetimes": "100 s, 40 days", "value kinds": "text, integer, boolean, list"}
		},
		Run: func(x *mc.X) {
			switch x.Choose(3, "mode") {
			case 0:
				runC16(x)
			case 1:
				runC16cookies(x)
			case 2:
				runC16dummy(x)
			}
		}, Init: init,
	})
	mc.Register(&mc.Check{
		ID:          "C17",
		Model:       "the set of back-end states the failures so far leave possible, filtered by what sessions show; every cookie ever issued is tried at the end",
		Assumptions: append(assume, "SessionManager.Destroy need not report a failure of the back end"),
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"history length": map[bool]int{true: 4, false: 3}[th], "faults per history": map[bool]int{true: 2, false: 1}[th], "operations": 13, "fault kinds": "connection refused, error reply, cut before processing, after processing, within the reply; at every request", "back ends": len(sessBackends)}
		},
		Run: runC17, Init: init,
	})
}
