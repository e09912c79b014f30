package props

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
	"strip.verif/mc"
	"strip.verif/vclock"
)

// lsState is what the back end holds: session id -> values and end of life.
type lsState struct {
	m   map[string]lsEntry
	now int
}

type lsEntry struct {
	v   string
	exp int
}

const lsLife = 60

func (s lsState) read(sid string) string {
	if e, ok := s.m[sid]; ok && s.now < e.exp {
		return e.v
	}
	return "{}"
}

func (s lsState) there(sid string) bool {
	e, ok := s.m[sid]
	return ok && s.now < e.exp
}

// put is the state with an entry changed or ("") removed.
func (s lsState) put(sid, v string) lsState {
	o := lsState{map[string]lsEntry{}, s.now}
	for k, e := range s.m {
		o.m[k] = e
	}
	delete(o.m, sid)
	if v != "" {
		o.m[sid] = lsEntry{v, s.now + lsLife}
	}
	return o
}

type lsStep = func(lsState) (lsState, bool)

func lsShow(s sessions.SessionStore) string { return svalues(s.Values()).String() }

// lsUser is one request of a client.
type lsUser struct {
	r   *lnRun[lsState]
	u   int
	m   *sessions.SessionManager
	ck  *sessions.CookieConfig
	sid string
	at  time.Time
	key string // of the cookies' signature
}

// sign adds the cookie of the user's session.
func (p *lsUser) sign(r *http.Request) {
	v, _ := sessions.EncodeSecureValue(p.sid, p.key, p.at)
	r.AddCookie(&http.Cookie{Name: p.ck.CookieName, Value: v})
}

func (p *lsUser) start() (s sessions.SessionStore) {
	p.r.op(p.u, "starts "+p.sid, func() (string, lsStep) {
		r, rec := httptest.NewRequest("GET", "/", nil), httptest.NewRecorder()
		p.sign(r)
		var err error
		s, _, err = p.m.Start(p.ck, rec, r)
		if err != nil || s == nil {
			return fmt.Sprintf(" = error %v", err), func(st lsState) (lsState, bool) { return st, false }
		}
		got, sid, old, set := lsShow(s), s.Sid(), p.sid, len(rec.Result().Cookies())
		return " = " + got, func(st lsState) (lsState, bool) {
			return st, sid == old && set == 0 && got == st.read(sid)
		}
	})
	return s
}

func (p *lsUser) flush(s sessions.SessionStore, changed bool) {
	want, sid := lsShow(s), p.sid
	p.r.op(p.u, "flushes "+p.sid+" "+want, func() (string, lsStep) {
		err := s.Flush()
		res := ""
		if err != nil {
			res = fmt.Sprintf(" = error %v", err)
		}
		return res, func(st lsState) (lsState, bool) {
			if changed {
				st = st.put(sid, want)
			}
			return st, err == nil
		}
	})
}

func (p *lsUser) touch(s sessions.SessionStore) {
	p.r.op(p.u, "touches "+p.sid, func() (string, lsStep) {
		err, sid := s.Touch(), p.sid
		return fmt.Sprintf(" = error %v", err), func(st lsState) (lsState, bool) {
			if !st.there(sid) {
				return st, err == caches.ErrMissedKey
			}
			return st.put(sid, st.read(sid)), err == nil
		}
	})
}

func (p *lsUser) destroy(s sessions.SessionStore) {
	p.r.op(p.u, "destroys "+p.sid, func() (string, lsStep) {
		err, sid := s.Destroy(), p.sid
		return fmt.Sprintf(" = error %v", err), func(st lsState) (lsState, bool) {
			return st.put(sid, ""), err == nil || err == caches.ErrMissedKey
		}
	})
}

func (p *lsUser) destroyByManager() {
	p.r.op(p.u, "destroys "+p.sid+" by the manager", func() (string, lsStep) {
		r, rec := httptest.NewRequest("GET", "/", nil), httptest.NewRecorder()
		p.sign(r)
		err, sid := p.m.Destroy(p.ck, rec, r), p.sid
		return fmt.Sprintf(" = error %v", err), func(st lsState) (lsState, bool) {
			return st.put(sid, ""), err == nil
		}
	})
}

func (p *lsUser) regenerate() (s sessions.SessionStore) {
	p.r.op(p.u, "regenerates "+p.sid, func() (string, lsStep) {
		r, rec := httptest.NewRequest("GET", "/", nil), httptest.NewRecorder()
		p.sign(r)
		var err error
		s, _, err = p.m.Regenerate(p.ck, rec, r)
		if err != nil || s == nil {
			return fmt.Sprintf(" = error %v", err), func(st lsState) (lsState, bool) { return st, false }
		}
		old, sid, got := p.sid, s.Sid(), lsShow(s)
		p.sid = sid
		return " = new session " + got, func(st lsState) (lsState, bool) {
			if sid == old || st.there(sid) {
				return st, false
			}
			v := st.read(old)
			if st.there(old) {
				st = st.put(old, "").put(sid, v)
			}
			return st, got == v
		}
	})
	return s
}

// what a request does
var lsPrograms = []struct {
	name string
	// writes: leaves new values; moves: takes the values to another session
	writes, moves bool
	run           func(p *lsUser)
}{
	{"read", false, false, func(p *lsUser) { p.start() }},
	{"write", true, false, func(p *lsUser) {
		if s := p.start(); s != nil {
			s.Set(fmt.Sprint("w", p.u), "v")
			p.flush(s, true)
		}
	}},
	{"clear", true, false, func(p *lsUser) {
		if s := p.start(); s != nil {
			s.Clean()
			p.flush(s, true)
		}
	}},
	{"flush unchanged", false, false, func(p *lsUser) {
		if s := p.start(); s != nil {
			p.flush(s, false)
		}
	}},
	{"touch", false, false, func(p *lsUser) {
		if s := p.start(); s != nil {
			p.touch(s)
		}
	}},
	{"destroy", true, false, func(p *lsUser) {
		if s := p.start(); s != nil {
			p.destroy(s)
			p.flush(s, false)
		}
	}},
	{"destroy by the manager", true, false, func(p *lsUser) { p.destroyByManager() }},
	{"regenerate", false, true, func(p *lsUser) {
		if s := p.regenerate(); s != nil {
			s.Set("new", "v")
			p.flush(s, true)
		}
	}},
}

func runC35(x *mc.X) {
	b := mc.Pick(x, "back end", sessBackends)
	users := 2
	if x.Bool("three users") {
		users = 3
	}
	second := x.Bool("values in the second session")
	type plan struct{ prog, sid int }
	ps := make([]plan, users)
	for u := range ps {
		ps[u] = plan{x.Choose(len(lsPrograms), fmt.Sprintf("what user %d does", u)), x.Choose(2, "session")}
		if u > 0 && (ps[u].sid < ps[u-1].sid || ps[u].sid == ps[u-1].sid && ps[u].prog < ps[u-1].prog) {
			x.Skip() // the users are alike
		}
		p := lsPrograms[ps[u].prog]
		for _, o := range ps[:u] {
			q := lsPrograms[o.prog]
			if o.sid == ps[u].sid && (p.moves && (q.writes || q.moves) || q.moves && p.writes) {
				x.Skip() // which values a session takes along is open
			}
		}
	}
	x.Ready()
	t0 := time.Unix(1200000000, 0)
	vclock.Set(t0)
	g := &lnGate{changed: make(chan struct{}, 1)}
	b.reset(g.decide)
	b.between(g.pause)
	cfg := sessions.Config{SecretKey: "secret", SessionExpire: lsLife}
	ck := &sessions.CookieConfig{CookieName: "SID"}
	prov := make([]sessions.SessionProvider, users)
	for u := range prov {
		var err error
		if prov[u], err = b.sessions(cfg); err != nil {
			x.Failf("new", "%s: %v", b.name, err)
		}
	}
	r := &lnRun[lsState]{x: x, what: b.name, gate: g}
	sids := []string{"AAAAAAAAAAAAAAAAAAAA", "BBBBBBBBBBBBBBBBBBBB"}
	st := lsState{m: map[string]lsEntry{}}
	for i, sid := range sids {
		if i == 1 && !second {
			break
		}
		s, err := prov[0].Create(sid, map[string]interface{}{"k": fmt.Sprint("old", i)})
		if err == nil {
			err = s.Flush()
		}
		if err != nil {
			x.Failf("new", "%s: making a session: %v", b.name, err)
		}
		st = st.put(sid, lsShow(s))
	}
	pass := func(sec int) func() (string, lsStep) {
		return func() (string, lsStep) {
			vclock.Add(time.Duration(sec) * time.Second)
			return "", func(st lsState) (lsState, bool) {
				st.now += sec
				return st, true
			}
		}
	}
	r.alone("40 s pass", pass(40))
	var runs []func()
	us := make([]*lsUser, users)
	for u := range ps {
		p := &lsUser{r: r, u: u, m: sessions.NewSessionManager(prov[u]), ck: ck, sid: sids[ps[u].sid], at: t0, key: cfg.SecretKey}
		us[u] = p
		prog := lsPrograms[ps[u].prog]
		runs = append(runs, func() { prog.run(p) })
	}
	r.run(runs, lnInterrupts(users, x.Thorough), nil)
	// what the sessions hold afterwards: 10 s later, when those nobody saved
	// or touched are gone, and when all are gone
	seen := map[string]bool{}
	all := append([]string{}, sids...)
	for _, p := range us {
		all = append(all, p.sid)
	}
	for _, sec := range []int{10, 20, 40} {
		r.alone(fmt.Sprintf("%d s pass", sec), pass(sec))
		for k := range seen {
			delete(seen, k)
		}
		for _, sid := range all {
			if seen[sid] {
				continue
			}
			sid := sid
			seen[sid] = true
			r.alone("reads "+sid, func() (string, lsStep) {
				s, err := prov[0].Read(sid)
				if err == sessions.ErrNotFoundSession {
					return " = none", func(st lsState) (lsState, bool) { return st, !st.there(sid) }
				}
				if err != nil {
					return fmt.Sprintf(" = error %v", err), func(st lsState) (lsState, bool) { return st, false }
				}
				got := lsShow(s)
				return " = " + got, func(st lsState) (lsState, bool) { return st, st.there(sid) && st.read(sid) == got }
			})
		}
	}
	r.judge(st)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C35",
		Model: "the back end as a map from session id to values and end of life, on which starting, flushing, touching, destroying and regenerating each take effect at once: a search for an order of them that explains every result and what the sessions hold afterwards",
		Assumptions: []string{
			"the in-process servers follow the documented behaviour of memcached 1.6, Redis and MongoDB 3.6 for the commands used; each request takes effect at once, but for an upsert of MongoDB, which first finds nothing and then inserts",
			"which values a session takes along that is regenerated while another request saves, destroys or regenerates it is open",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"requests": "2 or 3 at once, of the same session or of two", "what a request does": len(lsPrograms), "back ends": len(sessBackends), "interleavings": "every order in which the server can get the requests", "interruptions of an operation between two of its requests": lnTraits(th)}
		},
		Run: runC35, Init: startFakes,
	})
}
