package props

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"strip.verif/mc"
	"strip.verif/vclock"
)

// a session provider that only has a configuration
type confProvider struct {
	sessions.SessionProvider
	conf sessions.Config
}

func (p confProvider) Config() *sessions.Config { c := p.conf; return &c }

type issued struct {
	raw, key string
	at       time.Time
	value    string
	plain    string // decoded form
	parts    []string
}

func issue(x *mc.X, raw, key string, at time.Time) *issued {
	v, ok := sessions.EncodeSecureValue(raw, key, at)
	if !ok {
		x.Failf("encode", "a value for %q can not be made with key %q", raw, key)
	}
	s := &issued{raw: raw, key: key, at: at, value: v}
	if b, err := base64.URLEncoding.DecodeString(v); err == nil {
		s.plain = string(b)
		s.parts = strings.Split(s.plain, sessions.COOKIE_VALUE_SPLIT)
	}
	return s
}

var secAlpha = []string{"a", "1", ",", "|", "%", "+", " ", "é", "=", "\x00", "-"}
var secTimes = []time.Time{time.Unix(0, 1), time.Unix(0, 1234567890), epoch, epoch.Add(123456789), time.Unix(0, 1<<63-1)}
var secKeys = []string{"k", "k1", "key", "\x00x", "é", strings.Repeat("x", 64) + "a", strings.Repeat("x", 64) + "b"}

// every change of a text by one edit, and every truncation
func edits(s string, alpha string, f func(string)) {
	for i := 0; i <= len(s); i++ {
		for _, c := range []byte(alpha) {
			f(s[:i] + string([]byte{c}) + s[i:])
			if i < len(s) && s[i] != c {
				f(s[:i] + string([]byte{c}) + s[i+1:])
			}
		}
		if i < len(s) {
			f(s[:i] + s[i+1:])
			f(s[:i])
			f(s[i:])
			f(s[:i] + string([]byte{s[i] ^ 0x20}) + s[i+1:])
			f(s[:i] + string([]byte{s[i] ^ 0x80}) + s[i+1:])
			if i+1 < len(s) {
				f(s[:i] + string([]byte{s[i+1], s[i]}) + s[i+2:])
			}
		}
	}
}

type secCase struct {
	x     *mc.X
	set   []*issued
	n     int
	ok    int
	mgr   *sessions.SessionManager
	life  int
	spec  string
	conf2 *sessions.SessionManager
}

// judge: whatever is accepted was issued
func (c *secCase) judge(value, key string) {
	c.n++
	raw, at, ok := sessions.DecodeSecureValue(value, key)
	if !ok {
		if raw != "" || !at.IsZero() {
			c.x.Failf("reject", "rejected value %q yields %q, %v", value, raw, at)
		}
	} else {
		c.accept(value, key, raw, at, "DecodeSecureValue")
		c.signature(value)
		c.ok++
	}
}

func (c *secCase) accept(value, key, raw string, at time.Time, by string) {
	for _, s := range c.set {
		if s.key == key && s.raw == raw && s.at.Equal(at) {
			return
		}
	}
	b, _ := base64.URLEncoding.DecodeString(value)
	c.x.Failf("forged", "%s accepts %q (%q) with key %q as %q made at %v (%d); issued with this key: %s",
		by, value, b, key, raw, at, at.UnixNano(), c.list(key))
}

// signatureOf an encoded value, "" if it can not be told
func signatureOf(value string) string {
	b, err := base64.URLEncoding.DecodeString(value)
	if err != nil {
		return ""
	}
	parts := strings.SplitN(string(b), sessions.COOKIE_VALUE_SPLIT, 3)
	return strings.ToLower(strings.TrimSpace(parts[len(parts)-1]))
}

// signature: an accepted value carries the whole signature of an issued one
func (c *secCase) signature(value string) {
	sig := signatureOf(value)
	if sig == "" {
		return
	}
	for _, s := range c.set {
		if len(s.parts) == 3 && strings.ToLower(s.parts[2]) == sig {
			return
		}
	}
	c.x.Failf("signature", "a value with the signature %q is accepted, no issued value has it", sig)
}

func (c *secCase) list(key string) string {
	var out []string
	for _, s := range c.set {
		if s.key == key {
			out = append(out, fmt.Sprintf("%q at %d", s.raw, s.at.UnixNano()))
		}
	}
	return strings.Join(out, ", ")
}

// a request with the value as session cookie
func (c *secCase) cookie(value string) {
	c.n++
	req := newReq("GET", "/")
	req.Header.Set("Cookie", "other=1; sid="+value)
	sid, at, ok := c.mgr.ReadSidFromRequest(req, "sid")
	if !ok {
		if sid != "" {
			c.x.Failf("reject", "rejected session cookie %q yields %q", value, sid)
		}
		return
	}
	c.ok++
	c.accept(value, "k", sid, at, "ReadSidFromRequest")
	c.signature(value)
	if vclock.Now().Sub(at) > time.Duration(c.life)*time.Second {
		c.x.Failf("expired", "a session cookie of %v is accepted at %v, lifetime %ds", at, vclock.Now(), c.life)
	}
}

func b64(s string) string { return base64.URLEncoding.EncodeToString([]byte(s)) }

func runSigned(x *mc.X) {
	max := 4
	if x.Thorough {
		max = 5
	}
	vclock.Set(epoch)
	mode := x.Choose(4, "mode")
	c := &secCase{x: x, life: 1000}
	c.mgr = sessions.NewSessionManager(confProvider{conf: sessions.Config{SecretKey: "k", SessionExpire: c.life}})
	switch mode {
	case 0: // round trip of every text
		n := 1 + x.Choose(max, "length")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(mc.Pick(x, "character", secAlpha))
		}
		raw := b.String()
		x.Ready()
		for _, at := range secTimes {
			for _, key := range secKeys {
				s := issue(x, raw, key, at)
				x.Op()
				got, gotAt, ok := sessions.DecodeSecureValue(s.value, key)
				if !ok || got != raw || !gotAt.Equal(at) {
					x.Failf("round trip", "%q made at %d with key %q decodes to %q, %d, %v", raw, at.UnixNano(), key, got, gotAt.UnixNano(), ok)
				}
				if got := sessions.GetRawFromSecureValue(s.value); got != raw {
					x.Failf("raw", "the text of %q reads as %q", raw, got)
				}
				for _, other := range append(append([]string{}, secKeys...), "", "K", "kk", raw) {
					if strings.TrimRight(other, "\x00") == key {
						continue
					}
					x.Op()
					if got, _, ok := sessions.DecodeSecureValue(s.value, other); ok || got != "" {
						x.Failf("key", "%q made with key %q is accepted with key %q", raw, key, other)
					}
				}
				// the session cookie of that age
				req := newReq("GET", "/")
				req.AddCookie(&http.Cookie{Name: "sid", Value: s.value})
				_, _, ok = c.mgr.ReadSidFromRequest(req, "sid")
				fresh := key == "k" && epoch.Sub(at) <= 1000*time.Second
				if ok != fresh {
					x.Failf("cookie", "the session cookie for %q made with %q at %v is accepted: %v", raw, key, at, ok)
				}
				x.Statef("%q %d %s", raw, at.UnixNano(), key)
			}
		}
	case 1: // every edit of a value
		raw := mc.Pick(x, "text", []string{"a", "a1", "1", "a,1", "%2C", "+ ", "x|y", "1600000000", "é", "a,1600000000000000000"})
		at := mc.Pick(x, "time", []time.Time{epoch, epoch.Add(-1001 * time.Second), time.Unix(0, 12)})
		enc := x.Choose(2, "encoded form")
		x.Ready()
		s := issue(x, raw, "k", at)
		c.set = []*issued{s}
		if enc == 1 {
			edits(s.value, "A0-_=aZ/+.%\n", func(v string) { c.judge(v, "k"); c.cookie(v) })
		} else if s.parts != nil {
			if x.Thorough {
				edits(s.plain, "a1,%", func(v string) { edits(v, "a1,", func(v string) { c.judge(b64(v), "k") }) })
			}
			edits(s.plain, "a019fF,|%+ -\x00.", func(v string) { c.judge(b64(v), "k"); c.cookie(b64(v)) })
		}
	case 2: // every recombination of the parts of issued values, and moved boundaries
		texts := []string{"a", "a1", "a16", "1", "1,6", "é", "", "a,1"}
		i := x.Choose(len(texts), "text")
		x.Ready()
		ats := []time.Time{time.Unix(0, 6), time.Unix(0, 16), time.Unix(0, 160), epoch, epoch.Add(6)}
		for _, t := range texts {
			for _, at := range ats {
				if t != "" {
					c.set = append(c.set, issue(x, t, "k", at))
				}
			}
		}
		c.set = append(c.set, issue(x, "a", "k1", epoch))
		seps := []string{",", "", ",,", "|", " ,", ", ", "%2C"}
		for _, a := range c.set {
			if a.raw != texts[i] || len(a.parts) != 3 {
				continue
			}
			for _, b := range c.set {
				for _, d := range c.set {
					if len(b.parts) != 3 || len(d.parts) != 3 {
						continue
					}
					c.judge(b64(a.parts[0]+","+b.parts[1]+","+d.parts[2]), "k")
				}
				// parts repeated, left out, in another order
				for _, p := range words([]string{"0", "1", "2"}, 1, 4) {
					var ps []string
					for _, q := range p {
						ps = append(ps, a.parts[q[0]-'0'])
					}
					c.judge(b64(strings.Join(ps, ",")), "k")
				}
			}
			// boundaries moved, separators changed; texts made longer by digits
			whole := a.parts[0] + a.parts[1] + a.parts[2]
			for p := 0; p <= len(whole); p++ {
				for q := p; q <= len(whole); q++ {
					for _, s1 := range seps {
						c.judge(b64(whole[:p]+s1+whole[p:q]+","+whole[q:]), "k")
					}
					v := b64(whole[:p] + "," + whole[p:q] + "," + whole[q:])
					c.cookie(v)
				}
			}
			for _, t := range []string{"+" + a.parts[1], "0" + a.parts[1], "-" + a.parts[1], a.parts[1] + "0", " " + a.parts[1], "\t" + a.parts[1]} {
				c.judge(b64(a.parts[0]+","+t+","+a.parts[2]), "k")
			}
		}
	case 3: // session cookies as written, over time
		life := mc.Pick(x, "lifetime", []int{1, 60, 3600, 86400 * 400})
		expire := mc.Pick(x, "cookie age", []int{-1, 0, 5, 7200})
		age := mc.Pick(x, "age in percent of the lifetime", []int{0, 50, 99, 101, 200})
		two := x.Choose(3, "other cookies")
		x.Ready()
		mgr := sessions.NewSessionManager(confProvider{conf: sessions.Config{SecretKey: "k", SessionExpire: life}})
		rw := httptest.NewRecorder()
		first := newReq("GET", "/")
		conf := &sessions.CookieConfig{CookieName: "sid", CookieDomain: "host.example", CookieSecure: two == 1, CookieExpire: expire}
		mgr.WriteSessionCookie(conf, first, rw, "SESSION", vclock.Now())
		x.Op()
		cs := rw.Result().Cookies()
		if len(cs) != 1 {
			x.Failf("set-cookie", "cookies set: %v", cs)
		}
		ck := cs[0]
		wantAge := expire
		if expire < 0 {
			wantAge = 0
		}
		if ck.Name != "sid" || ck.Domain != "host.example" || ck.Secure != (two == 1) || !ck.HttpOnly || ck.Path != "/" || ck.MaxAge != wantAge {
			x.Failf("set-cookie", "cookie %v with domain host.example, secure %v, age %d", ck, two == 1, expire)
		}
		at := vclock.Now()
		vclock.Add(time.Duration(life) * time.Second * time.Duration(age) / 100)
		for k, req := range []*http.Request{first, newReq("GET", "/")} {
			if k == 1 {
				if two == 2 {
					req.AddCookie(&http.Cookie{Name: "sid", Value: "stale"})
				}
				req.AddCookie(&http.Cookie{Name: "sid", Value: ck.Value})
				req.AddCookie(&http.Cookie{Name: "sid2", Value: "x"})
			}
			sid, created, ok := mgr.ReadSidFromRequest(req, "sid")
			x.Op()
			if ok != (age <= 100) || ok && (sid != "SESSION" || !created.Equal(at)) {
				x.Failf("cookie", "cookie of age %d%% of %ds read as %q %v %v", age, life, sid, created, ok)
			}
			if _, _, ok := mgr.ReadSidFromRequest(req, "other"); ok {
				x.Failf("cookie", "a session id is read from a cookie with another name")
			}
		}
		x.Statef("cookie %d %d %d %d", life, expire, age, two)
	}
	x.Ops(c.n)
	x.Statef("%d %d %d", mode, c.n, c.ok)
}

// ---- remember-me

var remUsers = []string{"u", "u|v", "v", "u%7C", "é", "u,1", "1", " u", "U", "u ", "u+v", "u v", "a&b=c;d", "ü@例"}
var remSalts = []string{"s", "s1", " s", "s ", "S", "|", "é", "k", strings.Repeat("x", 64) + "a", strings.Repeat("x", 64) + "b"}

func runRemember(x *mc.X) {
	vclock.Set(epoch)
	mode := x.Choose(4, "mode")
	const life = 1000
	key := "k"
	mgr := sessions.NewSessionManager(confProvider{conf: sessions.Config{SecretKey: key, SessionExpire: life}})
	conf := &sessions.CookieConfig{CookieName: "sid", CookieRememberName: "rem", RememberExpire: life, CookieExpire: 10}
	write := func(m *sessions.SessionManager, user, salt string) string {
		rw := httptest.NewRecorder()
		x.Op()
		if !m.WriteRemember(conf, rw, user, salt) {
			if rw.Header().Get("Set-Cookie") != "" {
				x.Failf("write", "cookie set although no cookie can be made")
			}
			return ""
		}
		cs := rw.Result().Cookies()
		if len(cs) != 1 || cs[0].Name != "rem" || cs[0].Path != "/" || !cs[0].HttpOnly || cs[0].MaxAge != life || cs[0].Secure != conf.CookieSecure {
			x.Failf("write", "remember cookie %v", cs)
		}
		return cs[0].Value
	}
	has := func(value string) (string, string, bool) {
		req := newReq("GET", "/")
		req.Header.Set("Cookie", "sid=zz; rem="+value)
		x.Op()
		user, hash, ok := mgr.HasRemember(conf, req)
		if !ok && (user != "" || hash != "") {
			x.Failf("reject", "rejected cookie %q yields user %q", value, user)
		}
		return user, hash, ok
	}
	switch mode {
	case 0: // issued and validated with every user and salt, at every age
		iu := x.Choose(len(remUsers), "user")
		is := x.Choose(len(remSalts), "salt")
		// (tenths of a second)
		age := mc.Pick(x, "age", []int{0, life * 5, life*10 - 5, life*10 + 5, life * 20, life * 1000})
		conf.CookieSecure = x.Bool("secure")
		x.Ready()
		user, salt := remUsers[iu], remSalts[is]
		made := epoch.Add(750 * time.Millisecond)
		vclock.Set(made)
		v := write(mgr, user, salt)
		vclock.Add(time.Duration(age) * time.Second / 10)
		live := age <= life*10
		u, hash, ok := has(v)
		if ok != live || ok && u != user {
			x.Failf("has", "cookie of %q at age %d/10 s of %d: user %q, %v", user, age, life, u, ok)
		}
		if !ok {
			// the inner value taken earlier
			vclock.Set(made)
			_, hash, ok = has(v)
			vclock.Add(time.Duration(age) * time.Second / 10)
			if !ok {
				x.Failf("has", "fresh cookie of %q is rejected", user)
			}
		}
		for _, u := range append(append([]string{}, remUsers...), "") {
			for _, s := range append(append([]string{}, remSalts...), "", "ss", "t") {
				x.Op()
				got := mgr.ValidRemember(conf, u, s, hash)
				want := live && u == user && s == salt
				if got != want {
					x.Failf("valid", "the cookie issued for user %q and salt %q at age %d/10 s of %d is valid for user %q and salt %q: %v", user, salt, age, life, u, s, got)
				}
			}
		}
		for _, h := range []string{"", v, "x", user} {
			x.Op()
			if mgr.ValidRemember(conf, user, salt, h) {
				x.Failf("valid", "%q is accepted as salted user %q", h, user)
			}
		}
		x.Statef("%s %s %d", user, salt, age)
	case 1: // every edit of a cookie
		user := mc.Pick(x, "user", []string{"u", "u|v", "1"})
		form := x.Choose(3, "form")
		x.Ready()
		v := write(mgr, user, "s")
		issuedValue := v
		_, hash, _ := has(v)
		n, acc := 0, 0
		check := func(v string) {
			n++
			u, h, ok := has(v)
			if !ok {
				return
			}
			acc++
			if sig := signatureOf(v); sig != "" && sig != signatureOf(issuedValue) {
				x.Failf("signature", "a cookie with the signature %q is accepted, issued with %q", sig, signatureOf(issuedValue))
			}
			if u != user {
				x.Failf("forged", "cookie %q is accepted for user %q, issued for %q", v, u, user)
			}
			if mgr.ValidRemember(conf, "v", "s", h) || mgr.ValidRemember(conf, user, "t", h) {
				x.Failf("forged", "cookie %q validates for another user or salt", v)
			}
		}
		switch form {
		case 0:
			edits(v, "A0-_=a/.%", check)
		case 1:
			if b, err := base64.URLEncoding.DecodeString(v); err == nil {
				edits(string(b), "a01F,|%+ .", func(s string) { check(b64(s)) })
			}
		case 2: // the inner value
			try := func(h string) {
				n++
				x.Op()
				if mgr.ValidRemember(conf, "v", "s", h) || mgr.ValidRemember(conf, user, "t", h) {
					x.Failf("forged", "%q validates for another user or salt", h)
				}
				if sig := signatureOf(h); sig != "" && sig != signatureOf(hash) && mgr.ValidRemember(conf, user, "s", h) {
					x.Failf("signature", "a value with the signature %q validates, issued with %q", sig, signatureOf(hash))
				}
			}
			edits(hash, "A0-_=a/.%", try)
			if b, err := base64.URLEncoding.DecodeString(hash); err == nil {
				edits(string(b), "a01F,|%+ .", func(s string) { try(b64(s)) })
			}
		}
		x.Statef("%s %d %d %d", user, form, n, acc)
	case 2: // other kinds of cookies
		kind := mc.Pick(x, "kind", []string{"session", "signed", "signed empty user", "foreign", "none", "swapped inner", "other name", "several", "destroyed"})
		iu := x.Choose(len(remUsers), "user")
		x.Ready()
		user := remUsers[iu]
		switch kind {
		case "session", "signed", "signed empty user", "foreign":
			var v string
			switch kind {
			case "session":
				rw, r := httptest.NewRecorder(), newReq("GET", "/")
				mgr.WriteSessionCookie(conf, r, rw, sessions.CreateSid(), vclock.Now())
				v = rw.Result().Cookies()[0].Value
			case "signed":
				v, _ = sessions.EncodeSecureValue(strings.ReplaceAll(user, "|", ""), key, vclock.Now())
			case "signed empty user":
				v, _ = sessions.EncodeSecureValue("|", key, vclock.Now())
			case "foreign":
				v = write(sessions.NewSessionManager(confProvider{conf: sessions.Config{SecretKey: "K", SessionExpire: life}}), user, "s")
			}
			u, h, ok := has(v)
			if ok && !(kind == "signed empty user" && u == "") {
				x.Failf("kind", "a %s cookie is reported as remembered user %q (%q)", kind, u, h)
			}
			for _, s := range remSalts {
				if mgr.ValidRemember(conf, user, s, v) || mgr.ValidRemember(conf, user, s, h) {
					x.Failf("kind", "a %s cookie validates for %q", kind, user)
				}
			}
		case "none":
			if u, _, ok := mgr.HasRemember(conf, newReq("GET", "/")); ok || u != "" {
				x.Failf("kind", "no cookie is reported as user %q", u)
			}
			for _, p := range [][2]string{{"", "s"}, {user, ""}, {"", ""}} {
				if write(mgr, p[0], p[1]) != "" {
					x.Failf("kind", "a cookie is issued for user %q and salt %q", p[0], p[1])
				}
			}
		case "swapped inner":
			// a salted value issued for one user does not validate another
			_, h, _ := has(write(mgr, user, "s"))
			for _, u := range remUsers {
				v, ok := sessions.EncodeSecureValue(u, key, vclock.Now())
				if !ok {
					continue
				}
				if mgr.ValidRemember(conf, u, "s", v) {
					x.Failf("kind", "a value signed without the salt validates for %q", u)
				}
				if u != user && mgr.ValidRemember(conf, u, "s", h) {
					x.Failf("kind", "the salted value of %q validates for %q", user, u)
				}
			}
		case "other name":
			req := newReq("GET", "/")
			req.AddCookie(&http.Cookie{Name: "sid", Value: write(mgr, user, "s")})
			if u, _, ok := mgr.HasRemember(conf, req); ok || u != "" {
				x.Failf("kind", "a cookie of another name is reported as %q", u)
			}
			if sid, _, ok := mgr.ReadSidFromRequest(req, "rem"); ok {
				x.Failf("kind", "a remember cookie is taken for session %q", sid)
			}
		case "several":
			// the last cookie of the name counts
			req := newReq("GET", "/")
			req.AddCookie(&http.Cookie{Name: "rem", Value: write(mgr, "old", "s")})
			req.AddCookie(&http.Cookie{Name: "rem", Value: write(mgr, user, "s")})
			if u, _, ok := mgr.HasRemember(conf, req); !ok || u != user {
				x.Failf("kind", "user %q from the cookies of old and %q: %v", u, user, ok)
			}
		case "destroyed":
			rw := httptest.NewRecorder()
			conf.CookieSecure = true
			mgr.DestroyRemember(conf, rw)
			cs := rw.Result().Cookies()
			if len(cs) != 1 || cs[0].Name != "rem" || cs[0].Value != "" || cs[0].MaxAge >= 0 || cs[0].Path != "/" || !cs[0].Secure {
				x.Failf("kind", "dropping the cookie sends %v", cs)
			}
		}
		x.Statef("%s %s", kind, user)
	case 3: // histories: salts and lifetimes change between issuing and validating
		n := 5
		if x.Thorough {
			n = 7
		}
		type ck struct {
			v, user, salt string
			at            time.Time
		}
		var cks []ck
		salt := map[string]string{"u": "s", "v": "s"}
		for i := 0; i < n; i++ {
			op := x.Choose(6, "operation")
			if i == 2 {
				x.Ready()
			}
			switch op {
			case 0, 1:
				u := []string{"u", "v"}[op]
				cks = append(cks, ck{write(mgr, u, salt[u]), u, salt[u], vclock.Now()})
			case 2:
				salt["u"] += "1"
			case 3:
				salt["v"] = "s1"
			case 4:
				vclock.Add(600 * time.Second)
			case 5:
				conf.RememberExpire = 500
			}
			for _, c := range cks {
				age := vclock.Now().Sub(c.at)
				if conf.RememberExpire != life && age == 500*time.Second {
					continue
				}
				live := age <= time.Duration(conf.RememberExpire)*time.Second
				u, h, ok := has(c.v)
				if ok != live || ok && u != c.user {
					x.Failf("history", "cookie of %q at age %v (lifetime %d): %q %v", c.user, age, conf.RememberExpire, u, ok)
				}
				if !ok {
					continue
				}
				for _, u := range []string{"u", "v"} {
					got := mgr.ValidRemember(conf, u, salt[u], h)
					want := u == c.user && salt[u] == c.salt
					if got != want {
						x.Failf("history", "cookie of %q with salt %q is valid for %q with salt %q: %v", c.user, c.salt, u, salt[u], got)
					}
				}
			}
			if conf.RememberExpire != life {
				// cookies of later writes carry the other age
				break
			}
			x.Statef("%v %v %v", len(cks), salt, vclock.Now().Sub(epoch))
		}
	}
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C18",
		Model: "the set of issued (text, time, key) triples; a value may be accepted only as one of them",
		Assumptions: []string{
			"HMAC-SHA1 itself is not attacked: signatures are changed, exchanged and truncated, not computed; keys that differ only in trailing zero bytes are one key for HMAC",
			"time.Now of the package is replaced by a virtual clock at build time",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"alphabet": len(secAlpha), "text length": map[bool]int{true: 5, false: 4}[th], "keys": len(secKeys), "times": len(secTimes),
				"mutations": "every insertion, deletion, replacement, transposition, truncation at every position of the encoded and the decoded form; all recombinations of parts of 36 issued values, all moved boundaries; thorough: two edits of the decoded form"}
		},
		Run: runSigned,
	})
	mc.Register(&mc.Check{
		ID:    "C19",
		Model: "the set of issued (user, salt, time) cookies; validity is equality of user and salt within the lifetime",
		Assumptions: []string{
			"HMAC-SHA1 itself is not attacked",
			"time.Now of the package is replaced by a virtual clock at build time",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"users": len(remUsers), "salts": len(remSalts), "ages": 6, "history length": map[bool]int{true: 7, false: 5}[th]}
		},
		Run: runRemember,
	})
}
