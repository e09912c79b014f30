package props

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"

	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/utils"
	"strip.verif/mc"
	"strip.verif/vclock"
)

// ---- numbers

func idAlphabets() (out [][]byte) {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	for n := 2; n <= 256; n++ {
		out = append(out, all[:n], all[256-n:])
	}
	rev := []byte{}
	for i := len(utils.DefaultAlphabets) - 1; i >= 0; i-- {
		rev = append(rev, utils.DefaultAlphabets[i])
	}
	return append(out, utils.DefaultAlphabets, utils.HexAlphabets, utils.LowercaseAlphabets, rev, []byte("10"), []byte("zyx"))
}

func idCodec(x *mc.X) {
	alphabets := idAlphabets()
	a := mc.Pick(x, "alphabet", alphabets)
	x.Ready()
	check := func(n *big.Int) {
		x.Op()
		s := n.String()
		var tok, back string
		if p := catch(func() { tok = utils.NumberEncode(s, a); back = utils.NumberDecode(tok, a) }); p != nil {
			x.Failf("panic", "encoding %s with %q panics: %v", s, a, p)
		}
		if back != s {
			x.Failf("codec", "%s encoded with %q is %q, which decodes to %s", s, a, tok, back)
		}
		for i := 0; i < len(tok); i++ {
			if bytes.IndexByte(a, tok[i]) < 0 {
				x.Failf("codec", "%s encoded with %q is %q", s, a, tok)
			}
		}
	}
	top := int64(1500)
	if x.Thorough {
		top = 200000
	}
	for n := int64(0); n < top; n++ {
		check(big.NewInt(n))
	}
	for e := uint(4); e < 140; e++ {
		for d := int64(-2); d <= 2; d++ {
			check(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d)))
			p := new(big.Int).Exp(big.NewInt(int64(len(a))), big.NewInt(int64(e)/4), nil)
			if p.Add(p, big.NewInt(d)).Sign() >= 0 {
				check(p)
			}
		}
	}
	for _, n := range []string{"1600000000000000000", "18446744073709551616"} {
		v, _ := new(big.Int).SetString(n, 10)
		check(v)
	}
	if string(a) == string(utils.DefaultAlphabets) {
		for n := int64(0); n < 5000; n++ {
			s := fmt.Sprint(n * n * n * n)
			if d := utils.NumberDecode(utils.DefaultNumberEncode(s), utils.DefaultAlphabets); d != s {
				x.Failf("codec", "%s encoded decodes to %s", s, d)
			}
		}
	}
	// zeros in front change nothing
	for _, n := range []string{"0", "7", "8", "10", "77", "089", "123456789012345678901234567890"} {
		want, _ := new(big.Int).SetString(n, 10)
		for zeros := 0; zeros < 3; zeros++ {
			s := strings.Repeat("0", zeros) + n
			if d := utils.NumberDecode(utils.NumberEncode(s, a), a); d != want.String() {
				x.Failf("codec", "%s encoded with %q decodes to %s", s, a, d)
			}
		}
	}
	// distinct tokens never stand for the same number without saying so
	x.Statef("%d %x", len(a), a[0])
}

// ---- random strings

// idReader is the random source: the first bytes are given, further ones count
// up so that a rejecting generator ends.
type idReader struct {
	first []byte
	next  byte
}

func (r *idReader) Read(p []byte) (int, error) {
	for i := range p {
		if len(r.first) > 0 {
			p[i], r.first = r.first[0], r.first[1:]
		} else {
			p[i] = r.next
			r.next++
		}
	}
	return len(p), nil
}

func withRandom(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

func idRandom(x *mc.X) {
	alphabets := append(idAlphabets(), nil, []byte("x"), []byte("aab"))
	a := mc.Pick(x, "alphabet", alphabets)
	x.Ready()
	max := 3
	if x.Thorough {
		max = 6
	}
	real := a
	if len(a) == 0 {
		real = utils.DefaultAlphabets
	}
	var lens = []int{0, 33, 100}
	for n := 1; n <= max; n++ {
		lens = append(lens, n)
	}
	for _, n := range lens {
		seen := make([]map[byte]bool, n)
		for i := range seen {
			seen[i] = map[byte]bool{}
		}
		for b := 0; b < 256; b++ {
			for pos := 0; pos < n || pos == 0; pos++ {
				if pos > max {
					break
				}
				x.Op()
				first := make([]byte, n)
				for i := range first {
					first[i] = byte(i * 7)
				}
				if pos < n {
					first[pos] = byte(b)
				}
				var got []byte
				var err error
				how := b % 4
				if p := catch(func() {
					withRandom(&idReader{first: first}, func() {
						switch how {
						case 0:
							got, err = utils.RandomCreateBytes(n, a...)
						case 1:
							var s string
							s, err = utils.RandomCreateString(n, a...)
							got = []byte(s)
						case 2:
							got = utils.MustRandomCreateBytes(n, a...)
						case 3:
							got = []byte(utils.MustRandomCreateString(n, a...))
						}
					})
				}); p != nil {
					x.Failf("panic", "a random string of %d over %d characters panics: %v", n, len(a), p)
				}
				if err != nil || len(got) != n {
					x.Failf("length", "a random string of %d over %q has %d characters (%v)", n, a, len(got), err)
				}
				for i, c := range got {
					if bytes.IndexByte(real, c) < 0 {
						x.Failf("alphabet", "a random string of %d over %q holds %q", n, real, c)
					}
					seen[i][c] = true
				}
			}
		}
		for i := 0; i < n && i < max; i++ {
			for _, c := range real {
				if !seen[i][c] {
					x.Failf("occur", "%q never occurs at %d in a random string of %d over %d characters", c, i, n, len(real))
				}
			}
		}
	}
	x.Statef("%d", len(a))
}

// ---- session and request ids

var idTimes = []time.Time{
	time.Unix(0, 1), time.Unix(0, 35), time.Unix(1, 0), time.Unix(1e9, 0), epoch, time.Unix(1700000000, 123456789), time.Unix(1700000000, 999999999),
	time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC), time.Date(2100, 1, 1, 0, 0, 0, 7, time.UTC), time.Date(2262, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1971, 1, 1, 0, 0, 0, 0, time.UTC),
}

const idSessionAlphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func idSessions(x *mc.X) {
	at := mc.Pick(x, "time", idTimes)
	step := mc.Pick(x, "clock step", []time.Duration{0, 1, 37, 1000, time.Millisecond, time.Second, 36 * 36 * 36})
	seed := byte(x.Choose(4, "random source") * 60)
	x.Ready()
	vclock.Set(at)
	seen := map[string]int{}
	n := 200
	if x.Thorough {
		n = 3000
	}
	// the bytes of the source do not repeat within a run
	src := &idSource{state: uint64(seed) + 1}
	withRandom(src, func() {
		for i := 0; i < n; i++ {
			x.Op()
			var sid string
			if p := catch(func() { sid = sessions.CreateSid() }); p != nil {
				x.Failf("panic", "creating a session id at %v panics: %v", vclock.Now(), p)
			}
			if len(sid) != 20 || strings.Trim(sid, idSessionAlphabet) != "" {
				x.Failf("sid", "session id %q at %v", sid, vclock.Now())
			}
			if j, ok := seen[sid]; ok {
				x.Failf("repeat", "session ids %d and %d made from %v in steps of %v are both %s", j, i, at, step, sid)
			}
			seen[sid] = i
			vclock.Add(step)
		}
	})
	x.Statef("%v %v %d", at, step, seed)
}

// idSource is a random source with a long period (xorshift)
type idSource struct{ state uint64 }

func (r *idSource) Read(p []byte) (int, error) {
	for i := range p {
		r.state ^= r.state << 13
		r.state ^= r.state >> 7
		r.state ^= r.state << 17
		p[i] = byte(r.state >> 24)
	}
	return len(p), nil
}

func idRequests(x *mc.X) {
	at := mc.Pick(x, "time", idTimes)
	step := mc.Pick(x, "clock step", []time.Duration{1, 37, 255, 256, 1000, time.Millisecond, time.Second, 1 << 32})
	x.Ready()
	vclock.Set(at)
	var proc uint
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		x.Op()
		id := reqlogger.NewReqId()
		if len(id) < 10 || len(id) > 32 || seen[id] {
			x.Failf("reqid", "request id %q at %v, made before: %v", id, vclock.Now(), seen[id])
		}
		seen[id] = true
		p, ns := reqlogger.DecodeReqId(id)
		if i == 0 {
			proc = p
		}
		if p != proc || ns != vclock.Now().UnixNano() {
			x.Failf("reqid", "request id %q made at %d decodes to %d, %d, the process is %d", id, vclock.Now().UnixNano(), p, ns, proc)
		}
		vclock.Add(step)
	}
	x.Statef("%v %v %d", at, step, len(seen))
}

// every malformed id is decoded to zeros
func idMalformed(x *mc.X) {
	var id string
	if x.Choose(2, "kind") == 0 {
		max := 5
		if x.Thorough {
			max = 6
		}
		n := x.Choose(max+1, "length")
		for i := 0; i < n; i++ {
			id += mc.Pick(x, "character", []string{"A", "_", "-", "=", "+", "/", "é", "\x00", " ", "\n", "f"})
			if i == 1 {
				x.Ready()
			}
		}
		x.Ready()
	} else {
		vclock.Set(epoch)
		id = reqlogger.NewReqId()
		pos := x.Choose(len(id)+1, "position")
		x.Ready()
		switch x.Choose(3, "edit") {
		case 0:
			id = id[:pos]
		case 1:
			id = id[:pos] + mc.Pick(x, "character", []string{"=", "+", "é", "\x00", " ", "%"}) + id[min(pos+1, len(id)):]
		case 2:
			id = id[:pos] + mc.Pick(x, "character", []string{"=", "A", "AA", "AAA", "é", "\x00", " "}) + id[pos:]
		}
	}
	x.Op()
	var p uint
	var ns int64
	if e := catch(func() { p, ns = reqlogger.DecodeReqId(id) }); e != nil {
		x.Failf("panic", "decoding request id %q panics: %v", id, e)
	}
	b, err := base64.URLEncoding.DecodeString(id)
	if (err != nil || len(b) < 12) && (p != 0 || ns != 0) {
		x.Failf("malformed", "request id %q decodes to %d, %d", id, p, ns)
	}
	x.State(id)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C29",
		Model: "encode and decode as inverse functions; the random source and the clock as inputs under the control of the check",
		Assumptions: []string{
			"session ids made at one instant rely on the random source not repeating, request ids on the clock advancing between two of them",
			"request ids longer than 12 decoded bytes are not judged",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"alphabets": len(idAlphabets()), "numbers": map[bool]string{true: "0..200000 and around every power", false: "0..1500 and around every power"}[th], "random bytes": "all 256 at every position", "times": len(idTimes), "malformed id length": map[bool]int{true: 6, false: 5}[th]}
		},
		Run: func(x *mc.X) {
			switch x.Choose(5, "mode") {
			case 0:
				idCodec(x)
			case 1:
				idRandom(x)
			case 2:
				idSessions(x)
			case 3:
				idRequests(x)
			case 4:
				idMalformed(x)
			}
		},
	})
}
