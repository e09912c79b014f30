package props

import (
	"crypto/md5"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"strip.verif/mc"
)

// ---- what a text means

type cvKind struct {
	name string
	typ  reflect.Type
}

var cvKinds = []cvKind{
	{"Bool", reflect.TypeOf(false)},
	{"Int", reflect.TypeOf(int(0))}, {"Int8", reflect.TypeOf(int8(0))}, {"Int16", reflect.TypeOf(int16(0))}, {"Int32", reflect.TypeOf(int32(0))}, {"Int64", reflect.TypeOf(int64(0))},
	{"Uint", reflect.TypeOf(uint(0))}, {"Uint8", reflect.TypeOf(uint8(0))}, {"Uint16", reflect.TypeOf(uint16(0))}, {"Uint32", reflect.TypeOf(uint32(0))}, {"Uint64", reflect.TypeOf(uint64(0))},
	{"Float32", reflect.TypeOf(float32(0))}, {"Float64", reflect.TypeOf(float64(0))},
}

var (
	cvInt   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	cvUint  = regexp.MustCompile(`^[0-9]+$`)
	cvFloat = regexp.MustCompile(`^([+-]?)([0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE]([+-]?[0-9]+))?$`)
)

// cvParse is what a text means as a type, from the arithmetic definition.
func cvParse(s string, t reflect.Type) (v reflect.Value, ok bool) {
	v = reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		switch s {
		case "1", "t", "T", "true", "TRUE", "True", "on":
			v.SetBool(true)
			return v, true
		case "0", "f", "F", "false", "FALSE", "False":
			return v, true
		}
		return v, false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !cvInt.MatchString(s) {
			return v, false
		}
		n, _ := new(big.Int).SetString(s, 10)
		max := new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()-1))
		min := new(big.Int).Neg(max)
		if n.Cmp(min) < 0 || n.Cmp(max) >= 0 {
			return v, false
		}
		v.SetInt(n.Int64())
		return v, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !cvUint.MatchString(s) {
			return v, false
		}
		n, _ := new(big.Int).SetString(s, 10)
		if n.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()))) >= 0 {
			return v, false
		}
		v.SetUint(n.Uint64())
		return v, true
	}
	m := cvFloat.FindStringSubmatch(s)
	if m == nil {
		// infinities, NaN, hexadecimal forms: as Go reads them
		f, err := strconv.ParseFloat(s, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetFloat(f)
		return v, true
	}
	neg := m[1] == "-"
	exp := 0
	if m[3] != "" {
		var err error
		if exp, err = strconv.Atoi(m[3]); err != nil || exp > 2000 || exp < -2000 {
			exp = 2000
			if strings.HasPrefix(m[3], "-") {
				exp = -2000
			}
		}
	}
	digits := m[2]
	if i := strings.IndexByte(digits, '.'); i >= 0 {
		exp -= len(digits) - i - 1
		digits = digits[:i] + digits[i+1:]
	}
	n, _ := new(big.Int).SetString(digits, 10)
	r := new(big.Rat).SetInt(n)
	if n.Sign() != 0 {
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(exp, -exp))), nil))
		if exp < 0 {
			r.Quo(r, p)
		} else {
			r.Mul(r, p)
		}
	}
	var f float64
	if t.Bits() == 32 {
		g, _ := r.Float32()
		f = float64(g)
	} else {
		f, _ = r.Float64()
	}
	if math.IsInf(f, 0) {
		return v, false
	}
	if neg {
		f = math.Copysign(f, -1)
	}
	v.SetFloat(f)
	return v, true
}

func cvSame(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		x, y := float32(a.Float()), float32(b.Float())
		return math.Float32bits(x) == math.Float32bits(y) || x != x && y != y
	case reflect.Float64:
		x, y := a.Float(), b.Float()
		return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// cvCall calls a conversion by the name of its type
func cvCall(x *mc.X, recv interface{}, name, desc string) (v reflect.Value, err error) {
	var out []reflect.Value
	if p := catch(func() { out = reflect.ValueOf(recv).MethodByName(name).Call(nil) }); p != nil {
		x.Failf("panic", "%s of %s panics: %v", name, desc, p)
	}
	if len(out) == 2 {
		err, _ = out[1].Interface().(error)
	}
	return out[0], err
}

func cvText(x *mc.X, s string) {
	for _, k := range cvKinds {
		want, ok := cvParse(s, k.typ)
		for i, recv := range []interface{}{strip.StrTo(s), utils.StrTo(s), utils.ValueTo(s), utils.ValueTo([]byte(s)), utils.ValueTo(cvNamed(s))} {
			if i > 2 && s == "on" && k.name == "Bool" {
				continue // a checkbox is a text
			}
			x.Op()
			what := fmt.Sprintf("%q (%T)", s, recv)
			got, err := cvCall(x, recv, k.name, what)
			if (err == nil) != ok {
				x.Failf("range", "%s of %s: %v with error %v, want %v, valid %v", k.name, what, got, err, want, ok)
			}
			if ok && !cvSame(got, want) {
				x.Failf("value", "%s of %s is %v, want %v", k.name, what, got, want)
			}
			if ok && i > 0 {
				got, _ := cvCall(x, recv, "Must"+k.name, what)
				if !cvSame(got, want) {
					x.Failf("value", "Must%s of %s is %v, want %v", k.name, what, got, want)
				}
			}
		}
	}
	if g := strip.StrTo(s).String(); g != s {
		x.Failf("text", "text of %q is %q", s, g)
	}
	if g := utils.StrTo(s); g.String() != s || string(g.Bytes()) != s {
		x.Failf("text", "text of %q is %q, bytes %q", s, g.String(), g.Bytes())
	}
	x.State(s)
}

type (
	cvNamed  string
	cvBytes  []byte
	cvInt16  int16
	cvUint8  uint8
	cvFloat3 float32
	cvFlag   bool
)

func (cvNamed) String() string { return "not the text" }
func (cvInt16) String() string { return "not the number" }

var cvAlpha = []string{"0", "1", "9", "5", "+", "-", ".", "e", "E", " ", "x", "n", "a", "i", "f", "_", "o", "t", "é", "\x00"}

func cvTexts(x *mc.X) {
	max := 4
	if x.Thorough {
		max = 5
	}
	n := x.Choose(max+1, "length")
	s := ""
	for i := 0; i < n; i++ {
		s += mc.Pick(x, "character", cvAlpha)
		if i == 1 {
			x.Ready()
		}
	}
	x.Ready()
	cvText(x, s)
}

// numbers around every power of two and ten, written in several ways
func cvBounds(x *mc.X) {
	exp := x.Choose(70, "power of two")
	x.Ready()
	width := int64(3)
	if x.Thorough {
		width = 300
	}
	base := new(big.Int).Lsh(big.NewInt(1), uint(exp))
	ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(exp)/2), nil)
	for d := -width; d <= width; d++ {
		for _, b := range []*big.Int{base, ten} {
			n := new(big.Int).Add(b, big.NewInt(d))
			for _, s := range []string{n.String(), new(big.Int).Neg(n).String()} {
				cvText(x, s)
				for _, f := range []string{"+" + s, "000" + s, s + ".0", s + "e0", s + "e30", s + "e300", s + "e-350", " " + s, s + "\n", s + ".5", "." + s} {
					cvText(x, f)
				}
			}
		}
	}
}

// limits of the floating point formats, in decimal
var cvFloats = []string{
	"3.4028234663852886e38", "3.4028235677973366e38", "3.40282356779733661637539395458142568447e38", "3.40282356779733661637539395458142568448e38", "3.4028236e38", "1.401298464324817e-45", "7.006492321624085e-46", "7.0064923216240853e-46", "7.0064923216240854e-46", "1.1754943508222875e-38", "1.1754942e-38",
	"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880",
	"4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "9007199254740993", "9007199254740992.5", "9007199254740993.00000000000000000000001", "16777217", "16777216.9999999", "0.1", "0.30000000000000004", "1e23", "8.41e21", "5e-324", "1e-400", "1e400", "-1e400", "0e400", "-0", "-0.0", "0x1p-2", "0x1.8p1", "0X_1P0", "1_0", "inf", "+Inf", "-infinity", "nan", "NaN", "+nan", "1e", "e1", ".", "1e+", "1.e1", ".5", "5.", "0b1", "1e1e1", "1..1",
}

// ---- values to text and back

func cvBack(x *mc.X, val reflect.Value, name string) {
	x.Op()
	v := val.Interface()
	for how := 0; how < 4; how++ {
		var s string
		p := catch(func() {
			switch how {
			case 0:
				s = strip.ToStr(v)
			case 1:
				s = strip.ToStr(ptrTo(val).Interface())
			case 2:
				s = strip.ToStr(ptrTo(ptrTo(val)).Interface())
			case 3:
				s = utils.ToStr(v)
			}
		})
		desc := fmt.Sprintf("%T(%#v)", v, v)
		if p != nil {
			x.Failf("panic", "converting %s to text panics: %v", desc, p)
		}
		var back reflect.Value
		var err, err2 error
		switch name {
		case "String":
			back = reflect.ValueOf(s)
		case "Bytes":
			back = reflect.ValueOf(utils.StrTo(s).Bytes())
			if len(val.Bytes()) == 0 && len(back.Bytes()) == 0 {
				continue
			}
		default:
			back, err = cvCall(x, strip.StrTo(s), name, desc)
			var b2 reflect.Value
			b2, err2 = cvCall(x, utils.StrTo(s), name, desc)
			if err2 == nil && !cvSame(b2, back) {
				x.Failf("back", "%s as text %q is %v and %v as %s", desc, s, back, b2, name)
			}
		}
		if err != nil || err2 != nil || !cvSame(back.Convert(val.Type()), val) {
			x.Failf("back", "%s as text is %q, which is %v as %s again (%v, %v)", desc, s, back, name, err, err2)
		}
	}
}

func cvRound(x *mc.X) {
	k := x.Choose(len(cvKinds)+2, "type")
	x.Ready()
	switch {
	case k == len(cvKinds):
		for _, w := range words([]string{"a", "0", " ", "\x00", "é", "\xff", "\n", ",", "<"}, 0, 3) {
			s := strings.Join(w, "")
			cvBack(x, reflect.ValueOf(s), "String")
			cvBack(x, reflect.ValueOf(cvNamed(s)), "String")
		}
		return
	case k == len(cvKinds)+1:
		cvBack(x, reflect.ValueOf([]byte(nil)), "Bytes")
		for _, w := range words([]string{"a", "0", "\x00", "\xc3", "\xff", "[", "\n"}, 0, 3) {
			b := []byte(strings.Join(w, ""))
			cvBack(x, reflect.ValueOf(b), "Bytes")
			if g := strip.ToStr(cvBytes(b)) + strip.ToStr(ptrTo(reflect.ValueOf(cvBytes(b))).Interface()); g != string(b)+string(b) {
				x.Failf("back", "cvBytes(%q) as text is %q", b, g)
			}
			nb := make([]cvUint8, len(b))
			for i := range b {
				nb[i] = cvUint8(b[i])
			}
			if g := strip.ToStr(nb); g != string(b) {
				x.Failf("back", "[]cvUint8(%q) as text is %q", b, g)
			}
		}
		return
	}
	kind := cvKinds[k]
	t := kind.typ
	one := func(v reflect.Value) { cvBack(x, v, kind.name) }
	switch t.Kind() {
	case reflect.Bool:
		one(reflect.ValueOf(true))
		one(reflect.ValueOf(false))
		cvBack(x, reflect.ValueOf(cvFlag(true)), "Bool")
	case reflect.Float32:
		for e := 0; e < 256; e++ {
			for hi := 0; hi < 32; hi++ {
				for lo := 0; lo < 8; lo++ {
					for sgn := 0; sgn < 2; sgn++ {
						one(reflect.ValueOf(math.Float32frombits(uint32(sgn)<<31 | uint32(e)<<23 | uint32(hi)<<18 | uint32(lo*lo*lo))))
					}
				}
			}
		}
		cvBack(x, reflect.ValueOf(cvFloat3(0.1)), "Float32")
	case reflect.Float64:
		for e := 0; e < 2048; e++ {
			for hi := 0; hi < 8; hi++ {
				for lo := 0; lo < 4; lo++ {
					for sgn := 0; sgn < 2; sgn++ {
						one(reflect.ValueOf(math.Float64frombits(uint64(sgn)<<63 | uint64(e)<<52 | uint64(hi)<<49 | uint64(lo*lo))))
					}
				}
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		set := func(n int64) {
			v := reflect.New(t).Elem()
			v.SetInt(n) // wraps into the type
			one(v)
		}
		for n := int64(-1 << 15); n < 1<<15; n++ {
			set(n)
		}
		for b := uint(15); b < 64; b++ {
			for d := int64(-9); d <= 9; d++ {
				set(int64(1)<<b + d)
				set(-(int64(1) << b) + d)
			}
		}
		cvBack(x, reflect.ValueOf(cvInt16(-7)), "Int16")
		cvBack(x, reflect.ValueOf(time.Duration(-7e9)), "Int64")
	default:
		set := func(n uint64) {
			v := reflect.New(t).Elem()
			v.SetUint(n)
			one(v)
		}
		for n := uint64(0); n < 1<<16; n++ {
			set(n)
		}
		for b := uint(16); b < 64; b++ {
			for d := uint64(0); d <= 18; d++ {
				set(uint64(1)<<b + d - 9)
			}
		}
		for d := uint64(0); d < 9; d++ {
			set(-d)
		}
		cvBack(x, reflect.ValueOf(cvUint8(200)), "Uint8")
	}
	x.Statef("%v", t)
}

// every float32 there is
func cvAllFloats(x *mc.X) {
	hi := x.Choose(1<<12, "upper bits")
	x.Ready()
	for lo := uint32(0); lo < 1<<20; lo++ {
		f := math.Float32frombits(uint32(hi)<<20 | lo)
		s := strip.ToStr(f)
		g, err := strip.StrTo(s).Float32()
		if err != nil || g != f && f == f || f != f && g == g {
			x.Failf("back", "float32 %b as text is %q, which is %v again (%v)", f, s, g, err)
		}
	}
	x.Ops(1 << 20)
	x.Statef("%d", hi)
}

// integers in other bases, floats with other precisions
func cvArgs(x *mc.X) {
	base := 2 + x.Choose(35, "base")
	x.Ready()
	for b := uint(0); b < 64; b++ {
		for d := uint64(0); d < 3; d++ {
			n := uint64(1)<<b - 1 + d
			x.Op()
			if s := utils.ToStr(n, base); s != new(big.Int).SetUint64(n).Text(base) {
				x.Failf("base", "%d in base %d is %q", n, base, s)
			}
			if s := utils.ToStr(-int64(n), base); s != big.NewInt(-int64(n)).Text(base) {
				x.Failf("base", "%d in base %d is %q", -int64(n), base, s)
			}
		}
	}
	for _, f := range []float64{0, 0.5, 1.25, -3.75, 1e10, 0.125} {
		for prec := 0; prec < 5; prec++ {
			x.Op()
			w := new(big.Rat).SetFloat64(f).FloatString(prec)
			s := utils.ToStr(f, prec)
			// exact ties may go either way; judge the distance
			a, _ := new(big.Rat).SetString(s)
			b, _ := new(big.Rat).SetString(w)
			r := new(big.Rat).SetFloat64(f)
			if a == nil || new(big.Rat).Sub(a, r).Abs(new(big.Rat).Sub(a, r)).Cmp(new(big.Rat).Abs(new(big.Rat).Sub(b, r))) != 0 || len(strings.TrimPrefix(s, "-")) != len(strings.TrimPrefix(w, "-")) {
				x.Failf("precision", "%v with %d digits is %q", f, prec, s)
			}
		}
	}
	x.Statef("%d", base)
}

// texts as lists
func cvLists(x *mc.X) {
	max := 5
	if x.Thorough {
		max = 6
	}
	delim := mc.Pick(x, "delimiter", []string{"-", ",", "|", ";,", "a"})
	s := ""
	for n := x.Choose(max+1, "length"); n > 0; n-- {
		s += mc.Pick(x, "character", []string{"a", "é", ",", "|", ";", " ", "\t"})
		x.Ready()
	}
	x.Op()
	var got []string
	sep := delim
	if p := catch(func() {
		if delim == "-" { // the default
			sep = ","
			got = strip.StrTo(s).Strings()
		} else {
			got = strip.StrTo(s).Strings(delim)
		}
	}); p != nil {
		x.Failf("panic", "list %q by %q panics: %v", s, sep, p)
	}
	want := []string{""}
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], sep) {
			want = append(want, "")
			i += len(sep)
			continue
		}
		want[len(want)-1] += s[i : i+1]
		i++
	}
	for i := range want {
		want[i] = strings.Trim(want[i], " \t")
	}
	if !equalStrings(got, want) {
		x.Failf("list", "list %q by %q is %q, want %q", s, sep, got, want)
	}
	if sum := md5.Sum([]byte(s)); utils.StrTo(s).Md5() != fmt.Sprintf("%x", sum[:]) || string(utils.StrTo(s).Bytes()) != s {
		x.Failf("digest", "digest of %q is %q", s, utils.StrTo(s).Md5())
	}
	x.Statef("%q", want)
}

// ---- dynamic values

var cvHeld = []interface{}{
	nil, true, false, 0, 7, -7, math.MaxInt64, math.MinInt64, int8(127), int8(-128), int16(-129), int16(300), int32(-1 << 31), int32(70000), int64(1 << 40), int64(math.MaxInt64),
	uint(7), uint(math.MaxUint64), uint8(255), uint16(256), uint16(65535), uint32(math.MaxUint32), uint64(math.MaxUint64), uint64(1 << 63), uint64(math.MaxInt64), uint(math.MaxInt64), uint64(math.MaxInt64 - 1), int64(math.MaxInt64), int64(math.MinInt64), float32(0.1), float32(16777216), float32(1e38), float64(0.1), float64(1e300), float64(-3), float64(1 << 53), float64(1e19),
	"", "7", "on", "true", "-1", "300", "x", []byte(nil), []byte{}, []byte("12"), []byte("x"), []string(nil), []string{"a", "b"}, []string{}, struct{ A int }{1}, map[string]int{"a": 1}, []int{1}, [2]byte{1, 2}, cvNamed("5"), cvInt16(5), time.Second, func() {}, (*int)(nil), make(chan int),
}

func cvHeldText(v interface{}) (string, bool) {
	if b, ok := v.([]byte); ok {
		return string(b), true
	}
	r := reflect.ValueOf(v)
	if v == nil {
		return "", true
	}
	switch r.Kind() {
	case reflect.Bool:
		return map[bool]string{true: "true", false: "false"}[r.Bool()], true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(r.Int()).String(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(r.Uint()).String(), true
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(r.Float(), 'f', -1, r.Type().Bits()), true
	case reflect.String:
		return r.String(), true
	}
	return "", false
}

func cvValues(x *mc.X) {
	h := mc.Pick(x, "held value", cvHeld)
	x.Ready()
	desc := fmt.Sprintf("value %T(%v)", h, h)
	txt, known := cvHeldText(h)
	v := utils.ValueTo(h)
	for _, k := range cvKinds {
		x.Op()
		got, err := cvCall(x, v, k.name, desc)
		must, _ := cvCall(x, v, "Must"+k.name, desc)
		if h != nil && reflect.TypeOf(h) == k.typ {
			if err != nil || !cvSame(got, reflect.ValueOf(h)) || !cvSame(must, reflect.ValueOf(h)) {
				x.Failf("held", "%s: %s gives %v, %v and %v", desc, k.name, got, err, must)
			}
			continue
		}
		want, ok := cvParse(txt, k.typ)
		ok = ok && known
		if (err == nil) != ok || ok && (!cvSame(got, want) || !cvSame(must, want)) {
			x.Failf("held", "%s: %s gives %v, %v and %v, want %v, valid %v", desc, k.name, got, err, must, want, ok)
		}
	}
	x.Op()
	var s, ms string
	var sl []string
	var bs []byte
	if p := catch(func() { s, ms, sl, bs = v.String(), v.MustString(), v.MustSliceString(), v.MustBytes() }); p != nil {
		x.Failf("panic", "%s panics: %v", desc, p)
	}
	if known && (s != txt || ms != txt) {
		x.Failf("held", "%s as text is %q and %q, want %q", desc, s, ms, txt)
	}
	wsl, _ := h.([]string)
	wbs, _ := h.([]byte)
	if !reflect.DeepEqual(sl, wsl) || !reflect.DeepEqual(bs, wbs) {
		x.Failf("held", "%s: texts %q, want %q, bytes %q, want %q", desc, sl, wsl, bs, wbs)
	}
	if v.IsNil() != (h == nil) {
		x.Failf("held", "%s: IsNil is %v", desc, v.IsNil())
	}
	if reflect.ValueOf(h).Kind() != reflect.Func && !reflect.DeepEqual(v.Value(), h) {
		x.Failf("held", "%s: Value gives %v", desc, v.Value())
	}
	// as a 64 bit integer
	n, err := utils.ToInt64(h)
	r := reflect.ValueOf(h)
	var want *big.Int
	if h != nil {
		switch r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			want = big.NewInt(r.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			want = new(big.Int).SetUint64(r.Uint())
		}
	}
	if want != nil && !want.IsInt64() {
		want = nil
	}
	if (err == nil) != (want != nil) || want != nil && n != want.Int64() {
		x.Failf("int64", "%s as int64 is %d, %v, want %v", desc, n, err, want)
	}
	// any value at all has a text
	for i := 0; i < 3; i++ {
		if p := catch(func() {
			switch i {
			case 0:
				strip.ToStr(h)
			case 1:
				strip.ToStr(&h)
			case 2:
				utils.ToStr(h)
			}
		}); p != nil {
			x.Failf("panic", "converting the %s to text panics: %v", desc, p)
		}
	}
	x.State(desc)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C23",
		Model: "the arithmetic meaning of a decimal text (big integers, exact rationals rounded to nearest), and the identity for value -> text -> value",
		Assumptions: []string{
			"infinities, NaN and hexadecimal or underscored floating point texts are read as strconv reads them",
			"the value returned together with an error, and that of a Must conversion without a valid value, is not judged",
			"int and uint are 64 bits wide",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"types": len(cvKinds) + 2, "text alphabet": len(cvAlpha), "text length": map[bool]int{true: 5, false: 4}[th], "around powers of 2 and 10": map[bool]int{true: 300, false: 3}[th],
				"8 and 16 bit values": "all", "float32 values": map[bool]string{true: "all 2^32", false: "2^17, all exponents"}[th], "float64 values": "2^17, all exponents", "held values": len(cvHeld), "list length": map[bool]int{true: 6, false: 5}[th]}
		},
		ThoroughBudget: 800 * time.Second,
		Run: func(x *mc.X) {
			modes := 7
			if x.Thorough {
				modes = 8
			}
			switch x.Choose(modes, "mode") {
			case 0:
				cvTexts(x)
			case 1:
				cvBounds(x)
			case 2:
				s := mc.Pick(x, "text", cvFloats)
				x.Ready()
				cvText(x, s)
				cvText(x, "-"+s)
			case 3:
				cvRound(x)
			case 4:
				cvArgs(x)
			case 5:
				cvValues(x)
			case 6:
				cvLists(x)
			case 7:
				cvAllFloats(x)
			}
		},
	})
}
