package props

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/utils/helpers"
	"strip.verif/mc"
)

var confNames = []struct{ sec, key, env string }{
	{"", "k", "K"},
	{"", "app.name-x", "APP_NAME_X"},
	{"", "a b", "A_B"},
	{"sec", "k", "SEC_K"},
	{"sec", "Key:1", "SEC_KEY_1"},
	{"a.b-c", "k", "A_B_C_K"},
	{"default", "k", "DEFAULT_K"},
	{"sec", "x::y", "SEC_X__Y"},
	{"é", "ü", "É_Ü"},
}

func confName(sec, key string) string {
	if sec == "" {
		return key
	}
	return sec + "::" + key
}

// an INI text that sets one value, next to similar names elsewhere
func confIni(sec, key, val string, set bool) string {
	var b strings.Builder
	if !set {
		b.WriteString("unrelated = 1\n")
	}
	other := "other"
	line := "`" + key + "` = `" + val + "`\n"
	if !set {
		line = ""
	}
	// the same key in other sections never counts
	if sec == "" || sec == "default" {
		b.WriteString(line)
		b.WriteString("[" + other + "]\n`" + key + "` = leaked\n[sec]\n`" + key + "` = leaked\n")
	} else {
		b.WriteString("`" + key + "` = leaked\n[" + other + "]\n`" + key + "` = leaked\n[" + sec + "]\n`" + key + "x` = leaked\n" + line)
	}
	return b.String()
}

func mustIni(x *mc.X, text string) config.Configer {
	c, err := config.LoadIniFromReader(strings.NewReader(text))
	if err != nil {
		x.Failf("load", "%q does not load: %v", text, err)
	}
	return c
}

func confLayers(x *mc.X) {
	n := confNames[x.Choose(len(confNames), "name")]
	layers := 3
	if x.Thorough {
		layers = 4
	}
	// absent, empty, value
	env := x.Choose(3, "environment")
	st := make([]int, layers)
	for i := range st {
		st[i] = x.Choose(3, "layer")
	}
	custom := x.Choose(2, "parent") == 1 // the outermost layer is the application's own configuration
	twice := x.Bool("another parent before")
	x.Ready()
	want := ""
	if env == 2 {
		want = "from env"
	}
	var top config.Configer
	var last config.Configer
	for i := range st {
		val := ""
		if st[i] == 2 {
			val = fmt.Sprintf("from layer %d", i)
		}
		if want == "" {
			want = val
		}
		var c config.Configer
		if custom && i == layers-1 {
			c = &ownConf{m: map[string]string{confName(n.sec, n.key): val}}
		} else {
			c = mustIni(x, confIni(n.sec, n.key, val, st[i] > 0))
		}
		if last == nil {
			top = c
		} else {
			if twice {
				last.SetParent(mustIni(x, confIni(n.sec, n.key, "from a former parent", true)))
				last.SetParent(nil)
			}
			last.SetParent(c)
		}
		last = c
	}
	os.Unsetenv(n.env)
	defer os.Unsetenv(n.env)
	switch env {
	case 1:
		os.Setenv(n.env, "")
	case 2:
		os.Setenv(n.env, "from env")
	}
	name := confName(n.sec, n.key)
	x.Ops(4)
	if got := top.Find(name); got != want {
		x.Failf("find", "%q with environment %d and layers %v is %q, want %q", name, env, st, got, want)
	}
	sc := &strip.Config{Configer: top}
	if got := sc.Find(name); got != want {
		x.Failf("find", "%q with environment %d and layers %v is %q, want %q", name, env, st, got, want)
	}
	def := want
	if def == "" {
		def = "fallback"
	}
	if got := sc.Find(name, "fallback"); got != def {
		x.Failf("default", "%q with environment %d and layers %v and a default is %q, want %q", name, env, st, got, def)
	}
	dst := "before"
	sc.Bind(&dst, name)
	if want == "" && dst != "before" || want != "" && dst != want {
		x.Failf("bind", "%q bound as %q, want %q", name, dst, want)
	}
	if got := top.Find(name + "y"); got != "" && !(env == 2) {
		x.Failf("find", "a name that is not set is found as %q", got)
	}
	if n.sec == "default" || n.sec == "" {
		// the same setting
		alias := "default::" + n.key
		if n.sec == "default" {
			alias = n.key
		}
		w := want
		if env == 2 || custom {
			w = ""
			for i := range st {
				if st[i] == 2 && !(custom && i == layers-1) {
					w = fmt.Sprintf("from layer %d", i)
					break
				}
			}
		}
		if got := top.Find(alias); got != w {
			x.Failf("find", "%q with environment %d and layers %v is %q, want %q", alias, env, st, got, w)
		}
	}
	x.Statef("%s %d %v %v", name, env, st, want)
}

// a configuration of the application's own
type ownConf struct{ m map[string]string }

func (c *ownConf) Find(n string) string                   { return c.m[n] }
func (c *ownConf) ListSection(s string) map[string]string { return nil }
func (c *ownConf) SetParent(config.Configer)              {}

type (
	cStr   string
	cInt   int
	cBytes []byte
	cStrs  []string
	cFloat float32
)

var confValues = []string{
	"1", "0", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
	"true", "false", "on", "off", "T", "yes", "1.5", "-2e3", "1e400", "1e39", "inf", "NaN", "0x10", "010", "1_000", "+5", " 7 ", "a,b", "a, b ,,c,", "a, ,b", ",", "text", "é", "%s", "\x00",
}

// the value a destination of the type gets; nil: left alone
func confWant(v string, t reflect.Type) interface{} {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.String:
		return v
	case reflect.Bool:
		b, err := strconv.ParseBool(v)
		return b && err == nil || v == "on"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(v, 10, t.Bits())
		if err != nil {
			n = 0
		}
		return n
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(v, 10, t.Bits())
		if err != nil {
			n = 0
		}
		return n
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(v, t.Bits())
		if err != nil {
			f = 0
		}
		return f
	case reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Uint8:
			return v
		case reflect.String:
			var out []string
			for _, p := range strings.Split(v, ",") {
				if p = strings.TrimSpace(p); p != "" {
					out = append(out, p)
				}
			}
			return fmt.Sprintf("%q", out)
		}
	}
	return nil
}

func confGot(v reflect.Value) interface{} {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil pointer"
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Uint8:
			return string(v.Bytes())
		case reflect.String:
			var out []string
			for i := 0; i < v.Len(); i++ {
				out = append(out, v.Index(i).String())
			}
			return fmt.Sprintf("%q", out)
		}
	}
	return v.Interface()
}

func same(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	}
	return reflect.DeepEqual(a, b)
}

// destinations, with the value they hold before binding
var confDests = []interface{}{
	"before", cStr("before"), true, false, 77, int8(77), int16(77), int32(77), int64(77), uint(77), uint8(77), uint16(77), uint32(77), uint64(77), float32(7.5), 7.5, cInt(77), cFloat(7.5),
	[]string{"x"}, cStrs{"x"}, []byte("x"), cBytes("x"),
	ptr("before"), ptr(77), (*int)(nil), (*string)(nil), (*bool)(nil), ptr(ptr(uint8(77))), (**int)(nil), (*[]string)(nil), ptr(true), (*cInt)(nil), (*cFloat)(nil),
	[]int{1}, map[string]string{"a": "b"}, struct{ A int }{1}, (*struct{ A int })(nil), [2]string{"a", "b"}, complex(1, 2), uintptr(3), []float64{1}, []interface{}{1},
}

func confBind(x *mc.X) {
	di := x.Choose(len(confDests), "destination")
	vi := x.Choose(len(confValues)+1, "value")
	how := x.Choose(3, "through") // Bind, Decode, Decode of a section
	x.Ready()
	def := reflect.ValueOf(confDests[di])
	t := def.Type()
	m := map[string]string{"k": "", "s::k": ""}
	want := interface{}(nil)
	v := ""
	if vi < len(confValues) {
		v = confValues[vi]
		m["k"], m["s::k"] = v, v
		want = confWant(v, t)
	}
	sc := &strip.Config{Configer: &ownConf{m}}
	x.Op()
	var got reflect.Value
	p := catch(func() {
		switch how {
		case 0:
			d := reflect.New(t)
			d.Elem().Set(def)
			sc.Bind(d.Interface(), "k")
			got = d.Elem()
		case 1:
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "K", Type: t, Tag: `conf:"k"`}, {Name: "N", Type: t, Tag: `conf:"-"`}})
			d := reflect.New(st)
			for i := 0; i < 3; i++ {
				d.Elem().Field(i).Set(def)
			}
			config.Decode(sc, d.Interface())
			got = d.Elem().Field(1)
			for _, i := range []int{0, 2} {
				if !same(confGot(d.Elem().Field(i)), confGot(def)) {
					x.Failf("decode", "decoding changes a field without tag to %v", confGot(d.Elem().Field(i)))
				}
			}
		case 2:
			in := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "K", Type: t, Tag: `conf:"k"`}, {Name: "N", Type: t, Tag: `conf:"-"`}})
			st := reflect.StructOf([]reflect.StructField{{Name: "S", Type: in, Tag: `conf:"s"`}, {Name: "O", Type: in}})
			d := reflect.New(st)
			for f := 0; f < 2; f++ {
				for i := 0; i < 3; i++ {
					d.Elem().Field(f).Field(i).Set(def)
				}
			}
			config.Decode(sc, d.Interface())
			got = d.Elem().Field(0).Field(1)
			for f := 0; f < 2; f++ {
				for i := 0; i < 3; i++ {
					if f == 0 && i == 1 {
						continue
					}
					if !same(confGot(d.Elem().Field(f).Field(i)), confGot(def)) {
						x.Failf("decode", "decoding changes a field without tag to %v", confGot(d.Elem().Field(f).Field(i)))
					}
				}
			}
		}
	})
	if p != nil {
		x.Failf("panic", "binding %q to %v panics: %v", v, t, p)
	}
	if want == nil {
		want = confGot(def)
	}
	if g := confGot(got); !same(g, want) {
		x.Failf("bind", "binding %q to a %v holding %v gives %v, want %v", v, t, confGot(def), g, want)
	}
	x.Statef("%v %q %v", t, v, want)
}

type ConfMid struct {
	Deep string `conf:"deep"`
	In   struct {
		X int    `conf:"x"`
		Y string `conf:"in::y"`
	} `conf:"in"`
}
type confEnv struct {
	ConfMid
	Name  string `conf:"name"`
	Count *int   `conf:"sec::count"`
	Other string
	Skip  string `conf:"-"`
	Sec   struct {
		Name  string   `conf:"name"`
		List  []string `conf:"list"`
		Plain string
		Sub   struct {
			Name string `conf:"name"`
		}
	} `conf:"sec"`
	P *ConfMid `conf:"p"`
	ConfLast
}

// embedded behind other fields, with the name of a section
type ConfLast struct {
	List string `conf:"list"`
}

// every subset of settings present, decoded into nested structs
func confDecode(x *mc.X) {
	names := []string{"deep", "in::x", "name", "sec::count", "sec::name", "sec::list", "Other", "-", "p", "Plain", "sec::Plain", "x", "list"}
	m := map[string]string{}
	set := 0
	for i, n := range names {
		if x.Choose(2, n) == 1 {
			m[n] = fmt.Sprint(i + 10)
			set |= 1 << i
		}
	}
	nilConf := x.Choose(2, "no configuration")
	x.Ready()
	x.Op()
	env := &confEnv{}
	env.Name, env.Sec.Name, env.Deep, env.In.X = "d1", "d2", "d3", 4
	env.Other, env.Skip, env.Sec.Plain, env.Sec.Sub.Name = "o", "s", "p", "n"
	w := *env
	sc := &strip.Config{}
	if nilConf == 0 {
		sc.Configer = &ownConf{m}
		or := func(p *string, n string) {
			if m[n] != "" {
				*p = m[n]
			}
		}
		or(&w.Deep, "deep")
		or(&w.Name, "name")
		or(&w.ConfLast.List, "list")
		or(&w.Sec.Name, "sec::name")
		if m["in::x"] != "" {
			w.In.X, _ = strconv.Atoi(m["in::x"])
		}
		if m["sec::count"] != "" {
			n, _ := strconv.Atoi(m["sec::count"])
			w.Count = &n
		}
		if m["sec::list"] != "" {
			w.Sec.List = []string{m["sec::list"]}
		}
	}
	config.Decode(sc, env)
	if !reflect.DeepEqual(*env, w) {
		x.Failf("decode", "settings %v decode to %+v, want %+v", m, *env, w)
	}
	if got := sc.Find("nothing", "fallback"); got != "fallback" {
		x.Failf("default", "a setting that is not found is %q instead of the default, configuration present: %v", got, nilConf == 0)
	}
	if got := sc.Find("nothing"); got != "" {
		x.Failf("find", "a setting that is not found is %q", got)
	}
	x.Statef("%d %d", set, nilConf)
}

// which files exist decides the result
var confFiles = []string{"default.ini", "default.prod.ini", "app.ini", "app.prod.ini", "override.ini", "override.prod.ini"}

var confScratch struct{ wd, dir string }

func confScratchInit() {
	clearEnv()
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	d = filepath.Join(d, fmt.Sprintf("conf.%d", os.Getpid()))
	confScratch.wd, confScratch.dir = filepath.Join(d, "wd"), filepath.Join(d, "dir")
	os.MkdirAll(confScratch.wd, 0o755)
	os.MkdirAll(confScratch.dir, 0o755)
	if err := os.Chdir(confScratch.wd); err != nil {
		panic(err)
	}
}

type confTarget struct {
	K    string `conf:"k"`
	Port string `conf:"http_port"`
}

func confSet(x *mc.X) {
	where := x.Choose(4, "directories") // 0: working directory only, 1: also another one, 2: dir is the working directory, 3: given relatively
	dirs := []string{confScratch.wd}
	if where == 1 {
		dirs = append(dirs, confScratch.dir)
	}
	for _, d := range []string{confScratch.wd, confScratch.dir} {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			os.Remove(filepath.Join(d, e.Name()))
		}
	}
	type file struct{ path, id string }
	var all []file
	for _, group := range [][]string{confFiles[:2], confFiles[2:4], confFiles[4:]} {
		for _, d := range dirs {
			for _, f := range group {
				all = append(all, file{filepath.Join(d, f), f + "@" + filepath.Base(d)})
			}
		}
	}
	var present []file
	kind := map[string]int{}
	max := len(all)
	for i := 0; i < max; i++ {
		k := 0
		if where == 1 && !x.Thorough && strings.Contains(all[i].id, "app.ini") {
			k = 1
		} else {
			k = x.Choose(2, all[i].id)
		}
		if k == 1 {
			present = append(present, all[i])
		}
		kind[all[i].id] = k
	}
	extra := x.Choose(5, "added files")
	broken := x.Choose(2, "a broken file")
	mode := x.Choose(2, "mode")
	x.Ready()
	x.Op()
	// read by nobody
	decoy := []string{"default.dev.ini", "override.test.ini", "other.ini", "app.prod.ini.bak"}
	for _, d := range decoy {
		os.WriteFile(filepath.Join(confScratch.wd, d), []byte("k = decoy\ndecoy = 1\n"), 0o644)
	}
	runMode := strip.Mode(strip.ModeProd)
	if mode == 1 {
		runMode = strip.ModeTest
	}
	var want string
	uniq := map[string]bool{}
	write := func(f file, reads bool) {
		os.WriteFile(f.path, []byte("k = "+f.id+"\n[u]\n"+f.id+" = 1\n"), 0o644)
		if reads {
			want = f.id
			uniq[f.id] = true
		}
	}
	for _, f := range present {
		write(f, mode == 0 || !strings.Contains(f.id, "prod"))
	}
	if mode == 1 {
		os.WriteFile(filepath.Join(confScratch.wd, "override.test.ini"), []byte("k = last override\n"), 0o644)
		want = "last override"
		if where == 1 {
			for _, f := range present {
				if f.id == "override.ini@dir" {
					want = f.id
				}
			}
		}
	}
	if broken == 1 && kind["default.ini@wd"] == 1 {
		// not loadable: the others count
		os.WriteFile(filepath.Join(confScratch.wd, "default.ini"), []byte("k = broken\nnonsense\n"), 0o644)
		delete(uniq, "default.ini@wd")
		if want == "default.ini@wd" {
			want = ""
		}
	}
	var add []string
	a := file{filepath.Join(confScratch.dir, "a.ini"), "a.ini"}
	b := file{filepath.Join(confScratch.dir, "b.ini"), "b.ini"}
	switch extra {
	case 1:
		write(a, true)
		add = []string{a.path}
	case 2:
		write(a, true)
		write(b, true)
		add = []string{a.path, b.path}
	case 3: // added and missing
		add = []string{a.path}
	case 4: // added although found before: above all others
		p := filepath.Join(confScratch.wd, "app.ini")
		if kind["app.ini@wd"] == 1 {
			want = "app.ini@wd"
		}
		add = []string{p}
	}
	dir := ""
	switch where {
	case 1:
		dir = confScratch.dir
	case 2:
		dir = confScratch.wd
	case 3:
		dir = "."
	}
	sp := newApp()
	lines := &logLines{}
	sp.SetLogger(strip.NewLogger(lines))
	sp.Config.RunMode = runMode
	env := &confTarget{K: "initial"}
	var conf config.Configer
	if p := catch(func() { conf = helpers.LoadConfigFiles(sp, "app", env, dir, add...) }); p != nil {
		x.Failf("files", "loading %v panics: %v", present, p)
	}
	desc := fmt.Sprintf("files %v, directories %d, added %v, mode %s, broken %d", present, where, add, runMode, broken)
	exp := want
	if exp == "" {
		exp = "initial"
	}
	if env.K != exp || conf.Find("k") != want || sp.Config.Find("k") != want {
		x.Failf("files", "%s: the setting is %q (%q, %q), want %q", desc, env.K, conf.Find("k"), sp.Config.Find("k"), exp)
	}
	for _, f := range append(all, a, b) {
		got := conf.Find("u::"+f.id) == "1"
		if got != uniq[f.id] {
			x.Failf("files", "%s: %s is read: %v", desc, f.id, got)
		}
	}
	if conf.Find("decoy") != "" && mode == 0 {
		x.Failf("files", "%s: a file that does not belong to the application is read", desc)
	}
	// only what can not be loaded although it is there or was asked for is reported
	bad := map[string]bool{}
	if broken == 1 && kind["default.ini@wd"] == 1 {
		bad[filepath.Join(confScratch.wd, "default.ini")] = true
	}
	if extra == 3 {
		bad[a.path] = true
	}
	if extra == 4 && kind["app.ini@wd"] != 1 {
		bad[add[0]] = true
	}
	for _, l := range *lines {
		if strings.HasPrefix(l, "[INFO]") || strings.HasPrefix(l, "[DEBUG]") {
			continue
		}
		known := ""
		for p := range bad {
			if strings.Contains(l, p) {
				known = p
			}
		}
		if known == "" {
			x.Failf("files", "%s: reported: %s", desc, l)
		}
		delete(bad, known)
	}
	for p := range bad {
		x.Failf("files", "%s: nothing tells that %s can not be loaded: %q", desc, p, *lines)
	}
	x.Statef("%v %d %d %d %d", kind, where, extra, broken, mode)
}

// logLines keeps what is logged.
type logLines []string

func (l *logLines) Print(a ...interface{}) { *l = append(*l, fmt.Sprint(a...)) }

// importing sets the application's own settings; list flags
func confImport(x *mc.X) {
	if x.Choose(2, "what") == 1 {
		n := 1 + x.Choose(3, "texts")
		var s helpers.SliceValue
		var want []string
		var texts []string
		for i := 0; i < n; i++ {
			t := mc.Pick(x, "text", []string{"a", "b", "a,b", " a , c ", "", ",", "a,,b,", "a,a"})
			texts = append(texts, t)
			x.Op()
			if err := s.Set(t); err != nil {
				x.Failf("list", "list flag %q: %v", t, err)
			}
			for _, p := range strings.Split(t, ",") {
				if p = strings.TrimSpace(p); p != "" {
					want = append(want, p)
				}
			}
		}
		if !equalStrings(s, want) || s.String() != strings.Join(want, ",") {
			x.Failf("list", "list flag %q holds %q, want %q", texts, []string(s), want)
		}
		var uniq []string
		seen := map[string]bool{}
		for _, w := range want {
			if !seen[w] {
				seen[w] = true
				uniq = append(uniq, w)
			}
		}
		s.Unique()
		if !equalStrings(s, uniq) {
			x.Failf("list", "unique values of %q are %q, want %q", want, []string(s), uniq)
		}
		x.Statef("%q", want)
		return
	}
	keys := []string{"run_path", "run_mode", "http_addr", "http_port"}
	m := map[string]string{}
	for _, k := range keys {
		if x.Choose(2, k) == 1 {
			m[k] = "v-" + k
		}
	}
	viaEnv := 0
	for i, k := range keys {
		if x.Choose(2, "environment "+k) == 1 {
			viaEnv |= 1 << i
		}
	}
	x.Ready()
	for i, k := range keys {
		if viaEnv>>i&1 == 1 {
			os.Setenv(strings.ToUpper(k), "e-"+k)
		}
		defer os.Unsetenv(strings.ToUpper(k))
	}
	x.Op()
	sp := newApp()
	before := *sp.Config
	sp.ImportConfig(&ownConf{m})
	exp := func(i int, def string) string {
		k := keys[i]
		if m[k] != "" {
			return m[k]
		}
		if viaEnv>>i&1 == 1 {
			return "e-" + k
		}
		return def
	}
	wd, _ := os.Getwd()
	c := sp.Config
	if c.RunPath != exp(0, wd) || string(c.RunMode) != exp(1, "prod") || c.HttpAddr != exp(2, "127.0.0.1") || c.HttpPort != exp(3, "3000") {
		x.Failf("import", "settings %v and environment %04b give %+v, before %+v", m, viaEnv, c, before)
	}
	for _, md := range []strip.Mode{strip.ModeDev, strip.ModeTest, strip.ModeProd, "", "x"} {
		if md.IsDev() != (md == "dev") || md.IsTest() != (md == "test") || md.IsProd() != (md == "prod") {
			x.Failf("import", "mode %q is dev %v, test %v, prod %v", md, md.IsDev(), md.IsTest(), md.IsProd())
		}
	}
	x.Statef("%v %d", m, viaEnv)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C21",
		Model: "first non-empty value of the layers; parsing of values by strconv at the destination's size; order of configuration files",
		Assumptions: []string{
			"a value that does not parse binds as the zero value",
			"no configuration files lie in the directory of the checker's program",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"names": len(confNames), "layers": map[bool]int{true: 4, false: 3}[th], "values": len(confValues), "destinations": len(confDests), "file sets": "every subset of 6 files in one directory, of 12 (quick: 10) in two"}
		},
		Init: confScratchInit,
		Run: func(x *mc.X) {
			switch x.Choose(5, "mode") {
			case 0:
				confLayers(x)
			case 1:
				confBind(x)
			case 2:
				confDecode(x)
			case 3:
				confSet(x)
			case 4:
				confImport(x)
			}
		},
	})
}
