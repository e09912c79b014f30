package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"github.com/wujiu2020/strip/config"
	"strip.verif/mc"
)

// the documented reading of an INI text, line by line
type iniModel struct {
	err  bool
	data map[string]map[string]string
	// the reading of some line is not documented: only absence of panics and
	// independence of the form of the input are judged
	vague bool
}

func iniParse(text string) *iniModel {
	m := &iniModel{data: map[string]map[string]string{}}
	sec := "default"
	n := 0
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimFunc(line, unicode.IsSpace)
		switch {
		case line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, ";"):
			continue
		case strings.HasPrefix(line, "[") && strings.HasSuffix(line, "]"):
			sec = strings.TrimFunc(line[1:len(line)-1], unicode.IsSpace)
			if sec == "" {
				m.err = true
				return m
			}
			if m.data[sec] == nil {
				m.data[sec] = map[string]string{}
			}
			n = 0
			continue
		}
		key, rest, ok := "", "", false
		for _, q := range []string{`"""`, `"`, "`"} {
			if !strings.HasPrefix(line, q) || len(line) < 2*len(q) {
				if q == line[:1] && len(line) == 1 {
					m.err = true
					return m
				}
				continue
			}
			k, after, found := strings.Cut(line[len(q):], q)
			if !found {
				m.err = true
				return m
			}
			i := strings.IndexAny(after, "=:")
			if i < 0 {
				m.err = true
				return m
			}
			if k == "-" || strings.TrimSpace(after[:i]) != "" {
				m.vague = true
			}
			key, rest, ok = k, after[i+1:], true
			break
		}
		if !ok {
			i := strings.IndexAny(line, "=:")
			if i <= 0 {
				m.err = true
				return m
			}
			key, rest = strings.TrimFunc(line[:i], unicode.IsSpace), line[i+1:]
			if key == "-" {
				n++
				key = fmt.Sprint("#", n)
			}
		} else if key == "" {
			m.vague = true
		}
		val := strings.TrimFunc(rest, unicode.IsSpace)
		switch {
		case strings.HasPrefix(val, "`") && len(val) >= 2:
			i := strings.LastIndex(val, "`")
			if i == 0 {
				m.err = true
				return m
			}
			if i != len(val)-1 {
				m.vague = true
			}
			val = val[1:i]
		case strings.HasPrefix(val, `"""`) && len(val) >= 6:
			i := strings.LastIndex(val, `"""`)
			if i < 3 {
				m.err = true
				return m
			}
			if i != len(val)-3 {
				m.vague = true
			}
			val = val[3:i]
		}
		if m.data[sec] == nil {
			m.data[sec] = map[string]string{}
		}
		if key != "" {
			m.data[sec][key] = val
		}
	}
	return m
}

// a reader that gives the text in pieces
type pieces struct {
	s    string
	n    int // bytes per read
	eof  bool
	fail int // error instead of the end after so many bytes, -1: none
	done int
	zero bool
	z    bool
}

var errRead = errors.New("read error")

func (p *pieces) Read(b []byte) (int, error) {
	if p.zero {
		p.z = !p.z
		if p.z {
			return 0, nil
		}
	}
	end := error(io.EOF)
	s := p.s
	if p.fail >= 0 {
		end = errRead
		if left := p.fail - p.done; left < len(s) {
			s = s[:left]
		}
	}
	n := p.n
	if n > len(b) {
		n = len(b)
	}
	if n > len(s) {
		n = len(s)
	}
	copy(b, s[:n])
	p.s = p.s[n:]
	p.done += n
	if n == 0 && len(b) > 0 || p.eof && n == len(s) {
		return n, end
	}
	return n, nil
}

func iniDump(data map[string]map[string]string) string {
	var out []string
	for s, kv := range data {
		for k, v := range kv {
			out = append(out, fmt.Sprintf("[%s] %q = %q", s, k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// read loads a text and returns everything that can be asked for
func iniRead(x *mc.X, text string, r io.Reader, secs map[string]map[string]string) (string, map[string]map[string]string, error) {
	x.Op()
	var c config.Configer
	var err error
	if p := catch(func() { c, err = config.LoadIniFromReader(r) }); p != nil {
		x.Failf("panic", "loading %q panics: %v", text, p)
	}
	if err != nil {
		if c != nil {
			x.Failf("error", "loading %q returns both a configuration and the error %v", text, err)
		}
		_ = err.Error()
		return "error", nil, err
	}
	data := map[string]map[string]string{}
	for s := range secs {
		if kv := c.ListSection(s); kv != nil {
			data[s] = kv
		}
	}
	return iniDump(data), data, nil
}

func judgeIni(x *mc.X, text string) {
	m := iniParse(text)
	secs := map[string]map[string]string{"default": nil, "a": nil, "=": nil, "other": nil}
	for s := range m.data {
		secs[s] = nil
	}
	got, data, err := iniRead(x, text, strings.NewReader(text), secs)
	want := "error"
	if !m.err {
		want = iniDump(m.data)
	}
	if !m.vague && got != want {
		x.Failf("meaning", "text %q\nis read as  %s (%v)\nshould be   %s", text, got, err, want)
	}
	x.State(got)
	if err == nil && !m.vague {
		c, _ := config.LoadIniFromReader(strings.NewReader(text))
		for s, kv := range data {
			for k, v := range kv {
				if k == "" || strings.Index(s+"::"+k, "::") != len(s) || s == "default" && strings.Contains(k, "::") {
					continue
				}
				x.Op()
				if g := c.Find(s + "::" + k); g != v {
					x.Failf("find", "text %q: %s::%s is %q, listed as %q", text, s, k, g, v)
				}
				if s == "default" {
					if g := c.Find(k); g != v {
						x.Failf("find", "text %q: %s is %q, listed as %q", text, k, g, v)
					}
				} else if _, ok := data["default"][k]; !ok {
					if g := c.Find(k); g != "" {
						x.Failf("find", "text %q: %s is %q but only set in section %s", text, k, g, s)
					}
				}
			}
		}
		// the listing is a copy
		for s := range data {
			l := c.ListSection(s)
			l["k"] = "changed"
			delete(l, "key")
			if g := iniDump(map[string]map[string]string{s: c.ListSection(s)}); g != iniDump(map[string]map[string]string{s: data[s]}) {
				x.Failf("find", "text %q: changing a listed section changes the configuration to %s", text, g)
			}
		}
		for _, k := range []string{"", "::", "::k", "nowhere::k", "nowhere::"} {
			x.Op()
			want := ""
			if k == "::k" {
				want = data["default"]["k"]
			}
			if g := c.Find(k); g != want {
				x.Failf("find", "text %q: %q is %q", text, k, g)
			}
		}
	}
}

// the reading does not depend on the form of the input
func judgeForms(x *mc.X, text string, file string) {
	m := iniParse(text)
	secs := map[string]map[string]string{"default": nil, "a": nil, "b c": nil, "d": nil}
	for s := range m.data {
		secs[s] = nil
	}
	base, _, _ := iniRead(x, text, strings.NewReader(text), secs)
	forms := []string{text, strings.ReplaceAll(text, "\n", "\r\n"), "\xef\xbb\xbf" + text, text + "\n", "\n" + text + "\n\n"}
	for i, f := range forms {
		for _, n := range []int{1, 2, 3, 7, 4096} {
			for _, eof := range []bool{false, true} {
				for _, zero := range []bool{false, true} {
					if zero && (n != 2 && n != 4096) {
						continue
					}
					got, _, err := iniRead(x, f, &pieces{s: f, n: n, eof: eof, zero: zero, fail: -1}, secs)
					if got != base {
						x.Failf("form", "text %q is read as\n%s\nin form %d, read in pieces of %d bytes (end with the last piece: %v, empty reads: %v), as\n%s (%v)", text, base, i, n, eof, zero, got, err)
					}
				}
			}
		}
	}
	if base != "error" {
		for _, n := range []int{1, 4096} {
			for at := 0; at <= len(text); at++ {
				got, _, err := iniRead(x, text, &pieces{s: text, n: n, fail: at}, secs)
				if err == nil {
					x.Failf("read error", "text %q: a read error after %d bytes is ignored, read as %s", text, at, got)
				}
			}
		}
	}
	if file != "" {
		os.WriteFile(file, []byte(forms[2]), 0o644)
		c, err := config.LoadIniFile(file)
		got := "error"
		if err == nil {
			data := map[string]map[string]string{}
			for s := range secs {
				if kv := c.ListSection(s); kv != nil {
					data[s] = kv
				}
			}
			got = iniDump(data)
		}
		if got != base {
			x.Failf("form", "text %q from a file is read as\n%s\notherwise as\n%s", text, got, base)
		}
	}
}

var iniAlpha = []string{"[", "]", "=", ":", `"`, "`", "#", "-", "k", " ", "\n", ";"}

var iniLines = []string{
	"", "  ", "# k = no", " ; k", "[a]", " [ b c ] ", "[default]", "k = v", "k: v = w", "  k=  v 2\t", "key = ", "- = one", "-: two", "#1 = x",
	"`k = 1` = q", `"k"=" v "`, `"""k":y""" : z`, "k = `  sp \"x\" `", `k = """ t " """`, "k = `", `k = "x"`, "中国 = é", "k", "= v", "[]", "`k = v", "k = `v", `k = """vvv`,
	"k = v ; w # x", "[x=y]", "[c", "k\t=\tv", "a::k = w",
	"App.Name. = V.", "key[0] = 'q'", "$x = ${y}\\", "K-2 = a\\n",
}

// sequences of lines of the quick tier use fewer shapes at length 3
var iniCore = []int{4, 5, 7, 8, 11, 12, 14, 17, 22, 28, 32}

func iniRun(x *mc.X) {
	switch x.Choose(4, "mode") {
	case 3: // long lines
		n := mc.Pick(x, "length", []int{100, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8192, 65530, 65534, 65535, 65536, 65537, 200000})
		shape := mc.Pick(x, "line", []string{"k = %s", "%s = v", "# %s", "[%s]", "`%s` = v", "%s", "k = `%s`"})
		pos := x.Choose(3, "position")
		x.Ready()
		ls := []string{"a = b", "c = d"}
		ls = append(ls[:pos:pos], append([]string{strings.Replace(shape, "%s", strings.Repeat("x", n), 1)}, ls[pos:]...)...)
		text := strings.Join(ls, "\n")
		judgeIni(x, text)
		secs := map[string]map[string]string{"default": nil, strings.Repeat("x", n): nil}
		base, _, _ := iniRead(x, text, strings.NewReader(text), secs)
		for _, k := range []int{1, 1000, 4095, 1 << 20} {
			if got, _, err := iniRead(x, text, &pieces{s: text, n: k, fail: -1}, secs); got != base {
				x.Failf("form", "a line of %d characters read in pieces of %d: %v, %d of %d characters", n, k, err, len(got), len(base))
			}
		}
	case 0: // every string
		max := 6
		if x.Thorough {
			max = 7
		}
		n := x.Choose(max+1, "length")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(mc.Pick(x, "character", iniAlpha))
			if i == 2 {
				x.Ready()
			}
		}
		judgeIni(x, b.String())
	case 1: // every sequence of lines
		n := 1 + x.Choose(2, "lines")
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, mc.Pick(x, "line", iniLines))
			if i == 1 {
				x.Ready()
			}
		}
		text := strings.Join(ls, "\n")
		judgeIni(x, text)
		file := ""
		if d := os.Getenv("VERIF_SCRATCH"); d != "" {
			file = filepath.Join(d, fmt.Sprintf("ini.%d", os.Getpid()))
		}
		judgeForms(x, text, file)
	case 2: // longer sequences
		n := 3
		if x.Thorough {
			n = 4
		}
		var ls []string
		for i := 0; i < n; i++ {
			if x.Thorough || i < 2 {
				ls = append(ls, mc.Pick(x, "line", iniLines))
			} else {
				ls = append(ls, iniLines[mc.Pick(x, "line", iniCore)])
			}
			if i == 1 {
				x.Ready()
			}
		}
		judgeIni(x, strings.Join(ls, "\n"))
	}
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C20",
		Model: "a line-by-line reference reader; every text is also read with other line endings, byte-order mark, final newline, piecewise and with read errors",
		Assumptions: []string{
			"text between a closing quote and the separator, an empty or dash key in quotes and text after a closing value quote are not documented; their meaning is not judged, only that it does not depend on the form of the input",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"alphabet": len(iniAlpha), "text length": map[bool]int{true: 7, false: 6}[th], "line shapes": len(iniLines), "long lines": "up to 200000 characters", "lines": map[bool]int{true: 4, false: 3}[th]}
		},
		Init: func() { clearEnv() },
		Run:  iniRun,
	})
}

// clearEnv removes every environment variable except what the worker needs.
func clearEnv() {
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if !strings.HasPrefix(k, "VERIF_") && !strings.HasPrefix(k, "GO") && k != "HOME" && k != "PATH" && k != "TZ" {
			os.Unsetenv(k)
		}
	}
}
