package props

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
	"strip.verif/props/frames"
	"strip.verif/props/frames/one"
	"strip.verif/props/frames/two"
)

var lgTags = []string{"", "[EMERGENCY]", "[ALERT]", "[CRITCIAL]", "[ERROR]", "[WARN]", "[NOTICE]", "[INFO]", "[DEBUG]"}
var lgNames = []string{"", "Emergency", "Alert", "Critcial", "Error", "Warn", "Notice", "Info", "Debug"}

var (
	lgColor = regexp.MustCompile("\x1b\\[[0-9;]*m")
	lgLine  = regexp.MustCompile(`^\["[^"]*:[0-9]+"\]`)
)

type lgPrinter struct{ calls [][]interface{} }

func (p *lgPrinter) Print(v ...interface{}) { p.calls = append(p.calls, v) }

// lgState is what a logger was told
type lgState struct {
	req    string // request id
	level  strip.Level
	global strip.Level
	prefix string
	color  bool
	line   bool
	short  bool
	flat   bool
	stack  strip.Level
	parser bool
}

func (s lgState) String() string {
	return fmt.Sprintf("logger of request %q with level %d (global %d), prefix %q, colour %v, line %v, short %v, flat %v, stack from %d, parser %v", s.req, s.level, s.global, s.prefix, s.color, s.line, s.short, s.flat, s.stack, s.parser)
}

type lgPfx string

func lgParser(v []interface{}) (string, []interface{}) {
	if len(v) > 0 {
		if p, ok := v[0].(lgPfx); ok {
			return "<" + string(p) + ">", v[1:]
		}
	}
	return "", v
}

func (s lgState) make(out strip.LogPrinter) strip.LoggerAdv {
	var l strip.LoggerAdv
	if s.req == "" {
		l = strip.NewLogger(out)
	} else {
		l = strip.NewReqLogger(out, s.req)
	}
	if s.prefix != "" {
		l.SetPrefix(s.prefix)
	}
	if s.level != strip.LevelDebug {
		l.SetLevel(s.level)
	}
	l.SetColorMode(s.color)
	l.SetLineInfo(s.line)
	l.SetShortLine(s.short)
	l.SetFlatLine(s.flat)
	l.EnableLogStack(s.stack)
	if s.parser {
		l.SetPrefixParser(lgParser)
	}
	return l
}

// lgCall logs by method name
func lgCall(l strip.Logger, level strip.Level, format bool, text string, args []interface{}) {
	name := lgNames[level]
	var in []reflect.Value
	if format {
		name += "f"
		in = append(in, reflect.ValueOf(text))
	} else if text != "" {
		args = append([]interface{}{text}, args...)
		if len(args) > 1 {
			if _, ok := args[1].(lgPfx); ok { // the parser's argument comes first
				args[0], args[1] = args[1], args[0]
			}
		}
	}
	for _, a := range args {
		a := a
		v := reflect.ValueOf(&a).Elem()
		in = append(in, v)
	}
	reflect.ValueOf(l).MethodByName(name).Call(in)
}

// lgList logs a list of values that the caller keeps
func lgList(l strip.Logger, level strip.Level, format bool, text string, args []interface{}) func() {
	name := lgNames[level]
	var in []reflect.Value
	if format {
		name += "f"
		in = append(in, reflect.ValueOf(text))
	} else if text != "" {
		args = append([]interface{}{text}, args...)
		if len(args) > 1 {
			if _, ok := args[1].(lgPfx); ok { // the parser's argument comes first
				args[0], args[1] = args[1], args[0]
			}
		}
	}
	in = append(in, reflect.ValueOf(args))
	m := reflect.ValueOf(l).MethodByName(name)
	return func() { m.CallSlice(in) }
}

// lgCheck judges what was printed for one message
func lgCheck(x *mc.X, s lgState, out *lgPrinter, level strip.Level, msg, pfx string, opt *strip.LineOpt, desc string) {
	enabled := level <= s.level && level <= s.global
	if !enabled {
		if len(out.calls) != 0 {
			x.Failf("level", "%s: printed %q", desc, out.calls)
		}
		return
	}
	if len(out.calls) != 1 || len(out.calls[0]) != 1 {
		x.Failf("once", "%s: printed %q, want one call with one text", desc, out.calls)
	}
	got, ok := out.calls[0][0].(string)
	if !ok {
		x.Failf("once", "%s: printed %v", desc, out.calls)
	}
	if s.flat && strings.ContainsAny(got, "\n") {
		x.Failf("flat", "%s: printed %q, not a single line", desc, got)
	}
	if s.color && !lgColor.MatchString(got) {
		x.Failf("colour", "%s: printed %q without colour", desc, got)
	}
	plain := lgColor.ReplaceAllString(got, "")
	if !s.color && plain != got {
		x.Failf("colour", "%s: printed %q", desc, got)
	}
	head := lgTags[level]
	if s.req != "" {
		head += "[" + s.req + "]"
	}
	head += s.prefix
	if s.parser {
		head += pfx
	}
	flat := func(t string) string {
		if s.flat {
			return strings.ReplaceAll(t, "\n", "\\n")
		}
		return t
	}
	rest, ok := strings.CutPrefix(plain, flat(head))
	if !ok {
		x.Failf("head", "%s: printed %q, want it to begin with %q", desc, got, head)
	}
	if s.line && (opt == nil || !opt.Hidden) {
		loc := lgLine.FindString(rest)
		if loc == "" && (opt == nil || opt.Depth == 0) {
			x.Failf("line", "%s: printed %q without the line", desc, got)
		}
		rest = rest[len(loc):]
	}
	stacked := (s.stack >= level || opt != nil && opt.Stack) && !strings.HasPrefix(msg, "PANIC") && !strings.HasPrefix(msg, "STACK")
	want := " " + flat(msg)
	if !stacked {
		if s.flat {
			want = " " + flat(strings.TrimSuffix(msg, "\n"))
		}
		if rest != want {
			x.Failf("text", "%s: printed %q, want the text %q", desc, got, msg)
		}
		return
	}
	if !strings.HasPrefix(rest, want) || !strings.Contains(rest[len(want):], ".go:") {
		x.Failf("text", "%s: printed %.200q, want the text %q and a stack", desc, got, msg)
	}
}

type lgMsg struct {
	text string
	args []interface{}
}

var lgMsgs = []lgMsg{
	{"text", nil}, {"", nil}, {"two\nlines", nil}, {"ends\n", nil}, {"ends twice\n\n", nil}, {"100% %s", nil}, {"PANIC: x", nil}, {"n %d %v", []interface{}{7, nil}}, {"e %v", []interface{}{errors.New("error\n")}}, {"\n", nil}, {"\\n", nil},
	{"p %v", []interface{}{lgPfx("par"), 1}}, {"", []interface{}{lgPfx("a\nb")}}, {"é ✓", []interface{}{[]int{1}, "s", "s", 2, 3}}, {"missing %d %d", []interface{}{1}}, {"kinds %T %#v %v", []interface{}{errors.New("e"), lgErr{1, 2}, ptr("p")}}, {strings.Repeat("line\n", 300) + "end", nil},
}

// what the message formats to, and the prefix a parser takes from it
func (m lgMsg) want(format, parser bool) (msg, pfx string) {
	args := append([]interface{}{}, m.args...)
	first := len(args) > 0
	var p lgPfx
	if first {
		p, first = args[0].(lgPfx)
	}
	if format {
		if first && parser {
			return fmt.Sprintf(m.text, args[1:]...), "<" + string(p) + ">"
		}
		return fmt.Sprintf(m.text, args...), ""
	}
	if m.text != "" {
		all := append([]interface{}{m.text}, args...)
		if first {
			all[0], all[1] = all[1], all[0]
			if parser {
				return fmt.Sprintln(all[1:]...), "<" + string(p) + ">"
			}
		}
		return fmt.Sprintln(all...), ""
	}
	if first && parser {
		return fmt.Sprintln(args[1:]...), "<" + string(p) + ">"
	}
	return fmt.Sprintln(args...), ""
}

var lgOpts = []*strip.LineOpt{nil, {}, {Hidden: true}, {Depth: 1}, {Depth: 1000}, {Depth: -100}}

func lgOne(x *mc.X, s lgState, level strip.Level, format bool, m lgMsg, opt *strip.LineOpt) {
	x.Op()
	strip.GlobalLevel = s.global
	var out lgPrinter
	l := s.make(&out)
	args := append([]interface{}{}, m.args...)
	if opt != nil {
		args = append(args, *opt)
	}
	desc := ""
	call := lgList(l, level, format, m.text, args)
	for round := 0; round < 2; round++ { // the same list of values can be logged again
		out.calls = nil
		if p := catch(call); p != nil {
			x.Failf("panic", "%v: logging %q %v at %d panics: %v", s, m.text, args, level, p)
		}
		msg, pfx := m.want(format, s.parser)
		desc = fmt.Sprintf("%v: %s(format %v) of %q %v (time %d)", s, lgNames[level], format, m.text, args, round+1)
		lgCheck(x, s, &out, level, msg, pfx, opt, desc)
	}
	x.State(desc)
}

func lgBools(x *mc.X, s *lgState) {
	s.color = x.Bool("colour")
	s.line = x.Bool("line")
	s.short = x.Bool("short")
	s.flat = x.Bool("flat")
}

var lgBase = lgState{level: strip.LevelDebug, global: strip.LevelDebug}

// every threshold
func lgLevels(x *mc.X) {
	s := lgBase
	s.level = strip.Level(x.Choose(10, "level"))
	s.global = strip.Level(x.Choose(10, "global level"))
	s.req = mc.Pick(x, "request", []string{"", "id"})
	x.Ready()
	level := strip.Level(1 + x.Choose(8, "message level"))
	format := x.Bool("format")
	lgBools(x, &s)
	s.stack = strip.Level(x.Choose(2, "stack")) * 0
	s.prefix = mc.Pick(x, "prefix", []string{"", "[p]"})
	lgOne(x, s, level, format, lgMsgs[0], nil)
}

// every text with every option
func lgTexts(x *mc.X) {
	s := lgBase
	level := strip.Level(1 + x.Choose(8, "message level"))
	format := x.Bool("format")
	m := mc.Pick(x, "message", lgMsgs)
	x.Ready()
	lgBools(x, &s)
	s.prefix = mc.Pick(x, "prefix", []string{"", "[p]", "two\nlines", "%d"})
	s.req = mc.Pick(x, "request", []string{"", "0123456789"})
	s.parser = x.Bool("parser")
	lgOne(x, s, level, format, m, mc.Pick(x, "option", lgOpts))
}

func lgStacks(x *mc.X) {
	s := lgBase
	level := strip.Level(1 + x.Choose(8, "message level"))
	format := x.Bool("format")
	s.stack = strip.Level(x.Choose(9, "stack level"))
	x.Ready()
	s.flat = x.Bool("flat")
	s.color = x.Bool("colour")
	s.line = x.Bool("line")
	m := mc.Pick(x, "message", lgMsgs[:7])
	opt := mc.Pick(x, "option", []*strip.LineOpt{nil, {Stack: true}, {Stack: true, Hidden: true}})
	lgOne(x, s, level, format, m, opt)
}

// the logger obeys the options set last
func lgHistory(x *mc.X) {
	s := lgBase
	s.flat = true
	strip.GlobalLevel = s.global
	s.req = mc.Pick(x, "request", []string{"", "id"})
	var out lgPrinter
	var l strip.LoggerAdv
	if s.req == "" {
		l = strip.NewLogger(&out)
	} else {
		r := strip.NewReqLogger(&out, s.req)
		if r.ReqId() != s.req {
			x.Failf("head", "request id %q", r.ReqId())
		}
		l = r
	}
	max := 3
	if x.Thorough {
		max = 4
	}
	var did []string
	for n := 1 + x.Choose(max, "steps"); n > 0; n-- {
		op := x.Choose(16, "step")
		if len(did) == 0 {
			x.Ready()
		}
		on := op%2 == 1
		did = append(did, fmt.Sprint(op))
		switch op / 2 {
		case 0:
			s.color = on
			l.SetColorMode(on)
		case 1:
			s.line = on
			l.SetLineInfo(on)
		case 2:
			s.short = on
			l.SetShortLine(on)
		case 3:
			s.flat = on
			l.SetFlatLine(on)
		case 4:
			s.level = map[bool]strip.Level{true: strip.LevelDebug, false: strip.LevelError}[on]
			l.SetLevel(s.level)
		case 5:
			s.global = map[bool]strip.Level{true: strip.LevelDebug, false: strip.LevelAlert}[on]
			strip.GlobalLevel = s.global
		case 6:
			s.prefix = map[bool]string{true: "[p]", false: ""}[on]
			l.SetPrefix(s.prefix)
		case 7:
			s.parser = on
			l.SetPrefixParser(nil)
			if on {
				l.SetPrefixParser(lgParser)
			}
		}
		for _, level := range []strip.Level{1, 2, 3, 4, 5, 8} {
			x.Op()
			m := lgMsgs[11]
			out.calls = nil
			if p := catch(func() { lgCall(l, level, level%2 == 0, m.text, m.args) }); p != nil {
				x.Failf("panic", "%v: panic %v", s, p)
			}
			msg, pfx := m.want(level%2 == 0, s.parser)
			lgCheck(x, s, &out, level, msg, pfx, nil, fmt.Sprintf("%v after %v: message at %d", s, did, level))
		}
	}
	x.State(s.req + join(did))
}

type lgErr struct{ a, b int }

// running a function under recovery
func lgRecover(x *mc.X) {
	s := lgBase
	s.req = mc.Pick(x, "request", []string{"", "id"})
	s.level = strip.Level(x.Choose(9, "level"))
	s.global = mc.Pick(x, "global level", []strip.Level{0, 3, 4, 8})
	val := mc.Pick(x, "panic value", []interface{}{nil, errors.New("failed"), "text", "PANIC text", 7, lgErr{1, 2}, "two\nlines", errors.New("PANIC: no stack"), strip.LineOpt{Hidden: true}, "100%d of %s", fmt.Errorf("a %% b")})
	at := x.Choose(9, "recovery level")
	x.Ready()
	s.flat = x.Bool("flat")
	s.color = x.Bool("colour")
	s.line = x.Bool("line")
	nested := x.Bool("nested")
	x.Op()
	strip.GlobalLevel = s.global
	var out lgPrinter
	l := s.make(&out)
	ran, level := 0, strip.LevelError
	var args []strip.Level
	if at > 0 {
		level = strip.Level(at)
		args = []strip.Level{level}
	}
	var got, inner interface{}
	p := catch(func() {
		f := func() {
			ran++
			if val != nil {
				panic(val)
			}
		}
		if nested {
			got = l.Recover(func() { inner = l.Recover(f, args...) })
			got, inner = inner, got
		} else {
			got = l.Recover(f, args...)
		}
	})
	desc := fmt.Sprintf("%v: recovering (at %d, nested %v) from %#v", s, at, nested, val)
	if p != nil || ran != 1 {
		x.Failf("recover", "%s: ran %d times, panic %v", desc, ran, p)
	}
	if got != val || inner != nil {
		x.Failf("recover", "%s returns %#v (outside %#v)", desc, got, inner)
	}
	if val == nil {
		if len(out.calls) != 0 {
			x.Failf("recover", "%s logs %q", desc, out.calls)
		}
	} else {
		lgCheck(x, s, &out, level, fmt.Sprintln(val), "", &strip.LineOpt{Stack: true, Depth: 4}, desc)
	}
	x.State(desc)
}

// lgSpeaker logs while it is being formatted
type lgSpeaker struct {
	l     strip.Logger
	level strip.Level
	more  *lgSpeaker
	text  string
	f     bool // with a format
}

func (s *lgSpeaker) String() string {
	var args []interface{}
	if s.more != nil {
		args = []interface{}{s.more}
	}
	text := "inside " + s.text
	if s.f && s.more != nil {
		text += " %v"
	}
	lgCall(s.l, s.level, s.f, text, args)
	return s.text
}

// lgNested logs values that log when they are formatted
func lgNested(x *mc.X) {
	s := lgBase
	s.req = mc.Pick(x, "request", []string{"", "id"})
	level := strip.Level(1 + x.Choose(8, "message level"))
	in := strip.Level(1 + x.Choose(8, "inner level"))
	x.Ready()
	deeper := strip.Level(x.Choose(9, "innermost level"))
	format := x.Bool("format")
	s.flat = x.Bool("flat")
	s.color = x.Bool("colour")
	s.prefix = mc.Pick(x, "prefix", []string{"", "[p]"})
	s.level = mc.Pick(x, "level", []strip.Level{8, 4})
	x.Op()
	var out lgPrinter
	l := s.make(&out)
	inner := x.Bool("inner format")
	end := "\n"
	if inner {
		end = ""
	}
	sp := &lgSpeaker{l: l, level: in, text: "one", f: inner}
	if deeper > 0 {
		sp.more = &lgSpeaker{l: l, level: deeper, text: "two", f: inner}
	}
	desc := fmt.Sprintf("%v: message at %d (format %v) with a value that logs at %d, with one that logs at %d", s, level, format, in, deeper)
	text := "outer"
	if format {
		text = "outer %v"
	}
	if p := catch(func() { lgCall(l, level, format, text, []interface{}{sp}) }); p != nil {
		x.Failf("panic", "%s: panic %v", desc, p)
	}
	type line struct {
		level strip.Level
		msg   string
	}
	var want []line
	if level <= s.level {
		if in <= s.level {
			if deeper > 0 {
				if deeper <= s.level {
					want = append(want, line{deeper, "inside two" + end})
				}
				want = append(want, line{in, "inside one two" + end})
			} else {
				want = append(want, line{in, "inside one" + end})
			}
		}
		if format {
			want = append(want, line{level, "outer one"})
		} else {
			want = append(want, line{level, "outer one\n"})
		}
	}
	if len(out.calls) != len(want) {
		x.Failf("nested", "%s: printed %q", desc, out.calls)
	}
	for i, w := range want {
		one := lgPrinter{calls: out.calls[i : i+1]}
		lgCheck(x, s, &one, w.level, w.msg, "", nil, desc)
	}
	x.State(desc)
}

// lgHere notes the line it is called from and returns a message
func lgHere(at *string) string {
	_, file, line, _ := runtime.Caller(1)
	*at = fmt.Sprintf("%s:%d", file, line)
	return "here"
}

// lgSite logs one message, each method at its own line
func lgSite(l strip.Logger, level strip.Level, format bool, at *string, opts []interface{}) {
	switch {
	case level == 1 && !format:
		l.Emergency(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 1:
		l.Emergencyf(lgHere(at), opts...)
	case level == 2 && !format:
		l.Alert(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 2:
		l.Alertf(lgHere(at), opts...)
	case level == 3 && !format:
		l.Critcial(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 3:
		l.Critcialf(lgHere(at), opts...)
	case level == 4 && !format:
		l.Error(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 4:
		l.Errorf(lgHere(at), opts...)
	case level == 5 && !format:
		l.Warn(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 5:
		l.Warnf(lgHere(at), opts...)
	case level == 6 && !format:
		l.Notice(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 6:
		l.Noticef(lgHere(at), opts...)
	case level == 7 && !format:
		l.Info(append([]interface{}{lgHere(at)}, opts...)...)
	case level == 7:
		l.Infof(lgHere(at), opts...)
	case level == 8 && !format:
		l.Debug(append([]interface{}{lgHere(at)}, opts...)...)
	default:
		l.Debugf(lgHere(at), opts...)
	}
}

func lgOuter(l strip.Logger, level strip.Level, format bool, at []string, opts []interface{}) {
	func(string) { lgSite(l, level, format, &at[0], opts) }(lgHere(&at[1]))
}

// the line that a message is said to come from, and the first of its stack, is that of the call, or
// of as many callers up as asked for
func lgLines(x *mc.X) {
	level := strip.Level(1 + x.Choose(8, "message level"))
	format := x.Bool("format")
	req := mc.Pick(x, "request", []string{"", "id"})
	x.Ready()
	up := 2 * x.Choose(2, "callers up") // every other one is a closure on the same line
	short := x.Bool("short")
	stack := x.Choose(3, "stack") // no, by the logger, by the message
	color, flat := x.Bool("colour"), x.Bool("flat")
	x.Op()
	strip.GlobalLevel = strip.LevelDebug
	var out lgPrinter
	var l strip.LoggerAdv
	if req == "" {
		l = strip.NewLogger(&out)
	} else {
		l = strip.NewReqLogger(&out, req)
	}
	l.SetLineInfo(true)
	l.SetShortLine(short)
	l.SetColorMode(color)
	l.SetFlatLine(flat)
	if stack == 1 {
		l.EnableLogStack(level)
	}
	var opts []interface{}
	if up > 0 || stack == 2 {
		opts = append(opts, strip.LineOpt{Depth: up, Stack: stack == 2})
	}
	at := make([]string, 2)
	lgOuter(l, level, format, at, opts)
	desc := fmt.Sprintf("message at %d (format %v), request %q, %d callers up, short %v, stack %d, colour %v, flat %v", level, format, req, up, short, stack, color, flat)
	if len(out.calls) != 1 {
		x.Failf("once", "%s: printed %q", desc, out.calls)
	}
	got := fmt.Sprint(out.calls[0]...)
	want := at[up/2]
	line := want
	if i := strings.Index(line, "/src/"); short && i >= 0 {
		line = line[i+len("/src/"):]
	}
	if !strings.Contains(got, `["`+line+`"]`) {
		x.Failf("line", "%s: the line is not %s: %.300q", desc, line, got)
	}
	_, rest, _ := strings.Cut(got, " here")
	first := strings.TrimLeft(strings.ReplaceAll(rest, `\n`, "\n"), "\n")
	if stack != 0 && !strings.HasPrefix(first, want+" ") {
		x.Failf("line", "%s: the stack does not begin at %s: %.300q", desc, want, got)
	}
	x.State(desc)
}

func lgStep(rest []frames.Step, last func()) {
	if len(rest) == 0 {
		last()
		return
	}
	rest[0](rest[1:], last)
}

// every frame of a stack that has its source shows the text of its own line
func lgFrames(x *mc.X) {
	kinds := []struct {
		name string
		run  frames.Step
	}{{"one/run.go", one.Run}, {"two/run.go", two.Run}, {"a file that is gone", two.Gone}, {"this file", lgStep}}
	max := 4
	if x.Thorough {
		max = 6
	}
	n := 1 + x.Choose(max, "frames")
	var chain []int
	for i := 0; i < n; i++ {
		chain = append(chain, x.Choose(len(kinds), "frame"))
	}
	how := x.Choose(3, "stack") // of a message, of the function, of a panic
	x.Ready()
	x.Op()
	var out lgPrinter
	l := strip.NewLogger(&out)
	l.SetFlatLine(false)
	text, want := "", []string(nil)
	note := func() string {
		pcs := make([]uintptr, 100)
		fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
		for more := true; more; {
			var f runtime.Frame
			f, more = fs.Next()
			want = append(want, fmt.Sprintf("%s:%d", f.File, f.Line))
		}
		return "here"
	}
	f := func() {
		switch how {
		case 0:
			l.Error(note(), strip.LineOpt{Stack: true})
		case 1:
			text = note() + "\n" + string(strip.Stack(1))
		case 2:
			panic(note())
		}
	}
	desc := "stack"
	var steps []frames.Step
	for _, c := range chain {
		desc += ", " + kinds[c].name
		steps = append(steps, kinds[c].run)
	}
	g := f
	f = func() { steps[0](steps[1:], g) }
	if how == 2 {
		l.Recover(f)
	} else {
		f()
	}
	if how != 1 {
		if len(out.calls) != 1 {
			x.Failf("once", "%s: printed %q", desc, out.calls)
		}
		text = fmt.Sprint(out.calls[0]...)
	}
	_, text, _ = strings.Cut(text, "here\n")
	type frame struct {
		site  string
		lines []string
	}
	var got []frame
	for _, line := range strings.Split(text, "\n") {
		if m := lgFrame.FindStringSubmatch(line); m != nil {
			got = append(got, frame{site: m[1]})
		} else if strings.TrimSpace(line) != "" && len(got) > 0 {
			got[len(got)-1].lines = append(got[len(got)-1].lines, line)
		}
	}
	if how == 2 { // the stack of a panic may begin before the line that panicked
		for len(got) > 0 && got[0].site != want[0] {
			got = got[1:]
		}
	}
	depth := n + 2
	for i := 0; i < depth; i++ {
		if i >= len(got) || got[i].site != want[i] {
			x.Failf("frames", "%s: frame %d is not %s: %.600q", desc, i, want[i], text)
		}
		src := lgSource(want[i])
		shown := strings.Join(got[i].lines, "\n")
		if src == "" && shown != "" && !strings.HasSuffix(shown, "???") {
			x.Failf("frames", "%s: frame %d, %s, has no source but shows %q", desc, i, want[i], shown)
		}
		if src != "" && !strings.HasSuffix(shown, src) {
			x.Failf("frames", "%s: frame %d, %s, shows %q, its line is %q", desc, i, want[i], shown, src)
		}
	}
	x.State(desc)
}

var lgFrame = regexp.MustCompile(`^(\S+:[0-9]+) \(0x[0-9a-f]+\)$`)

var lgFiles sync.Map

// lgSource is the text of a line, empty if its file cannot be read
func lgSource(site string) string {
	file, no, _ := strings.Cut(site, ".go:")
	v, ok := lgFiles.Load(file)
	if !ok {
		b, _ := os.ReadFile(file + ".go")
		v = strings.Split(string(b), "\n")
		lgFiles.Store(file, v)
	}
	n, _ := strconv.Atoi(no)
	if lines := v.([]string); n >= 1 && n <= len(lines) {
		return strings.TrimSpace(lines[n-1])
	}
	return ""
}

// a recovered panic is logged with a stack that has the line which panicked
func lgPanics(x *mc.X) {
	req := mc.Pick(x, "request", []string{"", "id"})
	pv := panicValues[x.Choose(len(panicValues), "panic value")]
	at := x.Choose(9, "recovery level")
	x.Ready()
	flat, line := x.Bool("flat"), x.Bool("line")
	x.Op()
	strip.GlobalLevel = strip.LevelDebug
	var out lgPrinter
	s := lgBase
	s.req, s.flat, s.line = req, flat, line
	l := s.make(&out)
	var levels []strip.Level
	if at > 0 {
		levels = append(levels, strip.Level(at))
	}
	site := panicSite(pv.raise)
	p := catch(func() { l.Recover(pv.raise, levels...) })
	desc := fmt.Sprintf("recovering from a panic with %s at %s, level %d, request %q, flat %v, line %v", pv.name, site, at, req, flat, line)
	if p != nil || len(out.calls) != 1 {
		x.Failf("recover", "%s: panic %v, printed %d times", desc, p, len(out.calls))
	}
	if got := fmt.Sprint(out.calls[0]...); !lists(strings.ReplaceAll(got, site+`"`, ""), site) {
		x.Failf("recover", "%s: the stack does not have the line: %.600q", desc, got)
	}
	x.State(desc)
}

func init() {
	mc.Register(&mc.Check{
		ID:    "C26",
		Model: "tag, request id, prefix and formatted text, printed once if the level is at most both thresholds; options change only decoration",
		Assumptions: []string{
			"messages have one of the eight levels; of a stack the first frame, or for a panic the one that panicked, is judged and the text shown for every frame, not how a frame is named",
			"a single line means no line feed",
		},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"levels": 8, "thresholds": "10 x 10", "messages": len(lgMsgs), "options": "all combinations", "setter steps": map[bool]int{true: 4, false: 3}[th]}
		},
		Run: func(x *mc.X) {
			defer func() { strip.GlobalLevel = strip.LevelDebug }()
			switch x.Choose(9, "mode") {
			case 0:
				lgLevels(x)
			case 1:
				lgTexts(x)
			case 2:
				lgStacks(x)
			case 3:
				lgHistory(x)
			case 4:
				lgRecover(x)
			case 5:
				lgLines(x)
			case 6:
				lgPanics(x)
			case 7:
				lgFrames(x)
			case 8:
				lgNested(x)
			}
		},
	})
}
