package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"strip.verif/mc"
)

// ---- assertions of tests

type asErr struct{}

func (*asErr) Error() string { return "pointer error" }

type asFmt struct{ s string }

func (e asFmt) Error() string { return e.s }

type asFace interface{ Error() string }

// a value and whether it is nil
var asValues = []struct {
	name string
	v    interface{}
	null bool
}{
	{"nil", nil, true}, {"nil pointer", (*int)(nil), true}, {"nil pointer to pointer", (**int)(nil), true}, {"nil map", map[string]int(nil), true}, {"nil slice", []int(nil), true},
	{"nil channel", (chan int)(nil), true}, {"nil function", (func())(nil), true}, {"nil error pointer", (*asErr)(nil), true}, {"nil pointer to interface", (*asFace)(nil), true},
	{"nil bytes", []byte(nil), true}, {"nil receive channel", (<-chan int)(nil), true},
	{"pointer", new(int), false}, {"pointer to nil pointer", new(*int), false}, {"empty map", map[string]int{}, false}, {"empty slice", []int{}, false}, {"channel", make(chan int), false},
	{"function", func() {}, false}, {"zero", 0, false}, {"false", false, false}, {"empty text", "", false}, {"empty struct", struct{}{}, false}, {"struct of nil", struct{ p *int }{}, false},
	{"empty array", [0]int{}, false}, {"array of nil", [1]*int{}, false}, {"zero float", 0.0, false}, {"zero byte", byte(0), false}, {"error", errors.New("e"), false}, {"error pointer", &asErr{}, false},
	{"pointer to nil interface", new(asFace), false}, {"slice of nil", []*int{nil}, false}, {"zero uintptr", uintptr(0), false}, {"zero complex", 0i, false},
}

var asErrors = []error{nil, errors.New("plain"), asFmt{""}, asFmt{"100% %d %s\nsecond line `q`"}, io.EOF, &asErr{}}

type asStep struct {
	kind string
	i    int
}

func (s asStep) String() string {
	switch s.kind {
	case "NoError":
		return fmt.Sprintf("NoError(%v)", asErrors[s.i])
	case "Nil", "NotNil":
		return fmt.Sprintf("%s(%s)", s.kind, asValues[s.i].name)
	}
	return fmt.Sprintf("%s(%v)", s.kind, s.i == 1)
}

// holds tells whether the assertion is true.
func (s asStep) holds() bool {
	switch s.kind {
	case "NoError":
		return asErrors[s.i] == nil
	case "Nil":
		return asValues[s.i].null
	case "NotNil":
		return !asValues[s.i].null
	case "True":
		return s.i == 1
	}
	return s.i == 0
}

type asRun struct {
	reached, after int
	file           string
	line           int
}

// at notes the place of the statement in the next line.
func (r *asRun) at() {
	r.reached++
	_, r.file, r.line, _ = runtime.Caller(1)
	r.line++
}

func (r *asRun) do(a *strip.Assert, s asStep) {
	switch s.kind {
	case "NoError":
		r.at()
		a.NoError(asErrors[s.i]) // in any case
	case "Nil":
		r.at()
		a.Nil(asValues[s.i].v) // in Nil
	case "NotNil":
		r.at()
		a.NotNil(asValues[s.i].v)
	case "True":
		r.at()
		a.True(s.i == 1)
	case "False":
		r.at()
		a.False(s.i == 1)
	}
	r.after++
}

func asSteps() (out []asStep) {
	for i := range asErrors {
		out = append(out, asStep{"NoError", i})
	}
	for i := range asValues {
		out = append(out, asStep{"Nil", i}, asStep{"NotNil", i})
	}
	for i := 0; i < 2; i++ {
		out = append(out, asStep{"True", i}, asStep{"False", i})
	}
	return
}

// asFew: what follows the first assertion
var asFew = []asStep{{"NoError", 0}, {"NoError", 3}, {"Nil", 1}, {"Nil", 11}, {"NotNil", 1}, {"NotNil", 11}, {"True", 0}, {"True", 1}, {"False", 0}, {"False", 1}}

// asSeqs: every test that begins with a step
func asSeqs(first, n int) [][]asStep {
	seqs := [][]asStep{{asSteps()[first]}}
	for i := 0; i < len(seqs); i++ {
		if len(seqs[i]) <= n {
			for _, s := range asFew {
				seqs = append(seqs, append(seqs[i][:len(seqs[i]):len(seqs[i])], s))
			}
		}
	}
	return seqs
}

type asResult struct {
	Reached, After, Line int
	File, Panic          string
	Failed               bool
}

// asChild runs the tests in a process of their own: the testing package ends
// it. Their results go to file 3, what they print to standard output.
func asChild(arg string) {
	var first, n int
	fmt.Sscan(arg, &first, &n)
	seqs := asSeqs(first, n)
	results := make([]asResult, len(seqs))
	var tests []testing.InternalTest
	for i := range seqs {
		i := i
		tests = append(tests, testing.InternalTest{Name: fmt.Sprintf("T%d.", i), F: func(t *testing.T) {
			var r asRun
			defer func() {
				p := recover()
				results[i] = asResult{r.reached, r.after, r.line, r.file, "", t.Failed()}
				if p != nil {
					results[i].Panic = fmt.Sprint(p)
					t.Fail()
				}
			}()
			a := &strip.Assert{T: t}
			for _, s := range seqs[i] {
				r.do(a, s)
			}
		}})
	}
	tests = append(tests, testing.InternalTest{Name: "end", F: func(t *testing.T) {
		json.NewEncoder(os.NewFile(3, "results")).Encode(results)
	}})
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, tests, nil, nil)
}

func init() {
	if arg := os.Getenv("VERIF_ASSERT_CHILD"); arg != "" {
		asChild(arg)
	}
}

func runAssert(x *mc.X) {
	first := x.Choose(len(asSteps()), "first assertion")
	n := 2
	if x.Thorough {
		n = 3
	}
	x.Ready()
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_ASSERT_CHILD=%d %d", first, n))
	cmd.ExtraFiles = []*os.File{w}
	var stdout bytes.Buffer
	cmd.Stdout = &stdout
	read := make(chan []byte)
	go func() { b, _ := io.ReadAll(r); read <- b }()
	err = cmd.Run()
	w.Close()
	b := <-read
	r.Close()
	seqs := asSeqs(first, n)
	var results []asResult
	if json.Unmarshal(b, &results) != nil || len(results) != len(seqs) {
		x.Failf("crash", "the tests that begin with %s end with %v:\n%.2000s", seqs[0][0], err, stdout.String())
	}
	outs := map[int]string{}
	for _, o := range strings.Split(stdout.String(), "--- FAIL: T")[1:] {
		var i int
		fmt.Sscanf(o, "%d.", &i)
		outs[i] = o
	}
	for i, steps := range seqs {
		x.Op()
		judgeAssert(x, steps, results[i], outs[i])
	}
}

func judgeAssert(x *mc.X, steps []asStep, r asResult, out string) {
	want := len(steps)
	for i, s := range steps {
		if !s.holds() {
			want = i
			break
		}
	}
	desc := fmt.Sprint(steps)
	switch {
	case r.Panic != "":
		x.Failf("panic", "%s panics: %v", desc, r.Panic)
	case r.After != want || r.Reached > want+1:
		x.Failf("passed", "of %s the first %d hold, %d are run and %d pass", desc, want, r.Reached, r.After)
	case r.Failed != (want < len(steps)):
		x.Failf("failed", "the test of %s failed: %v; the first %d of %d assertions hold", desc, r.Failed, want, len(steps))
	}
	if !r.Failed {
		x.Statef("%d pass", want)
		return
	}
	src, err := os.ReadFile(r.File)
	if err != nil {
		panic(err)
	}
	line := strings.TrimSpace(strings.Split(string(src), "\n")[r.Line-1])
	base := r.File[strings.LastIndexByte(r.File, '/')+1:]
	if !strings.Contains(out, fmt.Sprintf("%s:%d", base, r.Line)) || !strings.Contains(out, line) {
		x.Failf("place", "the failure of %s in %s:%d (%s) is shown as\n%s", steps[want], base, r.Line, line, out)
	}
	if s := steps[want]; s.kind == "NoError" {
		for _, l := range strings.Split(asErrors[s.i].Error(), "\n") {
			if !strings.Contains(out, l) {
				x.Failf("error", "the failure of %s does not show the error:\n%s", s, out)
			}
		}
	}
	x.Statef("%s %d", steps[want].kind, want)
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C36",
		Model:       "the truth of each assertion; the first false one ends the test",
		Assumptions: []string{"tests run by the standard library's testing.Main, in a process for each first assertion; values of kind unsafe.Pointer are not judged"},
		Bounds: func(th bool) map[string]interface{} {
			return map[string]interface{}{"assertions": len(asSteps()), "assertions in one test": map[bool]int{true: 4, false: 3}[th]}
		},
		Run: runAssert,
	})
}
