package mc

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

// Replay is a stored execution.
type Replay struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Choices  []int32  `json:"choices"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Crash    string   `json:"crash,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Confirm  string   `json:"confirmed,omitempty"`
}

type workerResult struct {
	Execs      int64             `json:"execs"`
	Ops        int64             `json:"ops"`
	Exhaustive bool              `json:"exhaustive"`
	Nondet     int64             `json:"nondet"`
	Capped     bool              `json:"capped"`
	Known      map[string]string `json:"known"`
	Samples    [][]string        `json:"samples"`
	Violation  *Replay           `json:"violation,omitempty"`
}

func next(cs []choice) []int32 {
	i := len(cs) - 1
	for i >= 0 && cs[i].c+1 >= cs[i].n {
		i--
	}
	if i < 0 {
		return nil
	}
	p := make([]int32, i+1)
	for k := 0; k <= i; k++ {
		p[k] = cs[k].c
	}
	p[i]++
	return p
}

// worker [id tier shard shards dir budgetSeconds resumeFile]
func workerMain(args []string) int {
	id, tier := args[0], args[1]
	shard, _ := strconv.Atoi(args[2])
	shards, _ := strconv.Atoi(args[3])
	dir := args[4]
	budget, _ := strconv.ParseFloat(args[5], 64)
	attempt := args[6]
	debug.SetMaxStack(128 << 20)
	if f := os.Getenv("VERIF_PROF"); f != "" && shard == 0 {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	c := registry[id]
	j, err := openJournal(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	known := loadKnown(id)
	var prefix []int32
	resumed := false
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("resume.%d", shard))); err == nil {
		if json.Unmarshal(b, &prefix) == nil {
			resumed = true
		}
	}
	_ = resumed
	if c.Init != nil {
		c.Init()
	}
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	st := &stats{states: map[uint64]struct{}{}, known: map[string]string{}}
	res := workerResult{Known: map[string]string{}}
	nondetTries := 0
	sampleAt := int64(1)
	for {
		x := &X{check: c, Thorough: tier == "thorough", prefix: prefix,
			shard: uint64(shard), shards: uint64(shards), journal: j, st: st}
		wantSample := st.execs+1 == sampleAt && len(res.Samples) < 3
		x.Verbose = wantSample
		j.begin()
		o := x.run()
		if o.nondet != "" {
			nondetTries++
			res.Nondet++
			if nondetTries < 4 {
				continue
			}
			// give this subtree up
			x.choices = x.choices[:len(x.choices):len(x.choices)]
			nondetTries = 0
		} else {
			nondetTries = 0
		}
		if !o.skipped && o.nondet == "" {
			st.execs++
			st.ops += x.ops
			h := uint64(14695981039346656037)
			_ = h
			if wantSample {
				if len(x.trace) > 0 {
					t := x.trace
					if len(t) > 60 {
						t = t[:60]
					}
					res.Samples = append(res.Samples, t)
				}
				sampleAt = sampleAt*50 + 7
			}
			if o.fail != nil {
				if what, ok := known[o.fail.key]; ok {
					res.Known[o.fail.key] = what
				} else {
					res.Violation = &Replay{Property: id, Tier: tier, Choices: x.seq(),
						Key: o.fail.key, Message: o.fail.msg, Stack: o.stack}
					break
				}
			}
		}
		prefix = next(x.choices)
		if prefix == nil {
			res.Exhaustive = true
			break
		}
		if time.Now().After(deadline) {
			break
		}
	}
	if res.Nondet > 0 {
		res.Exhaustive = false
	}
	res.Execs, res.Ops, res.Capped = st.execs, st.ops, st.capped
	if err := writeStates(filepath.Join(dir, fmt.Sprintf("states.%d.%s", shard, attempt)), st.states); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d.%s", shard, attempt)), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	return 0
}

func writeStates(path string, m map[uint64]struct{}) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	w := bufio.NewWriterSize(f, 1<<16)
	var b [8]byte
	for k := range m {
		binary.LittleEndian.PutUint64(b[:], k)
		w.Write(b[:])
	}
	w.Flush()
	return f.Close()
}

func readStates(path string, m map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// KnownFile lists known findings and repaired defects.
func knownFile() string {
	if f := os.Getenv("VERIF_KNOWN"); f != "" {
		return f
	}
	return "/verif/known_findings.txt"
}

// lines: "finding: property=C22 key=<key> <what fails>"
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(knownFile())
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		m[key] = what
	}
	return m
}

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	c := registry[r.Property]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 4
	}
	debug.SetMaxStack(128 << 20)
	if c.Init != nil {
		c.Init()
	}
	x := &X{check: c, Thorough: r.Tier == "thorough", prefix: r.Choices, fixed: true, Verbose: true}
	o := x.run()
	for _, l := range x.trace {
		fmt.Println("  " + l)
	}
	if o.fail != nil {
		fmt.Printf("FAIL key=%s\n%s\n", o.fail.key, indent(o.fail.msg))
		if o.stack != "" {
			fmt.Println(indent(o.stack))
		}
		return 1
	}
	fmt.Println("OK: the execution satisfies the property")
	return 0
}
