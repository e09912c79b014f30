package mc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const verifDir = "/verif"

// Main is the entry point of the checker binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID quick|thorough | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range Checks() {
			fmt.Println(id)
		}
	case "run":
		os.Exit(masterMain(os.Args[2], os.Args[3]))
	case "worker":
		os.Exit(workerMain(os.Args[2:]))
	case "undecided":
		os.Exit(undecidedMain(os.Args[2], os.Args[3], os.Args[4]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

type proc struct {
	shard    int
	attempt  int
	cmd      *exec.Cmd
	done     chan error
	stderr   *tail
	j        *journal
	lastBeat uint64
	lastTime time.Time
	finished bool
}

type tail struct{ head, last []byte }

func (t *tail) Write(b []byte) (int, error) {
	n := len(b)
	if len(t.head) < 16<<10 {
		k := 16<<10 - len(t.head)
		if k > len(b) {
			k = len(b)
		}
		t.head = append(t.head, b[:k]...)
		b = b[k:]
	}
	t.last = append(t.last, b...)
	if len(t.last) > 16<<10 {
		t.last = append([]byte(nil), t.last[len(t.last)-16<<10:]...)
	}
	return n, nil
}
func (t *tail) String() string {
	if len(t.last) == 0 {
		return string(t.head)
	}
	return string(t.head) + "\n...\n" + string(t.last)
}

// undecidedMain records that nothing was explored.
func undecidedMain(id, tier, why string) int {
	c := registry[id]
	if c == nil {
		return 2
	}
	fmt.Printf("note: %s was not explored: %s\n", id, why)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
			"samples": []string{why}, "exhaustive": false, "model": c.Model},
		"assumptions": c.Assumptions, "wall_s": 0.0, "violations": 0,
	}
	return writeEvidence(id, ev)
}

func evDir() string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(verifDir, "evidence")
}

func writeEvidence(id string, ev interface{}) int {
	os.MkdirAll(evDir(), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir(), id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func masterMain(id, tier string) int {
	start := time.Now()
	c := registry[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	thorough := tier == "thorough"
	budget := c.QuickBudget
	if budget == 0 {
		budget = 240 * time.Second
	}
	if thorough {
		budget = c.ThoroughBudget
		if budget == 0 {
			budget = 600 * time.Second
		}
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			budget = time.Duration(f * float64(time.Second))
		}
	}
	hang := c.Hang
	if hang == 0 {
		hang = 60 * time.Second
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	deadline := start.Add(budget)
	ps := make([]*proc, shards)
	spawn := func(shard, attempt int) *proc {
		left := time.Until(deadline).Seconds()
		if left < 1 {
			left = 1
		}
		p := &proc{shard: shard, attempt: attempt, done: make(chan error, 1), stderr: &tail{}}
		p.cmd = workerCmd(c, dir, "worker", id, tier, strconv.Itoa(shard), strconv.Itoa(shards), dir,
			fmt.Sprintf("%.1f", left), strconv.Itoa(attempt))
		p.cmd.Stderr = p.stderr
		var err error
		p.j, err = openJournal(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if err := p.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		go func() { p.done <- p.cmd.Wait() }()
		p.lastTime = time.Now()
		return p
	}
	for i := range ps {
		ps[i] = spawn(i, 0)
	}
	killAll := func() {
		for _, p := range ps {
			if !p.finished {
				p.cmd.Process.Kill()
				<-p.done
				p.finished = true
			}
		}
	}
	var (
		results     []workerResult
		unconfirmed []string
		violation   *Replay
		gaveUp      bool
	)
	attempts := make([]int, shards)

	handle := func(r *Replay) bool {
		// confirm
		repro, out := confirm(c, dir, r, hang)
		if repro == 0 {
			unconfirmed = append(unconfirmed, r.Message)
			fmt.Printf("note: a failure of %s did not reproduce in 5 re-executions and is not reported: %s\n", id, firstLine(r.Message))
			return false
		}
		r.Confirm = fmt.Sprintf("%d of 5 re-executions", repro)
		r.Trace = out
		violation = r
		return true
	}

	for violation == nil {
		busy := false
		for i, p := range ps {
			if p.finished {
				continue
			}
			var cand *Replay
			select {
			case err := <-p.done:
				p.finished = true
				var res workerResult
				b, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d.%d", p.shard, p.attempt)))
				if err == nil && e == nil && json.Unmarshal(b, &res) == nil {
					if res.Violation != nil {
						cand = res.Violation
					}
					results = append(results, res)
				} else {
					msg := fmt.Sprintf("the process running the code under test died: %v\n%s", err, p.stderr.String())
					cand = &Replay{Property: id, Tier: tier, Choices: choicesOf(p.j.seq()), Key: "crash", Message: msg, Crash: "process died"}
				}
			default:
				busy = true
				if b := p.j.beat(); b != p.lastBeat {
					p.lastBeat, p.lastTime = b, time.Now()
				} else if time.Since(p.lastTime) > hang {
					p.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(500 * time.Millisecond)
					p.cmd.Process.Kill()
					<-p.done
					p.finished = true
					cand = &Replay{Property: id, Tier: tier, Choices: choicesOf(p.j.seq()), Key: "hang",
						Message: fmt.Sprintf("no progress for %v in one execution\n%s", hang, p.stderr.String()), Crash: "hang"}
				} else if rss(p.cmd.Process.Pid) > 6<<30 {
					p.cmd.Process.Kill()
					<-p.done
					p.finished = true
					cand = &Replay{Property: id, Tier: tier, Choices: choicesOf(p.j.seq()), Key: "memory",
						Message: "the execution uses more than 6 GB of memory", Crash: "memory"}
				}
			}
			if cand != nil {
				if cand.Crash == "hang" && c.Instrumented {
					// the code waits in a way the controlled scheduler
					// does not know; loops are seen as too many steps
					unconfirmed = append(unconfirmed, cand.Message)
					fmt.Printf("note: an execution of %s waits outside of the controlled scheduler; it is not judged\n", id)
				} else if handle(cand) {
					killAll()
					break
				}
				// continue after the unconfirmed execution
				attempts[i]++
				nx := next(p.j.seq())
				if attempts[i] > 3 || nx == nil || time.Now().After(deadline) {
					gaveUp = gaveUp || nx != nil
					continue
				}
				b, _ := json.Marshal(nx)
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("resume.%d", p.shard)), b, 0o644)
				ps[i] = spawn(p.shard, attempts[i])
				busy = true
			}
		}
		if !busy {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	killAll()

	// evidence
	states := map[uint64]struct{}{}
	files, _ := filepath.Glob(filepath.Join(dir, "states.*"))
	for _, f := range files {
		readStates(f, states)
	}
	exhaustive := len(results) >= shards && !gaveUp && violation == nil
	var execs, ops, nd int64
	capped := false
	known := map[string]string{}
	var samples [][]string
	for _, r := range results {
		execs += r.Execs
		ops += r.Ops
		nd += r.Nondet
		capped = capped || r.Capped
		exhaustive = exhaustive && (r.Exhaustive || false)
		for k, v := range r.Known {
			known[k] = v
		}
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if violation != nil {
		samples = append(samples, violation.Trace)
	}
	if len(samples) == 0 {
		samples = [][]string{}
	}
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   ops,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"model":                         c.Model,
		"rule": "states: distinct observed states (hashed) of the implementation and its reference model; transitions: operations executed on the implementation; " +
			"traces: complete executions of the real code, each compared with the reference model",
		"worker_processes": shards,
	}
	if c.Bounds != nil {
		cov["bounds"] = c.Bounds(thorough)
	}
	if capped {
		cov["states_note"] = "state set capped; the count is a lower bound"
	}
	if nd > 0 {
		cov["nondeterministic_choices"] = nd
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_failures"] = unconfirmed
	}
	var ks []string
	for k, v := range known {
		ks = append(ks, k+" "+v)
	}
	if len(ks) > 0 {
		cov["known_findings_seen"] = ks
	}
	sd, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if sd == 0 {
		sd = 1
	}
	nv := 0
	if violation != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": sd, "level": "model_checking",
		"coverage": cov, "assumptions": c.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if rc := writeEvidence(id, ev); rc != 0 {
		return rc
	}
	for k, v := range known {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", id, k, v)
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, exhaustive=%v, %.1fs\n", id, tier, execs, ops, len(states), exhaustive, time.Since(start).Seconds())
	if violation != nil {
		rd := filepath.Join(evDir(), "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%016x.json", id, fnv(fmt.Sprint(violation.Choices, violation.Key))))
		b, _ := json.MarshalIndent(violation, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		for _, l := range violation.Trace {
			fmt.Println(l)
		}
		fmt.Printf("FAIL key=%s\n%s\n", violation.Key, indent(violation.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func choicesOf(cs []choice) []int32 {
	s := make([]int32, len(cs))
	for i, c := range cs {
		s[i] = c.c
	}
	return s
}

func workerCmd(c *Check, dir string, args ...string) *exec.Cmd {
	cmd := exec.Command("/proc/self/exe", args...)
	if exe, err := os.Executable(); err == nil {
		cmd.Path = exe
	}
	procs := c.MaxProcs
	if procs == 0 {
		procs = 2
	}
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "PATH", "HOME", "TMPDIR", "LANG", "USER", "VERIF_SEED", "VERIF_TIER", "VERIF_KNOWN", "VERIF_PROF":
			env = append(env, kv)
		}
	}
	env = append(env, "GOMAXPROCS="+strconv.Itoa(procs), "VERIF_SCRATCH="+dir, "GORACE=halt_on_error=1 exitcode=66", "TZ=UTC", "GOGC=400")
	cmd.Env = env
	cmd.Dir = dir
	return cmd
}

// confirm re-executes a failing execution five times in fresh processes.
func confirm(c *Check, dir string, r *Replay, hang time.Duration) (repro int, out []string) {
	b, _ := json.Marshal(r)
	path := filepath.Join(dir, "candidate.json")
	os.WriteFile(path, b, 0o644)
	for i := 0; i < 5; i++ {
		cmd := workerCmd(c, dir, "replay", path)
		var buf bytes.Buffer
		t := &tail{}
		cmd.Stdout = &buf
		cmd.Stderr = t
		if cmd.Start() != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		failed := false
		tick := time.NewTicker(100 * time.Millisecond)
		limit := time.After(hang)
	wait:
		for {
			select {
			case err := <-done:
				if err != nil {
					if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 4 {
						failed = true
					}
				}
				break wait
			case <-limit:
				cmd.Process.Kill()
				<-done
				failed = r.Crash == "hang"
				break wait
			case <-tick.C:
				if rss(cmd.Process.Pid) > 6<<30 {
					cmd.Process.Kill()
					<-done
					failed = true
					break wait
				}
			}
		}
		tick.Stop()
		if failed {
			repro++
			if out == nil {
				out = strings.Split(strings.TrimRight(buf.String(), "\n"), "\n")
				if len(out) > 200 {
					out = append(out[:100:100], out[len(out)-100:]...)
				}
			}
			if r.Crash == "hang" && repro >= 2 {
				// two more minutes each would only delay the report
				break
			}
		} else if r.Crash == "hang" {
			break
		}
	}
	return
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}
