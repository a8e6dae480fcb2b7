package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

// native compiles the harness package and the real code with the Go compiler
// and runs it on concrete models.
type native struct {
	id, gopath string
	hs         []*harness
	dir        string
	bin        string
	err        error
	ready      chan struct{}

	Validated, Mismatches, Skipped int
	MismatchNotes                  []string
	Confirmed                      []*confirmed
	Unconfirmed                    []string
	mu                             sync.Mutex
}

type confirmed struct {
	v    *Violation
	how  string
	file string
}

type nativeResult struct {
	Status string      `json:"status"`
	Msg    string      `json:"msg"`
	Obs    [][2]string `json:"obs"`
}

func newNative(id, gopath string, hs []*harness) *native {
	return &native{id: id, gopath: gopath, hs: hs, ready: make(chan struct{})}
}

func (n *native) startBuild() {
	go func() {
		defer close(n.ready)
		n.dir, n.err = os.MkdirTemp("", "symgo-native-")
		if n.err != nil {
			return
		}
		n.bin, n.err = n.build("bin", false)
	}()
}

func (n *native) build(name string, race bool) (string, error) {
	lc := strings.ToLower(n.id)
	src := filepath.Join(n.dir, "src")
	os.MkdirAll(src, 0755)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\n\th \"vh/" + lc + "\"\n\t\"vh/sym\"\n)\n\nfunc main() {\n\tm := map[string]func(){\n")
	for _, h := range n.hs {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.Name, h.Name)
	}
	sb.WriteString("\t}\n\tsym.Run(m[os.Getenv(\"SYM_HARNESS\")])\n}\n")
	mainGo := filepath.Join(src, "main.go")
	if err := os.WriteFile(mainGo, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	out := filepath.Join(n.dir, name)
	args := []string{"build", "-o", out, "-gcflags=github.com/Symantec/...=-l"}
	env := goEnv(n.gopath)
	if race {
		args = append(args, "-race")
		env = goEnv(n.gopath, "CGO_ENABLED=1")
	}
	args = append(args, mainGo)
	cmd := exec.Command("/opt/veriftools/go1.27.3/bin/go", args...)
	cmd.Env = env
	cmd.Dir = n.gopath
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, b)
	}
	return out, nil
}

var runSeq struct {
	sync.Mutex
	n int
}

func (n *native) run(bin, harness string, inputs map[string]inputVal, procs int, limit time.Duration) nativeResult {
	runSeq.Lock()
	runSeq.n++
	k := runSeq.n
	runSeq.Unlock()
	mf := filepath.Join(n.dir, fmt.Sprintf("model%d.json", k))
	b, _ := json.Marshal(inputs)
	os.WriteFile(mf, b, 0644)
	defer os.Remove(mf)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-x", "y")
	if bin == n.bin { // code that does not end may not take all the memory
		cmd = exec.CommandContext(ctx, "/bin/bash", "-c", "ulimit -v 4000000; exec \"$0\" -x y", bin)
	}
	cmd.Env = append(goEnv(n.gopath), "SYM_MODEL="+mf, "SYM_HARNESS="+harness, fmt.Sprintf("SYM_PROCS=%d", procs), "GORACE=halt_on_error=1 exitcode=66")
	cmd.Dir = n.dir
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &se
	err := cmd.Run()
	if i := strings.LastIndex(so.String(), "SYMRESULT "); i >= 0 {
		line := so.String()[i+len("SYMRESULT "):]
		line, _, _ = strings.Cut(line, "\n")
		var r nativeResult
		if json.Unmarshal([]byte(line), &r) == nil {
			return r
		}
	}
	if strings.Contains(se.String(), "DATA RACE") {
		return nativeResult{Status: "race", Msg: clip(se.String(), 3000)}
	}
	if ctx.Err() != nil {
		return nativeResult{Status: "hang", Msg: "no result within " + limit.String()}
	}
	if strings.Contains(se.String(), "all goroutines are asleep") {
		return nativeResult{Status: "hang", Msg: clip(se.String(), 2000)}
	}
	return nativeResult{Status: "crash", Msg: fmt.Sprint(err) + ": " + clip(se.String(), 2000)}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (n *native) finish(res []*hres, deadline time.Time) {
	<-n.ready
	if n.err != nil {
		n.Unconfirmed = append(n.Unconfirmed, n.err.Error())
		return
	}
	defer os.RemoveAll(n.dir)
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	par := func(f func()) {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f()
		}()
	}
	// 1. replay every violation found by the solver
	for _, r := range res {
		for _, v := range r.e.viol {
			r, v := r, v
			par(func() { n.replay(r, v) })
		}
	}
	wg.Wait()
	// 2. validate sampled paths
	for _, r := range res {
		for _, s := range append(append([]sample{}, r.e.samples...), r.e.unsupSamples...) {
			if time.Now().After(deadline) {
				break
			}
			r, s := r, s
			par(func() { n.validate(r, s) })
		}
	}
	wg.Wait()
	// 3. schedule-dependent violations: try to reproduce under the native scheduler too
	for _, c := range n.Confirmed {
		if c.how == "schedule" {
			n.stress(c)
		}
	}
}

func (n *native) add(c *confirmed) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Confirmed = append(n.Confirmed, c)
}

func (n *native) replay(r *hres, v *Violation) {
	if v.Sched > 0 || v.Kind == "race" {
		// the schedule is part of the counterexample; the interpreter executed it concretely
		n.add(&confirmed{v: v, how: "schedule"})
		return
	}
	limit := 20 * time.Second
	x := n.run(n.bin, v.Harness, v.Inputs, 0, limit)
	switch x.Status {
	case "assert", "panic", "hang", "crash", "race":
		n.add(&confirmed{v: v, how: "native " + x.Status + ": " + clip(x.Msg, 600)})
	default:
		n.mu.Lock()
		n.Unconfirmed = append(n.Unconfirmed, fmt.Sprintf("%s: %s %q not reproduced natively (%s %s)", v.Harness, v.Kind, v.Msg, x.Status, x.Msg))
		n.mu.Unlock()
	}
}

func (n *native) validate(r *hres, s sample) {
	x := n.run(n.bin, r.h.Name, s.Inputs, 0, 20*time.Second)
	switch x.Status {
	case "assert", "panic", "hang", "crash", "race":
		n.add(&confirmed{v: &Violation{Harness: r.h.Name, Kind: "native-" + x.Status, Msg: clip(x.Msg, 600), Inputs: s.Inputs}, how: "native " + x.Status + ": " + clip(x.Msg, 600)})
		return
	case "ok":
	default:
		n.mu.Lock()
		n.Mismatches++
		n.MismatchNotes = append(n.MismatchNotes, fmt.Sprintf("%s: native %s %s", r.h.Name, x.Status, x.Msg))
		n.mu.Unlock()
		return
	}
	bad := ""
	if s.Obs != nil {
		if len(x.Obs) < len(s.Obs) {
			bad = "fewer observations natively"
		}
		for i, o := range s.Obs {
			if i >= len(x.Obs) {
				break
			}
			if o[1] == "?" || x.Obs[i][1] == "?" {
				continue
			}
			if o != x.Obs[i] {
				bad = fmt.Sprintf("observed %v, native %v", o, x.Obs[i])
				break
			}
		}
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if bad != "" {
		n.Mismatches++
		in, _ := json.Marshal(s.Inputs)
		n.MismatchNotes = append(n.MismatchNotes, r.h.Name+": "+bad+" on "+clip(string(in), 400))
		return
	}
	n.Validated++
}

func (n *native) stress(c *confirmed) {
	bin, err := n.build("race", true)
	if err != nil {
		c.how = "schedule (interpreted; no race build: " + clip(err.Error(), 200) + ")"
		return
	}
	end := time.Now().Add(15 * time.Second)
	var mu sync.Mutex
	found := ""
	runs := 0
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for time.Now().Before(end) {
				mu.Lock()
				if found != "" {
					mu.Unlock()
					return
				}
				runs++
				mu.Unlock()
				x := n.run(bin, c.v.Harness, c.v.Inputs, 1+i%8, 10*time.Second)
				if x.Status != "ok" && x.Status != "assume" {
					mu.Lock()
					found = x.Status + ": " + clip(x.Msg, 600)
					mu.Unlock()
				}
			}
		}(i)
	}
	wg.Wait()
	if found != "" {
		c.how = fmt.Sprintf("schedule found by the engine; native race-detector run %d: %s", runs, found)
	} else {
		c.how = fmt.Sprintf("schedule executed in the interpreter; not hit in %d native runs", runs)
	}
}
