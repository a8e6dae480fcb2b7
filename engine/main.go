package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// harness is one exported Check* function of a harness package with its directives:
//
//	//sym:opt key=value ...     float=real|ieee preempt=N paths=N secs=N tier=thorough query=SECONDS samples=N
//	//sym:bound free text       what the harness bounds
//	//sym:assume free text      an assumption or stub
type harness struct {
	Name   string
	Opt    map[string]string
	Bound  []string
	Assume []string
}

func (h *harness) num(key, tier string, def int) int {
	if v, ok := h.Opt[key+"."+tier]; ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	if v, ok := h.Opt[key]; ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	return def
}

func parseHarnesses(dir string) ([]*harness, []string, error) {
	fset := token.NewFileSet()
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil || len(files) == 0 {
		return nil, nil, fmt.Errorf("no harness files in %s", dir)
	}
	sort.Strings(files)
	var hs []*harness
	var tags []string
	for _, fn := range files {
		f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Check") {
				continue
			}
			h := &harness{Name: fd.Name.Name, Opt: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := c.Text
					switch {
					case strings.HasPrefix(t, "//sym:opt "):
						for _, kv := range strings.Fields(t[len("//sym:opt "):]) {
							k, v, _ := strings.Cut(kv, "=")
							h.Opt[k] = v
						}
					case strings.HasPrefix(t, "//sym:bound "):
						h.Bound = append(h.Bound, strings.TrimSpace(t[len("//sym:bound "):]))
					case strings.HasPrefix(t, "//sym:assume "):
						h.Assume = append(h.Assume, strings.TrimSpace(t[len("//sym:assume "):]))
					}
				}
			}
			hs = append(hs, h)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" {
					if l, ok := c.Args[0].(*ast.BasicLit); ok {
						t, _ := strconv.Unquote(l.Value)
						tags = append(tags, t)
					}
				}
			}
			return true
		})
	}
	return hs, tags, nil
}

func makeGopath(dir string) error {
	os.MkdirAll(filepath.Join(dir, "src/github.com/Symantec"), 0755)
	link := func(target, at string) error {
		if cur, err := os.Readlink(at); err == nil && cur == target {
			return nil
		}
		os.Remove(at)
		return os.Symlink(target, at)
	}
	if err := link(repoDir(), filepath.Join(dir, "src/github.com/Symantec/tricorder")); err != nil {
		return err
	}
	return link(filepath.Join(verifDir(), "harness"), filepath.Join(dir, "src/vh"))
}

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: symgo check <property> [-only H,..] [-v] [-tier quick|thorough]")
		os.Exit(2)
	}
	id := os.Args[2]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "")
	only := fs.String("only", "", "")
	verbose := fs.Bool("v", false, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	secs := fs.Int("secs", 0, "total time budget")
	diff := fs.Bool("diff", false, "cross-check every solver verdict with a second solver")
	noNative := fs.Bool("nonative", false, "")
	fs.Parse(os.Args[3:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	os.Exit(runCheck(id, *tier, *only, *verbose, *workers, *secs, *diff, *noNative))
}

type hres struct {
	h *harness
	e *Explorer
	d time.Duration
}

func runCheck(id, tier, only string, verbose bool, workers, secs int, diff, noNative bool) int {
	t0 := time.Now()
	total := 280 * time.Second
	if tier == "thorough" {
		total = 40 * time.Minute
	}
	if secs > 0 {
		total = time.Duration(secs) * time.Second
	}
	deadline := t0.Add(total)
	lc := strings.ToLower(id)
	hdir := filepath.Join(verifDir(), "harness", lc)
	hs, tags, err := parseHarnesses(hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	gopath := filepath.Join(verifDir(), ".build", "gopath")
	if err := makeGopath(gopath); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	nat := newNative(id, gopath, hs)
	if !noNative {
		nat.startBuild()
	}
	P, err := Load(gopath, "vh/"+lc)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	if verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	sh := &SolverShared{diff: diff}
	pkg := P.pkgs["vh/"+lc]
	var res []*hres
	var todo []*harness
	for _, h := range hs {
		if only != "" && !strings.Contains(","+only+",", ","+h.Name+",") {
			continue
		}
		if only == "" && h.Opt["tier"] == "thorough" && tier != "thorough" {
			continue
		}
		if only == "" && h.Opt["tier"] == "quick" && tier != "quick" {
			continue
		}
		todo = append(todo, h)
	}
	for i, h := range todo {
		fn := pkg.Func(h.Name)
		if fn == nil {
			continue
		}
		rem := time.Until(deadline)
		lim := rem / time.Duration(len(todo)-i) * 3 / 2
		if lim > rem {
			lim = rem
		}
		if s := h.num("secs", tier, 0); s > 0 && time.Duration(s)*time.Second < lim {
			lim = time.Duration(s) * time.Second
		}
		cfg := Cfg{Real: h.Opt["float"] == "real" || h.Opt["float"] == "round", Round: h.Opt["float"] == "round", MaxPaths: int64(h.num("paths", tier, 1000000)), MaxSteps: 20000000,
			Preempt: h.num("preempt", tier, -1), QTimeout: time.Duration(h.num("query", tier, 20)) * time.Second,
			Deadline: time.Now().Add(lim), Workers: workers, MaxSamples: h.num("samples", tier, 16)}
		e := NewExplorer(P, sh, fn, cfg)
		ht := time.Now()
		e.Run()
		if e.truncated == "" {
			al := time.Until(deadline) / 4
			if tier == "quick" && al > 40*time.Second {
				al = 40 * time.Second
			}
			e.finishAudit(time.Now().Add(al))
		}
		r := &hres{h, e, time.Since(ht)}
		res = append(res, r)
		if verbose {
			fmt.Println(r.summary())
		}
	}
	rep := &report{id: id, tier: tier, t0: t0, res: res, P: P, sh: sh, tags: tags, nat: nat, only: only}
	if !noNative {
		nat.finish(res, deadline.Add(200*time.Second))
	}
	return rep.write(verbose)
}

func (r *hres) summary() string {
	e := r.e
	s := fmt.Sprintf("  %-34s paths=%d ok=%d infeasible=%d limit=%d branches=%d(forced %d) conc=%d choices=%d sched=%d asserts: proved=%d trivial=%d unknown=%d unkbr=%d viol=%d steps=%d %.1fs",
		r.h.Name, e.paths.Load(), e.done.Load(), e.infeasible.Load(), e.limits.Load(), e.branches.Load(), e.forced.Load(), e.concs.Load(), e.choices.Load(), e.schedPts.Load(),
		e.assertsProved.Load(), e.assertsTrivial.Load(), e.unknownAsserts.Load(), e.unknownBranches.Load(), len(e.viol), e.steps.Load(), r.d.Seconds())
	if n := e.audit.classes.Load(); n > 0 {
		s += fmt.Sprintf(" schedules: classes=%d covered=%d open=%d queries=%d", n, e.audit.confirmed.Load(), e.audit.open.Load(), e.audit.queries.Load())
	}
	if e.truncated != "" {
		s += " TRUNCATED(" + e.truncated + ")"
	}
	for k, n := range e.unsup {
		s += fmt.Sprintf("\n      unsupported x%d: %s", n, k)
	}
	for k, n := range e.limitMsgs {
		s += fmt.Sprintf("\n      limit x%d: %s", n, k)
	}
	for _, v := range e.viol {
		b, _ := json.Marshal(v.Inputs)
		s += fmt.Sprintf("\n      VIOL %s: %s at %s sched=%d\n        %s\n        %s", v.Kind, v.Msg, v.Where, v.Sched, b, strings.ReplaceAll(v.Stack, "\n", "\n        "))
	}
	return s
}
