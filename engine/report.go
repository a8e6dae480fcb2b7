package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type report struct {
	id, tier, only string
	t0             time.Time
	res            []*hres
	P              *Program
	sh             *SolverShared
	tags           []string
	nat            *native
}

type known struct {
	harness, msg string
	text         string
	inputs       map[string]string
}

// known-findings.txt: "finding: property=<id> harness=<name> [input.<name>=<value> ...] msg=<assertion text> # description"
func loadKnown(id string) []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		body, desc, _ := strings.Cut(l, " # ")
		k := known{text: desc, inputs: map[string]string{}}
		head, msg, _ := strings.Cut(body, " msg=")
		k.msg = msg
		for _, f := range strings.Fields(head) {
			a, b, _ := strings.Cut(f, "=")
			if a == "harness" {
				k.harness = b
			}
			if strings.HasPrefix(a, "input.") {
				k.inputs[strings.TrimPrefix(a, "input.")] = b
			}
		}
		out = append(out, k)
	}
	return out
}

func (k known) matches(v *Violation) bool {
	if k.harness != v.Harness || !strings.Contains(v.Msg, k.msg) {
		return false
	}
	for n, w := range k.inputs {
		if fmt.Sprint(v.Inputs[n].U) != w {
			return false
		}
	}
	return true
}

func (r *report) write(verbose bool) int {
	ks := loadKnown(r.id)
	var bad []*confirmed
	printed := map[string]bool{}
	for _, c := range r.nat.Confirmed {
		hit := false
		for _, k := range ks {
			if k.matches(c.v) {
				hit = true
				if !printed[k.text] {
					printed[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.text)
				}
			}
		}
		if !hit {
			bad = append(bad, c)
		}
	}
	rdir := filepath.Join(verifDir(), "evidence", "replay")
	seen := map[string]bool{}
	nv := 0
	for _, c := range bad {
		key := c.v.Harness + "|" + c.v.Kind + "|" + strings.SplitN(c.v.Msg, "\n", 2)[0]
		if seen[key] {
			continue
		}
		seen[key] = true
		nv++
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", r.id, nv))
		b, _ := json.MarshalIndent(map[string]any{
			"property": r.id, "harness": c.v.Harness, "kind": c.v.Kind, "message": c.v.Msg, "where": c.v.Where, "stack": c.v.Stack,
			"inputs": c.v.Inputs, "confirmed": c.how, "scheduling_decisions": c.v.Sched,
		}, "", "  ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
		fmt.Printf("  %s %s: %s\n    at %s\n    %s\n", c.v.Harness, c.v.Kind, c.v.Msg, c.v.Where, c.how)
	}
	// evidence
	st := &r.sh.stats
	var paths, done, infeas, limits, branches, forced, concs, choices, sched, proved, trivial, unkA, unkB, steps, unsup int64
	var classes, covered, openSched, schedQ int64
	var hj []any
	var bounds, assumes []string
	var incomplete []string
	reached := map[string]int64{}
	var samples []any
	for _, h := range r.res {
		e := h.e
		paths += e.paths.Load()
		done += e.done.Load()
		infeas += e.infeasible.Load()
		limits += e.limits.Load()
		branches += e.branches.Load()
		forced += e.forced.Load()
		concs += e.concs.Load()
		choices += e.choices.Load()
		sched += e.schedPts.Load()
		proved += e.assertsProved.Load()
		trivial += e.assertsTrivial.Load()
		unkA += e.unknownAsserts.Load()
		unkB += e.unknownBranches.Load()
		steps += e.steps.Load()
		classes += e.audit.classes.Load()
		covered += e.audit.confirmed.Load()
		openSched += e.audit.open.Load()
		schedQ += e.audit.queries.Load()
		for k, n := range e.unsup {
			unsup += n
			incomplete = append(incomplete, fmt.Sprintf("%s: %d paths outside the encoding: %s", h.h.Name, n, k))
		}
		for k, n := range e.limitMsgs {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d paths cut at a limit: %s", h.h.Name, n, k))
		}
		if e.truncated != "" {
			incomplete = append(incomplete, fmt.Sprintf("%s: exploration stopped at the %s", h.h.Name, e.truncated))
		}
		if n := e.audit.classes.Load() - e.audit.confirmed.Load(); n > 0 && e.truncated == "" && len(e.viol) == 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d of %d classes of schedules from which the solver did not show every continuation to be explored", h.h.Name, n, e.audit.classes.Load()))
		}
		if n := e.unknownAsserts.Load(); n > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d assertions undecided by the solvers", h.h.Name, n))
		}
		if n := e.guessed.Load(); n > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d queries the solvers gave up on found satisfiable by evaluating guessed inputs", h.h.Name, n))
		}
		if n := e.unknownBranches.Load(); n > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d branches undecided by the solvers", h.h.Name, n))
		}
		for k, n := range e.reach {
			reached[k] += n
		}
		var as []string
		for m, n := range e.assertMsgs {
			as = append(as, fmt.Sprintf("%s (x%d)", m, n))
		}
		sort.Strings(as)
		hj = append(hj, map[string]any{"harness": h.h.Name, "float_theory": theory(e.cfg),
			"paths": e.paths.Load(), "completed": e.done.Load(), "assumption_cut": e.infeasible.Load(), "branches": e.branches.Load(),
			"assertions": as, "preemption_bound": map[bool]string{true: "none (one schedule per class of equivalent schedules)", false: fmt.Sprint(e.cfg.Preempt)}[e.cfg.Preempt < 0], "redundant_schedules_cut": e.redundant.Load(), "seconds": h.d.Seconds(), "complete": e.truncated == "" && len(e.unsup) == 0 && len(e.limitMsgs) == 0 && e.unknownAsserts.Load() == 0 && e.unknownBranches.Load() == 0})
		for _, b := range h.h.Bound {
			bounds = append(bounds, h.h.Name+": "+b)
		}
		for _, a := range h.h.Assume {
			assumes = append(assumes, h.h.Name+": "+a)
		}
		for i, s := range e.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.h.Name, "inputs": showInputs(s.Inputs), "observed": s.Obs})
			}
		}
	}
	var unreached []string
	for _, t := range r.tags {
		if reached[t] == 0 {
			unreached = append(unreached, t)
		}
	}
	fns := map[string]bool{}
	r.P.usedFns.Range(func(k, _ any) bool {
		c := k.(*cfunc)
		if strings.Contains(c.name, "Symantec/tricorder") {
			fns[strings.ReplaceAll(c.name, "github.com/Symantec/tricorder/go/", "")] = true
		}
		return true
	})
	var fl []string
	for k := range fns {
		fl = append(fl, k)
	}
	sort.Strings(fl)
	eng := map[string]int64{}
	st.ByEngine.Range(func(k, v any) bool { eng[k.(string)] = atomic.LoadInt64(v.(*int64)); return true })
	sort.Strings(incomplete)
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": r.id, "tier": r.tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(r.t0).Seconds(), "violations": nv,
		"coverage": map[string]any{
			"states": paths, "transitions": branches + concs + choices, "traces_validated_against_impl": r.nat.Validated, "samples": samples,
			"exhaustive":      len(incomplete) == 0,
			"explanation":     "states = symbolic paths (each stands for all inputs satisfying its path condition); transitions = branch and value decisions (made by the solver), choices and scheduling decisions; that the explored classes of schedules are all there are is decided by the solver (schedule_classes_shown_closed_by_solver); each assertion on each path is decided for all inputs of the path, by an SMT query or, where the simplifier reduces it to true, without one (both counted)",
			"paths_completed": done, "paths_cut_by_assumption": infeas, "branch_decisions": branches, "branches_forced_by_solver": forced,
			"value_decisions": concs, "choice_and_schedule_decisions": choices, "schedule_points": sched,
			"schedule_classes_explored": classes, "schedule_classes_shown_closed_by_solver": covered, "schedule_classes_open": openSched, "schedule_coverage_queries": schedQ,
			"assertions_discharged_by_solver": proved, "assertions_discharged_by_simplification": trivial, "assertions_unknown": unkA, "branches_unknown": unkB,
			"paths_outside_encoding": unsup, "incomplete": incomplete,
			"solver": map[string]any{"queries": st.Queries, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnknownN, "cache_hits": st.CacheHits,
				"seconds": float64(st.TimeNS) / 1e9, "max_query_seconds": float64(st.MaxNS) / 1e9, "by_engine": eng,
				"cross_checked": r.sh.crossChecked.Load(), "disagreements": r.sh.disagreements.Load()},
			"functions_encoded": fl, "functions_encoded_count": len(fl), "bounds": bounds, "instructions_interpreted": steps,
			"witnesses_reached": reached, "witnesses_unreached": unreached, "harnesses": hj,
			"native_trace_mismatches": r.nat.Mismatches, "native_mismatch_notes": r.nat.MismatchNotes, "unconfirmed_counterexamples": r.nat.Unconfirmed,
		},
		"assumptions": append(assumes, "the engine's Go semantics (SSA interpreter, library models listed in DESIGN.md); validated by native runs of sampled paths"),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil && r.only == "" {
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
		os.WriteFile(filepath.Join(verifDir(), "evidence", r.id+".json"), b, 0644)
	}
	fmt.Printf("%s %s: paths=%d asserts=%d+%d queries=%d solver=%.1fs validated=%d mismatches=%d violations=%d wall=%.1fs\n", r.id, r.tier, paths, proved, trivial,
		st.Queries, float64(st.TimeNS)/1e9, r.nat.Validated, r.nat.Mismatches, nv, time.Since(r.t0).Seconds())
	for _, s := range incomplete {
		fmt.Println("  reduced coverage:", s)
	}
	for _, s := range unreached {
		if r.only == "" {
			fmt.Println("  witness not reached:", s)
		}
	}
	for _, s := range r.nat.MismatchNotes {
		fmt.Println("  encoding/native mismatch:", clip(s, 600))
	}
	for _, s := range r.nat.Unconfirmed {
		fmt.Println("  unconfirmed:", clip(s, 600))
	}
	if nv > 0 {
		return 1
	}
	return 0
}

func showInputs(m map[string]inputVal) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		out[k] = v.U
	}
	return out
}

func theory(c Cfg) string {
	switch {
	case c.Round:
		return "reals with a rounding error of up to half an ulp in every float operation (covers IEEE-754 in the normal range)"
	case c.Real:
		return "reals (inputs dyadic, arithmetic exact)"
	}
	return "IEEE-754"
}
