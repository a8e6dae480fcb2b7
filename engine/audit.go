package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The schedules are covered: after the exploration of a harness, the solver is
// asked for a schedule outside the explored classes. An executed schedule is a
// set of events with their causal pasts. Boolean variables say which of its
// events have happened (any set closed under causes, that is, any point any
// equivalent schedule can reach) and which goroutine goes next; the assertion is
// that the operation it performs there, after exactly these events, was
// explored. The operation is possible there if the locks it needs are free. If
// the solver shows that there is no such point for any explored schedule, then,
// by induction over its length, every schedule is equivalent to an explored one.

type auditEvent struct {
	g, k  int    // k-th operation of goroutine g
	id    uint64 // of the event with its causal past and data decisions
	prev  uint64 // id of the goroutine's preceding event
	why   string
	clk   vclock // last event (number+1) of each goroutine in the past
	cnt   []int  // events of each goroutine in the past
	preds []uint64
	fires []int
	after []int // events that let the goroutine go on
	pend  []dep
	foot  []dep
	held  []dep
}

// parked is a receiver waiting at a channel after event number ev.
type parked struct {
	g, ev int
	ch    any
}

// park notes that g waits at the channel from now on.
func (p *Path) park(g *G, c *hchan) {
	if !p.concOn || !p.por {
		return
	}
	k := -1
	if p.curEv != nil {
		k = len(p.events)
	} else {
		for i, e := range p.events {
			if e.g == g.id || fires(e, g.id) {
				k = i
			}
		}
	}
	p.parks = append(p.parks, parked{g.id, k, c})
}

func fires(e *event, g int) bool {
	for _, o := range e.fires {
		if o.id == g {
			return true
		}
	}
	return false
}

type auditTrace struct {
	parks []parked
	group uint64
	evs   []auditEvent
	kids  []int        // the goroutines of the phase whose end is waited for
	done  bool         // all of them are
	pends []auditEvent // operations goroutines were about to perform at the end of the phase
}

type auditState struct {
	mu     sync.Mutex
	seen   map[[2]uint64]bool
	traces []auditTrace
	cands  map[[2]uint64]map[uint64]*auditEvent // by group and preceding event
	capped bool
	kept   int

	classes, confirmed, open, queries atomic.Int64
}

const maxAudit = 2000000 // events kept

func mix(h uint64, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

func dataLabel(ds []decision) uint64 {
	h := uint64(7)
	for _, d := range ds {
		switch d.kind {
		case 's':
		case 'b', 'f':
			if d.dir {
				h = mix(h, 1)
			} else {
				h = mix(h, 2)
			}
		default:
			h = mix(mix(h, uint64(d.kind)), d.v)
		}
	}
	return h
}

// beginAudit notes the start of a concurrent phase.
func (p *Path) beginAudit() {
	h := uint64(3)
	for _, d := range p.trace {
		h = mix(mix(h, uint64(d.kind)), d.v)
		if d.dir {
			h = mix(h, 1)
		}
	}
	p.auditGroup, p.lab0, p.parks = h, map[int]uint64{}, nil
	for _, o := range p.gs {
		for _, w := range o.cases {
			if !o.done && o.fired < 0 && !w.send && w.ch != nil {
				p.parks = append(p.parks, parked{o.id, -1, w.ch})
			}
		}
	}
}

// endAudit records the events of the concurrent phase.
func (p *Path) endAudit() {
	if !p.por || len(p.events) == 0 || p.auditGroup == 0 {
		return
	}
	E := &p.E.audit
	n := len(p.events)
	t := auditTrace{group: p.auditGroup, evs: make([]auditEvent, n)}
	last := map[int]int{}
	ks := make([]int, n)
	sum := uint64(1)
	names := map[any]int{} // numbers for the objects: the path's memory is not kept
	name := func(ds []dep) []dep {
		r := make([]dep, len(ds))
		for i, d := range ds {
			r[i] = d
			if d.obj == nil {
				continue
			}
			k, ok := names[d.obj]
			if !ok {
				k = len(names)
				names[d.obj] = k
			}
			r[i].obj = k
		}
		return r
	}
	for i, e := range p.events {
		a := &t.evs[i]
		a.g, a.why, a.clk, a.pend, a.foot, a.held = e.g, e.why, e.clock, name(e.pend), name(e.foot), name(e.held)
		from := 0
		if j, ok := last[e.g]; ok {
			a.prev, a.k = t.evs[j].id, t.evs[j].k+1
			from = j + 1
		} else {
			a.prev = mix(mix(11, uint64(e.g)), p.lab0[e.g])
		}
		for j := from; j < i; j++ {
			if fires(p.events[j], e.g) { // it went on after what another goroutine handed to it
				a.prev = mix(a.prev, t.evs[j].id)
				a.after = append(a.after, j)
			}
		}
		last[e.g] = i
		ks[i] = a.k
		h := mix(mix(mix(5, uint64(e.g)), a.prev), e.label)
		for g, c := range e.clock {
			x := int(c) - 1
			cnt := 0
			if g != e.g && x >= 0 && x < i {
				cnt = ks[x] + 1
				a.preds = append(a.preds, t.evs[x].id)
				h = mix(mix(h, uint64(g)), t.evs[x].id)
			}
			a.cnt = append(a.cnt, cnt)
		}
		a.id = h
	}
	t.done = true
	for _, k := range p.kids {
		t.kids = append(t.kids, k.id)
		t.done = t.done && k.done
	}
	for _, g := range p.gs {
		if g.done || len(g.pend) == 0 || !g.dset || g.why == "Concurrent" && !t.done {
			continue
		}
		a := auditEvent{g: g.id, why: g.why, pend: name(g.pend)}
		from := 0
		if j, ok := last[g.id]; ok {
			if t.evs[j].why == "Concurrent" {
				continue
			}
			a.prev, a.k, from = t.evs[j].id, t.evs[j].k+1, j+1
		} else {
			a.prev = mix(mix(11, uint64(g.id)), p.lab0[g.id])
		}
		for j := from; j < n; j++ {
			if fires(p.events[j], g.id) {
				a.prev = mix(a.prev, t.evs[j].id)
				a.after = append(a.after, j)
			}
		}
		t.pends = append(t.pends, a)
	}
	for _, k := range p.parks {
		k.ch = name([]dep{{obj: k.ch}})[0].obj
		t.parks = append(t.parks, k)
	}
	for i, e := range p.events {
		for _, o := range e.fires {
			t.evs[i].fires = append(t.evs[i].fires, o.id)
		}
	}
	ids := make([]uint64, n) // the class does not depend on the order of the events
	for i := range t.evs {
		ids[i] = t.evs[i].id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, x := range ids {
		sum = mix(sum, x)
	}
	E.mu.Lock()
	defer E.mu.Unlock()
	if E.seen == nil {
		E.seen, E.cands = map[[2]uint64]bool{}, map[[2]uint64]map[uint64]*auditEvent{}
	}
	if E.seen[[2]uint64{t.group, sum}] {
		return
	}
	E.seen[[2]uint64{t.group, sum}] = true
	E.classes.Add(1)
	E.kept += n
	if E.capped = E.capped || E.kept > maxAudit; E.capped {
		E.traces, E.cands = nil, nil
		return
	}
	E.traces = append(E.traces, t)
	for i := range t.evs {
		a := &t.evs[i]
		key := [2]uint64{t.group, a.prev}
		m := E.cands[key]
		if m == nil {
			m = map[uint64]*auditEvent{}
			E.cands[key] = m
		}
		if m[a.id] == nil {
			m[a.id] = a
		}
	}
}

// query is the question whether a schedule leaves the explored ones from a point of trace t.
func (a *auditState) query(t *auditTrace, pre string, b *strings.Builder) string {
	n := len(t.evs)
	x := func(i int) string { return fmt.Sprintf("%sx%d", pre, i) }
	at := map[uint64]int{}
	next := make([]int, n)
	prev := make([]int, n)
	last := map[int]int{}
	for i := range t.evs {
		e := &t.evs[i]
		at[e.id] = i
		next[i], prev[i] = -1, -1
		if j, ok := last[e.g]; ok {
			next[j], prev[i] = i, j
		}
		last[e.g] = i
		fmt.Fprintf(b, "(declare-const %s Bool)\n", x(i))
	}
	var devs []string
	for i := 0; i < n+len(t.pends); i++ {
		var e *auditEvent
		pv := -1 // the goroutine's preceding event
		if i < n {
			e, pv = &t.evs[i], prev[i]
		} else {
			e = &t.pends[i-n]
			if j, ok := last[e.g]; ok {
				pv = j
			}
		}
		var causes []string
		for _, id := range e.preds {
			causes = append(causes, x(at[id]))
		}
		own := append([]string(nil), causes...)
		if pv >= 0 {
			own = append(own, x(pv))
		}
		var c []string
		if i < n {
			for _, c := range own {
				fmt.Fprintf(b, "(assert (=> %s %s))\n", x(i), c)
			}
			if len(causes) == 0 {
				continue // first in every schedule that performs it
			}
			c = []string{"(not " + x(i) + ")", "(not (and true " + strings.Join(causes, " ") + "))"}
		} else {
			for j := range t.evs {
				if t.evs[j].why == "Concurrent" { // the end of the phase
					c = append(c, "(not "+x(j)+")")
				}
			}
		}
		if pv >= 0 {
			c = append(c, x(pv))
		}
		for _, j := range e.after {
			c = append(c, x(j))
		}
		switch {
		case strings.HasPrefix(e.why, "send "):
			at := []string{"false"}
			for _, k := range t.parks {
				if k.ch != e.pend[0].obj {
					continue
				}
				w := "true"
				if k.ev >= 0 {
					w = x(k.ev)
				}
				for j := k.ev + 1; j < n; j++ {
					if hasInt(t.evs[j].fires, k.g) {
						w = "(and " + w + " (not " + x(j) + "))"
						break
					}
				}
				at = append(at, w)
			}
			c = append(c, "(or "+strings.Join(at, " ")+")")
		case e.why == "Concurrent":
			for _, g := range t.kids {
				for j := n - 1; j >= 0; j-- {
					if t.evs[j].g == g || hasInt(t.evs[j].fires, g) {
						c = append(c, x(j))
						break
					}
				}
			}
		case e.why == "Lock" || e.why == "RLock":
			for j := range t.evs {
				f := &t.evs[j]
				if f.g == e.g {
					continue
				}
				for _, h := range f.held {
					if h.obj != e.pend[0].obj || h.read && e.why == "RLock" {
						continue
					}
					if next[j] < 0 {
						c = append(c, "(not "+x(j)+")")
					} else {
						c = append(c, "(=> "+x(j)+" "+x(next[j])+")")
					}
				}
			}
		}
		for _, o := range a.cands[[2]uint64{t.group, e.prev}] {
			var all []string
			ok := true
			for _, id := range o.preds {
				j, in := at[id]
				if !in {
					ok = false
					break
				}
				all = append(all, x(j))
			}
			if !ok {
				continue
			}
			for j := range t.evs {
				f := &t.evs[j]
				if f.g != e.g && conflict(f.foot, e.pend) && !(f.g < len(o.cnt) && f.k < o.cnt[f.g]) {
					all = append(all, "(not "+x(j)+")")
				}
			}
			if len(all) == 0 {
				all = []string{"true"}
			}
			c = append(c, "(not (and "+strings.Join(all, " ")+"))")
		}
		devs = append(devs, "(and true "+strings.Join(c, " ")+")")
	}
	if len(devs) == 0 {
		return "false"
	}
	return "(or " + strings.Join(devs, " ") + " false)"
}

// finishAudit asks the solver about every explored schedule, until the deadline.
func (e *Explorer) finishAudit(deadline time.Time) {
	a := &e.audit
	if len(a.traces) == 0 || len(e.viol) > 0 || a.capped {
		return
	}
	const batch = 24
	var nextIdx atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < e.cfg.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := &Solver{sh: e.sh}
			defer s.close()
			ask := func(ts []auditTrace) SatRes {
				var b strings.Builder
				var qs []string
				for i := range ts {
					qs = append(qs, a.query(&ts[i], fmt.Sprintf("t%d", i), &b))
				}
				fmt.Fprintf(&b, "(assert (or %s false))\n", strings.Join(qs, " "))
				a.queries.Add(1)
				return s.raw(b.String(), 20*time.Second)
			}
			for time.Now().Before(deadline) {
				lo := int(nextIdx.Add(batch)) - batch
				if lo >= len(a.traces) {
					return
				}
				hi := lo + batch
				if hi > len(a.traces) {
					hi = len(a.traces)
				}
				if ask(a.traces[lo:hi]) == Unsat {
					a.confirmed.Add(int64(hi - lo))
					continue
				}
				for i := lo; i < hi; i++ {
					if ask(a.traces[i:i+1]) == Unsat {
						a.confirmed.Add(1)
					} else {
						a.open.Add(1)
						if debugEngine && a.open.Load() == 1 {
							a.show(&a.traces[i])
						}
					}
				}
			}
		}()
	}
	wg.Wait()
}

func (a *auditState) show(t *auditTrace) {
	var b strings.Builder
	q := a.query(t, "", &b)
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n(get-model)\n", q)
	fmt.Println(b.String())
	for i, e := range t.evs {
		objs := func(ds []dep) (r string) {
			for _, d := range ds {
				r += fmt.Sprintf(" %v%v", d.obj, map[bool]string{true: "r"}[d.read]+map[bool]string{true: "-"}[d.rel])
			}
			return
		}
		fmt.Printf("event %d: g%d %s pend%s foot%s held%s clk %v cands %d\n", i, e.g, e.why, objs(e.pend), objs(e.foot), objs(e.held), e.clk, len(a.cands[[2]uint64{t.group, e.prev}]))
	}
}
