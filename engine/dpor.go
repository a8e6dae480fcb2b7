package main

import "sync"

// Dynamic partial-order reduction (Flanagan and Godefroid's backtrack sets with
// sleep sets). A scheduling decision first tries one goroutine; others are added
// when an executed path shows that an operation of theirs could have come before
// a dependent one that was run instead.

// schedNode is a scheduling decision on the paths that share its prefix.
type schedNode struct {
	mu     sync.Mutex
	prefix []decision
	model  Model
	cand   []int // goroutines that can run and do not sleep
	tried  []int // in order
}

// event is a segment executed by a goroutine: one synchronisation operation and the code up to the next.
type event struct {
	g       int
	node    *schedNode // nil if there was no alternative
	enabled []int
	asleep  []int
	foot    []dep
	ops     []dep // foot without releases
	early   []dep // ops without the arrival of receivers, which only enables what follows
	clock   vclock
	fires   []*G
	why     string // what the operation waits for
	pend    []dep  // objects of the operation
	held    []dep  // locks held after the segment
	label   uint64 // data decisions in the segment
}

type objClock struct{ w, r vclock }

func hasInt(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

func noRel(d []dep) (r []dep) {
	for _, x := range d {
		if !x.rel {
			r = append(r, x)
		}
	}
	return
}

// flush ends the running segment: sleeping goroutines that depend on it wake and
// the decisions it shows to be reversible are recorded.
func (p *Path) flush() {
	ev := p.curEv
	foot := p.segFoot
	p.curEv, p.segFoot = nil, nil
	if ev == nil && p.lab0 != nil {
		if p.segStart < len(p.trace) {
			p.lab0[p.segG] = mix(p.lab0[p.segG], dataLabel(p.trace[p.segStart:]))
		}
		p.segStart = len(p.trace)
	}
	if ev == nil && len(foot) == 0 {
		return
	}
	for id, d := range p.asleep {
		if conflict(d, foot) {
			delete(p.asleep, id)
		}
	}
	if ev == nil {
		return
	}
	g := p.gs[ev.g]
	ev.foot, ev.ops = foot, noRel(foot)
	ev.held = append([]dep(nil), g.held...)
	ev.label = dataLabel(p.trace[p.segStart:])
	p.segStart = len(p.trace)
	for _, d := range ev.ops {
		if !d.arr {
			ev.early = append(ev.early, d)
		}
	}
	pre := g.dclk
	p.events = append(p.events, ev)
	g.dclk = p.after(g, foot, len(p.events))
	ev.clock = append(vclock(nil), g.dclk...)
	p.findRaces(len(p.events)-1, ev, pre)
	for _, d := range foot {
		o := p.objClk(d.obj)
		if d.read {
			joinVC(&o.r, ev.clock)
		} else {
			joinVC(&o.w, ev.clock)
		}
	}
	for _, o := range ev.fires {
		joinVC(&o.dclk, ev.clock)
	}
}

// after is the clock of g after event number idx touching foot.
func (p *Path) after(g *G, foot []dep, idx int) vclock {
	c := append(vclock(nil), g.dclk...)
	for len(c) <= g.id {
		c = append(c, 0)
	}
	c[g.id] = uint32(idx)
	all := p.objClk(nil)
	for _, d := range foot {
		if d.obj == nil {
			for _, o := range p.objClks {
				joinVC(&c, o.w)
				joinVC(&c, o.r)
			}
			continue
		}
		o := p.objClk(d.obj)
		joinVC(&c, o.w)
		joinVC(&c, all.w)
		if !d.read {
			joinVC(&c, o.r)
		}
	}
	return c
}

func (p *Path) objClk(obj any) *objClock {
	o := p.objClks[obj]
	if o == nil {
		o = &objClock{}
		p.objClks[obj] = o
	}
	return o
}

// findRaces looks for the events that event number n (of a goroutine whose
// clock before it was pre) depends on and could have preceded. For each, one of
// the goroutines that can begin a schedule reversing the two is to be tried
// where the earlier one was chosen.
func (p *Path) findRaces(n int, ev *event, pre vclock) {
	q := ev.g
	last := int(pre.at(q)) // q's previous event is number last-1
	for i := n - 1; i >= 0; i-- {
		e := p.events[i]
		if e.node == nil || e.g == q || uint32(i+1) <= pre.at(e.g) || !conflict(e.early, ev.ops) {
			continue
		}
		if last <= i && !hasInt(e.enabled, q) {
			continue // q was already waiting for this operation: not reversible here
		}
		// v: what follows e without depending on it, then ev
		var v []*event
		var vi []int
		var initials, seen []int
		add := func(x *event, k int) {
			if !hasInt(seen, x.g) {
				seen = append(seen, x.g)
				first := true
				for m, y := range v {
					if uint32(vi[m]+1) <= x.clock.at(y.g) {
						first = false
						break
					}
				}
				if first {
					initials = append(initials, x.g)
				}
			}
			v, vi = append(v, x), append(vi, k)
		}
		for k := i + 1; k < n; k++ {
			if x := p.events[k]; uint32(i+1) > x.clock.at(e.g) {
				add(x, k)
			}
		}
		add(ev, n)
		covered := false
		for _, r := range initials {
			covered = covered || hasInt(e.asleep, r)
		}
		if !covered {
			p.backtrack(e.node, initials, q)
		}
	}
}

// backtrack makes sure that one of es (or, if there is none, every goroutine) is tried at the node.
func (p *Path) backtrack(n *schedNode, es []int, q int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	pick := -1
	for _, r := range es {
		if hasInt(n.tried, r) {
			return
		}
		if hasInt(n.cand, r) && (pick < 0 || r == q) {
			pick = r
		}
	}
	if pick >= 0 {
		p.try(n, pick)
		return
	}
	for _, r := range n.cand {
		p.try(n, r)
	}
}

func (p *Path) try(n *schedNode, r int) {
	if hasInt(n.tried, r) {
		return
	}
	d := decision{kind: 's', v: uint64(r), node: n, sleep: append([]int(nil), n.tried...)}
	n.tried = append(n.tried, r)
	p.forks++
	p.E.choices.Add(1)
	p.E.push(&workItem{prefix: append(append(make([]decision, 0, len(n.prefix)+1), n.prefix...), d), model: n.model})
}

// decide picks the goroutine to run among the enabled ones.
func (p *Path) decide(en []*G) *G {
	for _, g := range en {
		if len(g.pend) == 0 {
			p.segG, p.segStart = g.id, len(p.trace)
			return g
		}
	}
	ev := &event{}
	var cand []*G
	for _, g := range en {
		ev.enabled = append(ev.enabled, g.id)
		if _, ok := p.asleep[g.id]; ok {
			ev.asleep = append(ev.asleep, g.id)
		} else {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		panic(pathEnd{"redundant", ""})
	}
	g := cand[0]
	if len(cand) > 1 {
		p.schedChoices++
		if p.replaying() {
			d := p.next()
			if d.kind != 's' {
				panic("replay divergence: schedule vs " + string(d.kind))
			}
			ev.node = d.node
			g = p.gs[d.v]
			for _, id := range d.sleep {
				p.asleep[id] = p.gs[id].pendAll()
			}
		} else {
			n := &schedNode{prefix: p.trace[:len(p.trace):len(p.trace)], model: p.model, tried: []int{g.id}}
			for _, c := range cand {
				n.cand = append(n.cand, c.id)
			}
			ev.node = n
			p.record(decision{kind: 's', v: uint64(g.id), node: n})
		}
	}
	ev.g, ev.why, ev.pend = g.id, g.why, g.pend
	p.segG, p.segStart = g.id, len(p.trace)
	p.curEv = ev
	p.segFoot = append([]dep(nil), g.pend...)
	return g
}

// endSchedule completes the analysis at the end of a path: operations still pending count, too.
func (p *Path) endSchedule() {
	if !p.por || p.events == nil && p.curEv == nil {
		return
	}
	p.flush()
	if !p.concOn {
		return
	}
	p.endAudit()
	p.pendingRaces()
}

// pendingRaces does the analysis for the operations still pending.
func (p *Path) pendingRaces() {
	for _, g := range p.gs {
		if !g.done && len(g.pend) > 0 && g.dset {
			n := len(p.events)
			p.findRaces(n, &event{g: g.id, ops: noRel(g.pend), clock: p.after(g, g.pend, n+1)}, g.dclk)
		}
	}
}
