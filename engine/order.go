package main

import "sort"

// A small order reasoner: comparisons that follow from the comparisons already in
// the path condition by transitivity are decided here instead of by the solver.

type oedge struct {
	to     *Term
	strict bool
}

type orderGraph struct {
	n      int // path constraints included
	edges  map[*Term][]oedge
	nonNaN map[*Term]bool
	consts []*Term
	isC    map[*Term]bool
}

func isOrd(t *Term) bool {
	switch t.op {
	case OFLt, OFLe, OFEq:
		return true
	case OLt, OLe:
		return true
	case OEq:
		return t.a[0].sort.K == 'i'
	}
	return false
}

func (p *Path) constLess(a, b *Term) (less, eq bool) {
	if a.sort.K == 'f' {
		x, y := a.fval(), b.fval()
		return x < y, x == y
	}
	c := a.lo.Cmp(b.lo)
	return c < 0, c == 0
}

func (g *orderGraph) addConst(p *Path, t *Term) {
	if t.op != OConst || g.isC[t] {
		return
	}
	if t.sort.K == 'f' {
		if v := t.fval(); v != v {
			return
		}
		g.nonNaN[t] = true
	} else if t.lo == nil {
		return
	}
	g.isC[t] = true
	g.consts = append(g.consts, t)
}

func (p *Path) orders(q *Term) *orderGraph {
	g := p.og
	if g == nil {
		g = &orderGraph{edges: map[*Term][]oedge{}, nonNaN: map[*Term]bool{}, isC: map[*Term]bool{}}
		p.og = g
		g.n = -1
	}
	if g.n == len(p.pc) && (q.a[0].op != OConst || g.isC[q.a[0]]) && (q.a[1].op != OConst || g.isC[q.a[1]]) {
		return g
	}
	g.n = len(p.pc)
	g.edges = map[*Term][]oedge{}
	g.addConst(p, q.a[0])
	g.addConst(p, q.a[1])
	real := p.E.cfg.Real
	for _, c := range p.pc {
		l, neg := c, false
		if l.op == ONot {
			l, neg = l.a[0], true
		}
		if !isOrd(l) {
			continue
		}
		g.addConst(p, l.a[0])
		g.addConst(p, l.a[1])
		if !neg || real || l.a[0].sort.K == 'i' {
			g.nonNaN[l.a[0]] = true
			g.nonNaN[l.a[1]] = true
		}
	}
	add := func(a, b *Term, strict bool) { g.edges[a] = append(g.edges[a], oedge{b, strict}) }
	for _, c := range p.pc {
		l, neg := c, false
		if l.op == ONot {
			l, neg = l.a[0], true
		}
		if !isOrd(l) {
			continue
		}
		a, b := l.a[0], l.a[1]
		if neg && !(g.nonNaN[a] && g.nonNaN[b]) {
			continue
		}
		switch l.op {
		case OFLt, OLt:
			if neg {
				add(b, a, false)
			} else {
				add(a, b, true)
			}
		case OFLe, OLe:
			if neg {
				add(b, a, true)
			} else {
				add(a, b, false)
			}
		default:
			if !neg {
				add(a, b, false)
				add(b, a, false)
			}
		}
	}
	bySort := map[Sort][]*Term{}
	for _, c := range g.consts {
		bySort[c.sort] = append(bySort[c.sort], c)
	}
	for _, cs := range bySort {
		sort.Slice(cs, func(i, j int) bool { l, _ := p.constLess(cs[i], cs[j]); return l })
		for i := 0; i+1 < len(cs); i++ {
			l, eq := p.constLess(cs[i], cs[i+1])
			if l {
				add(cs[i], cs[i+1], true)
			} else if eq {
				add(cs[i], cs[i+1], false)
				add(cs[i+1], cs[i], false)
			}
		}
	}
	return g
}

// reach: is there a path from a to b, and one with a strict step?
func (g *orderGraph) reach(a, b *Term) (any, strict bool) {
	if a == b {
		return g.nonNaN[a], false
	}
	type st struct {
		t *Term
		s bool
	}
	seen := map[st]bool{{a, false}: true}
	q := []st{{a, false}}
	for len(q) > 0 {
		x := q[len(q)-1]
		q = q[:len(q)-1]
		for _, e := range g.edges[x.t] {
			y := st{e.to, x.s || e.strict}
			if seen[y] || seen[st{y.t, true}] {
				continue
			}
			seen[y] = true
			if y.t == b {
				any = true
				if y.s {
					return true, true
				}
			}
			q = append(q, y)
		}
	}
	return
}

// orderImplied decides t from the order of the path condition, if it follows.
func (p *Path) orderImplied(t *Term) (val, ok bool) {
	if t.op == ONot {
		v, ok := p.orderImplied(t.a[0])
		return !v, ok
	}
	if !isOrd(t) || len(p.pc) == 0 {
		return false, false
	}
	g := p.orders(t)
	a, b := t.a[0], t.a[1]
	if len(g.edges[a]) == 0 && len(g.edges[b]) == 0 {
		return g.nonNaN[a] && a == b && t.op != OFLt, g.nonNaN[a] && a == b && t.op != OFLt
	}
	abAny, abStrict := g.reach(a, b)
	baAny, baStrict := g.reach(b, a)
	switch t.op {
	case OFLt, OLt:
		if abStrict {
			return true, true
		}
		if baAny {
			return false, true
		}
	case OFLe, OLe:
		if abAny {
			return true, true
		}
		if baStrict {
			return false, true
		}
	default:
		if abAny && baAny {
			return true, true
		}
		if abStrict || baStrict {
			return false, true
		}
	}
	return false, false
}
