package main

import (
	"math/big"
	"sort"
)

// Linear normal form of integer terms: value = Σ coef·atom + c over the
// mathematical integers. A term's form is only built when no operation on the
// way can wrap, so machine and mathematical values agree.

type linTerm struct {
	coef *big.Int
	atom *Term
}

type lin struct {
	ts []linTerm // sorted by atom id, non-zero coefficients
	c  *big.Int
}

func (f *Factory) linOf(t *Term) *lin {
	if t.lin != nil {
		return t.lin
	}
	var l *lin
	switch {
	case t.op == OConst:
		l = &lin{c: t.lo}
	case t.op == OCast && t.a[0].sort.K == 'i' && !wraps(t):
		l = f.linOf(t.a[0])
	case t.op == OAdd && !wraps(t):
		l = linAdd(f.linOf(t.a[0]), f.linOf(t.a[1]), bigOne)
	case t.op == OSub && !wraps(t):
		l = linAdd(f.linOf(t.a[0]), f.linOf(t.a[1]), big.NewInt(-1))
	case t.op == OMul && t.a[1].op == OConst && !wraps(t):
		l = linScale(f.linOf(t.a[0]), t.a[1].lo)
	case t.op == OShl && !wraps(t):
		l = linScale(f.linOf(t.a[0]), new(big.Int).Lsh(bigOne, uint(t.u)))
	default:
		l = &lin{ts: []linTerm{{bigOne, t}}, c: bigZero}
	}
	t.lin = l
	return l
}

func linScale(a *lin, k *big.Int) *lin {
	if k.Sign() == 0 {
		return &lin{c: bigZero}
	}
	r := &lin{c: new(big.Int).Mul(a.c, k), ts: make([]linTerm, len(a.ts))}
	for i, t := range a.ts {
		r.ts[i] = linTerm{new(big.Int).Mul(t.coef, k), t.atom}
	}
	return r
}

func linAdd(a, b *lin, k *big.Int) *lin {
	r := &lin{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, k))}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].atom.id < b.ts[j].atom.id:
			r.ts = append(r.ts, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].atom.id < a.ts[i].atom.id:
			r.ts = append(r.ts, linTerm{new(big.Int).Mul(b.ts[j].coef, k), b.ts[j].atom})
			j++
		default:
			c := new(big.Int).Add(a.ts[i].coef, new(big.Int).Mul(b.ts[j].coef, k))
			if c.Sign() != 0 {
				r.ts = append(r.ts, linTerm{c, a.ts[i].atom})
			}
			i++
			j++
		}
	}
	return r
}

func (l *lin) interval() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, t := range l.ts {
		a, b := new(big.Int).Mul(t.coef, t.atom.lo), new(big.Int).Mul(t.coef, t.atom.hi)
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

func (l *lin) fits(s Sort) bool {
	lo, hi := l.interval()
	r := ranges[s]
	return lo.Cmp(r.lo) >= 0 && hi.Cmp(r.hi) <= 0
}

// recombine rewrites k·Rem(Z,c) + k·c·Div(Z,c) to k·Z until nothing changes.
func (f *Factory) recombine(l *lin) *lin {
	for n := 0; n < 64; n++ {
		if len(l.ts) < 2 {
			return l
		}
		changed := false
		for _, t := range l.ts {
			if t.atom.op != ORem || t.atom.a[1].op != OConst || t.atom.a[1].lo.Sign() <= 0 {
				continue
			}
			z, c := t.atom.a[0], t.atom.a[1]
			want := new(big.Int).Mul(t.coef, c.lo)
			q := f.IntBin(ODiv, z, c)
			if q.op == OConst {
				continue
			}
			ql := f.linOf(q)
			if len(ql.ts) != 1 || ql.c.Sign() != 0 || ql.ts[0].coef.Cmp(bigOne) != 0 {
				continue
			}
			qa := ql.ts[0].atom
			for _, o := range l.ts {
				if o.atom == qa && o.coef.Cmp(want) == 0 {
					// remove both, add coef*Z
					r := &lin{c: l.c}
					for _, x := range l.ts {
						if x.atom != t.atom && x.atom != qa {
							r.ts = append(r.ts, x)
						}
					}
					l = linAdd(r, f.linOf(z), t.coef)
					changed = true
					break
				}
			}
			if changed {
				break
			}
		}
		if !changed {
			return l
		}
	}
	return l
}

const maxLin = 48

// fromLin builds the canonical term of a form that fits s; nil when a partial sum might wrap.
func (f *Factory) fromLin(l *lin, s Sort) *Term {
	if !l.fits(s) {
		return nil
	}
	if len(l.ts) == 0 {
		return f.bigConst(s, l.c)
	}
	r := ranges[s]
	ts := append([]linTerm(nil), l.ts...)
	// largest coefficients first keeps the order canonical; negatives last
	sort.SliceStable(ts, func(i, j int) bool {
		if c := ts[i].coef.Cmp(ts[j].coef); c != 0 {
			return c > 0
		}
		return ts[i].atom.id < ts[j].atom.id
	})
	build := func() *Term {
		var acc *Term
		for _, t := range ts {
			if t.coef.Cmp(r.lo) < 0 || t.coef.Cmp(r.hi) > 0 {
				return nil
			}
			if t.atom.lo.Cmp(r.lo) < 0 || t.atom.hi.Cmp(r.hi) > 0 {
				return nil
			}
			x := f.Cast(t.atom, s)
			if t.coef.Cmp(bigOne) != 0 {
				x = f.mk(OMul, s, 0, "", x, f.bigConst(s, t.coef))
				if wraps(x) {
					return nil
				}
			}
			if acc == nil {
				acc = x
			} else {
				acc = f.mk(OAdd, s, 0, "", acc, x)
				if wraps(acc) {
					return nil
				}
			}
		}
		if l.c.Sign() != 0 {
			if l.c.Cmp(r.lo) < 0 || l.c.Cmp(r.hi) > 0 {
				return nil
			}
			acc = f.mk(OAdd, s, 0, "", acc, f.bigConst(s, l.c))
			if wraps(acc) {
				return nil
			}
		}
		return acc
	}
	t := build()
	if t != nil && t.op != OConst {
		if t.lin == nil {
			t.lin = l
		}
		lo, hi := l.interval()
		if lo.Cmp(t.lo) > 0 {
			t.lo = lo
		}
		if hi.Cmp(t.hi) < 0 {
			t.hi = hi
		}
	}
	return t
}

// linBin tries to build a op b through the linear form; nil if it does not apply.
func (f *Factory) linBin(op Op, a, b *Term) *Term {
	if f.noLin {
		return nil
	}
	s := a.sort
	switch op {
	case OAdd, OSub:
		la, lb := f.linOf(a), f.linOf(b)
		if len(la.ts)+len(lb.ts) > maxLin || len(la.ts)+len(lb.ts) < 2 {
			return nil
		}
		k := bigOne
		if op == OSub {
			k = big.NewInt(-1)
		}
		return f.fromLin(f.recombine(linAdd(la, lb, k)), s)
	case OMul:
		if b.op != OConst {
			return nil
		}
		la := f.linOf(a)
		if len(la.ts) > maxLin || len(la.ts) == 1 && la.c.Sign() == 0 && la.ts[0].coef.Cmp(bigOne) == 0 {
			return nil
		}
		return f.fromLin(linScale(la, b.lo), s)
	case ODiv, ORem:
		if b.op != OConst || b.lo.Sign() <= 0 {
			return nil
		}
		la := f.linOf(a)
		if len(la.ts) > maxLin {
			return nil
		}
		lo, hi := la.interval()
		if hi.Sign() <= 0 && lo.Sign() < 0 {
			// truncated division: work on the magnitude
			n := f.fromLin(linScale(la, big.NewInt(-1)), s)
			if n == nil || n.op == OConst {
				return nil
			}
			q := f.IntBin(op, n, b)
			r := f.fromLin(linScale(f.linOf(q), big.NewInt(-1)), s)
			return r
		}
		if lo.Sign() < 0 {
			return nil
		}
		// split into a multiple of b and a remainder
		q, r := &lin{c: new(big.Int)}, &lin{c: new(big.Int)}
		m := new(big.Int)
		q.c.DivMod(la.c, b.lo, m)
		r.c.Set(m)
		for _, t := range la.ts {
			d, mm := new(big.Int).DivMod(t.coef, b.lo, new(big.Int))
			if d.Sign() != 0 {
				q.ts = append(q.ts, linTerm{d, t.atom})
			}
			if mm.Sign() != 0 {
				r.ts = append(r.ts, linTerm{mm, t.atom})
			}
		}
		rlo, rhi := r.interval()
		if rlo.Sign() >= 0 && rhi.Cmp(b.lo) < 0 {
			if op == ODiv {
				return f.fromLin(q, s)
			}
			return f.fromLin(r, s)
		}
		if rlo.Sign() >= 0 && (len(q.ts) > 0 || q.c.Sign() != 0) {
			rt := f.fromLin(r, s)
			if rt != nil {
				if op == ORem {
					return f.IntBin(ORem, rt, b)
				}
				rq := f.IntBin(ODiv, rt, b)
				if x := f.fromLin(linAdd(q, f.linOf(rq), bigOne), s); x != nil {
					return x
				}
			}
		}
		// common factor
		if len(la.ts) > 0 {
			g := new(big.Int).Set(b.lo)
			for _, t := range la.ts {
				g.GCD(nil, nil, g, new(big.Int).Abs(t.coef))
			}
			if la.c.Sign() != 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(la.c))
			}
			if g.Cmp(bigOne) > 0 {
				h := &lin{c: new(big.Int).Quo(la.c, g)}
				for _, t := range la.ts {
					h.ts = append(h.ts, linTerm{new(big.Int).Quo(t.coef, g), t.atom})
				}
				ht := f.fromLin(h, s)
				bb := f.bigConst(s, new(big.Int).Quo(b.lo, g))
				if ht != nil {
					x := f.IntBin(op, ht, bb)
					if op == ODiv {
						return x
					}
					return f.fromLin(linScale(f.linOf(x), g), s)
				}
			}
		}
	}
	return nil
}

// linCmp decides a comparison by the interval of the difference: -1 (a<b), 0 (equal), 1 (a>b);
// le/ge report the weak versions.
func (f *Factory) linDiff(a, b *Term) (lo, hi *big.Int, ok bool) {
	if f.noLin || a.sort.K != 'i' {
		return nil, nil, false
	}
	la, lb := f.linOf(a), f.linOf(b)
	if len(la.ts)+len(lb.ts) > 2*maxLin {
		return nil, nil, false
	}
	lo, hi = f.recombine(linAdd(la, lb, big.NewInt(-1))).interval()
	return lo, hi, true
}
