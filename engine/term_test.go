package main

import (
	"math/big"
	"math/rand"
	"testing"
)

// Random expressions must evaluate to the machine result whatever the factory simplified.
func TestFactory(t *testing.T) {
	sorts := []Sort{sI64, sU64, {'i', 32, true}, {'i', 32, false}, sU8, {'i', 16, true}}
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		f := NewFactory(false)
		m := Model{}
		type tv struct {
			t *Term
			u uint64
		}
		pool := map[Sort][]tv{}
		for i := 0; i < 4; i++ {
			s := sorts[r.Intn(len(sorts))]
			rg := ranges[s]
			lo, hi := rg.lo, rg.hi
			switch r.Intn(4) {
			case 0:
				lo, hi = big.NewInt(0), big.NewInt(9)
			case 1:
				if s.S {
					lo, hi = big.NewInt(-100), big.NewInt(-1)
				}
			case 2:
				lo, hi = big.NewInt(0), big.NewInt(100)
			}
			name := string(rune('a' + i))
			v := f.VarRange(s, name, lo, hi)
			span := new(big.Int).Sub(hi, lo)
			span.Add(span, bigOne)
			x := new(big.Int).Rand(r, span)
			if r.Intn(6) == 0 {
				x.SetInt64(0)
			}
			x.Add(x, lo)
			u := lowBits(x)
			m[name] = MVal{u: norm(s, u)}
			pool[s] = append(pool[s], tv{v, norm(s, u)})
		}
		for _, s := range sorts {
			for _, c := range []uint64{0, 1, 10, 100, uint64(r.Intn(60)), ^uint64(0)} {
				pool[s] = append(pool[s], tv{f.Int(s, c), norm(s, c)})
			}
		}
		ev := newEval(f, m)
		chk := func(x *Term, u uint64, what string) {
			g := ev.Eval(x).u
			if g != u {
				t.Fatalf("seed %d %s: term %v evaluates to %d want %d", seed, what, x, g, u)
			}
			if x.sort.K == 'i' {
				b := bigOf(x.sort, u)
				if b.Cmp(x.lo) < 0 || b.Cmp(x.hi) > 0 {
					t.Fatalf("seed %d %s: %v value %v outside [%v,%v]", seed, what, x, b, x.lo, x.hi)
				}
			}
		}
		for k := 0; k < 25; k++ {
			s := sorts[r.Intn(len(sorts))]
			ps := pool[s]
			a, b := ps[r.Intn(len(ps))], ps[r.Intn(len(ps))]
			op := []Op{OAdd, OAdd, OSub, OMul, ODiv, ORem, OBAnd, OBOr}[r.Intn(8)]
			switch r.Intn(10) {
			case 0:
				s2 := sorts[r.Intn(len(sorts))]
				c := f.Cast(a.t, s2)
				chk(c, norm(s2, a.u), "cast")
				pool[s2] = append(pool[s2], tv{c, norm(s2, a.u)})
				continue
			case 1:
				lt := bigOf(s, a.u).Cmp(bigOf(s, b.u))
				chk(f.Lt(a.t, b.t), b2u(lt < 0), "lt")
				chk(f.Le(a.t, b.t), b2u(lt <= 0), "le")
				chk(f.Eq(a.t, b.t), b2u(lt == 0), "eq")
				continue
			}
			if (op == ODiv || op == ORem) && b.t.op != OConst {
				b = tv{f.Int(s, 10), 10}
			}
			if (op == ODiv || op == ORem) && b.u == 0 {
				continue
			}
			x := f.IntBin(op, a.t, b.t)
			chk(x, intOp(s, op, a.u, b.u), opNames[op])
			pool[s] = append(pool[s], tv{x, intOp(s, op, a.u, b.u)})
		}
	}
}
