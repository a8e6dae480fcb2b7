package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
)

func symName(v value) string {
	s, ok := v.(string)
	if !ok {
		bail("symbolic input name")
	}
	return s
}

func init() {
	type nk struct {
		n string
		s Sort
	}
	for _, x := range []nk{{"Int64", sI64}, {"Int32", Sort{'i', 32, true}}, {"Int16", Sort{'i', 16, true}}, {"Int8", Sort{'i', 8, true}}, {"Int", sI64},
		{"Uint64", sU64}, {"Uint32", Sort{'i', 32, false}}, {"Uint16", Sort{'i', 16, false}}, {"Uint8", sU8}, {"Uint", sU64}, {"Bool", sBool}} {
		x := x
		reg("vh/sym."+x.n, func(p *Path, fr *frame, a []value) value {
			return p.input(symName(a[0]), "scalar", x.s, nil, nil)
		})
	}
	fl := func(s Sort) intrinsic {
		return func(p *Path, fr *frame, a []value) value {
			if p.f.real {
				bail("sym.Float in real mode")
			}
			return p.input(symName(a[0]), "float", s, nil, nil)
		}
	}
	reg("vh/sym.Float64", fl(sF64))
	reg("vh/sym.Float32", fl(sF32))
	reg("vh/sym.IntRange", func(p *Path, fr *frame, a []value) value {
		lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
		return p.input(symName(a[0]), "scalar", sI64, big.NewInt(lo), big.NewInt(hi))
	})
	reg("vh/sym.Dyadic", func(p *Path, fr *frame, a []value) value {
		lo, hi, bits := int64(a[1].(uint64)), int64(a[2].(uint64)), int(a[3].(uint64))
		k := p.input(symName(a[0]), "scalar", sI64, big.NewInt(lo), big.NewInt(hi))
		return unterm(p.f.FBin(OFMul, p.f.I2F(k, sF64), p.f.Float(sF64, math.Ldexp(1, -bits))))
	})
	str := func(p *Path, name string, n int, alpha string) value {
		b := make([]value, n)
		for i := range b {
			nm := fmt.Sprintf("%s[%d]", name, i)
			if alpha == "" {
				b[i] = p.input(nm, "scalar", sU8, nil, nil)
				continue
			}
			lo, hi := alpha[0], alpha[0]
			set := map[byte]bool{}
			for j := 0; j < len(alpha); j++ {
				c := alpha[j]
				set[c] = true
				if c < lo {
					lo = c
				}
				if c > hi {
					hi = c
				}
			}
			t := p.input(nm, "scalar", sU8, big.NewInt(int64(lo)), big.NewInt(int64(hi)))
			b[i] = t
			if len(set) != int(hi)-int(lo)+1 {
				// set membership as a disjunction of runs
				d := p.f.False
				for c := int(lo); c <= int(hi); c++ {
					if !set[byte(c)] {
						continue
					}
					e := c
					for e+1 <= int(hi) && set[byte(e+1)] {
						e++
					}
					run := p.f.And(p.f.Le(p.f.Int(sU8, uint64(c)), t), p.f.Le(t, p.f.Int(sU8, uint64(e))))
					d = p.f.Or(d, run)
					c = e
				}
				p.assume(unterm(d))
			}
		}
		return mkStr(b)
	}
	reg("vh/sym.Str", func(p *Path, fr *frame, a []value) value { return str(p, symName(a[0]), p.concInt(a[1]), "") })
	reg("vh/sym.StrIn", func(p *Path, fr *frame, a []value) value {
		return str(p, symName(a[0]), p.concInt(a[1]), a[2].(string))
	})
	reg("vh/sym.Choose", func(p *Path, fr *frame, a []value) value {
		c := p.choose(p.concInt(a[1]))
		p.inputChoice(symName(a[0]), uint64(c))
		return uint64(c)
	})
	reg("vh/sym.Assume", func(p *Path, fr *frame, a []value) value { p.assume(a[0]); return nil })
	reg("vh/sym.Assert", func(p *Path, fr *frame, a []value) value {
		msg, ok := a[1].(string)
		if !ok {
			msg = "assertion"
		}
		p.curFr = fr
		p.assert(a[0], msg)
		return nil
	})
	reg("vh/sym.Reach", func(p *Path, fr *frame, a []value) value {
		p.reached = append(p.reached, symName(a[0]))
		return nil
	})
	reg("vh/sym.Observe", func(p *Path, fr *frame, a []value) value {
		if p.concOn {
			return nil
		}
		p.obsv = append(p.obsv, obs{symName(a[0]), a[1]})
		return nil
	})
	reg("vh/sym.Concurrent", func(p *Path, fr *frame, a []value) value {
		p.concurrent(fr, a[0].([]value))
		return nil
	})
	reg("vh/sym.Concrete", func(p *Path, fr *frame, a []value) value { return bi(p.concInt(a[0])) })
	reg("vh/sym.ReverseMaps", func(p *Path, fr *frame, a []value) value {
		p.ext["maprev"] = a[0].(bool)
		return nil
	})
	reg("vh/sym.SetRusage", func(p *Path, fr *frame, a []value) value { p.ext["rusage"] = a[0].(*closure); return nil })
	reg("vh/sym.SetMemStats", func(p *Path, fr *frame, a []value) value { p.ext["memstats"] = a[0].(*closure); return nil })
	reg("vh/sym.patch", nop)
	_ = types.Typ
}
