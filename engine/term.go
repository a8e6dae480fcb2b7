package main

// Symbolic terms: typed machine integers, booleans and floats with Go semantics.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

type Sort struct {
	K byte // 'b' bool, 'i' int, 'f' float
	W uint8
	S bool // signed (ints)
}

var (
	sBool = Sort{K: 'b'}
	sU8   = Sort{'i', 8, false}
	sI64  = Sort{'i', 64, true}
	sU64  = Sort{'i', 64, false}
	sF64  = Sort{'f', 64, false}
	sF32  = Sort{'f', 32, false}
)

type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OEq
	OLt
	OLe
	OIte
	OAdd
	OSub
	OMul
	ODiv
	ORem
	OBAnd
	OBOr
	OBXor
	OShl // constant amount in u
	OShr // constant amount in u
	OCast
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OI2F
	OF2I // float -> int64, truncating; out of range gives MinInt64
	OF2F
	OFRnd  // u: 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even
	OBitsF // uint64 bits -> float64
)

var opNames = map[Op]string{OVar: "var", OConst: "const", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OLt: "<", OLe: "<=", OIte: "ite", OAdd: "+", OSub: "-", OMul: "*", ODiv: "/", ORem: "%", OBAnd: "&", OBOr: "|", OBXor: "^", OShl: "<<", OShr: ">>", OCast: "cast", OFAdd: "f+", OFSub: "f-", OFMul: "f*", OFDiv: "f/", OFNeg: "fneg", OFAbs: "fabs", OFSqrt: "fsqrt", OFLt: "f<", OFLe: "f<=", OFEq: "f=", OI2F: "i2f", OF2I: "f2i", OF2F: "f2f", OFRnd: "frnd", OBitsF: "bitsf"}

type Term struct {
	op     Op
	sort   Sort
	a      [3]*Term
	n      int
	u      uint64 // const bits, shift amount, rounding mode
	name   string
	id     int32
	lo, hi *big.Int // ints: interval of the value
	vars   *varset
	lin    *lin
}

// varset: sorted small set of variable ids
type varset struct{ ids []int32 }

var emptyVS = &varset{}

func unionVS(a, b *varset) *varset {
	if a == b || len(b.ids) == 0 {
		return a
	}
	if len(a.ids) == 0 {
		return b
	}
	out := make([]int32, 0, len(a.ids)+len(b.ids))
	i, j := 0, 0
	for i < len(a.ids) || j < len(b.ids) {
		switch {
		case j >= len(b.ids) || (i < len(a.ids) && a.ids[i] < b.ids[j]):
			out = append(out, a.ids[i])
			i++
		case i >= len(a.ids) || b.ids[j] < a.ids[i]:
			out = append(out, b.ids[j])
			j++
		default:
			out = append(out, a.ids[i])
			i++
			j++
		}
	}
	if len(out) == len(a.ids) {
		return a
	}
	if len(out) == len(b.ids) {
		return b
	}
	return &varset{out}
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c int32
	u       uint64
	name    string
}

type Factory struct {
	tab         map[tkey]*Term
	next        int32
	vars        []*Term // by creation
	real        bool    // floats are mathematical reals
	noLin       bool
	True, False *Term
}

func NewFactory(real bool) *Factory {
	f := &Factory{tab: map[tkey]*Term{}, real: real}
	f.True = f.Bool(true)
	f.False = f.Bool(false)
	return f
}

var (
	bigOne  = big.NewInt(1)
	bigZero = big.NewInt(0)
)

type rng struct{ lo, hi, mod, half *big.Int }

var ranges = map[Sort]*rng{}

func init() {
	for _, w := range []uint8{8, 16, 32, 64} {
		for _, s := range []bool{false, true} {
			m := new(big.Int).Lsh(bigOne, uint(w))
			h := new(big.Int).Lsh(bigOne, uint(w)-1)
			r := &rng{mod: m, half: h}
			if s {
				r.lo = new(big.Int).Neg(h)
				r.hi = new(big.Int).Sub(h, bigOne)
			} else {
				r.lo = bigZero
				r.hi = new(big.Int).Sub(m, bigOne)
			}
			ranges[Sort{'i', w, s}] = r
		}
	}
}

func norm(s Sort, u uint64) uint64 {
	if s.W == 64 {
		return u
	}
	sh := 64 - uint(s.W)
	if s.S {
		return uint64(int64(u<<sh) >> sh)
	}
	return u << sh >> sh
}

func bigOf(s Sort, u uint64) *big.Int {
	if s.S {
		return big.NewInt(int64(u))
	}
	return new(big.Int).SetUint64(u)
}

func (f *Factory) mk(op Op, s Sort, u uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, sort: s, u: u, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := f.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, u: u, name: name, id: f.next, n: len(args)}
	f.next++
	t.vars = emptyVS
	for i, a := range args {
		t.a[i] = a
		t.vars = unionVS(t.vars, a.vars)
	}
	f.tab[k] = t
	if op == OVar {
		t.vars = &varset{[]int32{int32(len(f.vars))}}
		f.vars = append(f.vars, t)
	}
	if s.K == 'i' {
		f.interval(t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (f *Factory) Int(s Sort, u uint64) *Term { return f.mk(OConst, s, norm(s, u), "") }
func (f *Factory) Bool(b bool) *Term {
	if b {
		return f.mk(OConst, sBool, 1, "")
	}
	return f.mk(OConst, sBool, 0, "")
}
func (f *Factory) Float(s Sort, v float64) *Term {
	return f.mk(OConst, s, math.Float64bits(v), "")
}
func (t *Term) fval() float64 { return math.Float64frombits(t.u) }

func (f *Factory) Var(s Sort, name string) *Term { return f.mk(OVar, s, 0, name) }

// VarRange makes an int var with declared bounds (u bits in sort's signedness).
func (f *Factory) VarRange(s Sort, name string, lo, hi *big.Int) *Term {
	t := f.mk(OVar, s, 0, name)
	r := ranges[s]
	if lo.Cmp(r.lo) > 0 {
		t.lo = lo
	}
	if hi.Cmp(r.hi) < 0 {
		t.hi = hi
	}
	return t
}

func minb(a ...*big.Int) *big.Int {
	m := a[0]
	for _, x := range a[1:] {
		if x.Cmp(m) < 0 {
			m = x
		}
	}
	return m
}
func maxb(a ...*big.Int) *big.Int {
	m := a[0]
	for _, x := range a[1:] {
		if x.Cmp(m) > 0 {
			m = x
		}
	}
	return m
}

// rawInterval: interval of the mathematical result before wrapping; ok=false when unknown.
func rawInterval(t *Term) (lo, hi *big.Int, ok bool) {
	switch t.op {
	case OAdd:
		return new(big.Int).Add(t.a[0].lo, t.a[1].lo), new(big.Int).Add(t.a[0].hi, t.a[1].hi), true
	case OSub:
		return new(big.Int).Sub(t.a[0].lo, t.a[1].hi), new(big.Int).Sub(t.a[0].hi, t.a[1].lo), true
	case OMul:
		x, y := t.a[0], t.a[1]
		p := []*big.Int{new(big.Int).Mul(x.lo, y.lo), new(big.Int).Mul(x.lo, y.hi), new(big.Int).Mul(x.hi, y.lo), new(big.Int).Mul(x.hi, y.hi)}
		return minb(p...), maxb(p...), true
	case OShl:
		return new(big.Int).Lsh(t.a[0].lo, uint(t.u)), new(big.Int).Lsh(t.a[0].hi, uint(t.u)), true
	case OShr:
		return new(big.Int).Rsh(t.a[0].lo, uint(t.u)), new(big.Int).Rsh(t.a[0].hi, uint(t.u)), true
	case ODiv:
		x, y := t.a[0], t.a[1]
		if y.lo.Sign() > 0 || y.hi.Sign() < 0 {
			p := []*big.Int{new(big.Int).Quo(x.lo, y.lo), new(big.Int).Quo(x.lo, y.hi), new(big.Int).Quo(x.hi, y.lo), new(big.Int).Quo(x.hi, y.hi)}
			lo, hi := minb(p...), maxb(p...)
			if x.lo.Sign() < 0 && x.hi.Sign() > 0 {
				lo, hi = minb(lo, bigZero), maxb(hi, bigZero)
			}
			return lo, hi, true
		}
	case ORem:
		x, y := t.a[0], t.a[1]
		if y.lo.Sign() > 0 {
			m := new(big.Int).Sub(y.hi, bigOne)
			lo, hi := new(big.Int).Neg(m), m
			if x.lo.Sign() >= 0 {
				lo = bigZero
				hi = minb(hi, x.hi)
			} else {
				lo = maxb(lo, x.lo)
			}
			if x.hi.Sign() <= 0 {
				hi = bigZero
			} else {
				hi = minb(hi, x.hi)
			}
			return lo, hi, true
		}
	case OBAnd:
		x, y := t.a[0], t.a[1]
		if y.lo.Sign() >= 0 {
			hi := y.hi
			if x.lo.Sign() >= 0 {
				hi = minb(hi, x.hi)
			}
			return bigZero, hi, true
		}
		if x.lo.Sign() >= 0 {
			return bigZero, x.hi, true
		}
	case OBOr, OBXor:
		x, y := t.a[0], t.a[1]
		if x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			n := x.hi.BitLen()
			if y.hi.BitLen() > n {
				n = y.hi.BitLen()
			}
			hi := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n)), bigOne)
			return bigZero, hi, true
		}
	case OCast:
		return t.a[0].lo, t.a[0].hi, true
	case OIte:
		return minb(t.a[1].lo, t.a[2].lo), maxb(t.a[1].hi, t.a[2].hi), true
	}
	return nil, nil, false
}

func (f *Factory) interval(t *Term) {
	r := ranges[t.sort]
	if t.op == OConst {
		t.lo = bigOf(t.sort, t.u)
		t.hi = t.lo
		return
	}
	lo, hi, ok := rawInterval(t)
	if ok && lo.Cmp(r.lo) >= 0 && hi.Cmp(r.hi) <= 0 {
		t.lo, t.hi = lo, hi
		return
	}
	t.lo, t.hi = r.lo, r.hi
}

// wraps reports whether the mathematical result may leave the type's range.
func wraps(t *Term) bool {
	lo, hi, ok := rawInterval(t)
	r := ranges[t.sort]
	return !ok || lo.Cmp(r.lo) < 0 || hi.Cmp(r.hi) > 0
}

// ---- constructors with simplification ----

func (f *Factory) Not(a *Term) *Term {
	if a.op == OConst {
		return f.Bool(a.u == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	if a.op == OLt {
		return f.Le(a.a[1], a.a[0])
	}
	if a.op == OLe {
		return f.Lt(a.a[1], a.a[0])
	}
	return f.mk(ONot, sBool, 0, "", a)
}
func (f *Factory) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.u == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.u == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return f.False
	}
	return f.mk(OAnd, sBool, 0, "", a, b)
}
func (f *Factory) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.u == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.u == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return f.True
	}
	return f.mk(OOr, sBool, 0, "", a, b)
}
func (f *Factory) Implies(a, b *Term) *Term { return f.Or(f.Not(a), b) }

func (f *Factory) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.op == OConst && b.op == OConst {
		return f.Bool(a.u == b.u)
	}
	if a.sort.K == 'b' {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.u == 1 {
				return a
			}
			return f.Not(a)
		}
	} else {
		if a.hi.Cmp(b.lo) < 0 || b.hi.Cmp(a.lo) < 0 {
			return f.False
		}
		if lo, hi, ok := f.linDiff(a, b); ok {
			if lo.Sign() == 0 && hi.Sign() == 0 {
				return f.True
			}
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return f.False
			}
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OAdd:
				if a.a[1].op == OConst {
					return f.Eq(a.a[0], f.Int(a.sort, b.u-a.a[1].u))
				}
			case OCast:
				// value preserving casts
				if !wraps(a) {
					s := a.a[0].sort
					bv := b.lo
					if bv.Cmp(a.a[0].lo) < 0 || bv.Cmp(a.a[0].hi) > 0 {
						return f.False
					}
					return f.Eq(a.a[0], f.bigConst(s, bv))
				}
			case OIte:
				if a.a[1].op == OConst && a.a[2].op == OConst {
					switch {
					case a.a[1].u == b.u && a.a[2].u == b.u:
						return f.True
					case a.a[1].u == b.u:
						return a.a[0]
					case a.a[2].u == b.u:
						return f.Not(a.a[0])
					default:
						return f.False
					}
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OEq, sBool, 0, "", a, b)
}

func (f *Factory) bigConst(s Sort, v *big.Int) *Term {
	if v.Sign() < 0 {
		return f.Int(s, uint64(v.Int64()))
	}
	return f.Int(s, v.Uint64())
}

func (f *Factory) Lt(a, b *Term) *Term {
	if a == b {
		return f.False
	}
	if a.hi.Cmp(b.lo) < 0 {
		return f.True
	}
	if a.lo.Cmp(b.hi) >= 0 {
		return f.False
	}
	if lo, hi, ok := f.linDiff(a, b); ok {
		if hi.Sign() < 0 {
			return f.True
		}
		if lo.Sign() >= 0 {
			return f.False
		}
	}
	if a.op == OIte && b.op == OConst {
		if a.a[1].op == OConst || a.a[2].op == OConst {
			return f.Ite(a.a[0], f.Lt(a.a[1], b), f.Lt(a.a[2], b))
		}
	}
	return f.mk(OLt, sBool, 0, "", a, b)
}
func (f *Factory) Le(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.hi.Cmp(b.lo) <= 0 {
		return f.True
	}
	if a.lo.Cmp(b.hi) > 0 {
		return f.False
	}
	if lo, hi, ok := f.linDiff(a, b); ok {
		if hi.Sign() <= 0 {
			return f.True
		}
		if lo.Sign() > 0 {
			return f.False
		}
	}
	return f.mk(OLe, sBool, 0, "", a, b)
}

func (f *Factory) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.u == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort.K == 'b' {
		if a.op == OConst {
			if a.u == 1 {
				return f.Or(c, b)
			}
			return f.And(f.Not(c), b)
		}
		if b.op == OConst {
			if b.u == 1 {
				return f.Or(f.Not(c), a)
			}
			return f.And(c, a)
		}
	}
	if c.op == ONot {
		return f.Ite(c.a[0], b, a)
	}
	return f.mk(OIte, a.sort, 0, "", c, a, b)
}

func divTrunc(s Sort, op Op, x, y uint64) uint64 {
	if s.S {
		a, b := int64(x), int64(y)
		if b == -1 {
			if op == ODiv {
				return norm(s, uint64(-a))
			}
			return 0
		}
		if op == ODiv {
			return norm(s, uint64(a/b))
		}
		return norm(s, uint64(a%b))
	}
	if op == ODiv {
		return x / y
	}
	return x % y
}

func intOp(s Sort, op Op, x, y uint64) uint64 {
	switch op {
	case OAdd:
		return norm(s, x+y)
	case OSub:
		return norm(s, x-y)
	case OMul:
		return norm(s, x*y)
	case ODiv, ORem:
		return divTrunc(s, op, x, y)
	case OBAnd:
		return norm(s, x&y)
	case OBOr:
		return norm(s, x|y)
	case OBXor:
		return norm(s, x^y)
	}
	panic("intOp")
}

func isPow2Mask(u uint64) (int, bool) { // u == 2^k-1, k>=1
	if u != 0 && u&(u+1) == 0 {
		return bits.Len64(u), true
	}
	return 0, false
}

// IntBin builds an integer operation; both operands have sort s. Division by zero must be excluded by the caller.
func (f *Factory) IntBin(op Op, a, b *Term) *Term {
	s := a.sort
	if a.op == OConst && b.op == OConst && !((op == ODiv || op == ORem) && b.u == 0) {
		return f.Int(s, intOp(s, op, a.u, b.u))
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.u == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].op == OConst {
				return f.IntBin(OAdd, a.a[0], f.Int(s, a.a[1].u+b.u))
			}
		}
	case OSub:
		if b.op == OConst {
			return f.IntBin(OAdd, a, f.Int(s, -b.u))
		}
		if a == b {
			return f.Int(s, 0)
		}
		// 0 - uint(t) = uint(-t) for non-positive t
		if a.op == OConst && a.u == 0 && b.op == OCast && b.a[0].sort.K == 'i' && b.a[0].sort.S && b.a[0].hi.Sign() <= 0 && b.a[0].lo.Cmp(ranges[b.a[0].sort].lo) > 0 {
			return f.Cast(f.IntBin(OSub, f.Int(b.a[0].sort, 0), b.a[0]), s)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.u == 0 {
				return b
			}
			if b.u == 1 {
				return a
			}
		}
	case ODiv:
		if b.op == OConst && b.u == 1 {
			return a
		}
		if b.op == OConst && b.lo.Sign() > 0 {
			nb := new(big.Int).Neg(b.lo)
			if a.lo.Cmp(nb) > 0 && a.hi.Cmp(b.lo) < 0 {
				return f.Int(s, 0)
			}
			// (x / c1) / c2 = x / (c1*c2) for positive constants
			if a.op == ODiv && a.a[1].op == OConst && a.a[1].lo.Sign() > 0 {
				p := new(big.Int).Mul(a.a[1].lo, b.lo)
				if p.Cmp(ranges[s].hi) <= 0 {
					return f.IntBin(ODiv, a.a[0], f.bigConst(s, p))
				}
			}
		}
	case ORem:
		if b.op == OConst && b.lo.Sign() > 0 {
			nb := new(big.Int).Neg(b.lo)
			if a.lo.Cmp(nb) > 0 && a.hi.Cmp(b.lo) < 0 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.u == 0 {
				return b
			}
			if b.u == norm(s, ^uint64(0)) {
				return a
			}
			if a.lo.Sign() >= 0 {
				if _, ok := isPow2Mask(b.u); ok && b.lo.Sign() > 0 && a.hi.Cmp(b.lo) <= 0 {
					return a
				}
				// no common bits possible
				tz := uint(bits.TrailingZeros64(b.u))
				if tz > 0 && a.hi.BitLen() <= int(tz) {
					return f.Int(s, 0)
				}
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.u == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return f.Int(s, 0)
		}
	}
	if t := f.linBin(op, a, b); t != nil {
		return t
	}
	if (op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor) && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return f.mk(op, s, 0, "", a, b)
}

func (f *Factory) Shl(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.sort.W) {
		return f.Int(a.sort, 0)
	}
	if a.op == OConst {
		return f.Int(a.sort, a.u<<k)
	}
	return f.mk(OShl, a.sort, k, "", a)
}
func (f *Factory) Shr(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.sort.W) {
		if !a.sort.S {
			return f.Int(a.sort, 0)
		}
		k = uint64(a.sort.W) - 1
	}
	if a.op == OConst {
		if a.sort.S {
			return f.Int(a.sort, uint64(int64(a.u)>>k))
		}
		return f.Int(a.sort, a.u>>k)
	}
	if a.lo.Sign() >= 0 && a.hi.BitLen() <= int(k) {
		return f.Int(a.sort, 0)
	}
	return f.mk(OShr, a.sort, k, "", a)
}

func (f *Factory) Cast(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.op == OConst {
		return f.Int(s, a.u)
	}
	if a.op == OCast {
		// inner cast value-preserving -> skip it
		if !wraps(a) {
			return f.Cast(a.a[0], s)
		}
		if s.W <= a.sort.W {
			return f.Cast(a.a[0], s)
		}
	}
	if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return f.Ite(a.a[0], f.Cast(a.a[1], s), f.Cast(a.a[2], s))
	}
	// push value-preserving casts through +const so digit arithmetic cancels
	return f.mk(OCast, s, 0, "", a)
}

// ---- floats ----

func rnd32(s Sort, v float64) float64 {
	if s.W == 32 {
		return float64(float32(v))
	}
	return v
}

func (f *Factory) isNaNInf(a *Term) bool {
	return a.op == OConst && (math.IsNaN(a.fval()) || math.IsInf(a.fval(), 0))
}

func (f *Factory) FBin(op Op, a, b *Term) *Term {
	s := a.sort
	if a.op == OConst && b.op == OConst {
		x, y := a.fval(), b.fval()
		switch op {
		case OFAdd:
			return f.Float(s, rnd32(s, x+y))
		case OFSub:
			return f.Float(s, rnd32(s, x-y))
		case OFMul:
			return f.Float(s, rnd32(s, x*y))
		case OFDiv:
			return f.Float(s, rnd32(s, x/y))
		case OFLt:
			return f.Bool(x < y)
		case OFLe:
			return f.Bool(x <= y)
		case OFEq:
			return f.Bool(x == y)
		}
	}
	if op == OFLt || op == OFLe || op == OFEq {
		if f.real {
			for i, t := range []*Term{a, b} {
				if f.isNaNInf(t) {
					v := t.fval()
					if math.IsNaN(v) || op == OFEq {
						return f.False
					}
					return f.Bool((i == 1) == (v > 0))
				}
			}
			if a == b {
				return f.Bool(op != OFLt)
			}
		}
		return f.mk(op, sBool, 0, "", a, b)
	}
	if f.real {
		if (op == OFAdd || op == OFSub) && b.op == OConst && b.fval() == 0 {
			return a
		}
		if op == OFAdd && a.op == OConst && a.fval() == 0 {
			return b
		}
		if (op == OFMul || op == OFDiv) && b.op == OConst && b.fval() == 1 {
			return a
		}
		if op == OFMul && a.op == OConst && a.fval() == 1 {
			return b
		}
		if op == OFSub && a == b {
			return f.Float(s, 0)
		}
	}
	return f.mk(op, s, 0, "", a, b)
}

func (f *Factory) FNeg(a *Term) *Term {
	if a.op == OConst {
		return f.Float(a.sort, -a.fval())
	}
	if a.op == OFNeg {
		return a.a[0]
	}
	return f.mk(OFNeg, a.sort, 0, "", a)
}
func (f *Factory) FAbs(a *Term) *Term {
	if a.op == OConst {
		return f.Float(a.sort, math.Abs(a.fval()))
	}
	return f.mk(OFAbs, a.sort, 0, "", a)
}
func (f *Factory) FSqrt(a *Term) *Term {
	if a.op == OConst {
		return f.Float(a.sort, rnd32(a.sort, math.Sqrt(a.fval())))
	}
	return f.mk(OFSqrt, a.sort, 0, "", a)
}
func fround(mode uint64, v float64) float64 {
	switch mode {
	case 0:
		return math.Floor(v)
	case 1:
		return math.Ceil(v)
	case 2:
		return math.Trunc(v)
	case 3:
		return math.Round(v)
	}
	return math.RoundToEven(v)
}
func (f *Factory) FRnd(mode uint64, a *Term) *Term {
	if a.op == OConst {
		return f.Float(a.sort, fround(mode, a.fval()))
	}
	return f.mk(OFRnd, a.sort, mode, "", a)
}
func (f *Factory) I2F(a *Term, s Sort) *Term {
	if a.op == OConst {
		if a.sort.S {
			if s.W == 32 {
				return f.Float(s, float64(float32(int64(a.u))))
			}
			return f.Float(s, float64(int64(a.u)))
		}
		if s.W == 32 {
			return f.Float(s, float64(float32(a.u)))
		}
		return f.Float(s, float64(a.u))
	}
	return f.mk(OI2F, s, 0, "", a)
}
func f2i(v float64) uint64 {
	if v >= -9223372036854775808.0 && v < 9223372036854775808.0 {
		return uint64(int64(v))
	}
	return 1 << 63
}

// F2I converts to the int sort s with amd64 behaviour.
func (f *Factory) F2I(a *Term, s Sort) *Term {
	if a.sort.W == 32 {
		a = f.F2F(a, sF64)
	}
	if f.real && a.op == OI2F && a.a[0].lo.Cmp(ranges[sI64].lo) >= 0 && a.a[0].hi.Cmp(ranges[sI64].hi) <= 0 {
		return f.Cast(a.a[0], s)
	}
	raw := func(a *Term) *Term {
		if a.op == OConst {
			return f.Int(sI64, f2i(a.fval()))
		}
		return f.mk(OF2I, sI64, 0, "", a)
	}
	if s == sU64 {
		two63 := f.Float(sF64, 9223372036854775808.0)
		c := f.FBin(OFLt, a, two63)
		return f.Ite(c, f.Cast(raw(a), sU64),
			f.IntBin(OBXor, f.Cast(raw(f.FBin(OFSub, a, two63)), sU64), f.Int(sU64, 1<<63)))
	}
	return f.Cast(raw(a), s)
}
func (f *Factory) F2F(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.op == OConst {
		return f.Float(s, rnd32(s, a.fval()))
	}
	return f.mk(OF2F, s, 0, "", a)
}
func (f *Factory) BitsF(a *Term) *Term {
	if a.op == OConst {
		return f.Float(sF64, math.Float64frombits(a.u))
	}
	return f.mk(OBitsF, sF64, 0, "", a)
}

func (t *Term) String() string {
	switch t.op {
	case OVar:
		return t.name
	case OConst:
		switch t.sort.K {
		case 'b':
			return fmt.Sprint(t.u == 1)
		case 'f':
			return fmt.Sprint(t.fval())
		}
		if t.sort.S {
			return fmt.Sprint(int64(t.u))
		}
		return fmt.Sprint(t.u)
	}
	s := "(" + opNames[t.op]
	if t.op == OCast {
		s += fmt.Sprintf("%v%d", map[bool]string{true: "i", false: "u"}[t.sort.S], t.sort.W)
	}
	if t.op == OShl || t.op == OShr || t.op == OFRnd {
		s += fmt.Sprint(t.u)
	}
	for i := 0; i < t.n; i++ {
		if len(s) > 400 {
			return s + "..."
		}
		s += " " + t.a[i].String()
	}
	return s + ")"
}

// ---- evaluation ----

type MVal struct {
	u uint64   // ints (canonical), bools, float bits
	r *big.Rat // real mode floats
}

// Model maps variable name -> value.
type Model map[string]MVal

type evaluator struct {
	f    *Factory
	m    Model
	memo map[int32]MVal
}

func newEval(f *Factory, m Model) *evaluator {
	return &evaluator{f: f, m: m, memo: map[int32]MVal{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

type evalErr struct{ msg string }

func ratOf(v float64) *big.Rat {
	r := new(big.Rat).SetFloat64(v)
	if r == nil {
		panic(evalErr{"non-finite in real mode"})
	}
	return r
}

func ratFloor(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

func (e *evaluator) Bool(t *Term) bool { return e.Eval(t).u == 1 }

func (e *evaluator) Eval(t *Term) MVal {
	if t.op == OConst {
		if t.sort.K == 'f' && e.f.real {
			return MVal{u: t.u, r: ratOf(t.fval())}
		}
		return MVal{u: t.u}
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t.id] = v
	return v
}

func (e *evaluator) eval1(t *Term) MVal {
	switch t.op {
	case OVar:
		v, ok := e.m[t.name]
		if !ok {
			if t.sort.K == 'f' && e.f.real {
				return MVal{r: new(big.Rat)}
			}
			if t.sort.K == 'i' {
				if t.lo.Sign() > 0 {
					return MVal{u: lowBits(t.lo)}
				}
				if t.hi.Sign() < 0 {
					return MVal{u: lowBits(t.hi)}
				}
			}
			return MVal{}
		}
		if t.sort.K == 'f' && e.f.real && v.r == nil {
			v.r = ratOf(math.Float64frombits(v.u))
		}
		return v
	case ONot:
		return MVal{u: 1 - e.Eval(t.a[0]).u}
	case OAnd:
		if e.Eval(t.a[0]).u == 0 {
			return MVal{}
		}
		return e.Eval(t.a[1])
	case OOr:
		if e.Eval(t.a[0]).u == 1 {
			return MVal{u: 1}
		}
		return e.Eval(t.a[1])
	case OIte:
		if e.Eval(t.a[0]).u == 1 {
			return e.Eval(t.a[1])
		}
		return e.Eval(t.a[2])
	}
	x := e.Eval(t.a[0])
	var y MVal
	if t.n > 1 {
		y = e.Eval(t.a[1])
	}
	s0 := t.a[0].sort
	switch t.op {
	case OEq:
		return MVal{u: b2u(x.u == y.u)}
	case OLt:
		if s0.S {
			return MVal{u: b2u(int64(x.u) < int64(y.u))}
		}
		return MVal{u: b2u(x.u < y.u)}
	case OLe:
		if s0.S {
			return MVal{u: b2u(int64(x.u) <= int64(y.u))}
		}
		return MVal{u: b2u(x.u <= y.u)}
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		return MVal{u: intOp(t.sort, t.op, x.u, y.u)}
	case ODiv, ORem:
		if y.u == 0 {
			panic(evalErr{"div by zero"})
		}
		return MVal{u: intOp(t.sort, t.op, x.u, y.u)}
	case OShl:
		return MVal{u: norm(t.sort, x.u<<t.u)}
	case OShr:
		if t.sort.S {
			return MVal{u: uint64(int64(x.u) >> t.u)}
		}
		return MVal{u: x.u >> t.u}
	case OCast:
		return MVal{u: norm(t.sort, x.u)}
	case OBitsF:
		return MVal{u: x.u}
	}
	if e.f.real {
		switch t.op {
		case OFAdd:
			return MVal{r: new(big.Rat).Add(x.r, y.r)}
		case OFSub:
			return MVal{r: new(big.Rat).Sub(x.r, y.r)}
		case OFMul:
			return MVal{r: new(big.Rat).Mul(x.r, y.r)}
		case OFDiv:
			if y.r.Sign() == 0 {
				panic(evalErr{"real division by zero"})
			}
			return MVal{r: new(big.Rat).Quo(x.r, y.r)}
		case OFNeg:
			return MVal{r: new(big.Rat).Neg(x.r)}
		case OFAbs:
			return MVal{r: new(big.Rat).Abs(x.r)}
		case OFLt:
			return MVal{u: b2u(x.r.Cmp(y.r) < 0)}
		case OFLe:
			return MVal{u: b2u(x.r.Cmp(y.r) <= 0)}
		case OFEq:
			return MVal{u: b2u(x.r.Cmp(y.r) == 0)}
		case OI2F:
			return MVal{r: new(big.Rat).SetInt(bigOf(s0, x.u))}
		case OF2F:
			return x
		case OFRnd:
			return MVal{r: new(big.Rat).SetInt(ratRound(t.u, x.r))}
		case OF2I:
			q := ratRound(2, x.r)
			if q.Cmp(ranges[sI64].lo) < 0 || q.Cmp(ranges[sI64].hi) > 0 {
				return MVal{u: 1 << 63}
			}
			return MVal{u: uint64(q.Int64())}
		}
		panic(evalErr{"real op " + opNames[t.op]})
	}
	a, b := math.Float64frombits(x.u), math.Float64frombits(y.u)
	fl := func(v float64) MVal { return MVal{u: math.Float64bits(rnd32(t.sort, v))} }
	switch t.op {
	case OFAdd:
		return fl(a + b)
	case OFSub:
		return fl(a - b)
	case OFMul:
		return fl(a * b)
	case OFDiv:
		return fl(a / b)
	case OFNeg:
		return fl(-a)
	case OFAbs:
		return fl(math.Abs(a))
	case OFSqrt:
		return fl(math.Sqrt(a))
	case OFLt:
		return MVal{u: b2u(a < b)}
	case OFLe:
		return MVal{u: b2u(a <= b)}
	case OFEq:
		return MVal{u: b2u(a == b)}
	case OI2F:
		if s0.S {
			if t.sort.W == 32 {
				return MVal{u: math.Float64bits(float64(float32(int64(x.u))))}
			}
			return fl(float64(int64(x.u)))
		}
		if t.sort.W == 32 {
			return MVal{u: math.Float64bits(float64(float32(x.u)))}
		}
		return fl(float64(x.u))
	case OF2F:
		return fl(a)
	case OFRnd:
		return fl(fround(t.u, a))
	case OF2I:
		return MVal{u: f2i(a)}
	}
	panic(evalErr{"eval " + opNames[t.op]})
}

func lowBits(v *big.Int) uint64 {
	if v.Sign() < 0 {
		return uint64(v.Int64())
	}
	return v.Uint64()
}

func ratRound(mode uint64, r *big.Rat) *big.Int {
	fl := ratFloor(r)
	isInt := r.IsInt()
	switch mode {
	case 0:
		return fl
	case 1:
		if isInt {
			return fl
		}
		return new(big.Int).Add(fl, bigOne)
	case 2:
		if isInt || r.Sign() >= 0 {
			return fl
		}
		return new(big.Int).Add(fl, bigOne)
	default:
		half := big.NewRat(1, 2)
		if r.Sign() >= 0 || mode == 4 {
			q := ratFloor(new(big.Rat).Add(r, half))
			return q
		}
		n := ratFloor(new(big.Rat).Add(new(big.Rat).Neg(r), half))
		return n.Neg(n)
	}
}
