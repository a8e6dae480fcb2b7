package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
)

var pow10 [40]*big.Int

func init() {
	for i := range pow10 {
		pow10[i] = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i)), nil)
	}
}

// digitsOf renders the unsigned term t with exactly n digits (t < 10^n known).
func (p *Path) digitsOf(t *Term, n int) []value {
	out := make([]value, n)
	s := t.sort
	for i := 0; i < n; i++ {
		q := t
		if e := n - 1 - i; e > 0 {
			if pow10[e].Cmp(ranges[s].hi) > 0 {
				out[i] = uint64('0')
				continue
			}
			q = p.f.IntBin(ODiv, t, p.f.Int(s, pow10[e].Uint64()))
		}
		d := q
		if s.W > 8 || true {
			d = p.f.IntBin(ORem, q, p.f.Int(s, 10))
		}
		out[i] = unterm(p.f.IntBin(OAdd, p.f.Cast(d, sU8), p.f.Int(sU8, '0')))
	}
	div := false
	for _, v := range out {
		if d, ok := v.(*Term); ok && hasDiv(d) {
			div = true
		}
	}
	if !div || n > 19 {
		return out
	}
	// the digits as variables of their own: t = Σ digit·10^i determines them
	sum := p.f.Int(s, 0)
	for i := range out {
		d := p.f.IntBin(OSub, p.term(out[i], sU8), p.f.Int(sU8, '0'))
		v := p.aux(sU8, 9, d)
		out[i] = unterm(p.f.IntBin(OAdd, v, p.f.Int(sU8, '0')))
		e := n - 1 - i
		if pow10[e].Cmp(ranges[s].hi) > 0 {
			p.define(p.f.Eq(v, p.f.Int(sU8, 0)))
			continue
		}
		sum = p.f.IntBin(OAdd, sum, p.f.IntBin(OMul, p.f.Cast(v, s), p.f.Int(s, pow10[e].Uint64())))
	}
	if wrapsAny(sum) {
		// 10^n may exceed the type: state it over the next larger one
		bail("digits of a narrow integer")
	}
	p.define(p.f.Eq(t, sum))
	return out
}

func wrapsAny(t *Term) bool {
	switch t.op {
	case OAdd, OMul, OCast:
		if wraps(t) {
			return true
		}
		for i := 0; i < t.n; i++ {
			if wrapsAny(t.a[i]) {
				return true
			}
		}
	}
	return false
}

// hasDiv: the term contains a division or remainder.
func hasDiv(t *Term) bool {
	switch t.op {
	case ODiv, ORem:
		return true
	case OAdd, OSub, OMul, OCast:
		for i := 0; i < t.n; i++ {
			if hasDiv(t.a[i]) {
				return true
			}
		}
	}
	return false
}

// aux is a fresh variable in [0,hi] that stands for the term def; the caller states the
// constraints that tie it to the inputs with define.
func (p *Path) aux(s Sort, hi uint64, def *Term) *Term {
	p.auxN++
	v := p.f.VarRange(s, fmt.Sprintf("aux!%d!%d!%d", p.auxN, s.W, hi), bigZero, new(big.Int).SetUint64(hi))
	if !p.replaying() {
		p.setModel(mergeModel(p.model, Model{v.name: p.ev.Eval(def)}))
	}
	return v
}

// define adds a constraint that holds by construction.
func (p *Path) define(c *Term) {
	if !p.replaying() {
		if d, ok := p.evalBool(c); !ok || !d {
			bail("definition does not hold: %v", c)
		}
	}
	p.addPC(c)
}

// numDigits forks on the decimal length of the unsigned term t.
func (p *Path) numDigits(t *Term) int {
	for n := 1; ; n++ {
		if pow10[n].Cmp(ranges[t.sort].hi) > 0 {
			return n
		}
		if t.hi.Cmp(pow10[n]) < 0 {
			return n
		}
		if t.lo.Cmp(pow10[n]) >= 0 {
			continue
		}
		if p.truth(unterm(p.f.Lt(t, p.f.Int(t.sort, pow10[n].Uint64())))) {
			return n
		}
	}
}

// fmtIntBytes renders an integer value of the given sort in decimal, zero padded to width (including the sign).
func (p *Path) fmtIntBytes(v value, s Sort, zeroWidth int) []value {
	if u, ok := v.(uint64); ok {
		var str string
		if s.S {
			if zeroWidth > 0 {
				str = fmt.Sprintf("%0*d", zeroWidth, int64(u))
			} else {
				str = strconv.FormatInt(int64(u), 10)
			}
		} else {
			if zeroWidth > 0 {
				str = fmt.Sprintf("%0*d", zeroWidth, u)
			} else {
				str = strconv.FormatUint(u, 10)
			}
		}
		return strBytes(str)
	}
	t := p.term(v, s)
	neg := false
	if s.S {
		neg = p.truth(unterm(p.f.Lt(t, p.f.Int(s, 0))))
	}
	var mag *Term
	if neg {
		if t.lo.Cmp(ranges[s].lo) > 0 {
			mag = p.f.IntBin(OSub, p.f.Int(s, 0), t)
		} else {
			us := Sort{'i', s.W, false}
			mag = p.f.IntBin(OSub, p.f.Int(us, 0), p.f.Cast(t, us))
		}
	} else {
		mag = t
	}
	var out []value
	w := zeroWidth
	if neg {
		out = append(out, uint64('-'))
		w--
	}
	if mag.op == OConst {
		return append(out, p.fmtIntBytes(mag.u, mag.sort, w)...)
	}
	n := 0
	if w > 0 && w < len(pow10) {
		// a single fork: fits the width or not
		fits := mag.hi.Cmp(pow10[w]) < 0
		if !fits && pow10[w].Cmp(ranges[mag.sort].hi) <= 0 {
			fits = p.truth(unterm(p.f.Lt(mag, p.f.Int(mag.sort, pow10[w].Uint64()))))
		} else if !fits {
			fits = true
		}
		if fits {
			n = w
		}
	}
	if n == 0 {
		n = p.numDigits(mag)
	}
	return append(out, p.digitsOf(mag, n)...)
}

// fmtFixed renders a float with prec decimals ('f' format).
func (p *Path) fmtFixed(v value, prec int, bitSize int) []value {
	if x, ok := v.(float64); ok {
		return strBytes(strconv.FormatFloat(x, 'f', prec, bitSize))
	}
	if !p.f.real || prec < 0 || prec > 12 {
		bail("formatting a symbolic float")
	}
	t := p.term(v, sF64)
	neg := p.truth(unterm(p.f.FBin(OFLt, t, p.f.Float(sF64, 0))))
	a := t
	if neg {
		a = p.f.FNeg(t)
	}
	sc := p.f.FBin(OFMul, a, p.f.Float(sF64, math.Pow(10, float64(prec))))
	if p.truth(unterm(p.f.FBin(OFLe, p.f.Float(sF64, 8e18), sc))) {
		bail("formatting a large symbolic float")
	}
	// k is the nearest integer (on a tie either one: the arithmetic is over the reals)
	k := p.aux(sU64, 9000000000000000000, p.f.Cast(p.f.F2I(p.f.FRnd(4, sc), sI64), sU64))
	two := p.f.Float(sF64, 2)
	diff := p.f.FBin(OFMul, p.f.FBin(OFSub, p.f.I2F(k, sF64), sc), two)
	p.define(p.f.FBin(OFLe, diff, p.f.Float(sF64, 1)))
	p.define(p.f.FBin(OFLe, p.f.Float(sF64, -1), diff))
	ds := p.digitsOf(k, p.numDigits(k))
	k = p.f.Int(sU64, 0)
	for _, d := range ds {
		k = p.f.IntBin(OAdd, p.f.IntBin(OMul, k, p.f.Int(sU64, 10)), p.f.Cast(p.f.IntBin(OSub, p.term(d, sU8), p.f.Int(sU8, '0')), sU64))
	}
	var out []value
	if neg {
		out = append(out, uint64('-'))
	}
	ip := p.f.IntBin(ODiv, k, p.f.Int(sU64, pow10[prec].Uint64()))
	out = append(out, p.fmtIntBytes(unterm(ip), sU64, 0)...)
	if prec > 0 {
		fp := p.f.IntBin(ORem, k, p.f.Int(sU64, pow10[prec].Uint64()))
		out = append(out, uint64('.'))
		out = append(out, p.fmtIntBytes(unterm(fp), sU64, prec)...)
	}
	return out
}

// methodStr calls Error or String on an interface value, if it has one.
func (p *Path) methodStr(fr *frame, a iface) (value, bool) {
	for _, n := range []string{"Error", "String"} {
		ms := p.P.prog.MethodSets.MethodSet(a.t)
		sel := ms.Lookup(nil, n)
		if sel == nil {
			continue
		}
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := underBasic(sig.Results().At(0).Type()); !ok || b.Info()&types.IsString == 0 {
			continue
		}
		fn := p.P.lookupMethod(a.t, nil, n)
		if fn == nil {
			continue
		}
		if _, isRT := a.v.(rtypeBox); isRT {
			return a.v.(rtypeBox).T.String(), true
		}
		return p.call(fr, p.P.cf(fn), []value{copyVal(a.v)}, nil), true
	}
	return nil, false
}

// sprintf formats; ok is false when the format uses something outside the fast path.
func (p *Path) sprintf(fr *frame, f value, args []value) (res value, ok bool) {
	format, isC := f.(string)
	if !isC {
		return nil, false
	}
	var out []value
	ai := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, uint64(c))
			continue
		}
		i++
		if i >= len(format) {
			return nil, false
		}
		zeroF, width, prec, minus, plus := false, 0, -1, false, false
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '0':
				zeroF = true
			case '-':
				minus = true
			case '+':
				plus = true
			case '#', ' ':
				return nil, false
			default:
				break flags
			}
		}
		for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
			width = width*10 + int(format[i]-'0')
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				prec = prec*10 + int(format[i]-'0')
			}
		}
		if i >= len(format) {
			return nil, false
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, uint64('%'))
			continue
		}
		if ai >= len(args) || plus {
			return nil, false
		}
		a, isI := args[ai].(iface)
		ai++
		if !isI {
			return nil, false
		}
		if a.t == nil {
			if verb == 'v' && width == 0 {
				out = append(out, strBytes("<nil>")...)
				continue
			}
			return nil, false
		}
		var piece []value
		if verb == 's' || verb == 'v' || verb == 'w' {
			if s, has := p.methodStr(fr, a); has {
				piece = strBytes(s)
			}
		}
		if verb == 'w' {
			verb = 'v'
		}
		if piece == nil {
			b, isB := underBasic(a.t)
			s, _ := sortOf(a.t)
			switch {
			case isB && b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') && prec < 0:
				piece = strBytes(a.v)
			case isB && s.K == 'i' && (verb == 'd' || verb == 'v') && prec < 0:
				if zeroF && !minus {
					piece = p.fmtIntBytes(a.v, s, width)
				} else {
					piece = p.fmtIntBytes(a.v, s, 0)
				}
			case isB && s.K == 'f' && verb == 'f':
				if prec < 0 {
					prec = 6
				}
				if zeroF {
					return nil, false
				}
				piece = p.fmtFixed(a.v, prec, int(s.W))
			case isB && s.K == 'f' && (verb == 'g' || verb == 'v') && !zeroF:
				x, isF := a.v.(float64)
				if !isF {
					return nil, false
				}
				fm := "%g"
				if prec >= 0 {
					fm = fmt.Sprintf("%%.%dg", prec)
				}
				if verb == 'v' {
					fm = "%v"
				}
				if s.W == 32 {
					piece = strBytes(fmt.Sprintf(fm, float32(x)))
				} else {
					piece = strBytes(fmt.Sprintf(fm, x))
				}
			case isB && s.K == 'b' && (verb == 't' || verb == 'v'):
				if p.truth(a.v) {
					piece = strBytes("true")
				} else {
					piece = strBytes("false")
				}
			case isB && b.Info()&types.IsString != 0 && verb == 'q':
				str, isS := a.v.(string)
				if !isS {
					return nil, false
				}
				piece = strBytes(strconv.Quote(str))
			default:
				if sl, isSl := a.t.Underlying().(*types.Slice); isSl && verb == 's' {
					if eb, isEB := underBasic(sl.Elem()); isEB && eb.Kind() == types.Uint8 {
						piece = append([]value{}, a.v.([]value)...)
						break
					}
				}
				return nil, false
			}
		}
		pad := width - len(piece)
		for _, x := range piece {
			if u, isU := x.(uint64); isU && u >= 0x80 && width > 0 {
				return nil, false
			}
		}
		if pad > 0 && !minus {
			pc := byte(' ')
			if zeroF {
				return nil, false
			}
			for k := 0; k < pad; k++ {
				out = append(out, uint64(pc))
			}
		}
		out = append(out, piece...)
		if pad > 0 && minus {
			for k := 0; k < pad; k++ {
				out = append(out, uint64(' '))
			}
		}
	}
	if ai != len(args) {
		return nil, false
	}
	return mkStr(out), true
}

func (p *Path) sprintln(fr *frame, args []value, ln bool) (value, bool) {
	var out []value
	prevStr := true
	for i, x := range args {
		a, ok := x.(iface)
		if !ok || a.t == nil {
			return nil, false
		}
		b, isB := underBasic(a.t)
		isStr := isB && b.Info()&types.IsString != 0
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, uint64(' '))
		}
		prevStr = isStr
		s, ok := p.sprintf(fr, "%v", []value{a})
		if !ok {
			return nil, false
		}
		out = append(out, strBytes(s)...)
	}
	if ln {
		out = append(out, uint64('\n'))
	}
	return mkStr(out), true
}

func (p *Path) writeTo(fr *frame, w value, s value) value {
	iw := w.(iface)
	if iw.t == nil {
		panic(p.rtError("invalid memory address or nil pointer dereference"))
	}
	fn := p.P.lookupMethod(iw.t, nil, "Write")
	b := strBytes(s)
	if b == nil {
		b = []value{}
	}
	return p.call(fr, p.P.cf(fn), []value{copyVal(iw.v), b}, nil)
}

func vargs(v value) []value {
	s, _ := v.([]value)
	return s
}

func init() {
	reg("fmt.Sprintf", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintf(fr, a[0], vargs(a[1])); ok {
			return s
		}
		return p.callRaw(fr, "fmt", "Sprintf", a)
	})
	reg("fmt.Sprint", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintln(fr, vargs(a[0]), false); ok {
			return s
		}
		return p.callRaw(fr, "fmt", "Sprint", a)
	})
	reg("fmt.Sprintln", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintln(fr, vargs(a[0]), true); ok {
			return s
		}
		return p.callRaw(fr, "fmt", "Sprintln", a)
	})
	reg("fmt.Fprintf", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintf(fr, a[1], vargs(a[2])); ok {
			return p.writeTo(fr, a[0], s)
		}
		return p.callRaw(fr, "fmt", "Fprintf", a)
	})
	reg("fmt.Fprint", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintln(fr, vargs(a[1]), false); ok {
			return p.writeTo(fr, a[0], s)
		}
		return p.callRaw(fr, "fmt", "Fprint", a)
	})
	reg("fmt.Fprintln", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintln(fr, vargs(a[1]), true); ok {
			return p.writeTo(fr, a[0], s)
		}
		return p.callRaw(fr, "fmt", "Fprintln", a)
	})
	reg("fmt.Appendf", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintf(fr, a[1], vargs(a[2])); ok {
			return append(append([]value{}, vargs(a[0])...), strBytes(s)...)
		}
		return p.callRaw(fr, "fmt", "Appendf", a)
	})
	for _, n := range []string{"Printf", "Println", "Print"} {
		reg("fmt."+n, func(p *Path, fr *frame, a []value) value { return tuple{uint64(0), iface{}} })
	}
	reg("fmt.Errorf", func(p *Path, fr *frame, a []value) value {
		if s, ok := p.sprintf(fr, a[0], vargs(a[1])); ok {
			if f, isS := a[0].(string); isS && !contains(f, "%w") {
				es := p.P.pkgs["errors"].Pkg.Scope().Lookup("errorString")
				v := new(value)
				*v = structure{s}
				return iface{types.NewPointer(es.Type()), v}
			}
		}
		return p.callRaw(fr, "fmt", "Errorf", a)
	})

	// ---- strconv ----
	reg("strconv.FormatInt", func(p *Path, fr *frame, a []value) value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return mkStr(p.fmtIntBytes(a[0], sI64, 0))
		}
		if isConc(a...) {
			return strconv.FormatInt(int64(a[0].(uint64)), int(a[1].(uint64)))
		}
		return p.callRaw(fr, "strconv", "FormatInt", a)
	})
	reg("strconv.FormatUint", func(p *Path, fr *frame, a []value) value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return mkStr(p.fmtIntBytes(a[0], sU64, 0))
		}
		if isConc(a...) {
			return strconv.FormatUint(a[0].(uint64), int(a[1].(uint64)))
		}
		return p.callRaw(fr, "strconv", "FormatUint", a)
	})
	reg("strconv.Itoa", func(p *Path, fr *frame, a []value) value { return mkStr(p.fmtIntBytes(a[0], sI64, 0)) })
	reg("strconv.AppendInt", func(p *Path, fr *frame, a []value) value {
		if b, ok := a[2].(uint64); ok && b == 10 {
			return append(append([]value{}, vargs(a[0])...), p.fmtIntBytes(a[1], sI64, 0)...)
		}
		return p.callRaw(fr, "strconv", "AppendInt", a)
	})
	reg("strconv.AppendUint", func(p *Path, fr *frame, a []value) value {
		if b, ok := a[2].(uint64); ok && b == 10 {
			return append(append([]value{}, vargs(a[0])...), p.fmtIntBytes(a[1], sU64, 0)...)
		}
		return p.callRaw(fr, "strconv", "AppendUint", a)
	})
	reg("strconv.FormatFloat", func(p *Path, fr *frame, a []value) value {
		if isConc(a...) {
			return strconv.FormatFloat(a[0].(float64), byte(a[1].(uint64)), int(int64(a[2].(uint64))), int(a[3].(uint64)))
		}
		if a[1] == uint64('f') {
			return mkStr(p.fmtFixed(a[0], p.concInt(a[2]), p.concInt(a[3])))
		}
		bail("FormatFloat of a symbolic value")
		return nil
	})
	reg("strconv.Quote", func(p *Path, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return p.callRaw(fr, "strconv", "Quote", a)
	})
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}
