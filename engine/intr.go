package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type F = intrinsic

var intrinsics = map[string]intrinsic{}
var rawOf = map[string]bool{} // intrinsics temporarily bypassed (none by default)

func reg(name string, f intrinsic) { intrinsics[name] = f }

func lookupIntrinsic(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	return nil
}

func goBytes(v []value) ([]byte, bool) {
	b := make([]byte, len(v))
	for i, x := range v {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(u)
	}
	return b, true
}

func fromBytes(b []byte) []value {
	v := make([]value, len(b))
	for i, x := range b {
		v[i] = uint64(x)
	}
	return v
}

func isConc(args ...value) bool {
	for _, a := range args {
		switch a.(type) {
		case string, uint64, bool, float64:
		default:
			return false
		}
	}
	return true
}

func bi(x int) value { return uint64(int64(x)) }

func (p *Path) byteEq(a, b value) bool { return p.truth(p.intEq(a, b, sU8)) }

func asBytesV(v value) []value {
	switch x := v.(type) {
	case []value:
		return x
	case string, *SStr:
		return strBytes(x)
	}
	chkPoison(v)
	bail("bytes of %T", v)
	return nil
}

func nop(p *Path, fr *frame, a []value) value { return nil }
func ident(p *Path, fr *frame, a []value) value {
	return a[0]
}

func (p *Path) bytesEq(a, b []value) value {
	if len(a) != len(b) {
		return false
	}
	var r value = true
	for i := range a {
		r = p.and(r, p.intEq(a[i], b[i], sU8))
		if r == false {
			return false
		}
	}
	return r
}

func (p *Path) indexBytes(s, sub []value, last bool) int {
	n := len(s) - len(sub)
	if last {
		for i := n; i >= 0; i-- {
			if p.truth(p.bytesEq(s[i:i+len(sub)], sub)) {
				return i
			}
		}
		return -1
	}
	for i := 0; i <= n; i++ {
		if p.truth(p.bytesEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func (p *Path) gname(pkg, name string) *value {
	g := p.P.pkgs[pkg].Var(name)
	return p.global(p.P.globalIndex(g))
}

func (p *Path) mkError(msg string) value {
	// errors.New
	fn := p.P.pkgs["errors"].Func("New")
	return p.call(p.curFr, p.P.cf(fn), []value{msg}, nil)
}

var nilErr = iface{}

func init() {
	// ---- bytealg ----
	ixb := func(p *Path, fr *frame, a []value) value {
		s := asBytesV(a[0])
		for i := range s {
			if p.byteEq(s[i], a[1]) {
				return bi(i)
			}
		}
		return bi(-1)
	}
	lixb := func(p *Path, fr *frame, a []value) value {
		s := asBytesV(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if p.byteEq(s[i], a[1]) {
				return bi(i)
			}
		}
		return bi(-1)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, ixb)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, lixb)
	}
	cnt := func(p *Path, fr *frame, a []value) value {
		n := 0
		for _, c := range asBytesV(a[0]) {
			if p.byteEq(c, a[1]) {
				n++
			}
		}
		return bi(n)
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.Equal", func(p *Path, fr *frame, a []value) value { return p.bytesEq(asBytesV(a[0]), asBytesV(a[1])) })
	reg("bytes.Equal", func(p *Path, fr *frame, a []value) value { return p.bytesEq(asBytesV(a[0]), asBytesV(a[1])) })
	cmp := func(p *Path, fr *frame, a []value) value {
		x, y := mkStr(asBytesV(a[0])), mkStr(asBytesV(a[1]))
		if p.truth(p.strEq(x, y)) {
			return bi(0)
		}
		if p.truth(p.strLt(x, y)) {
			return bi(-1)
		}
		return bi(1)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring"} {
		reg(n, cmp)
	}
	idx := func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return bi(strings.Index(x, y))
			}
		}
		return bi(p.indexBytes(asBytesV(a[0]), asBytesV(a[1]), false))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, idx)
	}
	lidx := func(p *Path, fr *frame, a []value) value {
		return bi(p.indexBytes(asBytesV(a[0]), asBytesV(a[1]), true))
	}
	reg("strings.LastIndex", lidx)
	reg("bytes.LastIndex", lidx)
	reg("internal/bytealg.MakeNoZero", func(p *Path, fr *frame, a []value) value {
		n := p.concInt(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape[T any]", ident)
	reg("internal/abi.Escape", ident)
	reg("strings.Replace", func(p *Path, fr *frame, a []value) value {
		if isConc(a...) {
			return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(int64(a[3].(uint64))))
		}
		return p.callRaw(fr, "strings", "Replace", a)
	})
	reg("strings.Clone", ident)
	reg("internal/stringslite.Clone", ident)
	reg("strings.(*Builder).copyCheck", nop)
	reg("(*strings.Builder).copyCheck", nop)
	reg("(*strings.Builder).String", func(p *Path, fr *frame, a []value) value {
		st := (*p.nilCheck(a[0])).(structure)
		for _, f := range st {
			if b, ok := f.([]value); ok {
				return mkStr(b)
			}
		}
		return ""
	})

	// ---- math ----
	f1 := func(name string, conc func(float64) float64, sym func(p *Path, t *Term) *Term) {
		reg("math."+name, func(p *Path, fr *frame, a []value) value {
			if x, ok := a[0].(float64); ok {
				return conc(x)
			}
			if sym == nil {
				return p.callRaw(fr, "math", name, a)
			}
			return unterm(sym(p, p.term(a[0], sF64)))
		})
	}
	rnd := func(m uint64) func(p *Path, t *Term) *Term {
		return func(p *Path, t *Term) *Term { return p.frnd(m, t) }
	}
	f1("Floor", math.Floor, rnd(0))
	f1("Ceil", math.Ceil, rnd(1))
	f1("Trunc", math.Trunc, rnd(2))
	f1("Round", math.Round, rnd(3))
	f1("RoundToEven", math.RoundToEven, rnd(4))
	f1("Abs", math.Abs, func(p *Path, t *Term) *Term { return p.f.FAbs(t) })
	f1("Sqrt", math.Sqrt, func(p *Path, t *Term) *Term { return p.f.FSqrt(t) })
	for _, n := range []string{"floor", "ceil", "trunc", "sqrt", "archFloor", "archCeil", "archTrunc", "archSqrt"} {
		m := map[string]func(float64) float64{"floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "sqrt": math.Sqrt, "archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc, "archSqrt": math.Sqrt}[n]
		k := map[string]uint64{"floor": 0, "ceil": 1, "trunc": 2, "archFloor": 0, "archCeil": 1, "archTrunc": 2}
		kk, isR := k[n]
		f1(n, m, func(p *Path, t *Term) *Term {
			if isR {
				return p.frnd(kk, t)
			}
			return p.f.FSqrt(t)
		})
	}
	conc1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(p *Path, fr *frame, a []value) value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			bail("math.%s of a symbolic value", name)
			return nil
		})
	}
	for n, f := range map[string]func(float64) float64{"Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp": math.Exp, "Exp2": math.Exp2, "Sin": math.Sin, "Cos": math.Cos, "Cbrt": math.Cbrt, "Log1p": math.Log1p, "Expm1": math.Expm1} {
		conc1(n, f)
	}
	reg("math.Pow", func(p *Path, fr *frame, a []value) value {
		if isConc(a...) {
			return math.Pow(a[0].(float64), a[1].(float64))
		}
		bail("math.Pow of a symbolic value")
		return nil
	})
	reg("math.Mod", func(p *Path, fr *frame, a []value) value {
		if isConc(a...) {
			return math.Mod(a[0].(float64), a[1].(float64))
		}
		bail("math.Mod of a symbolic value")
		return nil
	})
	mm := func(max bool) F {
		return func(p *Path, fr *frame, a []value) value { return p.fminmax(a[0], a[1], max, sF64) }
	}
	for _, n := range []string{"Max", "max", "archMax"} {
		reg("math."+n, mm(true))
	}
	for _, n := range []string{"Min", "min", "archMin"} {
		reg("math."+n, mm(false))
	}
	reg("math.Modf", func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			i, f := math.Modf(x)
			return tuple{i, f}
		}
		t := p.term(a[0], sF64)
		i := p.frnd(2, t)
		return tuple{unterm(i), unterm(p.f.FBin(OFSub, t, i))}
	})
	reg("math.IsNaN", func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		if p.f.real {
			return false
		}
		return p.not(p.fcmp(OFEq, a[0], a[0], sF64))
	})
	reg("math.IsInf", func(p *Path, fr *frame, a []value) value {
		s := p.concInt(a[1])
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, s)
		}
		if p.f.real {
			return false
		}
		pos := p.fcmp(OFLt, math.MaxFloat64, a[0], sF64)
		neg := p.fcmp(OFLt, a[0], -math.MaxFloat64, sF64)
		switch {
		case s > 0:
			return pos
		case s < 0:
			return neg
		}
		return p.or(pos, neg)
	})
	// The bits of a symbolic float are an opaque number that can be turned back.
	type fb struct{ bits, of map[*Term]*Term }
	fbmap := func(p *Path) *fb {
		m, _ := p.ext["fbits"].(*fb)
		if m == nil {
			m = &fb{map[*Term]*Term{}, map[*Term]*Term{}}
			p.ext["fbits"] = m
		}
		return m
	}
	fbits := func(p *Path, t *Term, s Sort) value {
		m := fbmap(p)
		b := m.bits[t]
		if b == nil {
			b = p.f.Var(s, fmt.Sprintf("fbits#%d", len(m.bits)))
			m.bits[t], m.of[b] = b, t
		}
		return b
	}
	reg("math.Float64bits", func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
		t := p.term(a[0], sF64)
		if t.op == OBitsF {
			return unterm(t.a[0])
		}
		return fbits(p, t, sU64)
	})
	reg("math.Float64frombits", func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(uint64); ok {
			return math.Float64frombits(x)
		}
		if t, ok := a[0].(*Term); ok && fbmap(p).of[t] != nil {
			return fbmap(p).of[t]
		}
		return unterm(p.f.BitsF(p.term(a[0], sU64)))
	})
	reg("math.Float32bits", func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return uint64(math.Float32bits(float32(x)))
		}
		return fbits(p, p.term(a[0], sF32), Sort{sU64.K, 32, sU64.S})
	})
	reg("math.Float32frombits", func(p *Path, fr *frame, a []value) value {
		if t, ok := a[0].(*Term); ok {
			if x := fbmap(p).of[t]; x != nil {
				return x
			}
			bail("Float32frombits of a symbolic value")
		}
		return float64(math.Float32frombits(uint32(a[0].(uint64))))
	})
	reg("math.Signbit", func(p *Path, fr *frame, a []value) value {
		if x, ok := a[0].(float64); ok {
			return math.Signbit(x)
		}
		if p.f.real {
			return p.fcmp(OFLt, a[0], 0.0, sF64)
		}
		if p.truth(p.fcmp(OFLt, a[0], 0.0, sF64)) {
			return true
		}
		if p.truth(p.fcmp(OFLt, 0.0, a[0], sF64)) {
			return false
		}
		bail("Signbit of a symbolic zero or NaN")
		return nil
	})
	reg("math.FMA", func(p *Path, fr *frame, a []value) value {
		return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64))
	})
	b1 := func(name string, w uint8, f func(uint64) int) {
		reg("math/bits."+name, func(p *Path, fr *frame, a []value) value {
			if x, ok := a[0].(uint64); ok {
				return bi(f(x))
			}
			return p.callRaw(fr, "math/bits", name, a)
		})
	}
	b1("Len", 64, bits.Len64)
	b1("Len64", 64, bits.Len64)
	b1("Len32", 32, func(x uint64) int { return bits.Len32(uint32(x)) })
	b1("TrailingZeros64", 64, bits.TrailingZeros64)
	b1("TrailingZeros", 64, bits.TrailingZeros64)
	b1("TrailingZeros32", 32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	b1("LeadingZeros64", 64, bits.LeadingZeros64)
	b1("OnesCount64", 64, bits.OnesCount64)

	// ---- sync ----
	gof := func(p *Path, fr *frame) *G {
		if fr != nil && fr.g != nil {
			return fr.g
		}
		return &G{id: 0}
	}
	reg("(*sync.Mutex).Lock", func(p *Path, fr *frame, a []value) value { p.lock(gof(p, fr), a[0], false); return nil })
	reg("(*sync.Mutex).Unlock", func(p *Path, fr *frame, a []value) value { p.unlock(gof(p, fr), a[0]); return nil })
	reg("(*sync.Mutex).TryLock", func(p *Path, fr *frame, a []value) value { return p.lock(gof(p, fr), a[0], true) })
	reg("(*internal/sync.Mutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*internal/sync.Mutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*internal/sync.Mutex).TryLock", intrinsics["(*sync.Mutex).TryLock"])
	reg("(*sync.RWMutex).Lock", func(p *Path, fr *frame, a []value) value { p.lock(gof(p, fr), a[0], false); return nil })
	reg("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).TryLock", func(p *Path, fr *frame, a []value) value { return p.lock(gof(p, fr), a[0], true) })
	reg("(*sync.RWMutex).RLock", func(p *Path, fr *frame, a []value) value { p.rlock(gof(p, fr), a[0], false); return nil })
	reg("(*sync.RWMutex).TryRLock", func(p *Path, fr *frame, a []value) value { return p.rlock(gof(p, fr), a[0], true) })
	reg("(*sync.RWMutex).RUnlock", func(p *Path, fr *frame, a []value) value { p.runlock(gof(p, fr), a[0]); return nil })
	reg("(*sync.noCopy).Lock", nop)
	reg("(*sync.noCopy).Unlock", nop)
	// Once
	reg("(*sync.Once).Do", func(p *Path, fr *frame, a []value) value {
		ptr := p.nilCheck(a[0])
		g := gof(p, fr)
		type ost struct{ state int }
		k := struct {
			k string
			p *value
		}{"once", ptr}
		o, _ := p.extAny(k).(*ost)
		if o == nil {
			o = &ost{}
			p.setExtAny(k, o)
		}
		p.schedPointIf(g, "Once", func() bool { return o.state != 1 }, dep{obj: k})
		if o.state == 1 {
			p.block(g, "Once", func() bool { return o.state == 2 })
		}
		if o.state == 0 {
			o.state = 1
			p.hold(g, dep{obj: k})
			ok := false
			func() {
				defer func() {
					if !ok {
						o.state = 2
						p.drop(g, k)
						p.touch(dep{obj: k, rel: true})
					}
				}()
				p.callClosure(fr, a[1].(*closure), nil)
				ok = true
			}()
			o.state = 2
			p.drop(g, k)
			p.touch(dep{obj: k, rel: true})
		}
		p.acqRel(g, k)
		return nil
	})
	// WaitGroup
	type wgst struct{ n int64 }
	wgOf := func(p *Path, a value) (*wgst, any) {
		k := struct {
			k string
			p *value
		}{"wg", p.nilCheck(a)}
		w, _ := p.extAny(k).(*wgst)
		if w == nil {
			w = &wgst{}
			p.setExtAny(k, w)
		}
		return w, k
	}
	wgAdd := func(p *Path, fr *frame, a value, d int64) {
		w, k := wgOf(p, a)
		p.schedPoint(gof(p, fr), dep{obj: k})
		w.n += d
		if w.n < 0 {
			panic(p.rtError("sync: negative WaitGroup counter"))
		}
		p.acqRel(gof(p, fr), k)
	}
	reg("(*sync.WaitGroup).Add", func(p *Path, fr *frame, a []value) value { wgAdd(p, fr, a[0], int64(p.concInt(a[1]))); return nil })
	reg("(*sync.WaitGroup).Done", func(p *Path, fr *frame, a []value) value { wgAdd(p, fr, a[0], -1); return nil })
	reg("(*sync.WaitGroup).Go", func(p *Path, fr *frame, a []value) value {
		wgAdd(p, fr, a[0], 1)
		f := a[1].(*closure)
		wgv := a[0]
		p.spawn(fr.g, &closure{name: "wg.Go", native: func(p *Path, fr *frame, _ []value) value {
			p.callClosure(fr, f, nil)
			wgAdd(p, fr, wgv, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(p *Path, fr *frame, a []value) value {
		w, k := wgOf(p, a[0])
		g := gof(p, fr)
		p.schedPointIf(g, "WaitGroup.Wait", func() bool { return w.n == 0 }, dep{obj: k})
		if w.n > 0 {
			p.block(g, "WaitGroup.Wait", func() bool { return w.n == 0 })
		}
		p.acqRel(g, k)
		return nil
	})
	// Cond
	type cst struct{ waiters []*G }
	condOf := func(p *Path, a value) (*cst, structure) {
		ptr := p.nilCheck(a)
		k := struct {
			k string
			p *value
		}{"cond", ptr}
		c, _ := p.extAny(k).(*cst)
		if c == nil {
			c = &cst{}
			p.setExtAny(k, c)
		}
		return c, (*ptr).(structure)
	}
	lockerCall := func(p *Path, fr *frame, st structure, m string) {
		for _, f := range st {
			if l, ok := f.(iface); ok && l.t != nil {
				fn := p.P.lookupMethod(l.t, nil, m)
				p.call(fr, p.P.cf(fn), []value{l.v}, nil)
				return
			}
		}
		bail("sync.Cond without a Locker")
	}
	reg("(*sync.Cond).Wait", func(p *Path, fr *frame, a []value) value {
		c, st := condOf(p, a[0])
		g := gof(p, fr)
		p.schedPoint(g, dep{obj: c})
		c.waiters = append(c.waiters, g)
		lockerCall(p, fr, st, "Unlock")
		p.block(g, "Cond.Wait", func() bool {
			for _, w := range c.waiters {
				if w == g {
					return false
				}
			}
			return true
		})
		lockerCall(p, fr, st, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(p *Path, fr *frame, a []value) value {
		c, _ := condOf(p, a[0])
		p.schedPoint(gof(p, fr), dep{obj: c})
		if len(c.waiters) > 0 {
			c.waiters = append([]*G(nil), c.waiters[1:]...)
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(p *Path, fr *frame, a []value) value {
		c, _ := condOf(p, a[0])
		p.schedPoint(gof(p, fr), dep{obj: c})
		c.waiters = nil
		return nil
	})
	// Pool
	reg("(*sync.Pool).Get", func(p *Path, fr *frame, a []value) value {
		st := (*p.nilCheck(a[0])).(structure)
		for _, f := range st {
			if cl, ok := f.(*closure); ok {
				if cl == nil {
					return iface{}
				}
				return p.callClosure(fr, cl, nil)
			}
		}
		return iface{}
	})
	reg("(*sync.Pool).Put", nop)
	// sync.Map
	smOf := func(p *Path, a value) (*hmap, any) {
		k := struct {
			k string
			p *value
		}{"smap", p.nilCheck(a)}
		m, _ := p.extAny(k).(*hmap)
		if m == nil {
			m = newMap(types.NewInterfaceType(nil, nil))
			p.setExtAny(k, m)
		}
		return m, k
	}
	sm := func(name string, f func(p *Path, fr *frame, m *hmap, a []value) value) {
		reg("(*sync.Map)."+name, func(p *Path, fr *frame, a []value) value {
			g := gof(p, fr)
			m, k := smOf(p, a[0])
			p.schedPoint(g, dep{obj: k})
			p.acqRel(g, k)
			return f(p, fr, m, a[1:])
		})
	}
	sm("Load", func(p *Path, fr *frame, m *hmap, a []value) value {
		if e := p.mapFind(m, a[0]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	sm("Store", func(p *Path, fr *frame, m *hmap, a []value) value { p.mapSet(m, a[0], a[1]); return nil })
	sm("LoadOrStore", func(p *Path, fr *frame, m *hmap, a []value) value {
		if e := p.mapFind(m, a[0]); e != nil {
			return tuple{e.v, true}
		}
		p.mapSet(m, a[0], a[1])
		return tuple{a[1], false}
	})
	sm("LoadAndDelete", func(p *Path, fr *frame, m *hmap, a []value) value {
		if e := p.mapFind(m, a[0]); e != nil {
			v := e.v
			p.mapDelete(m, a[0])
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	})
	sm("Delete", func(p *Path, fr *frame, m *hmap, a []value) value { p.mapDelete(m, a[0]); return nil })
	sm("Swap", func(p *Path, fr *frame, m *hmap, a []value) value {
		var old value = iface{}
		had := false
		if e := p.mapFind(m, a[0]); e != nil {
			old, had = e.v, true
		}
		p.mapSet(m, a[0], a[1])
		return tuple{old, had}
	})
	sm("CompareAndSwap", func(p *Path, fr *frame, m *hmap, a []value) value {
		e := p.mapFind(m, a[0])
		if e == nil || !p.truth(p.equals(nil, e.v, a[1])) {
			return false
		}
		e.v = a[2]
		return true
	})
	sm("CompareAndDelete", func(p *Path, fr *frame, m *hmap, a []value) value {
		e := p.mapFind(m, a[0])
		if e == nil || !p.truth(p.equals(nil, e.v, a[1])) {
			return false
		}
		p.mapDelete(m, a[0])
		return true
	})
	sm("Clear", func(p *Path, fr *frame, m *hmap, a []value) value {
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			p.mapDelete(m, e.k)
		}
		return nil
	})
	sm("Range", func(p *Path, fr *frame, m *hmap, a []value) value {
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			if e.deleted {
				continue
			}
			if !p.truth(p.callClosure(fr, a[0].(*closure), []value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	at := func(name string, f func(p *Path, ptr *value, a []value) value) {
		reg("sync/atomic."+name, func(p *Path, fr *frame, a []value) value {
			g := gof(p, fr)
			ptr := p.nilCheck(a[0])
			k := struct {
				k string
				p *value
			}{"atomic", ptr}
			p.schedPoint(g, dep{obj: k, read: strings.HasPrefix(name, "Load")})
			if strings.HasPrefix(name, "Load") {
				if g != nil {
					joinVC(&g.vc, *p.syncVC(k))
				}
			} else {
				p.acqRel(g, k)
			}
			if p.raceOn {
				p.accessAtomic(ptr, !strings.HasPrefix(name, "Load"))
			}
			return f(p, ptr, a[1:])
		})
	}
	for _, ty := range []struct {
		n string
		s Sort
	}{{"Int32", Sort{'i', 32, true}}, {"Int64", sI64}, {"Uint32", Sort{'i', 32, false}}, {"Uint64", sU64}, {"Uintptr", sU64}, {"Pointer", Sort{}}} {
		s := ty.s
		at("Load"+ty.n, func(p *Path, ptr *value, a []value) value { return *ptr })
		at("Store"+ty.n, func(p *Path, ptr *value, a []value) value { *ptr = a[0]; return nil })
		at("Swap"+ty.n, func(p *Path, ptr *value, a []value) value { o := *ptr; *ptr = a[0]; return o })
		at("CompareAndSwap"+ty.n, func(p *Path, ptr *value, a []value) value {
			var eq value
			if s.K == 0 {
				eq = *ptr == a[0]
			} else {
				eq = p.intEq(*ptr, a[0], s)
			}
			if p.truth(eq) {
				*ptr = a[1]
				return true
			}
			return false
		})
		if s.K == 'i' {
			at("Add"+ty.n, func(p *Path, ptr *value, a []value) value {
				if x, ok := (*ptr).(uint64); ok {
					if y, ok := a[0].(uint64); ok {
						*ptr = norm(s, x+y)
						return *ptr
					}
				}
				*ptr = unterm(p.f.IntBin(OAdd, p.term(*ptr, s), p.term(a[0], s)))
				return *ptr
			})
			for nm, op := range map[string]Op{"And": OBAnd, "Or": OBOr} {
				op := op
				at(nm+ty.n, func(p *Path, ptr *value, a []value) value {
					o := *ptr
					*ptr = unterm(p.f.IntBin(op, p.term(*ptr, s), p.term(a[0], s)))
					return o
				})
			}
		}
	}
	av := func(name string, f func(p *Path, st structure, a []value) value) {
		reg("(*sync/atomic.Value)."+name, func(p *Path, fr *frame, a []value) value {
			g := gof(p, fr)
			ptr := p.nilCheck(a[0])
			k := struct {
				k string
				p *value
			}{"atomic", ptr}
			p.schedPoint(g, dep{obj: k, read: strings.HasPrefix(name, "Load")})
			if strings.HasPrefix(name, "Load") {
				if g != nil {
					joinVC(&g.vc, *p.syncVC(k))
				}
			} else {
				p.acqRel(g, k)
			}
			return f(p, (*ptr).(structure), a[1:])
		})
	}
	avStore := func(p *Path, st structure, v value) {
		n := v.(iface)
		o := st[0].(iface)
		if n.t == nil {
			panic(targetPanic{v: iface{types.Typ[types.String], "sync/atomic: store of nil value into Value"}, where: "atomic.Value"})
		}
		if o.t != nil && !identical(o.t, n.t) {
			panic(targetPanic{v: iface{types.Typ[types.String], "sync/atomic: store of inconsistently typed value into Value"}, where: "atomic.Value"})
		}
		st[0] = n
	}
	av("Load", func(p *Path, st structure, a []value) value { return st[0] })
	av("Store", func(p *Path, st structure, a []value) value { avStore(p, st, a[0]); return nil })
	av("Swap", func(p *Path, st structure, a []value) value { o := st[0]; avStore(p, st, a[0]); return o })
	av("CompareAndSwap", func(p *Path, st structure, a []value) value {
		if !p.truth(p.equals(nil, st[0], a[0])) {
			return false
		}
		avStore(p, st, a[1])
		return true
	})

	// ---- runtime, os, time ----
	reg("runtime.Gosched", func(p *Path, fr *frame, a []value) value {
		if !p.concOn {
			p.yield(fr.g)
		} else if !p.por {
			p.schedPoint(fr.g)
		}
		return nil
	})
	reg("runtime.NumGoroutine", func(p *Path, fr *frame, a []value) value {
		n := 0
		for _, g := range p.gs {
			if !g.done {
				n++
			}
		}
		return bi(n)
	})
	reg("runtime.Version", func(p *Path, fr *frame, a []value) value { return "go1.27.3" })
	reg("runtime.GC", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.GOMAXPROCS", func(p *Path, fr *frame, a []value) value { return bi(8) })
	reg("runtime.NumCPU", func(p *Path, fr *frame, a []value) value { return bi(8) })
	reg("os.runtime_args", func(p *Path, fr *frame, a []value) value { return []value{"prog", "-x", "y"} })
	reg("os.Getpid", func(p *Path, fr *frame, a []value) value { return bi(4242) })
	reg("os.Getenv", func(p *Path, fr *frame, a []value) value { return "" })
	reg("os.Exit", func(p *Path, fr *frame, a []value) value { panic(pathEnd{"fatal", "os.Exit"}) })
	reg("internal/godebug.New", func(p *Path, fr *frame, a []value) value { return (*value)(nil) })
	reg("(*internal/godebug.Setting).Value", func(p *Path, fr *frame, a []value) value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("time.initLocal", nop)
	reg("time.runtimeNow", func(p *Path, fr *frame, a []value) value { bail("runtimeNow"); return nil })
	reg("time.runtimeNano", func(p *Path, fr *frame, a []value) value { return uint64(p.now) })
	reg("time.Now", func(p *Path, fr *frame, a []value) value { return p.timeNow() })
	reg("time.Since", func(p *Path, fr *frame, a []value) value {
		fn := p.P.lookupMethod(p.timeType(), nil, "Sub")
		return p.call(fr, p.P.cf(fn), []value{p.timeNow(), a[0]}, nil)
	})
	reg("time.Sleep", func(p *Path, fr *frame, a []value) value {
		g := fr.g
		d := int64(p.concInt(a[0]))
		if d < 1 {
			d = 1
		}
		if p.concOn {
			p.schedPoint(g)
		}
		g.sleep = p.now + d
		p.block(g, "Sleep", func() bool { return p.now >= g.sleep })
		g.sleep = 0
		return nil
	})
	// A timer is a goroutine that sleeps: it goes off when nothing else can run.
	type timer struct {
		gen    int
		active bool
		f, arg value
	}
	timers := func(p *Path) map[*value]*timer {
		m, _ := p.ext["timers"].(map[*value]*timer)
		if m == nil {
			m = map[*value]*timer{}
			p.ext["timers"] = m
		}
		return m
	}
	arm := func(p *Path, fr *frame, t *timer, when, period int64) {
		t.gen++
		gen := t.gen
		t.active = true
		p.spawn(fr.g, &closure{name: "timer", native: func(p *Path, fr *frame, _ []value) value {
			g := fr.g
			for {
				g.sleep = when
				if g.sleep < 1 {
					g.sleep = 1
				}
				p.block(g, "timer", func() bool { return p.now >= g.sleep })
				g.sleep = 0
				if t.gen != gen || !t.active {
					return nil
				}
				if period == 0 {
					t.active = false
				}
				p.callClosure(fr, t.f.(*closure), []value{t.arg, uint64(0), uint64(0)})
				if period == 0 {
					return nil
				}
				when = p.now + period
			}
		}}, nil)
	}
	reg("time.syncTimer", func(p *Path, fr *frame, a []value) value { return (*value)(nil) })
	reg("time.newTimer", func(p *Path, fr *frame, a []value) value {
		s := zero(p.typeIn("time", "Timer")).(structure)
		s[1] = true
		v := new(value)
		*v = s
		t := &timer{f: a[2], arg: a[3]}
		timers(p)[v] = t
		arm(p, fr, t, int64(p.concInt(a[0])), int64(p.concInt(a[1])))
		return v
	})
	reg("time.stopTimer", func(p *Path, fr *frame, a []value) value {
		t := timers(p)[p.nilCheck(a[0])]
		if t == nil {
			bail("time.stopTimer")
		}
		was := t.active
		t.active = false
		t.gen++
		return was
	})
	reg("time.resetTimer", func(p *Path, fr *frame, a []value) value {
		t := timers(p)[p.nilCheck(a[0])]
		if t == nil {
			bail("time.resetTimer")
		}
		was := t.active
		arm(p, fr, t, int64(p.concInt(a[1])), int64(p.concInt(a[2])))
		return was
	})
	reg("syscall.Getrusage", func(p *Path, fr *frame, a []value) value {
		h, _ := p.ext["rusage"].(*closure)
		if h == nil {
			return iface{}
		}
		return p.callClosure(fr, h, a)
	})
	reg("runtime.ReadMemStats", func(p *Path, fr *frame, a []value) value {
		h, _ := p.ext["memstats"].(*closure)
		if h != nil {
			p.callClosure(fr, h, a)
		}
		return nil
	})
	reg("os.Open", func(p *Path, fr *frame, a []value) value {
		f := new(value)
		*f = structure{}
		return tuple{f, iface{}}
	})
	reg("(*os.File).Close", func(p *Path, fr *frame, a []value) value { return iface{} })
	fds := func(p *Path) int {
		n, ok := p.ext["nfds"].(int)
		if !ok {
			n = 3
		}
		return n
	}
	reg("(*os.File).Readdirnames", func(p *Path, fr *frame, a []value) value {
		r := []value{}
		for i := 0; i < fds(p); i++ {
			r = append(r, strconv.Itoa(i))
		}
		return tuple{r, iface{}}
	})
	reg("os.ReadDir", func(p *Path, fr *frame, a []value) value {
		r := []value{}
		for i := 0; i < fds(p); i++ {
			r = append(r, iface{})
		}
		return tuple{r, iface{}}
	})
	reg("log.New", func(p *Path, fr *frame, a []value) value {
		v := new(value)
		*v = zero(p.P.pkgs["log"].Pkg.Scope().Lookup("Logger").Type())
		return v
	})
	for _, n := range []string{"Printf", "Println", "Print", "Output"} {
		reg("(*log.Logger)."+n, nop)
		reg("log."+n, nop)
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		reg("log."+n, func(p *Path, fr *frame, a []value) value { panic(pathEnd{"fatal", "log.Fatal"}) })
	}
	reg("encoding/gob.Register", func(p *Path, fr *frame, a []value) value { p.gobRegister(a[0].(iface)); return nil })
	reg("encoding/gob.RegisterName", func(p *Path, fr *frame, a []value) value { p.gobRegister(a[1].(iface)); return nil })
	reg("unique.Make[T comparable]", func(p *Path, fr *frame, a []value) value { bail("unique.Make"); return nil })
	_ = fmt.Sprint
	_ = big.NewInt
}

func (p *Path) extAny(k any) any {
	m, _ := p.ext["#any"].(map[any]any)
	return m[k]
}

func (p *Path) setExtAny(k, v any) {
	m, _ := p.ext["#any"].(map[any]any)
	if m == nil {
		m = map[any]any{}
		p.ext["#any"] = m
	}
	m[k] = v
}

func (p *Path) timeType() types.Type { return p.P.pkgs["time"].Pkg.Scope().Lookup("Time").Type() }

const unixToInternal = 62135596800

func (p *Path) timeNow() value {
	p.nowCount++
	p.now += 1000003
	loc := *p.gname("time", "Local")
	ns := p.now
	return structure{uint64(ns % 1e9), uint64(ns/1e9 + unixToInternal), loc}
}

// callRaw interprets a function that normally has an intrinsic.
func (p *Path) callRaw(fr *frame, pkg, name string, args []value) value {
	fn := p.P.pkgs[pkg].Func(name)
	if fn == nil || len(fn.Blocks) == 0 {
		bail("no body for %s.%s", pkg, name)
	}
	c := &cfunc{fn: fn, name: fnName(fn)}
	key := rawKey{fn}
	if x, ok := p.P.funcs.Load(key); ok {
		c = x.(*cfunc)
	} else {
		x, _ := p.P.funcs.LoadOrStore(key, c)
		c = x.(*cfunc)
	}
	return p.call(fr, c, args, nil)
}

type rawKey struct{ fn any }

func (p *Path) mapOrder(m *hmap) []*mapEntry {
	if p.ext["maprev"] == true {
		n := len(m.ents)
		r := make([]*mapEntry, n)
		for i, e := range m.ents {
			r[n-1-i] = e
		}
		return r
	}
	return m.ents[:len(m.ents):len(m.ents)]
}
