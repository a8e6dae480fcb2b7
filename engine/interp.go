package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var _ = constant.Int
var debugEngine = os.Getenv("SYMGO_DEBUG") != ""

type targetPanic struct {
	v     iface
	where string
}

type pathEnd struct{ kind, msg string } // normal termination of the path's exploration
type killedG struct{}

type deferred struct {
	cl   *closure
	bi   *ssa.Builtin
	call *ssa.CallCommon
	args []value
	tail *deferred
}

type frame struct {
	p         *Path
	g         *G
	caller    *frame
	c         *cfunc
	env       []value
	block     *cblock
	prev      int
	defers    **deferred
	ownDefers *deferred
	result    value
	panicking bool
	panicV    targetPanic
	cur       *cinstr
	lenient   bool
	done      bool
}

func (p *Path) rtError(msg string) targetPanic {
	return targetPanic{v: iface{t: p.P.errorString, v: msg}, where: msg}
}

func (fr *frame) get(o *operand) value {
	switch o.k {
	case okSlot:
		return fr.env[o.slot]
	case okConst:
		switch o.v.(type) {
		case structure, array:
			return copyVal(o.v)
		}
		return o.v
	case okGlobal:
		return fr.p.global(int(o.slot))
	}
	return nil
}

// call invokes a compiled function.
func (p *Path) call(caller *frame, c *cfunc, args []value, env []value) value {
	if c.intr != nil {
		return c.intr(p, caller, args)
	}
	p.depth++
	if p.depth > 4000 {
		panic(pathEnd{"limit", "call depth"})
	}
	defer func() { p.depth-- }()
	P := p.P
	if len(c.fn.Blocks) == 0 {
		bail("external function %s", c.name)
	}
	P.compile(c)
	if c.err != "" {
		bail("cannot compile %s: %s", c.name, c.err)
	}
	if c.target {
		if _, ok := P.usedFns.Load(c); !ok {
			P.usedFns.Store(c, true)
		}
	}
	fr := &frame{p: p, caller: caller, c: c, env: make([]value, c.nslots)}
	if caller != nil {
		fr.g = caller.g
	}
	fr.defers = &fr.ownDefers
	for i, s := range c.params {
		fr.env[s] = args[i]
	}
	for i, s := range c.free {
		fr.env[s] = env[i]
	}
	fr.block = &c.blocks[0]
	fr.prev = -1
	if c.fn.Recover != nil || c.recover >= 0 {
		for !fr.done {
			fr.runGuarded()
		}
	} else {
		fr.run()
	}
	return fr.result
}

func (fr *frame) runGuarded() {
	depth := fr.p.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			if r == nil {
				panic(unsupported{"runtime.Goexit"})
			}
			panic(wrapEngine(r))
		}
		fr.p.depth = depth
		fr.panicking = true
		fr.panicV = tp
		fr.runDefers()
		fr.block = nil
		if fr.c.fn.Recover != nil {
			fr.block = &fr.c.blocks[fr.c.recover]
			fr.prev = -1
		} else {
			fr.result = zero(fr.c.fn.Signature.Results())
			if fr.c.fn.Signature.Results().Len() == 1 {
				fr.result = zero(fr.c.fn.Signature.Results().At(0).Type())
			}
			fr.done = true
		}
	}()
	fr.run()
}

type engineBug struct {
	v     any
	stack string
}

func wrapEngine(r any) any {
	switch r.(type) {
	case unsupported, pathEnd, killedG, engineBug, targetPanic:
		return r
	}
	return engineBug{r, string(debug.Stack())}
}

// runDefers runs deferred calls; re-panics if still panicking.
func (fr *frame) runDefers() {
	for *fr.defers != nil {
		d := *fr.defers
		*fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.p.depth
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(wrapEngine(r))
			}
			fr.p.depth = depth
			fr.panicking = true
			fr.panicV = tp
		}
	}()
	if d.bi != nil {
		fr.builtin(d.bi, d.call, d.args)
	} else {
		fr.p.callClosure(fr, d.cl, d.args)
	}
	ok = true
}

func (p *Path) callClosure(caller *frame, cl *closure, args []value) value {
	if cl == nil {
		panic(p.rtError("invalid memory address or nil pointer dereference"))
	}
	if cl.native != nil {
		return cl.native(p, caller, args)
	}
	return p.call(caller, p.P.cf(cl.fn), args, cl.env)
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.c != nil && f.c.target {
			if f.cur != nil {
				pos := f.p.P.prog.Fset.Position(f.cur.in.Pos())
				return fmt.Sprintf("%s (%s)", f.c.name, pos)
			}
			return f.c.name
		}
	}
	if fr != nil && fr.c != nil {
		return fr.c.name
	}
	return "?"
}

func (fr *frame) stack() string {
	s := ""
	for f := fr; f != nil; f = f.caller {
		if f.c != nil {
			s += f.c.name
			if f.cur != nil {
				s += fmt.Sprintf(" [%s %s]", f.cur.in, f.p.P.prog.Fset.Position(f.cur.in.Pos()))
			}
			s += "\n"
		}
	}
	return s
}

func (fr *frame) run() {
	p := fr.p
	for {
		b := fr.block
		if len(b.phis) > 0 {
			preds := fr.c.fn.Blocks[b.idx].Preds
			pi := -1
			for i, pr := range preds {
				if pr.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.env[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
			} else {
				var tmp [8]value
				var vals []value
				if len(b.phis) <= 8 {
					vals = tmp[:len(b.phis)]
				} else {
					vals = make([]value, len(b.phis))
				}
				for i := range b.phis {
					vals[i] = fr.get(&b.phis[i].edges[pi])
				}
				for i := range b.phis {
					fr.env[b.phis[i].dst] = vals[i]
				}
			}
		}
		for i := range b.instrs {
			ci := &b.instrs[i]
			p.steps++
			if p.steps > p.maxSteps {
				panic(pathEnd{"limit", "instruction limit in " + fr.where()})
			}
			fr.cur = ci
			p.curFr = fr
			switch ci.code {
			case cJump:
				fr.prev = b.idx
				fr.block = &fr.c.blocks[b.succs[0]]
			case cIf:
				fr.prev = b.idx
				if p.truth(fr.get(&ci.a)) {
					fr.block = &fr.c.blocks[b.succs[0]]
				} else {
					fr.block = &fr.c.blocks[b.succs[1]]
				}
				if fr.block.idx <= b.idx {
					// back edge: nothing to do, bounded by the instruction limit
				}
			case cReturn:
				switch len(ci.args) {
				case 0:
				case 1:
					fr.result = copyVal(fr.get(&ci.args[0]))
				default:
					t := make(tuple, len(ci.args))
					for j := range ci.args {
						t[j] = copyVal(fr.get(&ci.args[j]))
					}
					fr.result = t
				}
				fr.done = true
				return
			case cPanic:
				v := fr.get(&ci.a)
				chkPoison(v)
				iv := v.(iface)
				if iv.t == nil {
					panic(p.rtError("panic called with nil argument"))
				}
				panic(targetPanic{v: iv, where: fr.where()})
			default:
				if fr.lenient {
					fr.execLenient(ci)
				} else {
					fr.exec(ci)
				}
			}
		}
	}
}

func (fr *frame) execLenient(ci *cinstr) {
	depth := fr.p.depth
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				fr.p.depth = depth
				if ci.dst >= 0 {
					fr.env[ci.dst] = poison{x.msg}
				}
			case targetPanic:
				fr.p.depth = depth
				if ci.dst >= 0 {
					fr.env[ci.dst] = poison{"panic in std init: " + x.where}
				}
			case engineBug:
				fr.p.depth = depth
				if ci.dst >= 0 {
					fr.env[ci.dst] = poison{fmt.Sprint(x.v)}
				}
			case killedG, pathEnd:
				panic(r)
			default:
				fr.p.depth = depth
				if ci.dst >= 0 {
					fr.env[ci.dst] = poison{fmt.Sprint(x)}
				}
			}
		}
	}()
	fr.exec(ci)
}

func (p *Path) nilCheck(v value) *value {
	a, ok := v.(*value)
	if !ok {
		chkPoison(v)
		bail("pointer is %T", v)
	}
	if a == nil {
		panic(p.rtError("invalid memory address or nil pointer dereference"))
	}
	return a
}

func (p *Path) load(v value) value {
	switch a := v.(type) {
	case *value:
		if a == nil {
			panic(p.rtError("invalid memory address or nil pointer dereference"))
		}
		if p.raceOn {
			p.access(a, false)
		}
		x := *a
		switch x.(type) {
		case structure, array:
			return copyVal(x)
		}
		return x
	case *symAddr:
		return p.selectElem(a.elems, a.idx)
	}
	chkPoison(v)
	bail("load through %T", v)
	return nil
}

func (p *Path) store(v value, x value) {
	switch a := v.(type) {
	case *value:
		if a == nil {
			panic(p.rtError("invalid memory address or nil pointer dereference"))
		}
		if p.raceOn {
			p.access(a, true)
		}
		switch x.(type) {
		case structure, array:
			assign(a, x)
		default:
			*a = x
		}
		return
	case *symAddr:
		i := p.concretize(a.idx)
		a.elems[i] = x
		return
	}
	chkPoison(v)
	bail("store through %T", v)
}

// selectElem reads elems[idx] for an in-range symbolic idx without forking when elements are scalar.
func (p *Path) selectElem(elems []value, idx *Term) value {
	var s Sort
	var all = true
	for _, e := range elems {
		switch x := e.(type) {
		case *Term:
			s = x.sort
		case uint64, bool, float64:
		default:
			all = false
		}
	}
	strs := !all
	for _, e := range elems {
		if _, ok := e.(string); !ok {
			strs = false
			break
		}
	}
	if (!all && !strs) || len(elems) > 1024 {
		return copyVal(elems[p.concretize(idx)])
	}
	if s.K == 0 && !strs {
		switch elems[0].(type) {
		case bool:
			s = sBool
		case uint64:
			// sort unknown: widest; caller's static type decides; use u64/i64 canonical
			s = Sort{}
		case float64:
			s = sF64
		}
	}
	if s.K == 0 {
		s = p.selSort
	}
	// group equal concrete values
	type grp struct {
		v    value
		cond *Term
		n    int
	}
	var gs []*grp
	byVal := map[value]*grp{}
	lo, hi := 0, len(elems)-1
	if idx.lo.IsInt64() && idx.lo.Int64() > 0 {
		lo = int(idx.lo.Int64())
	}
	if idx.hi.IsInt64() && idx.hi.Int64() < int64(hi) {
		hi = int(idx.hi.Int64())
	}
	// build ranges per value
	i := lo
	for i <= hi {
		j := i
		for j+1 <= hi && elems[j+1] == elems[i] {
			j++
		}
		var c *Term
		if i == j {
			c = p.f.Eq(idx, p.f.Int(idx.sort, uint64(i)))
		} else {
			c = p.f.And(p.f.Le(p.f.Int(idx.sort, uint64(i)), idx), p.f.Le(idx, p.f.Int(idx.sort, uint64(j))))
		}
		g := byVal[elems[i]]
		if g == nil {
			g = &grp{v: elems[i], cond: c}
			byVal[elems[i]] = g
			gs = append(gs, g)
		} else {
			g.cond = p.f.Or(g.cond, c)
		}
		g.n++
		i = j + 1
	}
	if len(gs) > 64 {
		return elems[p.concretize(idx)]
	}
	if strs {
		// one branch per distinct string, the most spread out one last
		best := 0
		for k, g := range gs {
			if g.n > gs[best].n {
				best = k
			}
		}
		for k, g := range gs {
			if k != best && p.truth(unterm(g.cond)) {
				return g.v
			}
		}
		return gs[best].v
	}
	// the group with most ranges is the default
	best := 0
	for k, g := range gs {
		if g.n > gs[best].n {
			best = k
		}
	}
	r := p.term(gs[best].v, s)
	for k := len(gs) - 1; k >= 0; k-- {
		if k == best {
			continue
		}
		r = p.f.Ite(gs[k].cond, p.term(gs[k].v, s), r)
	}
	return unterm(r)
}

// index checks bounds (forking when symbolic) and returns a concrete index or a term known to be in range.
func (p *Path) boundsIdx(v value, s Sort, n int) (int, *Term) {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if i < 0 || i >= int64(n) || (!s.S && x >= uint64(n)) {
			panic(p.rtError(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	case *Term:
		c := p.f.Lt(x, p.f.Int(x.sort, uint64(n)))
		if uint64(n) > maxOf(x.sort) {
			c = p.f.True
		}
		if x.sort.S {
			c = p.f.And(c, p.f.Le(p.f.Int(x.sort, 0), x))
		}
		if !p.truth(unterm(c)) {
			panic(p.rtError("index out of range"))
		}
		return 0, x
	}
	chkPoison(v)
	bail("index %T", v)
	return 0, nil
}

func maxOf(s Sort) uint64 { return ranges[s].hi.Uint64() }

func (p *Path) concInt(v value) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(int64(p.concretize(x)))
	}
	chkPoison(v)
	bail("int expected, have %T", v)
	return 0
}

func (fr *frame) exec(ci *cinstr) {
	p := fr.p
	switch ci.code {
	case cUnOp:
		fr.env[ci.dst] = fr.unop(ci)
	case cBinOp:
		fr.env[ci.dst] = p.binop(ci.tok, ci.typ, ci.sort, ci.sort2, fr.get(&ci.a), fr.get(&ci.b))
	case cStore:
		p.store(fr.get(&ci.a), fr.get(&ci.b))
	case cFieldAddr:
		a := fr.get(&ci.a)
		ptr := p.nilCheck(a)
		st, ok := (*ptr).(structure)
		if !ok {
			chkPoison(*ptr)
			bail("field address of %T in %s", *ptr, fr.c.name)
		}
		fr.env[ci.dst] = &st[ci.n]
	case cField:
		x := fr.get(&ci.a)
		st, ok := x.(structure)
		if !ok {
			chkPoison(x)
			bail("field of %T", x)
		}
		fr.env[ci.dst] = copyVal(st[ci.n])
	case cIndexAddr:
		x := fr.get(&ci.a)
		var elems []value
		switch s := x.(type) {
		case []value:
			elems = s
		case *value:
			a := p.nilCheck(s)
			arr, ok := (*a).(array)
			if !ok {
				chkPoison(*a)
				bail("index address of %T", *a)
			}
			elems = arr
		default:
			chkPoison(x)
			bail("index address of %T", x)
		}
		i, t := p.boundsIdx(fr.get(&ci.b), ci.sort, len(elems))
		if t != nil {
			fr.env[ci.dst] = &symAddr{elems, t}
		} else {
			fr.env[ci.dst] = &elems[i]
		}
	case cIndex:
		x := fr.get(&ci.a)
		switch s := x.(type) {
		case array:
			i, t := p.boundsIdx(fr.get(&ci.b), ci.sort, len(s))
			if t != nil {
				p.selSort = ci.sort2
				fr.env[ci.dst] = p.selectElem(s, t)
			} else {
				fr.env[ci.dst] = copyVal(s[i])
			}
		case string, *SStr:
			i, t := p.boundsIdx(fr.get(&ci.b), ci.sort, strLen(s))
			if t != nil {
				p.selSort = sU8
				fr.env[ci.dst] = p.selectElem(strBytes(s), t)
			} else {
				fr.env[ci.dst] = strAt(s, i)
			}
		default:
			chkPoison(x)
			bail("index of %T", x)
		}
	case cAlloc:
		a := new(value)
		*a = zero(ci.typ)
		fr.env[ci.dst] = a
	case cCall:
		fr.env[ci.dst] = fr.doCall(ci)
	case cDefer:
		d := &deferred{}
		fr.prepDefer(ci, d)
		stk := fr.defers
		if ci.d.k != okNone {
			if s, ok := fr.get(&ci.d).(**deferred); ok {
				stk = s
			} else if ps, ok := fr.get(&ci.d).(*value); ok && ps != nil {
				if s, ok := (*ps).(**deferred); ok {
					stk = s
				}
			}
		}
		d.tail = *stk
		*stk = d
	case cGo:
		d := &deferred{}
		fr.prepDefer(ci, d)
		if d.bi != nil {
			bail("go builtin")
		}
		p.spawn(fr.g, d.cl, d.args)
	case cRunDefers:
		fr.runDefers()
	case cChangeInterface, cChangeType:
		fr.env[ci.dst] = fr.get(&ci.a)
	case cConvert:
		fr.env[ci.dst] = p.convert(ci.typ, ci.typ2, ci.sort, ci.sort2, fr.get(&ci.a))
	case cExtract:
		x := fr.get(&ci.a)
		t, ok := x.(tuple)
		if !ok {
			chkPoison(x)
			bail("extract from %T", x)
		}
		fr.env[ci.dst] = t[ci.n]
	case cMakeInterface:
		v := fr.get(&ci.a)
		fr.env[ci.dst] = iface{ci.typ, copyVal(v)}
	case cMakeClosure:
		env := make([]value, len(ci.args))
		for i := range ci.args {
			env[i] = fr.get(&ci.args[i])
		}
		fr.env[ci.dst] = &closure{fn: ci.fn.fn, env: env}
	case cMakeMap:
		fr.env[ci.dst] = newMap(ci.typ)
	case cMakeSlice:
		n, c := p.concInt(fr.get(&ci.a)), p.concInt(fr.get(&ci.b))
		if n < 0 || n > 1<<24 {
			panic(p.rtError("makeslice: len out of range"))
		}
		if c < n || c > 1<<24 {
			panic(p.rtError("makeslice: cap out of range"))
		}
		s := make([]value, c)
		fillZero(s, ci.typ)
		fr.env[ci.dst] = s[:n]
	case cMapUpdate:
		m, ok := fr.get(&ci.a).(*hmap)
		if !ok {
			bail("map update on %T", fr.get(&ci.a))
		}
		if m == nil {
			panic(targetPanic{v: iface{p.P.errorString, "assignment to entry in nil map"}, where: fr.where()})
		}
		if p.raceOn {
			p.accessObj(m, true)
		}
		p.mapSet(m, fr.get(&ci.b), copyVal(fr.get(&ci.c)))
	case cLookup:
		x := fr.get(&ci.a)
		switch s := x.(type) {
		case *hmap:
			if p.raceOn && s != nil {
				p.accessObj(s, false)
			}
			e := p.mapFind(s, fr.get(&ci.b))
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(ci.typ2)
			}
			if ci.commaOk {
				fr.env[ci.dst] = tuple{v, e != nil}
			} else {
				fr.env[ci.dst] = v
			}
		case string, *SStr:
			i, t := p.boundsIdx(fr.get(&ci.b), ci.sort, strLen(s))
			if t != nil {
				p.selSort = sU8
				fr.env[ci.dst] = p.selectElem(strBytes(s), t)
			} else {
				fr.env[ci.dst] = strAt(s, i)
			}
		default:
			chkPoison(x)
			bail("lookup in %T", x)
		}
	case cRange:
		x := fr.get(&ci.a)
		switch s := x.(type) {
		case *hmap:
			it := &mapIter{}
			if s != nil {
				if p.raceOn {
					p.accessObj(s, false)
				}
				it.ents = p.mapOrder(s)
			}
			fr.env[ci.dst] = it
		case string, *SStr:
			fr.env[ci.dst] = &strIter{s: s}
		default:
			chkPoison(x)
			bail("range over %T", x)
		}
	case cNext:
		switch it := fr.get(&ci.a).(type) {
		case *mapIter:
			tt := ci.typ.(*types.Tuple)
			for it.i < len(it.ents) && it.ents[it.i].deleted {
				it.i++
			}
			if it.i >= len(it.ents) {
				z := func(t types.Type) value {
					if t == nil || t == types.Typ[types.Invalid] {
						return nil
					}
					return zero(t)
				}
				fr.env[ci.dst] = tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
			} else {
				e := it.ents[it.i]
				it.i++
				fr.env[ci.dst] = tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		case *strIter:
			fr.env[ci.dst] = p.strNext(fr, it)
		default:
			bail("next on %T", it)
		}
	case cSlice:
		fr.env[ci.dst] = fr.slice(ci)
	case cSliceToArrayPtr:
		x := fr.get(&ci.a).([]value)
		n := int(ci.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(x) < n {
			panic(p.rtError("cannot convert slice to array or pointer to array"))
		}
		if x == nil {
			fr.env[ci.dst] = (*value)(nil)
		} else {
			v := new(value)
			*v = array(x[:n:n])
			fr.env[ci.dst] = v
		}
	case cTypeAssert:
		fr.env[ci.dst] = p.typeAssert(ci, fr.get(&ci.a))
	case cMakeChan:
		fr.env[ci.dst] = p.newChan(p.concInt(fr.get(&ci.a)), ci.typ)
	case cSend:
		c, ok := fr.get(&ci.a).(*hchan)
		if !ok {
			bail("send on %T", fr.get(&ci.a))
		}
		p.chanSend(fr.g, c, copyVal(fr.get(&ci.b)))
	case cSelect:
		fr.env[ci.dst] = fr.doSelect(ci)
	default:
		bail("instruction %T", ci.in)
	}
}

func fillZero(s []value, t types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(t)
	for i := range s {
		switch z.(type) {
		case structure, array:
			s[i] = copyVal(z)
		default:
			s[i] = z
		}
	}
}

type mapIter struct {
	ents []*mapEntry
	i    int
}
type strIter struct {
	s value
	i int
}

func (p *Path) strNext(fr *frame, it *strIter) value {
	n := strLen(it.s)
	if it.i >= n {
		return tuple{false, uint64(0), uint64(0)}
	}
	i := it.i
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[i:])
		it.i += w
		return tuple{true, uint64(i), norm(Sort{'i', 32, true}, uint64(r))}
	}
	b := strAt(it.s, i)
	i32 := Sort{'i', 32, true}
	if t, ok := b.(*Term); ok {
		if p.truth(unterm(p.f.Lt(t, p.f.Int(sU8, 0x80)))) {
			it.i++
			return tuple{true, uint64(i), unterm(p.f.Cast(t, i32))}
		}
	} else if b.(uint64) < 0x80 {
		it.i++
		return tuple{true, uint64(i), b}
	}
	fn := p.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	r := p.call(fr, p.P.cf(fn), []value{strSlice(it.s, i, n)}, nil).(tuple)
	it.i += p.concInt(r[1])
	return tuple{true, uint64(i), r[0]}
}

func (fr *frame) slice(ci *cinstr) value {
	p := fr.p
	x := fr.get(&ci.a)
	lo, hi, max := 0, -1, -1
	if ci.b.k != okNone {
		lo = p.concInt(fr.get(&ci.b))
	}
	if ci.c.k != okNone {
		hi = p.concInt(fr.get(&ci.c))
		if hi < 0 {
			panic(p.rtError("slice bounds out of range"))
		}
	}
	if ci.d.k != okNone {
		max = p.concInt(fr.get(&ci.d))
		if max < 0 {
			panic(p.rtError("slice bounds out of range"))
		}
	}
	switch s := x.(type) {
	case string, *SStr:
		n := strLen(s)
		if hi < 0 {
			hi = n
		}
		if lo < 0 || hi > n || lo > hi {
			panic(p.rtError(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)))
		}
		return strSlice(s, lo, hi)
	case []value:
		if hi < 0 {
			hi = len(s)
		}
		if max < 0 {
			max = cap(s)
		}
		if lo < 0 || max > cap(s) || hi > max || lo > hi {
			panic(p.rtError(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(s))))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:max]
	case *value:
		a := p.nilCheck(s)
		arr, ok := (*a).(array)
		if !ok {
			chkPoison(*a)
			bail("slice of %T", *a)
		}
		if hi < 0 {
			hi = len(arr)
		}
		if max < 0 {
			max = len(arr)
		}
		if lo < 0 || max > len(arr) || hi > max || lo > hi {
			panic(p.rtError("slice bounds out of range"))
		}
		return []value(arr)[lo:hi:max]
	}
	chkPoison(x)
	bail("slice of %T", x)
	return nil
}

func (p *Path) typeAssert(ci *cinstr, v value) value {
	chkPoison(v)
	x := v.(iface)
	ok := false
	var res value
	if x.t != nil {
		if it, isI := ci.typ.Underlying().(*types.Interface); isI {
			if p.implements(x.t, it) {
				ok = true
				res = x
			}
		} else if identical(x.t, ci.typ) {
			ok = true
			res = copyVal(x.v)
		}
	}
	if ci.commaOk {
		if !ok {
			res = zero(ci.typ)
		}
		return tuple{res, ok}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		panic(p.rtError(fmt.Sprintf("interface conversion: interface is %s, not %s", have, ci.typ)))
	}
	return res
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

func (fr *frame) unop(ci *cinstr) value {
	p := fr.p
	x := fr.get(&ci.a)
	switch ci.tok {
	case token.MUL:
		if sa, ok := x.(*symAddr); ok {
			if s, ok := sortOf(ci.typ2); ok {
				p.selSort = s
			}
			return p.selectElem(sa.elems, sa.idx)
		}
		return p.load(x)
	case token.ARROW:
		c, ok := x.(*hchan)
		if !ok {
			bail("recv on %T", x)
		}
		v, ok2 := p.chanRecv(fr.g, c)
		if ci.commaOk {
			return tuple{v, ok2}
		}
		return v
	case token.NOT:
		return p.not(x)
	case token.SUB:
		switch ci.sort.K {
		case 'i':
			if u, ok := x.(uint64); ok {
				return norm(ci.sort, -u)
			}
			return unterm(p.f.IntBin(OSub, p.f.Int(ci.sort, 0), p.term(x, ci.sort)))
		case 'f':
			if f, ok := x.(float64); ok {
				return -f
			}
			return unterm(p.f.FNeg(p.term(x, ci.sort)))
		}
	case token.XOR:
		if u, ok := x.(uint64); ok {
			return norm(ci.sort, ^u)
		}
		return unterm(p.f.IntBin(OBXor, p.term(x, ci.sort), p.f.Int(ci.sort, ^uint64(0))))
	}
	chkPoison(x)
	bail("unop %s on %T", ci.tok, x)
	return nil
}

func (p *Path) binop(tok token.Token, t types.Type, s, s2 Sort, x, y value) value {
	switch tok {
	case token.EQL:
		return p.equalsX(t, s, x, y)
	case token.NEQ:
		return p.not(p.equalsX(t, s, x, y))
	case token.SHL, token.SHR:
		if s2.S {
			if u, ok := y.(uint64); ok {
				if int64(u) < 0 {
					panic(p.rtError("negative shift amount"))
				}
			} else if p.truth(unterm(p.f.Lt(p.term(y, s2), p.f.Int(s2, 0)))) {
				panic(p.rtError("negative shift amount"))
			}
		}
		var k uint64
		if u, ok := y.(uint64); ok {
			k = u
		} else {
			chkPoison(y)
			k = p.concretize(y.(*Term))
		}
		if u, ok := x.(uint64); ok {
			if tok == token.SHL {
				if k >= 64 {
					return uint64(0)
				}
				return norm(s, u<<k)
			}
			if k >= 64 {
				if s.S && int64(u) < 0 {
					return ^uint64(0)
				}
				return uint64(0)
			}
			if s.S {
				return uint64(int64(u) >> k)
			}
			return u >> k
		}
		tx := p.term(x, s)
		if tok == token.SHL {
			return unterm(p.f.Shl(tx, k))
		}
		return unterm(p.f.Shr(tx, k))
	}
	switch s.K {
	case 'i':
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				return p.intBinConc(tok, s, a, b)
			}
		}
		a, b := p.term(x, s), p.term(y, s)
		f := p.f
		switch tok {
		case token.ADD:
			return unterm(f.IntBin(OAdd, a, b))
		case token.SUB:
			return unterm(f.IntBin(OSub, a, b))
		case token.MUL:
			return unterm(f.IntBin(OMul, a, b))
		case token.QUO, token.REM:
			if p.truth(unterm(f.Eq(b, f.Int(s, 0)))) {
				panic(p.rtError("integer divide by zero"))
			}
			if tok == token.QUO {
				return unterm(f.IntBin(ODiv, a, b))
			}
			return unterm(f.IntBin(ORem, a, b))
		case token.AND:
			return unterm(f.IntBin(OBAnd, a, b))
		case token.OR:
			return unterm(f.IntBin(OBOr, a, b))
		case token.XOR:
			return unterm(f.IntBin(OBXor, a, b))
		case token.AND_NOT:
			return unterm(f.IntBin(OBAnd, a, f.IntBin(OBXor, b, f.Int(s, ^uint64(0)))))
		case token.LSS:
			return unterm(f.Lt(a, b))
		case token.LEQ:
			return unterm(f.Le(a, b))
		case token.GTR:
			return unterm(f.Lt(b, a))
		case token.GEQ:
			return unterm(f.Le(b, a))
		}
	case 'f':
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if ok1 && ok2 {
			var r float64
			switch tok {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			default:
				bail("float op %s", tok)
			}
			return rnd32(s, r)
		}
		ta, tb := p.term(x, s), p.term(y, s)
		f := p.f
		if f.real && tok != token.LSS && tok != token.LEQ && tok != token.GTR && tok != token.GEQ {
			if f.isNaNInf(ta) || f.isNaNInf(tb) {
				bail("non-finite arithmetic in real mode")
			}
		}
		switch tok {
		case token.ADD:
			return unterm(p.rounded(f.FBin(OFAdd, ta, tb)))
		case token.SUB:
			return unterm(p.rounded(f.FBin(OFSub, ta, tb)))
		case token.MUL:
			return unterm(p.rounded(f.FBin(OFMul, ta, tb)))
		case token.QUO:
			if f.real {
				if p.truth(unterm(f.FBin(OFEq, tb, f.Float(s, 0)))) {
					bail("division by zero in real mode")
				}
			}
			return unterm(p.rounded(f.FBin(OFDiv, ta, tb)))
		case token.LSS:
			return unterm(f.FBin(OFLt, ta, tb))
		case token.LEQ:
			return unterm(f.FBin(OFLe, ta, tb))
		case token.GTR:
			return unterm(f.FBin(OFLt, tb, ta))
		case token.GEQ:
			return unterm(f.FBin(OFLe, tb, ta))
		}
	}
	chkPoison(x)
	chkPoison(y)
	switch a := x.(type) {
	case string, *SStr:
		switch tok {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return p.strLt(x, y)
		case token.GTR:
			return p.strLt(y, x)
		case token.LEQ:
			return p.not(p.strLt(y, x))
		case token.GEQ:
			return p.not(p.strLt(x, y))
		}
	case complex128:
		b := y.(complex128)
		switch tok {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	bail("binop %s on %T,%T", tok, x, y)
	return nil
}

func (p *Path) equalsX(t types.Type, s Sort, x, y value) value {
	if s.K == 'i' {
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				return a == b
			}
		}
	}
	if xi, ok := x.(iface); ok {
		if yi, ok := y.(iface); ok {
			return p.equals(t, xi, yi)
		}
	}
	return p.equals(t, x, y)
}

func (p *Path) intBinConc(tok token.Token, s Sort, a, b uint64) value {
	switch tok {
	case token.ADD:
		return norm(s, a+b)
	case token.SUB:
		return norm(s, a-b)
	case token.MUL:
		return norm(s, a*b)
	case token.QUO, token.REM:
		if b == 0 {
			panic(p.rtError("integer divide by zero"))
		}
		if tok == token.QUO {
			return divTrunc(s, ODiv, a, b)
		}
		return divTrunc(s, ORem, a, b)
	case token.AND:
		return a & b
	case token.OR:
		return norm(s, a|b)
	case token.XOR:
		return norm(s, a^b)
	case token.AND_NOT:
		return norm(s, a&^b)
	case token.LSS:
		if s.S {
			return int64(a) < int64(b)
		}
		return a < b
	case token.LEQ:
		if s.S {
			return int64(a) <= int64(b)
		}
		return a <= b
	case token.GTR:
		if s.S {
			return int64(a) > int64(b)
		}
		return a > b
	case token.GEQ:
		if s.S {
			return int64(a) >= int64(b)
		}
		return a >= b
	}
	bail("int op %s", tok)
	return nil
}

func (p *Path) convert(from, to types.Type, s, s2 Sort, x value) value {
	chkPoison(x)
	switch s.K {
	case 'i':
		switch s2.K {
		case 'i':
			if u, ok := x.(uint64); ok {
				return norm(s2, u)
			}
			if t, ok := x.(*Term); ok {
				return unterm(p.f.Cast(t, s2))
			}
			return x // uintptr holding a pointer
		case 'f':
			return unterm(p.rounded(p.f.I2F(p.term(x, s), s2)))
		}
		if b, ok := underBasic(to); ok {
			if b.Info()&types.IsString != 0 {
				if t, ok := x.(*Term); ok {
					if p.truth(p.and(unterm(p.f.Le(p.f.Int(s, 0), t)), unterm(p.f.Lt(t, p.f.Int(s, 0x80))))) {
						return mkStr([]value{unterm(p.f.Cast(t, sU8))})
					}
					return string(rune(p.concretize(t)))
				}
				u := x.(uint64)
				if s.S {
					return string(rune(int64(u)))
				}
				return string(rune(u))
			}
			if b.Kind() == types.UnsafePointer {
				return x
			}
		}
	case 'f':
		switch s2.K {
		case 'i':
			t := p.term(x, s)
			if p.E.cfg.Round {
				t = p.frnd(2, t)
			}
			return unterm(p.f.F2I(t, s2))
		case 'f':
			return unterm(p.rounded(p.f.F2F(p.term(x, s), s2)))
		}
	}
	switch v := x.(type) {
	case string, *SStr:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			eb, _ := underBasic(sl.Elem())
			if eb.Kind() == types.Uint8 {
				b := strBytes(v)
				if b == nil {
					b = []value{}
				}
				return b
			}
			it := &strIter{s: v}
			out := []value{}
			for {
				t := p.strNext(p.curFr, it).(tuple)
				if t[0] == false {
					return out
				}
				out = append(out, t[2])
			}
		}
		return x
	case []value:
		if b, ok := underBasic(to); ok && b.Info()&types.IsString != 0 {
			eb, _ := underBasic(from.Underlying().(*types.Slice).Elem())
			if eb.Kind() == types.Uint8 {
				if p.raceOn {
					for i := range v {
						p.access(&v[i], false)
					}
				}
				return mkStr(v)
			}
			var res value = ""
			i32 := Sort{'i', 32, true}
			for _, r := range v {
				res = strCat(res, p.convert(types.Typ[types.Int32], types.Typ[types.String], i32, Sort{}, r))
			}
			return res
		}
		return x
	case complex128:
		return x
	}
	// pointers, unsafe.Pointer
	return x
}

// ---- calls ----

func (fr *frame) prepDefer(ci *cinstr, d *deferred) {
	p := fr.p
	args := make([]value, 0, len(ci.args)+1)
	switch ci.n {
	case 1:
		recv := fr.get(&ci.a)
		common := callCommon(ci.in)
		cl, rv := p.methodOf(recv, common.Method)
		d.cl = cl
		args = append(args, rv)
	case 2:
		d.bi = callCommon(ci.in).Value.(*ssa.Builtin)
		d.call = callCommon(ci.in)
	case 3:
		d.cl = &closure{fn: ci.fn.fn}
	case 4:
		v := fr.get(&ci.a)
		chkPoison(v)
		d.cl = v.(*closure)
	}
	for i := range ci.args {
		args = append(args, copyVal(fr.get(&ci.args[i])))
	}
	d.args = args
}

func callCommon(in ssa.Instruction) *ssa.CallCommon {
	return in.(ssa.CallInstruction).Common()
}

// methodOf resolves an interface method.
func (p *Path) methodOf(recv value, m *types.Func) (*closure, value) {
	chkPoison(recv)
	x, ok := recv.(iface)
	if !ok {
		bail("invoke on %T", recv)
	}
	if x.t == nil {
		panic(p.rtError("invalid memory address or nil pointer dereference"))
	}
	if rt, ok := x.v.(rtypeBox); ok {
		return &closure{native: func(p *Path, fr *frame, args []value) value {
			return p.rtypeMethod(fr, rt, m.Name(), args[1:])
		}}, x.v
	}
	fn := p.P.lookupMethod(x.t, m.Pkg(), m.Name())
	if fn == nil {
		bail("no method %s on %s", m.Name(), x.t)
	}
	return &closure{fn: fn}, copyVal(x.v)
}

func (fr *frame) doCall(ci *cinstr) value {
	p := fr.p
	n := len(ci.args)
	switch ci.n {
	case 1:
		cl, rv := p.methodOf(fr.get(&ci.a), callCommon(ci.in).Method)
		args := make([]value, n+1)
		args[0] = rv
		for i := range ci.args {
			args[i+1] = fr.arg(&ci.args[i])
		}
		return p.callClosure(fr, cl, args)
	case 2:
		c := callCommon(ci.in)
		args := make([]value, n)
		for i := range ci.args {
			args[i] = fr.get(&ci.args[i])
		}
		return fr.builtin(c.Value.(*ssa.Builtin), c, args)
	case 3:
		if fr.lenient && isInitCall(ci.fn) {
			return nil // std packages are initialised lazily
		}
		if ci.fn.fn.Synthetic == "package initializer" {
			if !p.P.eager[ci.fn.fn.Pkg.Pkg.Path()] {
				return nil
			}
			p.pkgState[ci.fn.fn.Pkg] = 2
		}
		args := make([]value, n)
		for i := range ci.args {
			args[i] = fr.arg(&ci.args[i])
		}
		return p.call(fr, ci.fn, args, nil)
	default:
		v := fr.get(&ci.a)
		chkPoison(v)
		cl, ok := v.(*closure)
		if !ok {
			bail("call of %T", v)
		}
		args := make([]value, n)
		for i := range ci.args {
			args[i] = fr.arg(&ci.args[i])
		}
		return p.callClosure(fr, cl, args)
	}
}

func isInitCall(c *cfunc) bool { return c.fn.Synthetic == "package initializer" }

func (fr *frame) arg(o *operand) value {
	v := fr.get(o)
	switch v.(type) {
	case structure, array:
		return copyVal(v)
	}
	return v
}

func (fr *frame) builtin(b *ssa.Builtin, call *ssa.CallCommon, args []value) value {
	p := fr.p
	for _, a := range args {
		chkPoison(a)
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return uint64(strLen(x))
		case []value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*p.nilCheck(x)).(array)))
		case *hmap:
			if x == nil {
				return uint64(0)
			}
			if p.raceOn {
				p.accessObj(x, false)
			}
			return uint64(x.n)
		case *hchan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*p.nilCheck(x)).(array)))
		case *hchan:
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []value
		switch y := args[1].(type) {
		case string, *SStr:
			add = strBytes(y)
		case []value:
			add = y
		default:
			bail("append %T", y)
		}
		s := args[0].([]value)
		return p.appendVals(s, add, call.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case string, *SStr:
			src = strBytes(y)
		case []value:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			if p.raceOn {
				p.access(&src[i], false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if p.raceOn {
				p.access(&dst[i], true)
			}
			assign(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		m := args[0].(*hmap)
		if m != nil {
			if p.raceOn {
				p.accessObj(m, true)
			}
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *hmap:
			if x != nil {
				if p.raceOn {
					p.accessObj(x, true)
				}
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents = nil
				x.idx = map[any]*mapEntry{}
				x.n = 0
				x.symKeys = 0
			}
		case []value:
			fillZero(x, call.Args[0].Type().Underlying().(*types.Slice).Elem())
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		iv := args[0].(iface)
		panic(targetPanic{v: iv, where: fr.where()})
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		c := fr.caller
		if !fr.panicking && c != nil && c.panicking {
			c.panicking = false
			v := c.panicV.v
			c.panicV = targetPanic{}
			return v
		}
		return iface{}
	case "close":
		p.chanClose(fr.g, args[0].(*hchan))
		return nil
	case "min", "max":
		t := call.Args[0].Type()
		s, _ := sortOf(t)
		r := args[0]
		for _, a := range args[1:] {
			if s.K == 'f' {
				r = p.fminmax(r, a, b.Name() == "max", s)
				continue
			}
			var c value
			if b.Name() == "min" {
				c = p.binop(token.LSS, t, s, s, a, r)
			} else {
				c = p.binop(token.GTR, t, s, s, a, r)
			}
			if s.K == 0 {
				if p.truth(c) {
					r = a
				}
			} else {
				r = p.ite(c, a, r, s)
			}
		}
		return r
	case "real", "imag", "complex":
		bail("complex")
	case "ssa:wrapnilchk":
		if ptr, ok := args[0].(*value); ok && ptr == nil {
			panic(p.rtError(fmt.Sprintf("value method called using nil pointer")))
		}
		return args[0]
	case "ssa:deferstack":
		return fr.defers
	case "SliceData":
		return &sliceData{args[0].([]value)}
	case "StringData":
		return &stringData{args[0]}
	case "String":
		n := p.concInt(args[1])
		switch d := args[0].(type) {
		case *sliceData:
			return mkStr(d.s[:n])
		case *stringData:
			return strSlice(d.s, 0, n)
		case *value:
			if n == 0 {
				return ""
			}
			bail("unsafe.String of element pointer")
		}
	case "Slice":
		n := p.concInt(args[1])
		switch d := args[0].(type) {
		case *sliceData:
			return d.s[:n:n]
		case *stringData:
			return strBytes(strSlice(d.s, 0, n))
		case *value:
			if d == nil || n == 0 {
				return []value(nil)
			}
			if n == 1 {
				bail("unsafe.Slice of pointer")
			}
		}
	}
	bail("builtin %s", b.Name())
	return nil
}

func (p *Path) appendVals(s, add []value, et types.Type) []value {
	n := len(s) + len(add)
	if p.raceOn {
		for i := range add {
			p.access(&add[i], false)
		}
	}
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			if p.raceOn {
				p.access(&r[len(s)+i], true)
			}
			r[len(s)+i] = tmp[i]
		}
		return r
	}
	if p.raceOn {
		for i := range s {
			p.access(&s[i], false)
		}
	}
	c := cap(s) * 2
	if c < n {
		c = n
	}
	if c < 4 && c > n {
		c = n
	}
	r := make([]value, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	fillZero(r[n:], et)
	return r[:n]
}

func (p *Path) fminmax(a, b value, max bool, s Sort) value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		if max {
			return math.Max(x, y)
		}
		return math.Min(x, y)
	}
	f := p.f
	ta, tb := p.term(a, s), p.term(b, s)
	var c *Term
	if max {
		c = f.FBin(OFLt, ta, tb)
	} else {
		c = f.FBin(OFLt, tb, ta)
	}
	r := f.Ite(c, tb, ta)
	if !f.real {
		// NaN operands and signed zeros
		nan := f.Float(s, math.NaN())
		r = f.Ite(f.Or(f.Not(f.FBin(OFEq, ta, ta)), f.Not(f.FBin(OFEq, tb, tb))), nan, r)
	}
	return unterm(r)
}

var stepTotal atomic.Int64

// rounded: in the rounding-error theory the result of a float operation of the code under
// test is a fresh real within the unit roundoff of the exact result. The harness's own
// arithmetic stays exact.
func (p *Path) rounded(t *Term) *Term {
	if !p.E.cfg.Round || t.op == OConst || t.op == OVar || p.curFr == nil || p.curFr.c == nil || strings.HasPrefix(p.curFr.c.name, "vh/") || strings.HasPrefix(p.curFr.c.name, "(*vh/") || strings.HasPrefix(p.curFr.c.name, "(vh/") {
		return t
	}
	u := math.Ldexp(1, -53)
	if t.sort.W == 32 {
		u = math.Ldexp(1, -24)
	}
	if t.op == OI2F {
		lim := new(big.Int).Lsh(bigOne, 53)
		if t.sort.W == 32 {
			lim = new(big.Int).Lsh(bigOne, 24)
		}
		if t.a[0].hi.Cmp(lim) <= 0 && new(big.Int).Neg(t.a[0].lo).Cmp(lim) <= 0 {
			return t
		}
	}
	if t.op == OF2F && t.sort.W == 64 {
		return t
	}
	if r, ok := p.rndMemo[t]; ok {
		return r
	}
	f := p.f
	p.auxN++
	r := f.Var(t.sort, fmt.Sprintf("aux!r%d", p.auxN))
	if !p.replaying() {
		v := p.ev.Eval(t)
		x, _ := v.r.Float64()
		if t.sort.W == 32 {
			y, _ := v.r.Float32()
			x = float64(y)
		}
		p.setModel(mergeModel(p.model, Model{r.name: MVal{u: math.Float64bits(x), r: ratOf(x)}}))
	}
	d := f.FBin(OFSub, r, t)
	b := f.FBin(OFMul, t, f.Float(t.sort, u))
	nb, nd := f.FNeg(b), f.FNeg(d)
	p.define(f.Or(f.FBin(OFLe, d, b), f.FBin(OFLe, d, nb)))
	p.define(f.Or(f.FBin(OFLe, nd, b), f.FBin(OFLe, nd, nb)))
	if p.rndMemo == nil {
		p.rndMemo = map[*Term]*Term{}
	}
	p.rndMemo[t] = r
	return r
}

// frnd rounds to an integral value. In the rounding-error theory the result is a fresh integer
// of known range, tied to the operand by linear constraints.
func (p *Path) frnd(mode uint64, t *Term) *Term {
	f := p.f
	if !p.E.cfg.Round || t.op == OConst || t.op == OI2F || t.op == OFNeg && t.a[0].op == OI2F {
		if p.E.cfg.Round && t.op != OConst {
			return t
		}
		return f.FRnd(mode, t)
	}
	fl := func(v float64) *Term { return f.Float(sF64, v) }
	neg := p.truth(unterm(f.FBin(OFLt, t, fl(0))))
	a := t
	if neg {
		a = f.FNeg(t)
		switch mode {
		case 0:
			mode = 1
		case 1:
			mode = 0
		}
	}
	if (mode == 0 || mode == 2) && a.op == OFAdd && a.a[0].op == OI2F {
		// a whole number and a fraction
		b := a.a[1]
		if p.truth(unterm(f.FBin(OFLe, fl(0), b))) && p.truth(unterm(f.FBin(OFLt, b, fl(1)))) {
			if neg {
				return f.I2F(f.IntBin(OSub, f.Int(a.a[0].a[0].sort, 0), a.a[0].a[0]), sF64)
			}
			return a.a[0]
		}
	}
	lo, hi := 0.0, 0.0
	for _, b := range []float64{1e9, 1 << 53, 1 << 62} {
		if p.truth(unterm(f.FBin(OFLt, a, fl(b)))) {
			hi = b
			break
		}
		lo = b
	}
	if hi == 0 {
		if neg {
			return f.FNeg(f.FRnd(mode, a))
		}
		return f.FRnd(mode, a)
	}
	if mode == 2 || mode == 0 {
		hi--
	}
	p.auxN++
	v := f.VarRange(sI64, fmt.Sprintf("aux!i%d", p.auxN), big.NewInt(int64(lo)), big.NewInt(int64(hi)))
	if !p.replaying() {
		p.setModel(mergeModel(p.model, Model{v.name: p.ev.Eval(f.F2I(f.FRnd(mode, a), sI64))}))
	}
	d := f.FBin(OFSub, a, f.I2F(v, sF64)) // a - v
	switch mode {
	case 0, 2:
		p.define(f.FBin(OFLe, fl(0), d))
		p.define(f.FBin(OFLt, d, fl(1)))
	case 1:
		p.define(f.FBin(OFLt, fl(-1), d))
		p.define(f.FBin(OFLe, d, fl(0)))
	default:
		p.define(f.FBin(OFLe, fl(-0.5), d))
		if mode == 3 {
			p.define(f.FBin(OFLt, d, fl(0.5)))
		} else {
			p.define(f.FBin(OFLe, d, fl(0.5)))
		}
	}
	if neg {
		return f.I2F(f.IntBin(OSub, f.Int(sI64, 0), v), sF64)
	}
	return f.I2F(v, sF64)
}
