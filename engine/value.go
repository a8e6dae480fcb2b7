package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is the interpreter's representation of a Go value:
//
//	bool | *Term(bool), uint64 | *Term(int) (canonical sign/zero extended),
//	float64 | *Term(float), string | *SStr, *value (pointer), *symAddr,
//	structure, array, []value (slice), *hmap, *hchan, *closure, iface, tuple,
//	rvalue (reflect.Value), rtypeBox (reflect.Type), nativeBox, poison.
type value = any

type structure []value
type array []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn     *ssa.Function
	env    []value
	native func(p *Path, fr *frame, args []value) value
	name   string
}
type poison struct{ why string }
type nativeBox struct{ x any }
type rtypeBox struct{ T types.Type }
type symAddr struct {
	elems []value
	idx   *Term
}
type sliceData struct{ s []value } // unsafe.SliceData
type stringData struct{ s value }  // unsafe.StringData

// SStr is a string of known length with possibly symbolic bytes.
type SStr struct{ b []value }

type mapEntry struct {
	k, v    value
	deleted bool
}
type hmap struct {
	ents    []*mapEntry
	idx     map[any]*mapEntry // concrete scalar/string keys
	n       int
	kt      types.Type
	symKeys int
}

type unsupported struct{ msg string }

func bail(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

func underBasic(t types.Type) (*types.Basic, bool) {
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func sortOf(t types.Type) (Sort, bool) {
	b, ok := underBasic(t)
	if !ok {
		return Sort{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return sBool, true
	case types.Int, types.Int64, types.UntypedInt:
		return sI64, true
	case types.Int8:
		return Sort{'i', 8, true}, true
	case types.Int16:
		return Sort{'i', 16, true}, true
	case types.Int32, types.UntypedRune:
		return Sort{'i', 32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return sU64, true
	case types.Uint8:
		return sU8, true
	case types.Uint16:
		return Sort{'i', 16, false}, true
	case types.Uint32:
		return Sort{'i', 32, false}, true
	case types.Float32:
		return sF32, true
	case types.Float64, types.UntypedFloat:
		return sF64, true
	}
	return Sort{}, false
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == path
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return (*value)(nil)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		if isNamed(t, "reflect", "Value") {
			return rvalue{}
		}
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Chan:
		return (*hchan)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Tuple:
		tp := make(tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	bail("zero of %s", t)
	return nil
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case array:
		c := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

// assign stores v into *addr keeping interior pointers valid.
func assign(addr *value, v value) {
	switch d := (*addr).(type) {
	case structure:
		if s, ok := v.(structure); ok && len(s) == len(d) {
			for i := range d {
				assign(&d[i], s[i])
			}
			return
		}
	case array:
		if s, ok := v.(array); ok && len(s) == len(d) {
			for i := range d {
				assign(&d[i], s[i])
			}
			return
		}
	}
	*addr = copyVal(v)
}

// ---- strings ----

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	chkPoison(v)
	panic(fmt.Sprintf("strLen of %T", v))
}

func strAt(v value, i int) value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		b := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b
	case *SStr:
		return append([]value(nil), s.b...)
	}
	chkPoison(v)
	panic(fmt.Sprintf("strBytes of %T", v))
}

// mkStr builds a string from bytes, concrete when possible.
func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			if p, bad := x.(poison); bad {
				bail("poison: %s", p.why)
			}
			return &SStr{append([]value(nil), b...)}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strCat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(strBytes(a), strBytes(b)...))
}

func chkPoison(v value) {
	if p, ok := v.(poison); ok {
		bail("poison: %s", p.why)
	}
}

// ---- terms ----

func (p *Path) term(v value, s Sort) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return p.f.Int(s, x)
	case bool:
		return p.f.Bool(x)
	case float64:
		return p.f.Float(s, x)
	}
	chkPoison(v)
	panic(fmt.Sprintf("term of %T", v))
}

// untermn turns constant terms back into concrete values.
func unterm(t *Term) value {
	if t.op == OConst {
		switch t.sort.K {
		case 'b':
			return t.u == 1
		case 'i':
			return t.u
		default:
			return t.fval()
		}
	}
	return t
}

func (p *Path) not(v value) value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return unterm(p.f.Not(b))
	}
	chkPoison(v)
	panic("not")
}

func (p *Path) and(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return unterm(p.f.And(a.(*Term), b.(*Term)))
}
func (p *Path) or(a, b value) value { return p.not(p.and(p.not(a), p.not(b))) }

func (p *Path) ite(c value, a, b value, s Sort) value {
	if x, ok := c.(bool); ok {
		if x {
			return a
		}
		return b
	}
	return unterm(p.f.Ite(c.(*Term), p.term(a, s), p.term(b, s)))
}

// strEq compares strings byte by byte (length is concrete).
func (p *Path) strEq(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	var r value = true
	for i := 0; i < n; i++ {
		r = p.and(r, p.intEq(strAt(a, i), strAt(b, i), sU8))
		if r == false {
			return false
		}
	}
	return r
}

func (p *Path) strLt(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	var r value = la < lb
	for i := n - 1; i >= 0; i-- {
		x, y := p.term(strAt(a, i), sU8), p.term(strAt(b, i), sU8)
		lt := unterm(p.f.Lt(x, y))
		eq := unterm(p.f.Eq(x, y))
		r = p.or(lt, p.and(eq, r))
	}
	return r
}

func (p *Path) intEq(a, b value, s Sort) value {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return x == y
		}
	}
	return unterm(p.f.Eq(p.term(a, s), p.term(b, s)))
}

func (p *Path) fcmp(op Op, a, b value, s Sort) value {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			switch op {
			case OFLt:
				return x < y
			case OFLe:
				return x <= y
			case OFEq:
				return x == y
			}
		}
	}
	return unterm(p.f.FBin(op, p.term(a, s), p.term(b, s)))
}

func identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

// equals compares two values of static type t (may be nil for interface dynamic types given separately).
func (p *Path) equals(t types.Type, a, b value) value {
	chkPoison(a)
	chkPoison(b)
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(fmt.Sprintf("equals iface/%T", b))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			panic(p.rtError("comparing uncomparable type " + x.t.String()))
		}
		return p.equals(x.t, x.v, y.v)
	case structure:
		y := b.(structure)
		st := t.Underlying().(*types.Struct)
		var r value = true
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = p.and(r, p.equals(st.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		y := b.(array)
		et := t.Underlying().(*types.Array).Elem()
		var r value = true
		for i := range x {
			r = p.and(r, p.equals(et, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case string, *SStr:
		return p.strEq(a, b)
	case rtypeBox:
		y, ok := b.(rtypeBox)
		return ok && identical(x.T, y.T)
	case bool, uint64, float64, *Term:
		s, ok := sortOf(t)
		if !ok {
			// e.g. uintptr-like opaque
			return a == b
		}
		switch s.K {
		case 'f':
			return p.fcmp(OFEq, a, b, s)
		case 'b':
			xb, ok1 := a.(bool)
			yb, ok2 := b.(bool)
			if ok1 && ok2 {
				return xb == yb
			}
			return unterm(p.f.Eq(p.term(a, s), p.term(b, s)))
		}
		return p.intEq(a, b, s)
	case *value:
		y, ok := b.(*value)
		if !ok {
			return false
		}
		return x == y
	case []value: // only nil comparison
		if x == nil {
			y, _ := b.([]value)
			return y == nil
		}
		return false
	case *hmap:
		y, _ := b.(*hmap)
		return x == y
	case *hchan:
		y, _ := b.(*hchan)
		return x == y
	case *closure:
		y, _ := b.(*closure)
		return x == y
	case nativeBox:
		y, ok := b.(nativeBox)
		return ok && x.x == y.x
	case complex128:
		return a == b
	}
	bail("equals %T %T", a, b)
	return nil
}

// ---- maps ----

func mapKey(v value) (any, bool) {
	switch x := v.(type) {
	case bool, uint64, string, *value, *hchan:
		return x, true
	case float64:
		if x == 0 {
			return float64(0), true
		}
		if math.IsNaN(x) {
			return nil, false
		}
		return x, true
	}
	return nil, false
}

func newMap(kt types.Type) *hmap { return &hmap{idx: map[any]*mapEntry{}, kt: kt} }

func (p *Path) mapFind(m *hmap, k value) *mapEntry {
	if m == nil {
		return nil
	}
	chkPoison(k)
	if kk, ok := mapKey(k); ok {
		if e := m.idx[kk]; e != nil {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			if _, ok := mapKey(e.k); ok {
				continue
			}
			if p.truth(p.equals(m.kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if p.truth(p.equals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *hmap, k, v value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.ents = append(m.ents, e)
	if kk, ok := mapKey(k); ok {
		m.idx[kk] = e
	} else {
		m.symKeys++
	}
	m.n++
}

func (p *Path) mapDelete(m *hmap, k value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if kk, ok := mapKey(e.k); ok {
		delete(m.idx, kk)
	} else {
		m.symKeys--
	}
	for i, x := range m.ents {
		if x == e {
			// copy on write: iterators hold the old backing slice
			n := make([]*mapEntry, 0, len(m.ents))
			n = append(n, m.ents[:i]...)
			n = append(n, m.ents[i+1:]...)
			m.ents = n
			break
		}
	}
}
