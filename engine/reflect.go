package main

import (
	"go/types"
	"math"
	"math/bits"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// rvalue models reflect.Value.
type rvalue struct {
	t    types.Type // nil: invalid
	v    value      // value when not addressable
	addr value      // *value when addressable
}

func (p *Path) rget(r rvalue) value {
	if r.addr != nil {
		return p.load(r.addr)
	}
	return r.v
}

func (p *Path) rtypeIface(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{p.P.rtypeT, rtypeBox{t}}
}

func rkind(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) rpanic(msg string) targetPanic {
	return targetPanic{v: iface{types.Typ[types.String], msg}, where: msg}
}

func (p *Path) rv(v value) rvalue {
	r, ok := v.(rvalue)
	if !ok {
		chkPoison(v)
		bail("reflect.Value is %T", v)
	}
	return r
}

// ---- reflect.Type methods ----

func (p *Path) rtypeMethod(fr *frame, b rtypeBox, name string, a []value) value {
	t := b.T
	switch name {
	case "Kind":
		return uint64(rkind(t))
	case "String":
		return typeString(t)
	case "Name":
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return p.rtypeIface(u.Elem())
		case *types.Slice:
			return p.rtypeIface(u.Elem())
		case *types.Array:
			return p.rtypeIface(u.Elem())
		case *types.Map:
			return p.rtypeIface(u.Elem())
		case *types.Chan:
			return p.rtypeIface(u.Elem())
		}
		panic(p.rpanic("reflect: Elem of invalid type " + typeString(t)))
	case "Key":
		return p.rtypeIface(t.Underlying().(*types.Map).Key())
	case "Len":
		return bi(int(t.Underlying().(*types.Array).Len()))
	case "NumIn":
		return bi(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			panic(p.rpanic("reflect: NumOut of non-func type"))
		}
		return bi(s.Results().Len())
	case "In":
		return p.rtypeIface(t.Underlying().(*types.Signature).Params().At(p.concInt(a[0])).Type())
	case "Out":
		s := t.Underlying().(*types.Signature)
		i := p.concInt(a[0])
		if i >= s.Results().Len() {
			panic(p.rpanic("reflect: Func index out of bounds"))
		}
		return p.rtypeIface(s.Results().At(i).Type())
	case "IsVariadic":
		return t.Underlying().(*types.Signature).Variadic()
	case "NumField":
		return bi(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		st := t.Underlying().(*types.Struct)
		i := p.concInt(a[0])
		if i < 0 || i >= st.NumFields() {
			panic(p.rpanic("reflect: Field index out of bounds"))
		}
		f := st.Field(i)
		sf := zero(p.typeIn("reflect", "StructField")).(structure)
		sf[0] = f.Name()
		if !f.Exported() && f.Pkg() != nil {
			sf[1] = f.Pkg().Path()
		}
		sf[2] = p.rtypeIface(f.Type())
		sf[3] = st.Tag(i)
		sf[5] = []value{bi(i)}
		sf[6] = f.Embedded()
		return sf
	case "Comparable":
		return types.Comparable(t)
	case "Implements":
		u := a[0].(iface).v.(rtypeBox).T
		return p.implements(t, u.Underlying().(*types.Interface))
	case "AssignableTo":
		return types.AssignableTo(t, a[0].(iface).v.(rtypeBox).T)
	case "ConvertibleTo":
		return types.ConvertibleTo(t, a[0].(iface).v.(rtypeBox).T)
	case "Bits":
		s, ok := sortOf(t)
		if !ok {
			bail("Type.Bits")
		}
		return bi(int(s.W))
	case "Size":
		if s, ok := sortOf(t); ok && s.K != 'b' {
			return uint64(s.W / 8)
		}
		bail("Type.Size of %s", t)
	case "NumMethod":
		return bi(types.NewMethodSet(t).Len())
	}
	bail("reflect.Type.%s", name)
	return nil
}

func (p *Path) mustKind(r rvalue, name string, ks ...reflect.Kind) {
	k := rkind(r.t)
	for _, x := range ks {
		if x == k {
			return
		}
	}
	panic(targetPanic{v: iface{types.Typ[types.String], "reflect: call of reflect.Value." + name + " on " + k.String() + " Value"}, where: "reflect.Value." + name + " on " + k.String()})
}

func (p *Path) rvOf(v iface) rvalue {
	if v.t == nil {
		return rvalue{}
	}
	return rvalue{t: v.t, v: v.v}
}

func (p *Path) toIface(r rvalue) iface {
	x := p.rget(r)
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return x.(iface)
	}
	return iface{r.t, copyVal(x)}
}

// assignTo converts x to target type t for assignment.
func (p *Path) rassign(x rvalue, t types.Type) value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, xi := x.t.Underlying().(*types.Interface); xi {
			return p.rget(x)
		}
		return iface{x.t, copyVal(p.rget(x))}
	}
	if !types.AssignableTo(x.t, t) {
		panic(p.rpanic("reflect.Set: value of type " + typeString(x.t) + " is not assignable to type " + typeString(t)))
	}
	return copyVal(p.rget(x))
}

func init() {
	R := func(name string, f func(p *Path, fr *frame, r rvalue, a []value) value) {
		reg("(reflect.Value)."+name, func(p *Path, fr *frame, a []value) value { return f(p, fr, p.rv(a[0]), a[1:]) })
	}
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	floats := []reflect.Kind{reflect.Float32, reflect.Float64}
	reg("reflect.ValueOf", func(p *Path, fr *frame, a []value) value {
		chkPoison(a[0])
		i := a[0].(iface)
		if rb, ok := i.v.(rtypeBox); ok {
			_ = rb
			bail("ValueOf(reflect.Type)")
		}
		return p.rvOf(i)
	})
	reg("reflect.TypeOf", func(p *Path, fr *frame, a []value) value {
		chkPoison(a[0])
		return p.rtypeIface(a[0].(iface).t)
	})
	reg("reflect.TypeFor[T any]", func(p *Path, fr *frame, a []value) value { bail("reflect.TypeFor"); return nil })
	reg("reflect.Zero", func(p *Path, fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeBox).T
		return rvalue{t: t, v: zero(t)}
	})
	reg("reflect.New", func(p *Path, fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeBox).T
		v := new(value)
		*v = zero(t)
		return rvalue{t: types.NewPointer(t), v: v}
	})
	reg("reflect.SliceOf", func(p *Path, fr *frame, a []value) value {
		return p.rtypeIface(types.NewSlice(a[0].(iface).v.(rtypeBox).T))
	})
	reg("reflect.PointerTo", func(p *Path, fr *frame, a []value) value {
		return p.rtypeIface(types.NewPointer(a[0].(iface).v.(rtypeBox).T))
	})
	reg("reflect.PtrTo", intrinsics["reflect.PointerTo"])
	reg("reflect.MakeSlice", func(p *Path, fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeBox).T
		n, c := p.concInt(a[1]), p.concInt(a[2])
		if n < 0 || c < n {
			panic(p.rpanic("reflect.MakeSlice: bad len/cap"))
		}
		s := make([]value, c)
		fillZero(s, t.Underlying().(*types.Slice).Elem())
		return rvalue{t: t, v: s[:n]}
	})
	reg("reflect.Append", func(p *Path, fr *frame, a []value) value {
		r := p.rv(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []value
		for _, x := range vargs(a[1]) {
			add = append(add, p.rassign(p.rv(x), et))
		}
		return rvalue{t: r.t, v: p.appendVals(p.rget(r).([]value), add, et)}
	})
	reg("reflect.AppendSlice", func(p *Path, fr *frame, a []value) value {
		r := p.rv(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		return rvalue{t: r.t, v: p.appendVals(p.rget(r).([]value), p.rget(p.rv(a[1])).([]value), et)}
	})
	reg("reflect.Copy", func(p *Path, fr *frame, a []value) value {
		d, s := p.rget(p.rv(a[0])).([]value), p.rv(a[1])
		src := asBytesOrSlice(p.rget(s))
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			if p.raceOn {
				p.access(&src[i], false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if p.raceOn {
				p.access(&d[i], true)
			}
			assign(&d[i], tmp[i])
		}
		return bi(n)
	})
	reg("reflect.Indirect", func(p *Path, fr *frame, a []value) value {
		r := p.rv(a[0])
		if rkind(r.t) != reflect.Pointer {
			return r
		}
		return p.relem(r)
	})
	reg("reflect.DeepEqual", func(p *Path, fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		return p.deepEqual(x, y, 0)
	})
	R("IsValid", func(p *Path, fr *frame, r rvalue, a []value) value { return r.t != nil })
	R("Kind", func(p *Path, fr *frame, r rvalue, a []value) value { return uint64(rkind(r.t)) })
	R("Type", func(p *Path, fr *frame, r rvalue, a []value) value {
		if r.t == nil {
			panic(p.rpanic("reflect: call of reflect.Value.Type on zero Value"))
		}
		return p.rtypeIface(r.t)
	})
	R("Interface", func(p *Path, fr *frame, r rvalue, a []value) value {
		if r.t == nil {
			panic(p.rpanic("reflect: call of reflect.Value.Interface on zero Value"))
		}
		return p.toIface(r)
	})
	R("CanInterface", func(p *Path, fr *frame, r rvalue, a []value) value { return r.t != nil })
	R("CanAddr", func(p *Path, fr *frame, r rvalue, a []value) value { return r.addr != nil })
	R("CanSet", func(p *Path, fr *frame, r rvalue, a []value) value { return r.addr != nil })
	R("Addr", func(p *Path, fr *frame, r rvalue, a []value) value {
		if r.addr == nil {
			panic(p.rpanic("reflect.Value.Addr of unaddressable value"))
		}
		return rvalue{t: types.NewPointer(r.t), v: r.addr}
	})
	can := func(name string, ks []reflect.Kind) {
		R(name, func(p *Path, fr *frame, r rvalue, a []value) value {
			for _, k := range ks {
				if rkind(r.t) == k {
					return true
				}
			}
			return false
		})
	}
	can("CanInt", ints)
	can("CanUint", uints)
	can("CanFloat", floats)
	R("Bool", func(p *Path, fr *frame, r rvalue, a []value) value {
		p.mustKind(r, "Bool", reflect.Bool)
		return p.rget(r)
	})
	R("Int", func(p *Path, fr *frame, r rvalue, a []value) value {
		p.mustKind(r, "Int", ints...)
		s, _ := sortOf(r.t)
		return p.convert(r.t, types.Typ[types.Int64], s, sI64, p.rget(r))
	})
	R("Uint", func(p *Path, fr *frame, r rvalue, a []value) value {
		p.mustKind(r, "Uint", uints...)
		s, _ := sortOf(r.t)
		return p.convert(r.t, types.Typ[types.Uint64], s, sU64, p.rget(r))
	})
	R("Float", func(p *Path, fr *frame, r rvalue, a []value) value {
		p.mustKind(r, "Float", floats...)
		s, _ := sortOf(r.t)
		return p.convert(r.t, types.Typ[types.Float64], s, sF64, p.rget(r))
	})
	R("String", func(p *Path, fr *frame, r rvalue, a []value) value {
		if rkind(r.t) == reflect.String {
			return p.rget(r)
		}
		if r.t == nil {
			return "<invalid Value>"
		}
		return "<" + typeString(r.t) + " Value>"
	})
	R("Bytes", func(p *Path, fr *frame, r rvalue, a []value) value { return p.rget(r) })
	R("Len", func(p *Path, fr *frame, r rvalue, a []value) value {
		switch x := p.rget(r).(type) {
		case []value:
			return bi(len(x))
		case array:
			return bi(len(x))
		case string, *SStr:
			return bi(strLen(x))
		case *hmap:
			if x == nil {
				return bi(0)
			}
			return bi(x.n)
		}
		panic(p.rpanic("reflect: call of reflect.Value.Len on " + rkind(r.t).String() + " Value"))
	})
	R("Cap", func(p *Path, fr *frame, r rvalue, a []value) value { return bi(cap(p.rget(r).([]value))) })
	R("IsNil", func(p *Path, fr *frame, r rvalue, a []value) value {
		switch x := p.rget(r).(type) {
		case []value:
			return x == nil
		case *value:
			return x == nil
		case *hmap:
			return x == nil
		case *hchan:
			return x == nil
		case *closure:
			return x == nil
		case iface:
			return x.t == nil
		}
		panic(p.rpanic("reflect: call of reflect.Value.IsNil on " + rkind(r.t).String() + " Value"))
	})
	R("IsZero", func(p *Path, fr *frame, r rvalue, a []value) value {
		if r.t == nil {
			panic(p.rpanic("reflect: call of reflect.Value.IsZero on zero Value"))
		}
		return p.equals(r.t, p.rget(r), zero(r.t))
	})
	R("Elem", func(p *Path, fr *frame, r rvalue, a []value) value { return p.relem(r) })
	R("Index", func(p *Path, fr *frame, r rvalue, a []value) value {
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := p.rget(r).([]value)
			i := p.concInt(a[0])
			if i < 0 || i >= len(s) {
				panic(p.rpanic("reflect: slice index out of range"))
			}
			return rvalue{t: u.Elem(), addr: &s[i]}
		case *types.Array:
			i := p.concInt(a[0])
			if r.addr != nil {
				arr := (*r.addr.(*value)).(array)
				return rvalue{t: u.Elem(), addr: &arr[i]}
			}
			return rvalue{t: u.Elem(), v: r.v.(array)[i]}
		case *types.Basic:
			return rvalue{t: types.Typ[types.Uint8], v: strAt(p.rget(r), p.concInt(a[0]))}
		}
		panic(p.rpanic("reflect: call of reflect.Value.Index on " + rkind(r.t).String() + " Value"))
	})
	R("Slice", func(p *Path, fr *frame, r rvalue, a []value) value {
		i, j := p.concInt(a[0]), p.concInt(a[1])
		s, ok := p.rget(r).([]value)
		if !ok {
			bail("reflect Slice")
		}
		if i < 0 || j < i || j > cap(s) {
			panic(p.rpanic("reflect.Value.Slice: slice index out of bounds"))
		}
		return rvalue{t: r.t, v: s[i:j]}
	})
	R("Set", func(p *Path, fr *frame, r rvalue, a []value) value {
		if r.addr == nil {
			panic(p.rpanic("reflect: reflect.Value.Set using unaddressable value"))
		}
		x := p.rv(a[0])
		if x.t == nil {
			panic(p.rpanic("reflect: call of reflect.Value.Set on zero Value"))
		}
		p.store(r.addr, p.rassign(x, r.t))
		return nil
	})
	setK := func(name string, ks []reflect.Kind, from types.Type, fs Sort) {
		R(name, func(p *Path, fr *frame, r rvalue, a []value) value {
			if r.addr == nil {
				panic(p.rpanic("reflect: reflect.Value." + name + " using unaddressable value"))
			}
			p.mustKind(r, name, ks...)
			s, _ := sortOf(r.t)
			p.store(r.addr, p.convert(from, r.t, fs, s, a[0]))
			return nil
		})
	}
	setK("SetInt", ints, types.Typ[types.Int64], sI64)
	setK("SetUint", uints, types.Typ[types.Uint64], sU64)
	setK("SetFloat", floats, types.Typ[types.Float64], sF64)
	R("SetBool", func(p *Path, fr *frame, r rvalue, a []value) value { p.store(r.addr, a[0]); return nil })
	R("SetString", func(p *Path, fr *frame, r rvalue, a []value) value { p.store(r.addr, a[0]); return nil })
	R("Convert", func(p *Path, fr *frame, r rvalue, a []value) value {
		t := a[0].(iface).v.(rtypeBox).T
		if !types.ConvertibleTo(r.t, t) {
			panic(p.rpanic("reflect.Value.Convert: value of type " + typeString(r.t) + " cannot be converted to type " + typeString(t)))
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return rvalue{t: t, v: p.toIface(r)}
		}
		s, _ := sortOf(r.t)
		s2, _ := sortOf(t)
		return rvalue{t: t, v: p.convert(r.t, t, s, s2, copyVal(p.rget(r)))}
	})
	R("CanConvert", func(p *Path, fr *frame, r rvalue, a []value) value {
		return types.ConvertibleTo(r.t, a[0].(iface).v.(rtypeBox).T)
	})
	R("NumField", func(p *Path, fr *frame, r rvalue, a []value) value {
		return bi(r.t.Underlying().(*types.Struct).NumFields())
	})
	R("Field", func(p *Path, fr *frame, r rvalue, a []value) value {
		st := r.t.Underlying().(*types.Struct)
		i := p.concInt(a[0])
		if r.addr != nil {
			s := (*r.addr.(*value)).(structure)
			return rvalue{t: st.Field(i).Type(), addr: &s[i]}
		}
		return rvalue{t: st.Field(i).Type(), v: r.v.(structure)[i]}
	})
	R("FieldByName", func(p *Path, fr *frame, r rvalue, a []value) value {
		st, ok := r.t.Underlying().(*types.Struct)
		n, ok2 := a[0].(string)
		if !ok || !ok2 {
			bail("FieldByName")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				if r.addr != nil {
					s := (*r.addr.(*value)).(structure)
					return rvalue{t: st.Field(i).Type(), addr: &s[i]}
				}
				return rvalue{t: st.Field(i).Type(), v: r.v.(structure)[i]}
			}
		}
		return rvalue{}
	})
	R("Pointer", func(p *Path, fr *frame, r rvalue, a []value) value {
		var at *value
		switch x := p.rget(r).(type) {
		case *value:
			at = x
		case []value:
			if cap(x) > 0 {
				at = &x[:1][0]
			} else if x != nil {
				return uint64(0xc000000000)
			}
		default:
			bail("reflect.Value.Pointer of %s", r.t)
		}
		if at == nil {
			return uint64(0)
		}
		// only good for comparing addresses
		k, ok := p.addrs[at]
		if !ok {
			k = uint64(0xc000001000 + 0x1000*len(p.addrs))
			if p.addrs == nil {
				p.addrs = map[*value]uint64{}
			}
			p.addrs[at] = k
		}
		return k
	})
	R("UnsafePointer", func(p *Path, fr *frame, r rvalue, a []value) value {
		x, ok := p.rget(r).(*value)
		if !ok {
			bail("reflect.Value.UnsafePointer of %s", r.t)
		}
		return x
	})
	R("Call", func(p *Path, fr *frame, r rvalue, a []value) value {
		if rkind(r.t) != reflect.Func {
			panic(p.rpanic("reflect: call of Call on non-func Value"))
		}
		sig := r.t.Underlying().(*types.Signature)
		in := vargs(a[0])
		if len(in) != sig.Params().Len() {
			panic(p.rpanic("reflect: Call with wrong number of input arguments"))
		}
		var args []value
		for i, x := range in {
			args = append(args, p.rassign(p.rv(x), sig.Params().At(i).Type()))
		}
		cl, _ := p.rget(r).(*closure)
		if cl == nil {
			panic(p.rpanic("reflect: call of nil function"))
		}
		res := p.callClosure(fr, cl, args)
		out := []value{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, rvalue{t: sig.Results().At(0).Type(), v: res})
		default:
			for i, x := range res.(tuple) {
				out = append(out, rvalue{t: sig.Results().At(i).Type(), v: x})
			}
		}
		return out
	})
	R("MapKeys", func(p *Path, fr *frame, r rvalue, a []value) value {
		m := p.rget(r).(*hmap)
		out := []value{}
		if m != nil {
			for _, e := range p.mapOrder(m) {
				out = append(out, rvalue{t: r.t.Underlying().(*types.Map).Key(), v: e.k})
			}
		}
		return out
	})
	R("MapIndex", func(p *Path, fr *frame, r rvalue, a []value) value {
		m := p.rget(r).(*hmap)
		e := p.mapFind(m, p.rget(p.rv(a[0])))
		if e == nil {
			return rvalue{}
		}
		return rvalue{t: r.t.Underlying().(*types.Map).Elem(), v: e.v}
	})
	R("NumMethod", func(p *Path, fr *frame, r rvalue, a []value) value { return bi(types.NewMethodSet(r.t).Len()) })
	R("Method", func(p *Path, fr *frame, r rvalue, a []value) value { bail("reflect Method"); return nil })
	R("MethodByName", func(p *Path, fr *frame, r rvalue, a []value) value {
		n, ok := a[0].(string)
		if !ok {
			bail("MethodByName")
		}
		fn := p.P.lookupMethod(r.t, nil, n)
		if fn == nil {
			return rvalue{}
		}
		recv := copyVal(p.rget(r))
		return rvalue{t: sigNoRecv(fn), v: &closure{name: n, native: func(p *Path, fr *frame, args []value) value {
			return p.call(fr, p.P.cf(fn), append([]value{recv}, args...), nil)
		}}}
	})
}

func sigNoRecv(fn *ssa.Function) types.Type {
	s := fn.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func asBytesOrSlice(v value) []value {
	if s, ok := v.([]value); ok {
		return s
	}
	return strBytes(v)
}

func (p *Path) relem(r rvalue) rvalue {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		a := p.rget(r)
		ptr, ok := a.(*value)
		if !ok {
			chkPoison(a)
			bail("reflect Elem of %T", a)
		}
		if ptr == nil {
			return rvalue{}
		}
		return rvalue{t: u.Elem(), addr: ptr}
	case *types.Interface:
		i := p.rget(r).(iface)
		return p.rvOf(i)
	}
	panic(targetPanic{v: iface{types.Typ[types.String], "reflect: call of reflect.Value.Elem on " + rkind(r.t).String() + " Value"}, where: "reflect.Value.Elem on " + rkind(r.t).String()})
}

// deepEqual models reflect.DeepEqual.
func (p *Path) deepEqual(x, y iface, depth int) value {
	if depth > 60 {
		bail("deepEqual depth")
	}
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if !identical(x.t, y.t) {
		return false
	}
	return p.deepVal(x.t, x.v, y.v, depth+1)
}

func (p *Path) deepVal(t types.Type, a, b value, depth int) value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, y := a.(*value), b.(*value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return p.deepVal(u.Elem(), *x, *y, depth+1)
	case *types.Interface:
		return p.deepEqual(a.(iface), b.(iface), depth+1)
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			r = p.and(r, p.deepVal(u.Elem(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		var r value = true
		for i := range x {
			r = p.and(r, p.deepVal(u.Elem(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		var r value = true
		for i := range x {
			r = p.and(r, p.deepVal(u.Field(i).Type(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		x, y := a.(*hmap), b.(*hmap)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r value = true
		for _, e := range x.ents {
			o := p.mapFind(y, e.k)
			if o == nil {
				return false
			}
			r = p.and(r, p.deepVal(u.Elem(), e.v, o.v, depth+1))
		}
		return r
	case *types.Signature:
		x, _ := a.(*closure)
		y, _ := b.(*closure)
		return x == nil && y == nil
	}
	return p.equals(t, a, b)
}

// sort.Slice and its relatives use a small part of internal/reflectlite.
func init() {
	elems := func(v value) []value {
		e, _ := v.(iface)
		s, ok := e.v.([]value)
		if !ok {
			panic(targetPanic{v: iface{types.Typ[types.String], "reflect: call of Swapper on a value that is no slice"}, where: "reflectlite"})
		}
		return s
	}
	swapper := func(p *Path, fr *frame, a []value) value {
		s := elems(a[0])
		return &closure{name: "reflect.Swapper$1", native: func(p *Path, fr *frame, b []value) value {
			i, j := b[0], b[1]
			x, ok := i.(uint64)
			y, ok2 := j.(uint64)
			if !ok || !ok2 {
				bail("swap of symbolic indices")
			}
			if x >= uint64(len(s)) || y >= uint64(len(s)) {
				panic(p.rtError("reflect: slice index out of range"))
			}
			u, v := p.load(&s[x]), p.load(&s[y])
			p.store(&s[x], v)
			p.store(&s[y], u)
			return nil
		}}
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("internal/reflectlite.ValueOf", func(p *Path, fr *frame, a []value) value {
		return nativeBox{elems(a[0])}
	})
	reg("(internal/reflectlite.Value).Len", func(p *Path, fr *frame, a []value) value {
		b, ok := a[0].(nativeBox)
		if !ok {
			bail("reflectlite.Value")
		}
		return bi(len(b.x.([]value)))
	})
	reg("internal/reflectlite.TypeOf", func(p *Path, fr *frame, a []value) value {
		e := a[0].(iface)
		if e.t == nil {
			return iface{}
		}
		return p.rtypeIface(e.t)
	})
	reg("maps.clone", func(p *Path, fr *frame, a []value) value {
		e := a[0].(iface)
		m := e.v.(*hmap)
		if p.raceOn {
			p.accessObj(m, false)
		}
		n := newMap(m.kt)
		for _, x := range m.ents {
			if !x.deleted {
				p.mapSet(n, x.k, copyVal(x.v))
			}
		}
		return iface{e.t, n}
	})
	conc2 := func(name string, f func(x, y float64) float64) {
		reg("math."+name, func(p *Path, fr *frame, a []value) value {
			if isConc(a...) {
				return f(a[0].(float64), a[1].(float64))
			}
			bail("math.%s of a symbolic value", name)
			return nil
		})
	}
	conc2("Hypot", math.Hypot)
	conc2("Atan2", math.Atan2)
	conc2("Remainder", math.Remainder)
	words := func(v value) []uint64 {
		var r []uint64
		for _, x := range v.([]value) {
			u, ok := x.(uint64)
			if !ok {
				bail("math/big on symbolic numbers")
			}
			r = append(r, u)
		}
		return r
	}
	vec := func(name string, f func(x, y []uint64, w, c uint64) ([]uint64, uint64), nvec int) {
		reg("math/big."+name, func(p *Path, fr *frame, a []value) value {
			z := a[0].([]value)
			x := words(a[1])
			var y []uint64
			var w, c uint64
			i := 2
			if nvec == 3 {
				y = words(a[2])
				i = 3
			}
			for k, q := range a[i:] {
				u, ok := q.(uint64)
				if !ok {
					bail("math/big on symbolic numbers")
				}
				if k == 0 {
					w = u
				} else {
					c = u
				}
			}
			r, carry := f(x[:min(len(x), len(z))], y, w, c)
			for k := range r {
				z[k] = r[k]
			}
			return carry
		})
	}
	vec("addVV", func(x, y []uint64, _, _ uint64) (z []uint64, c uint64) {
		for i := range x {
			var s uint64
			s, c = bits.Add64(x[i], y[i], c)
			z = append(z, s)
		}
		return
	}, 3)
	vec("subVV", func(x, y []uint64, _, _ uint64) (z []uint64, c uint64) {
		for i := range x {
			var s uint64
			s, c = bits.Sub64(x[i], y[i], c)
			z = append(z, s)
		}
		return
	}, 3)
	vec("mulAddVWW", func(x, _ []uint64, w, c uint64) (z []uint64, _ uint64) {
		for i := range x {
			h, l := bits.Mul64(x[i], w)
			l, cc := bits.Add64(l, c, 0)
			z = append(z, l)
			c = h + cc
		}
		return z, c
	}, 2)
	vec("lshVU", func(x, _ []uint64, s, _ uint64) (z []uint64, c uint64) {
		for i := range x {
			z = append(z, x[i]<<s|c)
			c = x[i] >> (64 - s)
		}
		return
	}, 2)
	vec("rshVU", func(x, _ []uint64, s, _ uint64) (z []uint64, c uint64) {
		z = make([]uint64, len(x))
		for i := len(x) - 1; i >= 0; i-- {
			z[i] = x[i]>>s | c
			c = x[i] << (64 - s)
		}
		return
	}, 2)
	reg("math/big.addMulVVWW", func(p *Path, fr *frame, a []value) value {
		z, x, y := a[0].([]value), words(a[1]), words(a[2])
		m, ok := a[3].(uint64)
		c, ok2 := a[4].(uint64)
		if !ok || !ok2 {
			bail("math/big on symbolic numbers")
		}
		for i := range z {
			h, l := bits.Mul64(y[i], m)
			l, cc := bits.Add64(l, x[i], 0)
			h += cc
			l, cc = bits.Add64(l, c, 0)
			z[i] = l
			c = h + cc
		}
		return c
	})
}
