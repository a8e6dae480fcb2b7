package main

import "go/types"

// ---- model of encoding/gob as net/rpc uses it for replies ----
//
// A value is transmitted as the structure of its exported fields: zero fields
// and empty slices in structs are omitted (the receiver's stay), pointers are
// flattened, an interface carries the name of its concrete type, which has to
// be registered, and comes out as the type registered under that name. Times go
// through their binary form, which keeps the instant and drops the location.

type gobReg struct {
	base, registered types.Type
}

type gobFail struct{ msg string }

func gobBase(t types.Type) types.Type {
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = pt.Elem()
	}
}

func gobBasic(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() != types.UnsafePointer && b.Kind() != types.Invalid
}

func (p *Path) gobRegister(v iface) {
	if v.t == nil {
		bail("gob.Register(nil)")
	}
	l, _ := p.extAny("gob").([]gobReg)
	b := gobBase(v.t)
	for _, r := range l {
		if identical(r.base, b) {
			if !identical(r.registered, v.t) {
				panic(targetPanic{v: iface{types.Typ[types.String], "gob: registering duplicate names for " + b.String()}, where: "gob.Register"})
			}
			return
		}
	}
	p.setExtAny("gob", append(l[:len(l):len(l)], gobReg{b, v.t}))
}

func (p *Path) gobRegistered(t types.Type) (types.Type, bool) {
	b := gobBase(t)
	l, _ := p.extAny("gob").([]gobReg)
	for _, r := range l {
		if identical(r.base, b) {
			return r.registered, true
		}
	}
	if gobBasic(b) {
		return b, true
	}
	if s, ok := b.(*types.Slice); ok && gobBasic(s.Elem()) {
		return b, true
	}
	return nil, false
}

// gobSend returns what the receiver of v gets, dst being what the receiver had.
func (p *Path) gobSend(t types.Type, v, dst value, field bool) value {
	chkPoison(v)
	if n, ok := t.(*types.Named); ok && n == p.timeType() {
		s := v.(structure)
		wall, ext := s[0], s[1]
		switch w := wall.(type) {
		case uint64:
			if w>>63 != 0 {
				bail("gob: time with a monotonic reading")
			}
		case *Term:
			if w.hi == nil || w.hi.BitLen() > 62 {
				bail("gob: time with a symbolic wall clock field")
			}
		}
		return structure{wall, ext, *p.gname("time", "Local")}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if field && !p.gobIsZero(t, dst) {
			if p.truth(p.gobZero(t, v)) {
				return dst
			}
		}
		return v
	case *types.Pointer:
		ptr, _ := v.(*value)
		if ptr == nil {
			if field {
				return dst
			}
			panic(gobFail{"gob: cannot encode nil pointer"})
		}
		n := new(value)
		*n = zero(u.Elem())
		*n = p.gobSend(u.Elem(), p.load(ptr), *n, false)
		return n
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return dst
		}
		if ptr, ok := i.v.(*value); ok && ptr == nil {
			panic(gobFail{"gob: cannot encode nil pointer of type"})
		}
		reg, ok := p.gobRegistered(i.t)
		if !ok {
			panic(gobFail{"gob: type not registered for interface: " + i.t.String()})
		}
		st, sv := i.t, i.v
		for !identical(st, gobBase(st)) {
			ptr, _ := sv.(*value)
			if ptr == nil {
				panic(gobFail{"gob: cannot encode nil pointer"})
			}
			st = st.Underlying().(*types.Pointer).Elem()
			sv = p.load(ptr)
		}
		r := p.gobSend(st, sv, zero(st), false)
		out := r
		for rt := reg; !identical(rt, gobBase(rt)); rt = rt.Underlying().(*types.Pointer).Elem() {
			n := new(value)
			*n = out
			out = n
		}
		if _, isPtr := reg.Underlying().(*types.Pointer); isPtr {
			if _, two := reg.Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); two {
				bail("gob: pointer to pointer registered")
			}
		}
		return iface{reg, out}
	case *types.Struct:
		src := v.(structure)
		d, ok := copyVal(dst).(structure)
		if !ok {
			d = zero(t).(structure)
		}
		sent := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			switch f.Type().Underlying().(type) {
			case *types.Signature, *types.Chan:
				continue
			}
			sent++
			d[i] = p.gobSend(f.Type(), src[i], d[i], true)
		}
		if sent == 0 {
			panic(gobFail{"gob: type " + t.String() + " has no exported fields"})
		}
		return d
	case *types.Slice:
		s, _ := v.([]value)
		if len(s) == 0 {
			if field {
				return dst
			}
			return make([]value, 0)
		}
		out := make([]value, len(s))
		for i := range s {
			out[i] = p.gobSend(u.Elem(), p.load(&s[i]), zero(u.Elem()), false)
		}
		return out
	case *types.Array:
		s := v.(array)
		out := make(array, len(s))
		for i := range s {
			out[i] = p.gobSend(u.Elem(), s[i], zero(u.Elem()), false)
		}
		return out
	}
	bail("gob: %s", t)
	return nil
}

// gobIsZero: a concrete zero.
func (p *Path) gobIsZero(t types.Type, v value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	}
	return false
}

func (p *Path) gobZero(t types.Type, v value) value {
	if _, ok := v.(*Term); ok {
		bail("gob: symbolic field into a used reply")
	}
	if s, ok := v.(*SStr); ok {
		return len(s.b) == 0
	}
	return p.gobIsZero(t, v)
}

// gobReply transmits the reply src of type t into *dst; it reports an encoding failure.
func (p *Path) gobReply(t types.Type, src value, dst *value) (err string) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(gobFail)
			if !ok {
				panic(r)
			}
			err = f.msg
		}
	}()
	*dst = p.gobSend(t, src, *dst, false)
	return ""
}
