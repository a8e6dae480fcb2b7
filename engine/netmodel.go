package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"net/textproto"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- models of net/http's mux, net/rpc, encoding/json, compress/gzip, regexp ----

type muxEntry struct {
	pattern string
	h       iface
}

func (p *Path) muxKey(a value) any {
	type mk struct{ p *value }
	ptr, _ := a.(*value)
	if d, ok := (*p.gname("net/http", "DefaultServeMux")).(*value); ok && d == ptr {
		ptr = nil
	}
	return mk{ptr}
}

func (p *Path) muxAdd(k any, pattern value, h iface) {
	pat, ok := pattern.(string)
	if !ok {
		bail("symbolic mux pattern")
	}
	es, _ := p.extAny(k).([]muxEntry)
	for _, e := range es {
		if e.pattern == pat {
			panic(targetPanic{v: iface{types.Typ[types.String], "http: multiple registrations for " + pat}, where: "http.Handle"})
		}
	}
	if strings.ContainsAny(pat, " {") {
		bail("mux pattern %q", pat)
	}
	p.setExtAny(k, append(es, muxEntry{pat, h}))
}

func (p *Path) handlerFunc(cl value) iface {
	return iface{p.P.pkgs["net/http"].Pkg.Scope().Lookup("HandlerFunc").Type(), cl}
}

// fieldOf reads a struct field by name.
func fieldOf(t types.Type, v value, name string) value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.(structure)[i]
		}
	}
	bail("no field %s", name)
	return nil
}

func (p *Path) typeIn(pkg, name string) types.Type {
	pk := p.P.pkgs[pkg]
	if pk == nil {
		bail("package %s not loaded", pkg)
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		bail("no type %s.%s", pkg, name)
	}
	return o.Type()
}

func init() {
	reg("net/http.Handle", func(p *Path, fr *frame, a []value) value {
		p.muxAdd(p.muxKey((*value)(nil)), a[0], a[1].(iface))
		return nil
	})
	reg("net/http.HandleFunc", func(p *Path, fr *frame, a []value) value {
		p.muxAdd(p.muxKey((*value)(nil)), a[0], p.handlerFunc(a[1]))
		return nil
	})
	reg("(*net/http.ServeMux).Handle", func(p *Path, fr *frame, a []value) value {
		p.muxAdd(p.muxKey(a[0]), a[1], a[2].(iface))
		return nil
	})
	reg("(*net/http.ServeMux).HandleFunc", func(p *Path, fr *frame, a []value) value {
		p.muxAdd(p.muxKey(a[0]), a[1], p.handlerFunc(a[2]))
		return nil
	})
	reg("(*net/http.ServeMux).ServeHTTP", func(p *Path, fr *frame, a []value) value {
		es, _ := p.extAny(p.muxKey(a[0])).([]muxEntry)
		reqT := p.typeIn("net/http", "Request")
		u := fieldOf(reqT, *p.nilCheck(a[2]), "URL")
		pth := fieldOf(p.typeIn("net/url", "URL"), *p.nilCheck(u), "Path")
		if s, ok := pth.(string); ok {
			c := path.Clean(s)
			if strings.HasSuffix(s, "/") && c != "/" {
				c += "/"
			}
			if c != s {
				bail("mux redirect of the unclean path %q", s)
			}
		}
		es = append([]muxEntry(nil), es...)
		sort.Slice(es, func(i, j int) bool { return len(es[i].pattern) > len(es[j].pattern) })
		for _, e := range es {
			n := len(e.pattern)
			var hit value
			if strings.HasSuffix(e.pattern, "/") {
				if strLen(pth) < n {
					continue
				}
				hit = p.strEq(strSlice(pth, 0, n), e.pattern)
			} else {
				hit = p.strEq(pth, e.pattern)
			}
			if p.truth(hit) {
				fn := p.P.lookupMethod(e.h.t, nil, "ServeHTTP")
				return p.callClosure(fr, &closure{fn: fn}, []value{copyVal(e.h.v), a[1], a[2]})
			}
		}
		bail("mux: no handler for %v", pth)
		return nil
	})
	reg("net/textproto.CanonicalMIMEHeaderKey", func(p *Path, fr *frame, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			bail("symbolic header key")
		}
		return textproto.CanonicalMIMEHeaderKey(s)
	})

	// ---- net/rpc ----
	rpcReg := func(p *Path, name string, rcvr iface) value {
		m, _ := p.ext["rpc"].(map[string]iface)
		if m == nil {
			m = map[string]iface{}
			p.ext["rpc"] = m
		}
		if _, dup := m[name]; dup {
			return p.mkError("rpc: service already defined: " + name)
		}
		m[name] = rcvr
		return iface{}
	}
	reg("net/rpc.RegisterName", func(p *Path, fr *frame, a []value) value {
		return rpcReg(p, a[0].(string), a[1].(iface))
	})
	reg("net/rpc.Register", func(p *Path, fr *frame, a []value) value {
		r := a[0].(iface)
		t := r.t
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			bail("rpc.Register of %s", r.t)
		}
		return rpcReg(p, n.Obj().Name(), r)
	})
	reg("net/rpc.HandleHTTP", nop)
	reg("vh/sym.CallRPC", func(p *Path, fr *frame, a []value) value {
		m, _ := p.ext["rpc"].(map[string]iface)
		svc, meth, _ := strings.Cut(a[0].(string), ".")
		r, ok := m[svc]
		if !ok {
			return p.mkError("rpc: can't find service " + a[0].(string))
		}
		fn := p.P.lookupMethod(r.t, nil, meth)
		if fn == nil {
			return p.mkError("rpc: can't find method " + a[0].(string))
		}
		reply := a[2].(iface)
		rt := reply.t.Underlying().(*types.Pointer).Elem()
		own := new(value) // the server's reply
		*own = zero(rt)
		if _, ok := rt.Underlying().(*types.Slice); ok {
			*own = make([]value, 0)
		}
		e := p.callClosure(fr, &closure{fn: fn}, []value{copyVal(r.v), copyVal(a[1].(iface).v), own})
		if ei := e.(iface); ei.t != nil {
			s, ok := p.methodStr(fr, ei)
			if !ok {
				bail("rpc error text")
			}
			fnE := p.P.pkgs["errors"].Func("New")
			return p.call(fr, p.P.cf(fnE), []value{s}, nil)
		}
		if msg := p.gobReply(rt, *own, reply.v.(*value)); msg != "" {
			return p.mkError("unexpected EOF") // the server closes the connection
		}
		return iface{}
	})

	// ---- encoding/json ----
	marshal := func(p *Path, fr *frame, v iface, escHTML bool) ([]value, value) {
		j := &jenc{p: p, fr: fr, html: escHTML}
		if err := j.enc(v.t, v.v, 0); err != nil {
			return nil, *err
		}
		return j.out, nil
	}
	reg("encoding/json.Marshal", func(p *Path, fr *frame, a []value) value {
		b, err := marshal(p, fr, a[0].(iface), true)
		if err != nil {
			return tuple{[]value(nil), err}
		}
		return tuple{b, iface{}}
	})
	reg("encoding/json.MarshalIndent", func(p *Path, fr *frame, a []value) value {
		b, err := marshal(p, fr, a[0].(iface), true)
		if err != nil {
			return tuple{[]value(nil), err}
		}
		return tuple{p.jsonIndent(b, a[1].(string), a[2].(string)), iface{}}
	})
	bufWrite := func(p *Path, fr *frame, buf value, b []value) {
		fn := p.P.lookupMethod(types.NewPointer(p.typeIn("bytes", "Buffer")), nil, "Write")
		p.call(fr, p.P.cf(fn), []value{buf, b}, nil)
	}
	reg("encoding/json.Indent", func(p *Path, fr *frame, a []value) value {
		bufWrite(p, fr, a[0], p.jsonIndent(a[1].([]value), a[2].(string), a[3].(string)))
		return iface{}
	})
	reg("encoding/json.Compact", func(p *Path, fr *frame, a []value) value {
		var out []value
		inStr, esc := false, false
		for _, c := range a[1].([]value) {
			u, conc := c.(uint64)
			switch {
			case !conc:
			case inStr:
				if esc {
					esc = false
				} else if u == '\\' {
					esc = true
				} else if u == '"' {
					inStr = false
				}
			case u == '"':
				inStr = true
			case u == ' ' || u == '\t' || u == '\r' || u == '\n':
				continue
			}
			out = append(out, c)
		}
		bufWrite(p, fr, a[0], out)
		return iface{}
	})
	type encState struct {
		w              value
		prefix, indent string
		noHTML         bool
	}
	reg("encoding/json.NewEncoder", func(p *Path, fr *frame, a []value) value {
		v := new(value)
		*v = nativeBox{&encState{w: a[0]}}
		return v
	})
	reg("(*encoding/json.Encoder).SetIndent", func(p *Path, fr *frame, a []value) value {
		e := (*p.nilCheck(a[0])).(nativeBox).x.(*encState)
		e.prefix, e.indent = a[1].(string), a[2].(string)
		return nil
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(p *Path, fr *frame, a []value) value {
		(*p.nilCheck(a[0])).(nativeBox).x.(*encState).noHTML = !a[1].(bool)
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(p *Path, fr *frame, a []value) value {
		e := (*p.nilCheck(a[0])).(nativeBox).x.(*encState)
		b, err := marshal(p, fr, a[1].(iface), !e.noHTML)
		if err != nil {
			return err
		}
		if e.indent != "" || e.prefix != "" {
			b = p.jsonIndent(b, e.prefix, e.indent)
		}
		b = append(b, uint64('\n'))
		w := e.w.(iface)
		fn := p.P.lookupMethod(w.t, nil, "Write")
		r := p.callClosure(fr, &closure{fn: fn}, []value{copyVal(w.v), b})
		return r.(tuple)[1]
	})
	reg("encoding/json.Valid", func(p *Path, fr *frame, a []value) value { bail("json.Valid"); return nil })
	reg("vh/sym.ParseJSON", func(p *Path, fr *frame, a []value) value {
		ps := &jparse{p: p, b: a[0].([]value), nodeT: p.typeIn("vh/sym", "Node")}
		n, err := ps.top()
		if err != "" {
			return tuple{(*value)(nil), p.mkError("json: " + err)}
		}
		return tuple{n, iface{}}
	})

	// ---- compress/gzip: output = magic, the data, and a trailer on Close ----
	type gzState struct {
		w      value
		buf    []value
		closed bool
	}
	mkgz := func(p *Path, w value) value {
		v := new(value)
		*v = nativeBox{&gzState{w: w}}
		return v
	}
	reg("compress/gzip.NewWriter", func(p *Path, fr *frame, a []value) value { return mkgz(p, a[0]) })
	reg("compress/gzip.NewWriterLevel", func(p *Path, fr *frame, a []value) value { return tuple{mkgz(p, a[0]), iface{}} })
	reg("(*compress/gzip.Writer).Write", func(p *Path, fr *frame, a []value) value {
		g := (*p.nilCheck(a[0])).(nativeBox).x.(*gzState)
		g.buf = append(g.buf, a[1].([]value)...)
		return tuple{bi(len(a[1].([]value))), iface{}}
	})
	gzFlush := func(p *Path, fr *frame, g *gzState, final bool) value {
		out := append([]value{uint64(0x1f), uint64(0x8b)}, g.buf...)
		if final {
			out = append(out, uint64(0x8b), uint64(0x1f))
		}
		w := g.w.(iface)
		fn := p.P.lookupMethod(w.t, nil, "Write")
		return p.callClosure(fr, &closure{fn: fn}, []value{copyVal(w.v), out}).(tuple)[1]
	}
	reg("(*compress/gzip.Writer).Flush", func(p *Path, fr *frame, a []value) value { return iface{} })
	reg("(*compress/gzip.Writer).Close", func(p *Path, fr *frame, a []value) value {
		g := (*p.nilCheck(a[0])).(nativeBox).x.(*gzState)
		if g.closed {
			return iface{}
		}
		g.closed = true
		return gzFlush(p, fr, g, true)
	})
	reg("(*compress/gzip.Writer).Reset", func(p *Path, fr *frame, a []value) value {
		*p.nilCheck(a[0]) = nativeBox{&gzState{w: a[1]}}
		return nil
	})
	reg("vh/sym.Gunzip", func(p *Path, fr *frame, a []value) value {
		b := a[0].([]value)
		is := func(i int, c uint64) bool { u, ok := b[i].(uint64); return ok && u == c }
		n := len(b)
		if n < 4 || !is(0, 0x1f) || !is(1, 0x8b) || !is(n-2, 0x8b) || !is(n-1, 0x1f) {
			return tuple{[]value(nil), p.mkError("gzip: invalid header")}
		}
		return tuple{append([]value(nil), b[2:n-2]...), iface{}}
	})

	// ---- regexp on concrete text ----
	rx := func(p *Path, a value) *regexp.Regexp { return (*p.nilCheck(a)).(nativeBox).x.(*regexp.Regexp) }
	mkrx := func(r *regexp.Regexp) value {
		v := new(value)
		*v = nativeBox{r}
		return v
	}
	reg("regexp.MustCompile", func(p *Path, fr *frame, a []value) value {
		r, err := regexp.Compile(a[0].(string))
		if err != nil {
			panic(targetPanic{v: iface{types.Typ[types.String], err.Error()}, where: "regexp"})
		}
		return mkrx(r)
	})
	reg("regexp.Compile", func(p *Path, fr *frame, a []value) value {
		r, err := regexp.Compile(a[0].(string))
		if err != nil {
			return tuple{(*value)(nil), p.mkError(err.Error())}
		}
		return tuple{mkrx(r), iface{}}
	})
	conc := func(v value) string {
		s, ok := v.(string)
		if !ok {
			bail("regexp on symbolic text")
		}
		return s
	}
	reg("(*regexp.Regexp).ReplaceAllString", func(p *Path, fr *frame, a []value) value {
		return rx(p, a[0]).ReplaceAllString(conc(a[1]), conc(a[2]))
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(p *Path, fr *frame, a []value) value {
		return rx(p, a[0]).ReplaceAllLiteralString(conc(a[1]), conc(a[2]))
	})
	reg("(*regexp.Regexp).MatchString", func(p *Path, fr *frame, a []value) value {
		return rx(p, a[0]).MatchString(conc(a[1]))
	})
}

// ---- JSON encoder ----

type jenc struct {
	p    *Path
	fr   *frame
	out  []value
	html bool
}

func (j *jenc) raw(s string) {
	for i := 0; i < len(s); i++ {
		j.out = append(j.out, uint64(s[i]))
	}
}

type jfield struct {
	idx       int
	name      string
	omit      bool
	omitZero  bool
	asString  bool
	t         types.Type
	embedded  bool
	fromNamed string
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Anonymous() && name == "" {
			bail("json: embedded field")
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		jf := jfield{idx: i, name: name, t: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "omitempty":
				jf.omit = true
			case "string":
				jf.asString = true
			case "omitzero":
				jf.omitZero = true
			}
		}
		if jf.asString || jf.omitZero {
			bail("json tag option")
		}
		out = append(out, jf)
	}
	return out
}

func (j *jenc) enc(t types.Type, v value, depth int) *value {
	p := j.p
	if t == nil {
		j.raw("null")
		return nil
	}
	chkPoison(v)
	if depth > 60 {
		bail("json nesting")
	}
	// json.Marshaler / encoding.TextMarshaler
	ms := p.P.prog.MethodSets.MethodSet(t)
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if ptr, ok := v.(*value); ok && ptr == nil {
			if _, isP := t.Underlying().(*types.Pointer); isP {
				j.raw("null")
				return nil
			}
		}
		if sel := ms.Lookup(nil, "MarshalJSON"); sel != nil {
			fn := p.P.lookupMethod(t, nil, "MarshalJSON")
			r := p.callClosure(j.fr, &closure{fn: fn}, []value{copyVal(v)}).(tuple)
			if e := r[1].(iface); e.t != nil {
				var ev value = e
				return &ev
			}
			j.out = append(j.out, r[0].([]value)...)
			return nil
		}
		if sel := ms.Lookup(nil, "MarshalText"); sel != nil {
			fn := p.P.lookupMethod(t, nil, "MarshalText")
			r := p.callClosure(j.fr, &closure{fn: fn}, []value{copyVal(v)}).(tuple)
			if e := r[1].(iface); e.t != nil {
				var ev value = e
				return &ev
			}
			j.str(mkStr(r[0].([]value)))
			return nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if p.truth(v) {
				j.raw("true")
			} else {
				j.raw("false")
			}
		case u.Info()&types.IsInteger != 0:
			s, _ := sortOf(t)
			j.out = append(j.out, p.fmtIntBytes(v, s, 0)...)
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if !ok {
				bail("json: symbolic float")
			}
			if math.IsNaN(f) || math.IsInf(f, 0) {
				e := p.mkError("json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64))
				return &e
			}
			var b []byte
			if u.Kind() == types.Float32 {
				b, _ = json.Marshal(float32(f))
			} else {
				b, _ = json.Marshal(f)
			}
			j.raw(string(b))
		case u.Info()&types.IsString != 0:
			j.str(v)
		default:
			bail("json of %s", t)
		}
	case *types.Pointer:
		ptr := v.(*value)
		if ptr == nil {
			j.raw("null")
			return nil
		}
		return j.enc(u.Elem(), p.load(ptr), depth+1)
	case *types.Interface:
		i := v.(iface)
		return j.enc(i.t, i.v, depth+1)
	case *types.Struct:
		j.raw("{")
		first := true
		for _, f := range jsonFields(u) {
			fv := v.(structure)[f.idx]
			if f.omit && p.truth(p.jsonEmpty(f.t, fv)) {
				continue
			}
			if !first {
				j.raw(",")
			}
			first = false
			j.str(f.name)
			j.raw(":")
			if e := j.enc(f.t, fv, depth+1); e != nil {
				return e
			}
		}
		j.raw("}")
	case *types.Slice, *types.Array:
		var el []value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			el = v.([]value)
			et = s.Elem()
			if el == nil {
				j.raw("null")
				return nil
			}
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				// []byte is base64
				bs, ok := goBytes(el)
				if !ok {
					bail("json: symbolic []byte")
				}
				e, _ := json.Marshal(bs)
				j.raw(string(e))
				return nil
			}
		} else {
			el = v.(array)
			et = u.(*types.Array).Elem()
		}
		j.raw("[")
		for i, x := range el {
			if i > 0 {
				j.raw(",")
			}
			if e := j.enc(et, x, depth+1); e != nil {
				return e
			}
		}
		j.raw("]")
	case *types.Map:
		m, _ := v.(*hmap)
		if m == nil {
			j.raw("null")
			return nil
		}
		var ks []string
		vals := map[string]value{}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			s, ok := e.k.(string)
			if !ok {
				bail("json map key")
			}
			ks = append(ks, s)
			vals[s] = e.v
		}
		sort.Strings(ks)
		j.raw("{")
		for i, k := range ks {
			if i > 0 {
				j.raw(",")
			}
			j.str(k)
			j.raw(":")
			if e := j.enc(u.Elem(), vals[k], depth+1); e != nil {
				return e
			}
		}
		j.raw("}")
	default:
		e := p.mkError("json: unsupported type: " + t.String())
		return &e
	}
	return nil
}

func (p *Path) jsonEmpty(t types.Type, v value) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLen(v) == 0
		}
		return p.equals(t, v, zero(t))
	case *types.Slice:
		return len(v.([]value)) == 0
	case *types.Map:
		m := v.(*hmap)
		return m == nil || m.n == 0
	case *types.Pointer:
		x, ok := v.(*value)
		return ok && x == nil
	case *types.Interface:
		return v.(iface).t == nil
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

func (j *jenc) str(v value) {
	p := j.p
	if s, ok := v.(string); ok {
		if j.html {
			b, _ := json.Marshal(s)
			j.raw(string(b))
		} else {
			var sb strings.Builder
			e := json.NewEncoder(&sb)
			e.SetEscapeHTML(false)
			e.Encode(s)
			j.raw(strings.TrimSuffix(sb.String(), "\n"))
		}
		return
	}
	j.raw(`"`)
	for _, c := range v.(*SStr).b {
		u, ok := c.(uint64)
		if !ok {
			t := c.(*Term)
			lim := func(op func(a, b *Term) *Term, a, b *Term) bool { return p.truth(unterm(op(a, b))) }
			if !lim(p.f.Lt, t, p.f.Int(sU8, 0x80)) {
				bail("json: symbolic non-ASCII text")
			}
			special := p.f.Lt(t, p.f.Int(sU8, 0x20))
			for _, x := range "\"\\<>&\x7f" {
				if x == 0x7f {
					continue
				}
				special = p.f.Or(special, p.f.Eq(t, p.f.Int(sU8, uint64(x))))
			}
			if !p.truth(unterm(special)) {
				j.out = append(j.out, c)
				continue
			}
			u = p.concretize(t)
		}
		if u >= 0x80 {
			bail("json: non-ASCII byte in a symbolic string")
		}
		b, _ := json.Marshal(string(rune(u)))
		if !j.html && (u == '<' || u == '>' || u == '&') {
			b = []byte{'"', byte(u), '"'}
		}
		j.raw(string(b[1 : len(b)-1]))
	}
	j.raw(`"`)
}

// jsonIndent is json.Indent on text whose symbolic bytes are known not to be structural.
func (p *Path) jsonIndent(b []value, prefix, indent string) []value {
	var out []value
	raw := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, uint64(s[i]))
		}
	}
	depth := 0
	nl := func() {
		raw("\n" + prefix + strings.Repeat(indent, depth))
	}
	inStr, esc, needIndent := false, false, false
	for _, c := range b {
		u, conc := c.(uint64)
		if inStr {
			out = append(out, c)
			if conc {
				if esc {
					esc = false
				} else if u == '\\' {
					esc = true
				} else if u == '"' {
					inStr = false
				}
			}
			continue
		}
		if conc && (u == ' ' || u == '\t' || u == '\r' || u == '\n') {
			continue
		}
		if needIndent && !(conc && (u == ']' || u == '}')) {
			needIndent = false
			depth++
			nl()
		}
		if !conc {
			out = append(out, c) // a digit
			continue
		}
		switch u {
		case '"':
			inStr = true
			out = append(out, c)
		case '{', '[':
			needIndent = true
			out = append(out, c)
		case ',':
			out = append(out, c)
			nl()
		case ':':
			raw(": ")
		case '}', ']':
			if needIndent {
				needIndent = false
			} else {
				depth--
				nl()
			}
			out = append(out, c)
		default:
			out = append(out, c)
		}
	}
	return out
}

// ---- JSON parser for sym.ParseJSON ----

type jparse struct {
	p     *Path
	b     []value
	i     int
	nodeT types.Type
}

type jperr struct{ msg string }

func (j *jparse) top() (n value, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jperr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	n = j.val()
	j.ws()
	if j.i < len(j.b) {
		panic(jperr{"trailing data"})
	}
	return
}

// at returns the concrete byte or 256 for a symbolic one, -1 at the end.
func (j *jparse) at() int {
	if j.i >= len(j.b) {
		return -1
	}
	if u, ok := j.b[j.i].(uint64); ok {
		return int(u)
	}
	return 256
}

func (j *jparse) ws() {
	for c := j.at(); c == ' ' || c == '\n' || c == '\t' || c == '\r'; c = j.at() {
		j.i++
	}
}

func (j *jparse) expect(c int) {
	j.ws()
	if j.at() != c {
		panic(jperr{fmt.Sprintf("expected %q at %d", rune(c), j.i)})
	}
	j.i++
}

func (j *jparse) node(kind string, text value, keys, kids []value) value {
	st := j.nodeT.Underlying().(*types.Struct)
	s := zero(j.nodeT).(structure)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Kind":
			s[i] = kind
		case "Text":
			s[i] = text
		case "Keys":
			s[i] = keys
		case "Kids":
			s[i] = kids
		}
	}
	v := new(value)
	*v = s
	return v
}

func (j *jparse) val() value {
	j.ws()
	switch c := j.at(); {
	case c == -1:
		panic(jperr{"unexpected end"})
	case c == '{':
		j.i++
		var keys, kids []value
		j.ws()
		if j.at() == '}' {
			j.i++
			return j.node("object", "", nil, nil)
		}
		for {
			j.ws()
			if j.at() != '"' {
				panic(jperr{"key expected"})
			}
			keys = append(keys, j.str())
			j.expect(':')
			kids = append(kids, j.val())
			j.ws()
			if j.at() == ',' {
				j.i++
				continue
			}
			j.expect('}')
			return j.node("object", "", keys, kids)
		}
	case c == '[':
		j.i++
		var kids []value
		j.ws()
		if j.at() == ']' {
			j.i++
			return j.node("array", "", nil, nil)
		}
		for {
			kids = append(kids, j.val())
			j.ws()
			if j.at() == ',' {
				j.i++
				continue
			}
			j.expect(']')
			return j.node("array", "", nil, kids)
		}
	case c == '"':
		return j.node("string", j.str(), nil, nil)
	case c == 256 || c == '-' || c >= '0' && c <= '9':
		st := j.i
		for {
			c := j.at()
			if c == 256 || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c >= '0' && c <= '9' {
				j.i++
				continue
			}
			break
		}
		return j.node("number", mkStr(j.b[st:j.i]), nil, nil)
	}
	for _, lit := range []string{"null", "true", "false"} {
		if j.i+len(lit) <= len(j.b) {
			if s, ok := mkStr(j.b[j.i : j.i+len(lit)]).(string); ok && s == lit {
				j.i += len(lit)
				if lit == "null" {
					return j.node("null", "", nil, nil)
				}
				return j.node("bool", lit, nil, nil)
			}
		}
	}
	panic(jperr{fmt.Sprintf("invalid character at %d", j.i)})
}

func (j *jparse) str() value {
	j.i++
	var out []value
	for {
		c := j.at()
		if c == -1 {
			panic(jperr{"unterminated string"})
		}
		if c == '"' {
			j.i++
			return mkStr(out)
		}
		if c == '\\' {
			j.i++
			e := j.at()
			n := 1
			if e == 'u' {
				n = 5
			}
			if j.i+n > len(j.b) {
				panic(jperr{"bad escape"})
			}
			raw, ok := mkStr(j.b[j.i : j.i+n]).(string)
			if !ok {
				bail("json: symbolic escape")
			}
			var s string
			if json.Unmarshal([]byte(`"\`+raw+`"`), &s) != nil {
				panic(jperr{"bad escape"})
			}
			j.i += n
			out = append(out, strBytes(s)...)
			continue
		}
		if c < 0x20 {
			panic(jperr{"control character in string"})
		}
		out = append(out, j.b[j.i])
		j.i++
	}
}
