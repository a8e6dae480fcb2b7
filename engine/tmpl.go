package main

// Model of html/template and text/template: parsing and contextual escaping are
// done by the real packages on the (concrete) template text; execution walks the
// escaped parse tree over interpreter values, calling the target's methods and the
// real escaping functions through the interpreter.

import (
	"fmt"
	"go/token"
	"go/types"
	htmpl "html/template"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"
	ttmpl "text/template"
	"text/template/parse"
)

type tmplSet struct {
	html       bool
	texts      [][2]string // name, text in order
	funcs      map[string]value
	bound      map[string]bool // templates that exist
	opts       []string
	ldel, rdel string
}

type tmplState struct {
	set  *tmplSet
	name string
}

type parsedSet struct {
	trees  map[string]*parse.Tree
	escErr map[string]string
	err    string
}

var (
	tmplMu    sync.Mutex
	tmplCache = map[string]*parsedSet{}
)

// parsed parses and escapes the set for executing name (cached by text).
func (s *tmplSet) parsed(exec string) *parsedSet {
	var kb strings.Builder
	fmt.Fprintf(&kb, "%v|%q|%q|%q|%q|", s.html, exec, s.texts, s.ldel, s.rdel)
	var names []string
	for n := range s.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Fprintf(&kb, "%q", names)
	k := kb.String()
	tmplMu.Lock()
	defer tmplMu.Unlock()
	if r := tmplCache[k]; r != nil {
		return r
	}
	r := &parsedSet{trees: map[string]*parse.Tree{}, escErr: map[string]string{}}
	tmplCache[k] = r
	fm := map[string]any{}
	for _, n := range names {
		fm[n] = func(...any) any { return nil }
	}
	if s.html {
		var t *htmpl.Template
		for _, x := range s.texts {
			if t == nil {
				t = htmpl.New(x[0]).Delims(s.ldel, s.rdel).Funcs(fm)
			}
			u := t
			if u.Name() != x[0] {
				u = t.New(x[0])
			}
			if _, err := u.Parse(x[1]); err != nil {
				r.err = err.Error()
				return r
			}
		}
		if t == nil {
			return r
		}
		if exec != "" {
			err := t.ExecuteTemplate(io.Discard, exec, nil)
			if e, ok := err.(*htmpl.Error); ok && e.ErrorCode != htmpl.OK {
				r.escErr[exec] = e.Error()
			}
		}
		for _, x := range t.Templates() {
			if x.Tree != nil {
				r.trees[x.Name()] = x.Tree
			}
		}
		return r
	}
	var t *ttmpl.Template
	for _, x := range s.texts {
		if t == nil {
			t = ttmpl.New(x[0]).Delims(s.ldel, s.rdel).Funcs(fm)
		}
		u := t
		if u.Name() != x[0] {
			u = t.New(x[0])
		}
		if _, err := u.Parse(x[1]); err != nil {
			r.err = err.Error()
			return r
		}
	}
	if t != nil {
		for _, x := range t.Templates() {
			if x.Tree != nil {
				r.trees[x.Name()] = x.Tree
			}
		}
	}
	return r
}

// tmplErr ends the execution of a template with an error.
type tmplErr struct{ err value }

type tvar struct {
	name string
	v    rvalue
}

type texec struct {
	p    *Path
	fr   *frame
	w    value
	set  *tmplSet
	ps   *parsedSet
	vars []tvar
	name string
	deep int
}

func (x *texec) fail(format string, a ...any) {
	panic(tmplErr{x.p.mkError("template: " + x.name + ": " + fmt.Sprintf(format, a...))})
}

type tbreak struct{}
type tcontinue struct{}

func (x *texec) write(s value) {
	if len(strBytes(s)) == 0 {
		if str, ok := s.(string); ok && str == "" {
			// an empty Fprint still calls Write
		}
	}
	r := x.p.writeTo(x.fr, x.w, s).(tuple)
	if e := r[1].(iface); e.t != nil {
		panic(tmplErr{e})
	}
}

func (x *texec) walk(dot rvalue, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, c := range n.Nodes {
			x.walk(dot, c)
		}
	case *parse.TextNode:
		x.write(string(n.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipeline(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			x.printValue(v)
		}
	case *parse.IfNode:
		x.ifOrWith(dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		x.ifOrWith(dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		x.rng(dot, n)
	case *parse.TemplateNode:
		t := x.ps.trees[n.Name]
		if t == nil {
			x.fail("template %q not defined", n.Name)
		}
		if x.deep > 200 {
			bail("template depth")
		}
		arg := rvalue{}
		if n.Pipe != nil {
			arg = x.pipeline(dot, n.Pipe)
		}
		y := &texec{p: x.p, fr: x.fr, w: x.w, set: x.set, ps: x.ps, name: x.name, deep: x.deep + 1, vars: []tvar{{"$", arg}}}
		y.walk(arg, t.Root)
	case *parse.BreakNode:
		panic(tbreak{})
	case *parse.ContinueNode:
		panic(tcontinue{})
	default:
		bail("template node %T", n)
	}
}

func (x *texec) ifOrWith(dot rvalue, pipe *parse.PipeNode, list, els *parse.ListNode, with bool) {
	mark := len(x.vars)
	defer func() { x.vars = x.vars[:mark] }()
	v := x.pipeline(dot, pipe)
	if x.truth(v) {
		if with {
			x.walk(v, list)
		} else {
			x.walk(dot, list)
		}
	} else if els != nil {
		x.walk(dot, els)
	}
}

func (x *texec) indirectIface(v rvalue) rvalue {
	if v.t == nil {
		return v
	}
	if _, ok := v.t.Underlying().(*types.Interface); ok {
		return x.p.relem(v)
	}
	return v
}

func (x *texec) truth(v rvalue) bool {
	p := x.p
	v = x.indirectIface(v)
	if v.t == nil {
		return false
	}
	val := p.rget(v)
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		s, ok := sortOf(v.t)
		switch {
		case ok && s.K == 'b':
			return p.truth(val)
		case ok && s.K == 'i':
			return !p.truth(p.intEq(val, uint64(0), s))
		case ok && s.K == 'f':
			if f, ok := val.(float64); ok {
				return f != 0
			}
			return !p.truth(unterm(p.f.FBin(OFEq, p.term(val, s), p.term(float64(0), s))))
		case u.Info()&types.IsString != 0:
			return len(strBytes(val)) > 0
		}
	case *types.Pointer:
		ptr, ok := val.(*value)
		return !ok || ptr != nil
	case *types.Slice:
		return len(asBytesOrSlice(val)) > 0
	case *types.Map:
		m, _ := val.(*hmap)
		return m != nil && m.n > 0
	case *types.Signature:
		c, ok := val.(*closure)
		return !ok || c != nil
	case *types.Struct:
		return true
	case *types.Array:
		return u.Len() > 0
	}
	bail("template truth of %s", v.t)
	return false
}

func (x *texec) rng(dot rvalue, n *parse.RangeNode) {
	p := x.p
	mark := len(x.vars)
	defer func() { x.vars = x.vars[:mark] }()
	v := x.indirectPtr(x.pipeline(dot, n.Pipe))
	mark2 := len(x.vars)
	one := func(i, e rvalue) (stop bool) {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case tbreak:
				stop = true
			case tcontinue:
			default:
				panic(r)
			}
		}()
		defer func() { x.vars = x.vars[:mark2] }()
		if len(n.Pipe.Decl) > 0 {
			t := e
			if len(n.Pipe.Decl) > 1 {
				x.vars[mark2-len(n.Pipe.Decl)].v = i
				x.vars[mark2-1].v = e
			} else {
				x.vars[mark2-1].v = t
			}
		}
		x.walk(e, n.List)
		return
	}
	if v.t == nil {
		if n.ElseList != nil {
			x.walk(dot, n.ElseList)
		}
		return
	}
	cnt := 0
	switch u := v.t.Underlying().(type) {
	case *types.Slice:
		s, _ := p.rget(v).([]value)
		for i := range s {
			cnt++
			if one(rvalue{t: types.Typ[types.Int], v: bi(i)}, rvalue{t: u.Elem(), addr: &s[i]}) {
				break
			}
		}
	case *types.Array:
		s, _ := p.rget(v).(array)
		for i := range s {
			cnt++
			if one(rvalue{t: types.Typ[types.Int], v: bi(i)}, rvalue{t: u.Elem(), v: s[i]}) {
				break
			}
		}
	case *types.Map:
		m, _ := p.rget(v).(*hmap)
		if m != nil {
			if m.symKeys > 0 {
				bail("template range over map with symbolic keys")
			}
			var es []*mapEntry
			for _, e := range m.ents {
				if !e.deleted {
					es = append(es, e)
				}
			}
			sort.Slice(es, func(i, j int) bool {
				a, ok1 := es[i].k.(string)
				b, ok2 := es[j].k.(string)
				if ok1 && ok2 {
					return a < b
				}
				c, ok1 := es[i].k.(uint64)
				d, ok2 := es[j].k.(uint64)
				if !ok1 || !ok2 {
					bail("template range over map keys")
				}
				return c < d
			})
			for _, e := range es {
				cnt++
				if one(rvalue{t: u.Key(), v: e.k}, rvalue{t: u.Elem(), v: e.v}) {
					break
				}
			}
		}
	default:
		bail("template range over %s", v.t)
	}
	if cnt == 0 && n.ElseList != nil {
		x.walk(dot, n.ElseList)
	}
}

func (x *texec) indirectPtr(v rvalue) rvalue {
	for v.t != nil {
		switch v.t.Underlying().(type) {
		case *types.Interface:
			v = x.p.relem(v)
		case *types.Pointer:
			if ptr, ok := x.p.rget(v).(*value); ok && ptr == nil {
				return v
			}
			v = x.p.relem(v)
		default:
			return v
		}
	}
	return v
}

func (x *texec) pipeline(dot rvalue, pipe *parse.PipeNode) rvalue {
	var v rvalue
	has := false
	for _, c := range pipe.Cmds {
		if has {
			v = x.command(dot, c, &v)
		} else {
			v = x.command(dot, c, nil)
		}
		has = true
		if v.t != nil {
			if it, ok := v.t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				v = x.p.relem(v)
			}
		}
	}
	for _, d := range pipe.Decl {
		if pipe.IsAssign {
			for i := len(x.vars) - 1; i >= 0; i-- {
				if x.vars[i].name == d.Ident[0] {
					x.vars[i].v = v
					break
				}
			}
		} else {
			x.vars = append(x.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (x *texec) command(dot rvalue, c *parse.CommandNode, final *rvalue) rvalue {
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, c.Args, final)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, c.Args, final)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			if len(c.Args) > 1 || final != nil {
				x.fail("can't give argument to non-function %s", n)
			}
			return v
		}
		return x.chain(dot, v, n.Ident[1:], c.Args, final)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, c.Args[1:], final)
	case *parse.PipeNode:
		return x.pipeline(dot, n)
	default:
		if len(c.Args) > 1 || final != nil {
			x.fail("can't give argument to non-function %s", n)
		}
		return x.arg(dot, n)
	}
}

func (x *texec) variable(name string) rvalue {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable: %s", name)
	return rvalue{}
}

// arg evaluates an argument node.
func (x *texec) arg(dot rvalue, n parse.Node) rvalue {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return rvalue{}
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, nil, nil)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return x.chain(dot, v, n.Ident[1:], nil, nil)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, nil, nil)
	case *parse.PipeNode:
		return x.pipeline(dot, n)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, nil, nil)
	case *parse.StringNode:
		return rvalue{t: types.Typ[types.String], v: n.Text}
	case *parse.BoolNode:
		return rvalue{t: types.Typ[types.Bool], v: n.True}
	case *parse.NumberNode:
		switch {
		case n.IsInt && !strings.ContainsAny(n.Text, ".eEpP"):
			return rvalue{t: types.Typ[types.Int], v: uint64(n.Int64)}
		case n.IsFloat:
			return rvalue{t: types.Typ[types.Float64], v: n.Float64}
		}
	}
	bail("template argument %T", n)
	return rvalue{}
}

func (x *texec) chain(dot, recv rvalue, ident []string, args []parse.Node, final *rvalue) rvalue {
	for i, id := range ident {
		if i < len(ident)-1 {
			recv = x.field(dot, recv, id, nil, nil)
		} else {
			var as []parse.Node
			if len(args) > 1 {
				as = args[1:]
			}
			recv = x.field(dot, recv, id, as, final)
		}
	}
	return recv
}

func (x *texec) field(dot, recv rvalue, name string, args []parse.Node, final *rvalue) rvalue {
	p := x.p
	if recv.t == nil {
		x.fail("nil data; no entry for key %q", name)
	}
	recv = x.indirectIface(recv)
	if recv.t == nil {
		x.fail("nil pointer evaluating interface {}.%s", name)
	}
	// methods, on the address if there is one
	if token.IsExported(name) {
		rt, rv := recv.t, recv
		if _, isPtr := recv.t.Underlying().(*types.Pointer); !isPtr && recv.addr != nil {
			rt = types.NewPointer(recv.t)
			rv = rvalue{t: rt, v: recv.addr}
		}
		for k := 0; k < 2; k++ {
			sel := p.P.prog.MethodSets.MethodSet(rt).Lookup(nil, name)
			if sel != nil {
				fn := p.P.prog.MethodValue(sel)
				if fn == nil {
					bail("template method %s", name)
				}
				sig := sel.Type().(*types.Signature)
				return x.invoke(dot, name, sig, &closure{fn: fn}, []value{copyVal(p.rget(rv))}, args, final)
			}
			if rt == recv.t {
				break
			}
			rt, rv = recv.t, recv
		}
	}
	hasArgs := len(args) > 0 || final != nil
	base := recv
	isNil := false
	for {
		pt, ok := base.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		if ptr, ok := p.rget(base).(*value); ok && ptr == nil {
			isNil = true
			base = rvalue{t: pt.Elem()}
			break
		}
		base = p.relem(base)
	}
	switch u := base.t.Underlying().(type) {
	case *types.Struct:
		obj, idx, _ := types.LookupFieldOrMethod(base.t, true, nil, name)
		f, ok := obj.(*types.Var)
		if !ok || !f.Exported() {
			break
		}
		if isNil {
			x.fail("nil pointer evaluating %s.%s", recv.t, name)
		}
		cur := base
		for _, i := range idx {
			for {
				if _, ok := cur.t.Underlying().(*types.Pointer); !ok {
					break
				}
				if ptr, ok := p.rget(cur).(*value); ok && ptr == nil {
					x.fail("nil pointer in embedded field for %s", name)
				}
				cur = p.relem(cur)
			}
			st := cur.t.Underlying().(*types.Struct)
			if cur.addr != nil {
				s := (*cur.addr.(*value)).(structure)
				cur = rvalue{t: st.Field(i).Type(), addr: &s[i]}
			} else {
				cur = rvalue{t: st.Field(i).Type(), v: cur.v.(structure)[i]}
			}
		}
		if hasArgs {
			x.fail("%s has arguments but cannot be invoked as function", name)
		}
		return cur
	case *types.Map:
		if isNil || hasArgs {
			x.fail("%s is not a method but has arguments", name)
		}
		m, _ := p.rget(base).(*hmap)
		if m == nil {
			return rvalue{}
		}
		if m.symKeys > 0 {
			bail("template map with symbolic keys")
		}
		for _, e := range m.ents {
			if !e.deleted && e.k == value(name) {
				return rvalue{t: u.Elem(), v: e.v}
			}
		}
		return rvalue{}
	}
	x.fail("can't evaluate field %s in type %s", name, recv.t)
	return rvalue{}
}

// invoke calls a method or function with template argument rules.
func (x *texec) invoke(dot rvalue, name string, sig *types.Signature, cl *closure, recv []value, args []parse.Node, final *rvalue) rvalue {
	p := x.p
	var vals []rvalue
	for _, a := range args {
		vals = append(vals, x.arg(dot, a))
	}
	if final != nil {
		vals = append(vals, *final)
	}
	np := sig.Params().Len()
	if sig.Variadic() {
		if len(vals) < np-1 {
			x.fail("wrong number of args for %s", name)
		}
	} else if len(vals) != np {
		x.fail("wrong number of args for %s: want %d got %d", name, np, len(vals))
	}
	in := append([]value{}, recv...)
	n := len(vals)
	if sig.Variadic() {
		n = np - 1
	}
	for i := 0; i < n; i++ {
		in = append(in, x.assign(vals[i], sig.Params().At(i).Type(), name))
	}
	if sig.Variadic() {
		et := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		rest := []value{}
		for _, v := range vals[n:] {
			rest = append(rest, x.assign(v, et, name))
		}
		in = append(in, rest)
	}
	res := x.safe(func() value { return p.callClosure(x.fr, cl, in) })
	var out []value
	switch sig.Results().Len() {
	case 1:
		out = []value{res}
	case 2:
		out = res.(tuple)
	default:
		x.fail("can't call method/function %q with %d results", name, sig.Results().Len())
	}
	if len(out) == 2 {
		if e, ok := out[1].(iface); ok && e.t != nil {
			panic(tmplErr{p.mkError("template: error calling " + name)})
		}
	}
	r := rvalue{t: sig.Results().At(0).Type(), v: out[0]}
	return r
}

// safe runs f; a panic of the target becomes a template error, as in the real package.
func (x *texec) safe(f func() value) (res value) {
	depth := x.p.depth
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				x.p.depth = depth
				_ = tp
				panic(tmplErr{x.p.mkError("template: error calling method or function")})
			}
			panic(r)
		}
	}()
	return f()
}

func (x *texec) assign(v rvalue, t types.Type, name string) value {
	p := x.p
	if v.t == nil {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
			return zero(t)
		}
		x.fail("invalid value; expected %s", t)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if _, vi := v.t.Underlying().(*types.Interface); vi {
			return p.rget(v)
		}
		if it.NumMethods() > 0 && !p.implements(v.t, it) {
			x.fail("wrong type for value; expected %s; got %s", t, v.t)
		}
		return iface{v.t, copyVal(p.rget(v))}
	}
	if types.AssignableTo(v.t, t) {
		return copyVal(p.rget(v))
	}
	if _, ok := v.t.Underlying().(*types.Interface); ok {
		if e := p.relem(v); e.t != nil {
			return x.assign(e, t, name)
		}
	}
	if pt, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(pt.Elem(), t) {
		e := p.relem(v)
		if e.t == nil {
			x.fail("dereference of nil pointer of type %s", t)
		}
		return copyVal(p.rget(e))
	}
	if v.addr != nil && types.AssignableTo(types.NewPointer(v.t), t) {
		return v.addr
	}
	if ib, ok := underBasic(t); ok && ib.Info()&types.IsNumeric != 0 && types.Identical(v.t, types.Typ[types.Int]) {
		// an untyped number constant
		s1, _ := sortOf(v.t)
		s2, _ := sortOf(t)
		return p.convert(v.t, t, s1, s2, p.rget(v))
	}
	x.fail("wrong type for value; expected %s; got %s", t, v.t)
	return nil
}

func (x *texec) function(dot rvalue, name string, args []parse.Node, final *rvalue) rvalue {
	p := x.p
	if f, ok := x.set.funcs[name]; ok {
		fi := f.(iface)
		return x.invoke(dot, name, fi.t.Underlying().(*types.Signature), fi.v.(*closure), nil, args, final)
	}
	if strings.HasPrefix(name, "_") || name == "html" || name == "urlquery" || name == "js" || name == "print" || name == "printf" || name == "println" {
		var f iface
		if strings.HasPrefix(name, "_") {
			m, ok := (*p.gname("html/template", "funcMap")).(*hmap)
			if !ok {
				bail("html/template.funcMap")
			}
			for _, e := range m.ents {
				if e.k == value(name) {
					f = e.v.(iface)
				}
			}
		} else {
			pkg, fn := "text/template", map[string]string{"html": "HTMLEscaper", "urlquery": "URLQueryEscaper", "js": "JSEscaper"}[name]
			if fn == "" {
				pkg, fn = "fmt", map[string]string{"print": "Sprint", "printf": "Sprintf", "println": "Sprintln"}[name]
			}
			sf := p.P.pkgs[pkg].Func(fn)
			f = iface{sf.Signature, &closure{fn: sf}}
		}
		if f.t == nil {
			bail("template function %s", name)
		}
		return x.invoke(dot, name, f.t.Underlying().(*types.Signature), f.v.(*closure), nil, args, final)
	}
	var vals []rvalue
	switch name {
	case "and", "or":
		var v rvalue
		for i, a := range args {
			v = x.arg(dot, a)
			if x.truth(v) == (name == "or") && (i < len(args)-1 || final != nil) {
				return v
			}
		}
		if final != nil {
			v = *final
		}
		return v
	}
	for _, a := range args {
		vals = append(vals, x.indirectIface(x.arg(dot, a)))
	}
	if final != nil {
		vals = append(vals, x.indirectIface(*final))
	}
	boolV := func(b value) rvalue { return rvalue{t: types.Typ[types.Bool], v: b} }
	switch name {
	case "not":
		if len(vals) == 1 {
			return boolV(!x.truth(vals[0]))
		}
	case "len":
		if len(vals) == 1 {
			v := x.indirectPtr(vals[0])
			switch u := v.t.Underlying().(type) {
			case *types.Slice:
				return rvalue{t: types.Typ[types.Int], v: bi(len(asBytesOrSlice(p.rget(v))))}
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					return rvalue{t: types.Typ[types.Int], v: bi(len(strBytes(p.rget(v))))}
				}
			case *types.Map:
				m, _ := p.rget(v).(*hmap)
				if m == nil {
					return rvalue{t: types.Typ[types.Int], v: bi(0)}
				}
				return rvalue{t: types.Typ[types.Int], v: bi(m.n)}
			}
		}
	case "eq", "ne":
		if len(vals) == 2 && vals[0].t != nil && vals[1].t != nil {
			a, b := vals[0], vals[1]
			if types.Identical(a.t.Underlying(), b.t.Underlying()) {
				if s, ok := sortOf(a.t); ok || isStringT(a.t) {
					r := p.truth(p.equalsX(a.t, s, p.rget(a), p.rget(b)))
					return boolV(r == (name == "eq"))
				}
			}
			sa, ok1 := sortOf(a.t)
			sb, ok2 := sortOf(b.t)
			if ok1 && ok2 && sa.K == 'i' && sb.K == 'i' && sa.S == sb.S {
				r := p.truth(p.intEq(p.rget(a), p.rget(b), Sort{'i', 64, sa.S}))
				return boolV(r == (name == "eq"))
			}
		}
	}
	bail("template function %s", name)
	return rvalue{}
}

func isStringT(t types.Type) bool {
	b, ok := underBasic(t)
	return ok && b.Info()&types.IsString != 0
}

func (x *texec) printValue(v rvalue) {
	p := x.p
	if v.t != nil {
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			if e := x.indirectPtr(v); e.t != nil {
				if _, still := e.t.Underlying().(*types.Pointer); !still {
					v = e
				}
			}
		}
	}
	if v.t == nil {
		x.write("<no value>")
		return
	}
	if _, ok := v.t.Underlying().(*types.Interface); ok {
		v = x.indirectIface(v)
		if v.t == nil {
			x.write("<nil>")
			return
		}
	}
	switch v.t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		x.fail("can't print value of type %s", v.t)
	}
	fn := p.P.pkgs["fmt"].Func("Fprint")
	r := x.safeNot(func() value {
		return p.call(x.fr, p.P.cf(fn), []value{x.w, []value{iface{v.t, copyVal(p.rget(v))}}}, nil)
	}).(tuple)
	if e := r[1].(iface); e.t != nil {
		panic(tmplErr{e})
	}
}

func (x *texec) safeNot(f func() value) value { return f() }

func (p *Path) tmplRun(fr *frame, s *tmplState, name string, w value, data iface) (res value) {
	ps := s.set.parsed(name)
	if ps.err != "" {
		return p.mkError(ps.err)
	}
	if e := ps.escErr[name]; e != "" {
		return p.mkError(e)
	}
	t := ps.trees[name]
	if t == nil {
		return p.mkError(fmt.Sprintf("template: %q is an incomplete or empty template", name))
	}
	depth := p.depth
	defer func() {
		if r := recover(); r != nil {
			if te, ok := r.(tmplErr); ok {
				p.depth = depth
				res = te.err
				return
			}
			panic(r)
		}
	}()
	d := p.rvOf(data)
	x := &texec{p: p, fr: fr, w: w, set: s.set, ps: ps, name: name, vars: []tvar{{"$", d}}}
	x.walk(d, t.Root)
	return iface{}
}

func init() {
	mk := func(s *tmplState) value {
		v := new(value)
		*v = nativeBox{s}
		return v
	}
	for _, pkg := range []string{"html/template", "text/template"} {
		html := pkg == "html/template"
		st := func(p *Path, v value) *tmplState {
			b, ok := (*p.nilCheck(v)).(nativeBox)
			if !ok {
				bail("template value")
			}
			return b.x.(*tmplState)
		}
		str := func(v value) string {
			s, ok := v.(string)
			if !ok {
				bail("symbolic template text")
			}
			return s
		}
		reg(pkg+".New", func(p *Path, fr *frame, a []value) value {
			return mk(&tmplState{&tmplSet{html: html, funcs: map[string]value{}}, str(a[0])})
		})
		reg(pkg+".Must", func(p *Path, fr *frame, a []value) value {
			if e := a[1].(iface); e.t != nil {
				panic(targetPanic{v: e, where: "template.Must"})
			}
			return a[0]
		})
		m := "(*" + pkg + ".Template)."
		reg(m+"New", func(p *Path, fr *frame, a []value) value {
			return mk(&tmplState{st(p, a[0]).set, str(a[1])})
		})
		reg(m+"Name", func(p *Path, fr *frame, a []value) value { return st(p, a[0]).name })
		reg(m+"Delims", func(p *Path, fr *frame, a []value) value {
			s := st(p, a[0])
			s.set.ldel, s.set.rdel = str(a[1]), str(a[2])
			return a[0]
		})
		reg(m+"Option", func(p *Path, fr *frame, a []value) value { bail("template Option"); return nil })
		reg(m+"Funcs", func(p *Path, fr *frame, a []value) value {
			s := st(p, a[0])
			if mm, _ := a[1].(*hmap); mm != nil {
				for _, e := range mm.ents {
					if !e.deleted {
						s.set.funcs[str(e.k)] = e.v
					}
				}
			}
			return a[0]
		})
		reg(m+"Lookup", func(p *Path, fr *frame, a []value) value {
			s := st(p, a[0])
			if s.set.parsed("").trees[str(a[1])] == nil {
				return (*value)(nil)
			}
			return mk(&tmplState{s.set, str(a[1])})
		})
		reg(m+"Parse", func(p *Path, fr *frame, a []value) value {
			s := st(p, a[0])
			s.set.texts = append(s.set.texts, [2]string{s.name, str(a[1])})
			if ps := s.set.parsed(""); ps.err != "" {
				s.set.texts = s.set.texts[:len(s.set.texts)-1]
				return tuple{(*value)(nil), p.mkError(ps.err)}
			}
			return tuple{a[0], iface{}}
		})
		reg(m+"Execute", func(p *Path, fr *frame, a []value) value {
			s := st(p, a[0])
			return p.tmplRun(fr, s, s.name, a[1], a[2].(iface))
		})
		reg(m+"ExecuteTemplate", func(p *Path, fr *frame, a []value) value {
			s := st(p, a[0])
			return p.tmplRun(fr, s, str(a[2]), a[1], a[3].(iface))
		})
		reg(pkg+".HTMLEscapeString", func(p *Path, fr *frame, a []value) value {
			return p.callRaw(fr, pkg, "HTMLEscapeString", a)
		})
	}
	_ = reflect.Invalid
}
