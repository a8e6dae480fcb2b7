package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	funcs        sync.Map // *ssa.Function -> *cfunc
	gmu          sync.Mutex
	gidx         map[*ssa.Global]int
	globals      []*ssa.Global
	eager        map[string]bool // packages initialised eagerly (repo + harness)
	std          map[*types.Package]bool
	methods      sync.Map // methodKey -> *ssa.Function
	shared       *sharedGlobals
	usedFns      sync.Map // *ssa.Function -> true (encoded functions, for evidence)
	runtimeError types.Type
	errorString  types.Type
	rtypeT       types.Type
	tryLocks     bool // an attempt to lock can fail, so releasing a lock is an event others can see
	rendezvous   bool // channels are used only for unbuffered blocking exchanges
}

type methodKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func goEnv(gopath string, extra ...string) []string {
	keep := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GO111MODULE", "GOPATH", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOENV", "TZ", "CGO_ENABLED", "GOCACHE", "PATH", "HOME":
			continue
		}
		keep = append(keep, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	keep = append(keep, "HOME="+home, "PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GO111MODULE=off", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "GOENV=off",
		"GOPATH="+gopath, "GOCACHE="+cacheDir(), "TZ=UTC", "CGO_ENABLED=0")
	return append(keep, extra...)
}

func Load(gopath string, pats ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: gopath,
		Env: goEnv(gopath),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, gidx: map[*ssa.Global]int{}, eager: map[string]bool{}}
	for _, sp := range prog.AllPackages() {
		P.pkgs[sp.Pkg.Path()] = sp
		if isTargetPkg(sp.Pkg.Path()) {
			P.eager[sp.Pkg.Path()] = true
		}
	}
	prog.Build()
	if rp := P.pkgs["runtime"]; rp != nil {
		P.runtimeError = rp.Pkg.Scope().Lookup("Error").Type()
		P.errorString = rp.Pkg.Scope().Lookup("errorString").Type()
	}
	if rp := P.pkgs["reflect"]; rp != nil {
		P.rtypeT = types.NewPointer(rp.Pkg.Scope().Lookup("rtype").Type())
	}
	P.shared = newSharedGlobals()
	P.rendezvous = P.onlyRendezvous()
	return P, nil
}

// onlyRendezvous reports whether the code under test and the harness use only
// unbuffered channels, never close one and have no select that sends or does not block.
func (P *Program) onlyRendezvous() bool {
	seen := map[*ssa.Function]bool{}
	only := true
	var ok func(fn *ssa.Function)
	ok = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, a := range fn.AnonFuncs {
			ok(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeChan:
					if c, isC := x.Size.(*ssa.Const); !isC || c.Int64() != 0 {
						only = false
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly {
							only = false
						}
					}
					if !x.Blocking {
						only = false
					}
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && (c.Name() == "TryLock" || c.Name() == "TryRLock") {
						P.tryLocks = true
					}
					if bi, isB := x.Common().Value.(*ssa.Builtin); isB && (bi.Name() == "close") {
						only = false
					}
				}
			}
		}
	}
	for path, sp := range P.pkgs {
		if !P.eager[path] || path == "vh/sym" {
			continue
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				ok(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := P.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == sp {
							ok(f)
						}
					}
				}
			}
		}
	}
	return only
}

func isTargetPkg(path string) bool {
	return strings.HasPrefix(path, "github.com/Symantec/tricorder/") || path == "vh" || strings.HasPrefix(path, "vh/")
}

func (P *Program) globalIndex(g *ssa.Global) int {
	P.gmu.Lock()
	defer P.gmu.Unlock()
	i, ok := P.gidx[g]
	if !ok {
		i = len(P.globals)
		P.gidx[g] = i
		P.globals = append(P.globals, g)
	}
	return i
}

func (P *Program) globalByIndex(i int) *ssa.Global {
	P.gmu.Lock()
	defer P.gmu.Unlock()
	return P.globals[i]
}

func (P *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methodKey{t, name, nil}
	if !token.IsExported(name) {
		k.pkg = pkg
	}
	if f, ok := P.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := P.prog.LookupMethod(t, pkg, name)
	if f != nil {
		P.methods.Store(k, f)
	}
	return f
}

// ---- compiled functions ----

const (
	okSlot = iota
	okConst
	okGlobal
	okNone
)

type operand struct {
	k    uint8
	slot int32
	v    value
}

type cinstr struct {
	in       ssa.Instruction
	dst      int32
	a        operand
	b        operand
	c        operand
	d        operand
	args     []operand
	sort     Sort
	sort2    Sort
	tok      token.Token
	n        int
	typ      types.Type
	typ2     types.Type
	fn       *cfunc
	code     uint8
	commaOk  bool
	nilThunk bool
}

type cphi struct {
	dst   int32
	edges []operand
}

type cblock struct {
	phis   []cphi
	instrs []cinstr
	succs  [2]int32
	idx    int
}

type cfunc struct {
	fn          *ssa.Function
	name        string
	nslots      int
	params      []int32
	free        []int32
	blocks      []cblock
	recover     int
	intr        intrinsic
	target      bool
	compileOnce sync.Once
	err         string
	allocs      []int32
}

type intrinsic func(p *Path, fr *frame, args []value) value

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (P *Program) cf(fn *ssa.Function) *cfunc {
	if c, ok := P.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn, name: fnName(fn)}
	c.intr = lookupIntrinsic(c.name)
	if o := fn.Origin(); o != nil && o.Name() == "TypeFor" && o.Pkg != nil && o.Pkg.Pkg.Path() == "reflect" && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		c.intr = func(p *Path, fr *frame, a []value) value { return p.rtypeIface(t) }
	}
	if fn.Pkg != nil {
		c.target = P.eager[fn.Pkg.Pkg.Path()]
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.target = P.eager[o.Pkg.Pkg.Path()]
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		c.target = P.eager[fn.Object().Pkg().Path()]
	}
	a, _ := P.funcs.LoadOrStore(fn, c)
	return a.(*cfunc)
}

func constValue(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		bail("type param const")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		bail("const of %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		s, _ := sortOf(t)
		if s.S {
			return norm(s, uint64(c.Int64()))
		}
		return norm(s, c.Uint64())
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Kind() == types.UnsafePointer:
		return (*value)(nil)
	}
	bail("const %s", c)
	return nil
}

const (
	cAlloc = iota
	cBinOp
	cCall
	cChangeInterface
	cChangeType
	cConvert
	cDefer
	cExtract
	cField
	cFieldAddr
	cGo
	cIf
	cIndex
	cIndexAddr
	cJump
	cLookup
	cMakeChan
	cMakeClosure
	cMakeInterface
	cMakeMap
	cMakeSlice
	cMapUpdate
	cNext
	cPanic
	cRange
	cReturn
	cRunDefers
	cSelect
	cSend
	cSlice
	cSliceToArrayPtr
	cStore
	cTypeAssert
	cUnOp
	cUnsupported
)

func (P *Program) compile(c *cfunc) {
	c.compileOnce.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					c.err = u.msg
					return
				}
				panic(r)
			}
		}()
		P.compile1(c)
	})
}

func (P *Program) compile1(c *cfunc) {
	fn := c.fn
	slots := map[ssa.Value]int32{}
	next := int32(0)
	alloc := func(v ssa.Value) int32 {
		s := next
		slots[v] = s
		next++
		return s
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	c.nslots = int(next)
	c.recover = -1
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	opd := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{k: okNone}
		case *ssa.Const:
			cv := constValue(v)
			switch cv.(type) {
			case structure, array:
				bail("aggregate const")
			}
			return operand{k: okConst, v: cv}
		case *ssa.Global:
			return operand{k: okGlobal, slot: int32(P.globalIndex(v))}
		case *ssa.Function:
			return operand{k: okConst, v: &closure{fn: v}}
		case *ssa.Builtin:
			return operand{k: okNone}
		}
		s, ok := slots[v]
		if !ok {
			bail("operand %s in %s", v, fn)
		}
		return operand{k: okSlot, slot: s}
	}
	// aggregate zero constants need a fresh copy at each use
	opdAgg := func(v ssa.Value) operand {
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			switch k.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return operand{k: okConst, v: zero(k.Type())}
			}
		}
		return opd(v)
	}
	o := func(v ssa.Value) operand {
		if v == nil {
			return operand{k: okNone}
		}
		return opdAgg(v)
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.idx = bi
		for i, s := range b.Succs {
			if i < 2 {
				cb.succs[i] = int32(s.Index)
			}
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: slots[ph]}
				for _, e := range ph.Edges {
					cp.edges = append(cp.edges, o(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				ci.code = cAlloc
				ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				ci.code = cBinOp
				ci.a, ci.b = o(x.X), o(x.Y)
				ci.tok = x.Op
				ci.typ = x.X.Type()
				ci.sort, _ = sortOf(x.X.Type())
				ci.sort2, _ = sortOf(x.Y.Type())
			case *ssa.Call:
				ci.code = cCall
				P.compileCall(&ci, &x.Call, o)
			case *ssa.Defer:
				ci.code = cDefer
				P.compileCall(&ci, &x.Call, o)
				if x.DeferStack != nil {
					ci.d = o(x.DeferStack)
				} else {
					ci.d = operand{k: okNone}
				}
			case *ssa.Go:
				ci.code = cGo
				P.compileCall(&ci, &x.Call, o)
			case *ssa.ChangeInterface:
				ci.code = cChangeInterface
				ci.a = o(x.X)
			case *ssa.ChangeType:
				ci.code = cChangeType
				ci.a = o(x.X)
			case *ssa.Convert:
				ci.code = cConvert
				ci.a = o(x.X)
				ci.typ = x.X.Type()
				ci.typ2 = x.Type()
				ci.sort, _ = sortOf(x.X.Type())
				ci.sort2, _ = sortOf(x.Type())
			case *ssa.MultiConvert:
				ci.code = cConvert
				ci.a = o(x.X)
				ci.typ = x.X.Type()
				ci.typ2 = x.Type()
				ci.sort, _ = sortOf(x.X.Type())
				ci.sort2, _ = sortOf(x.Type())
			case *ssa.Extract:
				ci.code = cExtract
				ci.a = o(x.Tuple)
				ci.n = x.Index
			case *ssa.Field:
				ci.code = cField
				ci.a = o(x.X)
				ci.n = x.Field
			case *ssa.FieldAddr:
				ci.code = cFieldAddr
				ci.a = o(x.X)
				ci.n = x.Field
			case *ssa.If:
				ci.code = cIf
				ci.a = o(x.Cond)
			case *ssa.Index:
				ci.code = cIndex
				ci.a, ci.b = o(x.X), o(x.Index)
				ci.sort, _ = sortOf(x.Index.Type())
				ci.typ = x.X.Type()
				ci.sort2, _ = sortOf(x.Type())
			case *ssa.IndexAddr:
				ci.code = cIndexAddr
				ci.a, ci.b = o(x.X), o(x.Index)
				ci.sort, _ = sortOf(x.Index.Type())
				ci.typ = x.X.Type()
			case *ssa.Jump:
				ci.code = cJump
			case *ssa.Lookup:
				ci.code = cLookup
				ci.a, ci.b = o(x.X), o(x.Index)
				ci.typ = x.X.Type()
				ci.commaOk = x.CommaOk
				if m, ok := x.X.Type().Underlying().(*types.Map); ok {
					ci.typ2 = m.Elem()
				} else {
					ci.sort, _ = sortOf(x.Index.Type())
				}
			case *ssa.MakeChan:
				ci.code = cMakeChan
				ci.a = o(x.Size)
				ci.typ = x.Type().Underlying().(*types.Chan).Elem()
			case *ssa.MakeClosure:
				ci.code = cMakeClosure
				ci.fn = P.cf(x.Fn.(*ssa.Function))
				for _, b := range x.Bindings {
					ci.args = append(ci.args, o(b))
				}
			case *ssa.MakeInterface:
				ci.code = cMakeInterface
				ci.a = o(x.X)
				ci.typ = x.X.Type()
			case *ssa.MakeMap:
				ci.code = cMakeMap
				ci.typ = x.Type().Underlying().(*types.Map).Key()
			case *ssa.MakeSlice:
				ci.code = cMakeSlice
				ci.a, ci.b = o(x.Len), o(x.Cap)
				ci.sort, _ = sortOf(x.Len.Type())
				ci.sort2, _ = sortOf(x.Cap.Type())
				ci.typ = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				ci.code = cMapUpdate
				ci.a, ci.b, ci.c = o(x.Map), o(x.Key), o(x.Value)
			case *ssa.Next:
				ci.code = cNext
				ci.a = o(x.Iter)
				ci.commaOk = x.IsString
				ci.typ = x.Type()
			case *ssa.Panic:
				ci.code = cPanic
				ci.a = o(x.X)
			case *ssa.Range:
				ci.code = cRange
				ci.a = o(x.X)
			case *ssa.Return:
				ci.code = cReturn
				for _, r := range x.Results {
					ci.args = append(ci.args, o(r))
				}
			case *ssa.RunDefers:
				ci.code = cRunDefers
			case *ssa.Select:
				ci.code = cSelect
				for _, s := range x.States {
					ci.args = append(ci.args, o(s.Chan), o(s.Send))
				}
				ci.typ = x.Type()
			case *ssa.Send:
				ci.code = cSend
				ci.a, ci.b = o(x.Chan), o(x.X)
			case *ssa.Slice:
				ci.code = cSlice
				ci.a, ci.b, ci.c, ci.d = o(x.X), o(x.Low), o(x.High), o(x.Max)
				ci.typ = x.X.Type()
			case *ssa.SliceToArrayPointer:
				ci.code = cSliceToArrayPtr
				ci.a = o(x.X)
				ci.typ = x.Type()
			case *ssa.Store:
				ci.code = cStore
				ci.a, ci.b = o(x.Addr), o(x.Val)
			case *ssa.TypeAssert:
				ci.code = cTypeAssert
				ci.a = o(x.X)
				ci.typ = x.AssertedType
				ci.typ2 = x.X.Type()
				ci.commaOk = x.CommaOk
			case *ssa.UnOp:
				ci.code = cUnOp
				ci.a = o(x.X)
				ci.tok = x.Op
				ci.typ = x.X.Type()
				ci.sort, _ = sortOf(x.X.Type())
				ci.commaOk = x.CommaOk
				ci.typ2 = x.Type()
			default:
				ci.code = cUnsupported
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
}

func (P *Program) compileCall(ci *cinstr, call *ssa.CallCommon, o func(ssa.Value) operand) {
	if call.IsInvoke() {
		ci.n = 1 // invoke
		ci.a = o(call.Value)
	} else {
		switch f := call.Value.(type) {
		case *ssa.Builtin:
			ci.n = 2
			ci.a = operand{k: okNone}
		case *ssa.Function:
			ci.n = 3
			ci.fn = P.cf(f)
			ci.a = operand{k: okNone}
		default:
			ci.n = 4
			ci.a = o(call.Value)
		}
	}
	for _, a := range call.Args {
		ci.args = append(ci.args, o(a))
	}
}

var _ = math.Inf
