package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A path is identified by its decisions; exploring = replaying a decision
// prefix and taking new decisions at its end.

type decision struct {
	kind  byte // 'b' branch, 'f' forced branch, 'c' concretization, 'n' choice, 's' schedule
	dir   bool
	v     uint64
	node  *schedNode // scheduling decision
	sleep []int      // goroutines put to sleep by it
}

type workItem struct {
	prefix []decision
	model  Model
}

type Violation struct {
	Harness string
	Kind    string // assert, panic, deadlock, race, fatal
	Msg     string
	Where   string
	Stack   string
	Model   Model
	Inputs  map[string]inputVal
	Dec     []decision
	Sched   int // number of scheduling decisions on the path
}

type inputVal struct {
	Kind  string `json:"k"` // bool,int,uint,float,choice
	U     uint64 `json:"u"`
	Text  string `json:"t"`
	Order int    `json:"-"`
}

type symVar struct {
	name string
	kind string
	t    *Term
	u    uint64
}

type obs struct {
	name string
	v    value
}

type Path struct {
	P  *Program
	E  *Explorer
	S  *Solver
	f  *Factory
	id int64

	pc     []*Term
	og     *orderGraph
	pcset  map[*Term]bool
	prefix []decision
	pos    int
	trace  []decision
	model  Model
	ev     *evaluator

	globals  []*value
	pkgState map[*ssa.Package]int
	depth    int
	steps    int64
	maxSteps int64
	curFr    *frame
	selSort  Sort
	raceOn   bool
	kids     []*G
	addrs    map[*value]uint64
	concOn   bool
	rdv      bool // channels by rendezvous
	por      bool // sleep sets instead of a preemption bound
	asleep   map[int][]dep
	segFoot  []dep
	curEv    *event
	events   []*event
	objClks  map[any]*objClock
	gs       []*G
	doneCh   chan any
	killed   bool
	wg       sync.WaitGroup
	mutexes  map[*value]*mstate
	syncObjs map[any]*vclock
	acc      map[any]*accInfo
	preempts int
	rndMemo  map[*Term]*Term
	maxPreempt,
	schedPoints,
	auxN,
	schedChoices,
	nchan,
	arrivals int
	now      int64
	nowCount int64

	vars    []symVar
	varIdx  map[string]int
	obsv    []obs
	reached []string
	asserts int
	ext     map[string]any // state of std models (http mux, rpc, ...)
	shared  bool           // path used to initialise shared globals
	nsel    int
	forks   int

	auditGroup uint64
	parks      []parked
	lab0       map[int]uint64 // data decisions of a goroutine before its first operation
	segG       int
	segStart   int
}

type Cfg struct {
	Real       bool
	Round      bool // reals with a rounding error in every operation of the code under test
	MaxPaths   int64
	MaxSteps   int64
	Preempt    int
	QTimeout   time.Duration
	Deadline   time.Time
	Workers    int
	NoPrune    bool
	ClockSym   bool
	MaxSamples int
}

type Explorer struct {
	P     *Program
	sh    *SolverShared
	cfg   Cfg
	name  string
	entry *ssa.Function

	mu     sync.Mutex
	cond   *sync.Cond
	work   []*workItem
	active int
	stop   bool

	paths, done, infeasible, redundant, limits, forced, branches, concs, choices atomic.Int64
	assertsProved, assertsTrivial, unknownAsserts, unknownBranches, guessed      atomic.Int64
	steps, schedPts, evals                                                       atomic.Int64
	unsup                                                                        map[string]int64
	limitMsgs                                                                    map[string]int64
	viol                                                                         []*Violation
	reach                                                                        map[string]int64
	samples, unsupSamples                                                        []sample
	truncated                                                                    string
	audit                                                                        auditState
	assertMsgs                                                                   map[string]int64
}

type sample struct {
	Inputs map[string]inputVal
	Obs    [][2]string
	Sched  int
}

func NewExplorer(P *Program, sh *SolverShared, entry *ssa.Function, cfg Cfg) *Explorer {
	e := &Explorer{P: P, sh: sh, cfg: cfg, entry: entry, name: entry.Name(), unsup: map[string]int64{}, limitMsgs: map[string]int64{}, reach: map[string]int64{}, assertMsgs: map[string]int64{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(w *workItem) {
	e.mu.Lock()
	e.work = append(e.work, w)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) Run() {
	e.work = []*workItem{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < e.cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := &Solver{sh: e.sh}
			defer s.close()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.work) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				w := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.active++
				e.mu.Unlock()
				e.runPath(s, w)
				e.mu.Lock()
				e.active--
				if e.paths.Load() >= e.cfg.MaxPaths && len(e.work) > 0 {
					e.stop = true
					e.truncated = fmt.Sprintf("path limit %d", e.cfg.MaxPaths)
				}
				if time.Now().After(e.cfg.Deadline) && (len(e.work) > 0 || e.active > 0) {
					e.stop = true
					e.truncated = "time limit"
				}
				if len(e.viol) >= 8 {
					e.stop = true
				}
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (e *Explorer) newPath(s *Solver, w *workItem) *Path {
	p := &Path{P: e.P, E: e, S: s, f: NewFactory(e.cfg.Real), pcset: map[*Term]bool{}, prefix: w.prefix,
		pkgState: map[*ssa.Package]int{}, maxSteps: e.cfg.MaxSteps, mutexes: map[*value]*mstate{}, syncObjs: map[any]*vclock{},
		maxPreempt: e.cfg.Preempt, por: e.cfg.Preempt < 0, rdv: e.cfg.Preempt < 0 && e.P.rendezvous, varIdx: map[string]int{}, ext: map[string]any{}, now: 1600000000 * 1e9}
	p.id = e.paths.Add(1)
	p.setModel(w.model)
	return p
}

func (p *Path) setModel(m Model) {
	p.model = m
	p.ev = newEval(p.f, m)
}

func (e *Explorer) runPath(s *Solver, w *workItem) {
	p := e.newPath(s, w)
	r := p.runAll(func(g *G) {
		top := &frame{p: p, g: g}
		p.initEager(top)
		p.call(top, p.P.cf(e.entry), nil, nil)
	})
	p.endSchedule()
	e.steps.Add(p.steps)
	e.schedPts.Add(int64(p.schedPoints))
	stepTotal.Add(p.steps)
	e.mu.Lock()
	for _, t := range p.reached {
		e.reach[t]++
	}
	e.mu.Unlock()
	switch x := r.(type) {
	case nil:
		e.done.Add(1)
		e.sample(p)
	case pathEnd:
		switch x.kind {
		case "redundant":
			e.redundant.Add(1)
		case "assume":
			e.infeasible.Add(1)
		case "limit":
			e.limits.Add(1)
			e.mu.Lock()
			e.limitMsgs[x.msg]++
			if e.limits.Load() <= 4 {
				e.unsupSample(p) // does the compiled code end on this path?
			}
			e.mu.Unlock()
		case "cut":
			e.done.Add(1)
		case "violation":
			// recorded already
		case "unknown":
			e.mu.Lock()
			e.unsupSample(p)
			e.mu.Unlock()
		default: // deadlock, race, fatal
			p.violation(x.kind, x.msg, nil)
		}
	case targetPanic:
		p.violation("panic", "uncaught panic: "+p.panicText(x), nil)
	case unsupported:
		e.mu.Lock()
		e.unsup[x.msg]++
		e.unsupSample(p)
		if debugEngine && e.unsup[x.msg] == 1 {
			fmt.Fprintf(os.Stderr, "UNSUPPORTED %s\n%s\n", x.msg, stackOf(p.curFr))
		}
		e.mu.Unlock()
	case engineBug:
		msg := fmt.Sprintf("engine: %v", x.v)
		e.mu.Lock()
		e.unsup[msg]++
		e.unsupSample(p)
		if debugEngine && e.unsup[msg] == 1 {
			fmt.Fprintf(os.Stderr, "ENGINE %s\n%s\n%s\n", msg, x.stack, stackOf(p.curFr))
		}
		e.mu.Unlock()
	default:
		e.mu.Lock()
		e.unsup[fmt.Sprintf("terminated: %v", r)]++
		e.mu.Unlock()
	}
}

func stackOf(fr *frame) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint(r, string(debug.Stack()))
		}
	}()
	if fr == nil {
		return ""
	}
	return fr.stack()
}

func (p *Path) panicText(x targetPanic) string {
	s := x.where
	switch v := x.v.v.(type) {
	case string:
		s = v + " at " + x.where
	case *value:
		if v != nil {
			if st, ok := (*v).(structure); ok && len(st) > 0 {
				if m, ok := st[0].(string); ok {
					s = m + " at " + x.where
				}
			}
		}
	}
	return s
}

// unsupSample keeps the solver's model of a path that left the encoding, to be run natively.
func (e *Explorer) unsupSample(p *Path) {
	if len(e.unsupSamples) < 24 {
		e.unsupSamples = append(e.unsupSamples, sample{Inputs: p.inputs(p.model)})
	}
}

func (e *Explorer) sample(p *Path) {
	e.mu.Lock()
	n := len(e.samples)
	d := e.done.Load()
	e.mu.Unlock()
	if n >= e.cfg.MaxSamples {
		// keep a spread: replace pseudo-randomly but deterministically by path count
		if e.cfg.MaxSamples == 0 || int64(uint32(d*2654435761))%d >= int64(e.cfg.MaxSamples) {
			return
		}
	}
	p.diversify(d)
	if os.Getenv("SYMGO_PC") != "" {
		fmt.Println("PC", p.pc, showInputs(p.inputs(p.model)))
	}
	sm := sample{Inputs: p.inputs(p.model), Sched: p.schedChoices}
	for _, o := range p.obsv {
		sm.Obs = append(sm.Obs, [2]string{o.name, p.render(o.v)})
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.samples) < e.cfg.MaxSamples {
		e.samples = append(e.samples, sm)
	} else {
		e.samples[int(d)%e.cfg.MaxSamples] = sm
	}
}

// pick is a pseudo-random value for the input t.
func (p *Path) pick(rnd *rand.Rand, t *Term) (MVal, bool) {
	switch t.sort.K {
	case 'b':
		return MVal{u: uint64(rnd.Intn(2))}, true
	case 'i':
		lo, hi := t.lo, t.hi
		n := new(big.Int).Sub(hi, lo)
		v := new(big.Int)
		switch rnd.Intn(4) {
		case 0: // near the ends
			v.SetInt64(int64(rnd.Intn(3)))
			if v.Cmp(n) > 0 {
				v.Set(n)
			}
			if rnd.Intn(2) == 0 {
				v.Sub(n, v)
			}
		case 1: // small
			v.Sub(big.NewInt(int64(rnd.Intn(300)-50)), lo)
			if v.Sign() < 0 || v.Cmp(n) > 0 {
				v.Rand(rnd, new(big.Int).Add(n, big.NewInt(1)))
			}
		default:
			v.Rand(rnd, new(big.Int).Add(n, big.NewInt(1)))
		}
		return MVal{u: lowBits(v.Add(v, lo))}, true
	case 'f':
		if p.f.real {
			return MVal{}, false
		}
		f := []float64{0, 1, -1, 0.5, 1e10, -3.75, math.Inf(1), math.NaN(), rnd.NormFloat64(), rnd.NormFloat64() * 1e6}[rnd.Intn(10)]
		if t.sort.W == 32 {
			return MVal{u: math.Float64bits(float64(float32(f)))}, true
		}
		return MVal{u: math.Float64bits(f)}, true
	}
	return MVal{}, false
}

// diversify replaces the inputs in the solver's model by pseudo-random ones as far
// as the path condition allows, so that the native run of the path is not one of
// zeros only.
func (p *Path) diversify(seed int64) {
	if len(p.pc) > 4000 || len(p.vars) > 400 {
		return
	}
	rnd := rand.New(rand.NewSource(seed*7919 + 1))
	pick := func(t *Term) (MVal, bool) { return p.pick(rnd, t) }
	m := mergeModel(p.model, nil)
	all := mergeModel(p.model, nil)
	for _, v := range p.vars {
		if v.t != nil && v.t.op == OVar {
			if x, ok := pick(v.t); ok {
				all[v.t.name] = x
			}
		}
	}
	if modelHolds(p.f, all, p.pc) {
		p.setModel(all)
		return
	}
	if len(p.pc)*len(p.vars) > 20000 {
		return
	}
	for _, v := range p.vars {
		if v.t == nil || v.t.op != OVar {
			continue
		}
		old, had := m[v.t.name]
		for try := 0; try < 2; try++ {
			x, ok := pick(v.t)
			if !ok {
				break
			}
			m[v.t.name] = x
			if modelHolds(p.f, m, p.pc) {
				break
			}
			if had {
				m[v.t.name] = old
			} else {
				delete(m, v.t.name)
			}
		}
	}
	p.setModel(m)
}

// render prints an observed value under the current model.
func (p *Path) render(v value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	if i, ok := v.(iface); ok {
		if u, ok := i.v.(uint64); ok && i.t != nil {
			if so, ok := sortOf(i.t); ok && so.S {
				return fmt.Sprint(int64(u))
			}
		}
		v = i.v
	}
	switch x := v.(type) {
	case *Term:
		m := p.ev.Eval(x)
		switch x.sort.K {
		case 'b':
			return fmt.Sprint(m.u == 1)
		case 'i':
			if x.sort.S {
				return fmt.Sprint(int64(m.u))
			}
			return fmt.Sprint(m.u)
		default:
			return "?" // floats are not compared textually
		}
	case uint64:
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch y := c.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(p.ev.Eval(y).u)
			}
		}
		return fmt.Sprintf("%q", string(b))
	}
	return "?"
}

func (p *Path) inputs(m Model) map[string]inputVal {
	ev := newEval(p.f, m)
	out := map[string]inputVal{}
	for i, v := range p.vars {
		iv := inputVal{Kind: v.kind, Order: i}
		if v.t == nil {
			iv.U = v.u
		} else {
			mv := ev.Eval(v.t)
			iv.U = mv.u
			if v.t.sort.K == 'f' && v.t.sort.W == 32 && mv.r == nil { // evaluated as float64
				iv.U = uint64(math.Float32bits(float32(math.Float64frombits(mv.u))))
			}
			if mv.r != nil {
				f, _ := mv.r.Float64()
				iv.Text = fmt.Sprint(f)
			}
		}
		out[v.name] = iv
	}
	return out
}

func (p *Path) violation(kind, msg string, m Model) {
	if m == nil {
		m = p.model
	}
	v := &Violation{Harness: p.E.name, Kind: kind, Msg: msg, Model: m, Dec: append([]decision(nil), p.trace...), Sched: p.schedChoices}
	if p.curFr != nil {
		func() {
			defer func() { recover() }()
			v.Where = p.curFr.where()
			v.Stack = p.curFr.stack()
		}()
	}
	v.Inputs = p.inputs(m)
	p.E.mu.Lock()
	defer p.E.mu.Unlock()
	for _, o := range p.E.viol {
		if o.Kind == v.Kind && o.Msg == v.Msg && len(p.E.viol) >= 4 && !(p.E.cfg.Round && len(p.E.viol) < 200) {
			return
		}
	}
	p.E.viol = append(p.E.viol, v)
}

// ---- decisions ----

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) next() decision {
	d := p.prefix[p.pos]
	p.pos++
	p.trace = append(p.trace, d)
	return d
}

func (p *Path) record(d decision) { // at the frontier
	p.trace = append(p.trace, d)
	p.prefix = p.trace
	p.pos = len(p.trace)
}

func (p *Path) fork(d decision, m Model) {
	pre := make([]decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	p.forks++
	p.E.push(&workItem{prefix: pre, model: m})
}

func (p *Path) addPC(t *Term) {
	if t.op == OAnd {
		p.addPC(t.a[0])
		p.addPC(t.a[1])
		return
	}
	if p.pcset[t] || t == p.f.True {
		return
	}
	p.pc = append(p.pc, t)
	p.pcset[t] = true
}

func (p *Path) implied(t *Term) (bool, bool) {
	if p.pcset[t] {
		return true, true
	}
	n := p.f.Not(t)
	if p.pcset[n] {
		return false, true
	}
	return p.orderImplied(t)
}

// slice returns the path constraints connected to the variables of t.
func (p *Path) slice(t *Term) []*Term {
	have := map[int32]bool{}
	for _, v := range t.vars.ids {
		have[v] = true
	}
	used := make([]bool, len(p.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range p.pc {
			if used[i] {
				continue
			}
			hit := len(c.vars.ids) == 0
			for _, v := range c.vars.ids {
				if have[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range c.vars.ids {
					have[v] = true
				}
			}
		}
	}
	for i, c := range p.pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

func (p *Path) query(t *Term) (SatRes, Model) {
	if t == p.f.True {
		return Sat, Model{}
	}
	if t == p.f.False {
		return Unsat, nil
	}
	as := append(p.slice(t), t)
	r, m := p.S.Check(p.f, as, p.E.cfg.QTimeout)
	if r == Unknown {
		if g := p.guess(as); g != nil {
			p.E.guessed.Add(1)
			return Sat, g
		}
	}
	return r, m
}

// guess looks for a model of a query the solvers gave up on: inputs are set to
// pseudo-random values, and the query's terms evaluated. It can only turn an
// undecided query into a satisfiable one, with the model to show for it.
func (p *Path) guess(as []*Term) Model {
	if p.E.cfg.Round {
		return nil
	}
	have := map[int32]bool{}
	for _, t := range as {
		for _, v := range t.vars.ids {
			have[v] = true
		}
	}
	var vars []*Term
	for _, v := range p.vars {
		if v.t != nil && v.t.op == OVar && have[v.t.id] {
			vars = append(vars, v.t)
		}
	}
	rnd := rand.New(rand.NewSource(int64(len(vars))*7919 + 5))
	start := time.Now()
	for try := 0; try < 2000 && time.Since(start) < time.Second; try++ {
		m := mergeModel(p.model, nil)
		keep := try % 4 // a quarter of the tries changes everything, others keep a part
		for _, t := range vars {
			if keep > 0 && rnd.Intn(4) < keep {
				continue
			}
			if x, ok := p.pick(rnd, t); ok {
				m[t.name] = x
			}
		}
		if modelHolds(p.f, m, as) {
			return m
		}
	}
	return nil
}

func mergeModel(a, b Model) Model {
	m := make(Model, len(a)+len(b))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

func (p *Path) evalBool(t *Term) (v, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalErr); is {
				v, ok = false, false
				return
			}
			panic(r)
		}
	}()
	return p.ev.Bool(t), true
}

func (p *Path) truth(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.branch(x)
	}
	chkPoison(v)
	bail("truth of %T", v)
	return false
}

func (p *Path) lit(t *Term, dir bool) *Term {
	if dir {
		return t
	}
	return p.f.Not(t)
}

func (p *Path) branch(t *Term) bool {
	if t == p.f.True {
		return true
	}
	if t == p.f.False {
		return false
	}
	if d, ok := p.implied(t); ok {
		return d
	}
	if p.shared {
		bail("symbolic branch in shared init")
	}
	if p.replaying() {
		d := p.next()
		switch d.kind {
		case 'b':
			p.addPC(p.lit(t, d.dir))
		case 'f':
			p.pcset[p.lit(t, d.dir)] = true
		default:
			panic(fmt.Sprintf("replay divergence: branch vs %c", d.kind))
		}
		return d.dir
	}
	p.E.branches.Add(1)
	dir, ok := p.evalBool(t)
	if !ok {
		r, m := p.query(t)
		switch r {
		case Sat:
			dir = true
			p.setModel(mergeModel(p.model, m))
		case Unsat:
			dir = false
		default:
			p.E.unknownBranches.Add(1)
			panic(pathEnd{"unknown", "branch"})
		}
	}
	opp := p.lit(t, !dir)
	r, m := p.query(opp)
	switch r {
	case Sat:
		p.fork(decision{kind: 'b', dir: !dir}, mergeModel(p.model, m))
		p.record(decision{kind: 'b', dir: dir})
		p.addPC(p.lit(t, dir))
	case Unsat:
		p.E.forced.Add(1)
		p.record(decision{kind: 'f', dir: dir})
		p.pcset[p.lit(t, dir)] = true
	default:
		if debugEngine {
			fmt.Fprintf(os.Stderr, "UNKNOWN BRANCH %v\n%s\n", opp, stackOf(p.curFr))
		}
		p.E.unknownBranches.Add(1)
		p.record(decision{kind: 'b', dir: dir})
		p.addPC(p.lit(t, dir))
	}
	return dir
}

// concretize enumerates the feasible values of t, one per path.
func (p *Path) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.u
	}
	if t.lo != nil && t.lo.Cmp(t.hi) == 0 {
		return lowBits(t.lo)
	}
	for n := 0; ; n++ {
		if n > 300 {
			bail("too many values for a concretized expression")
		}
		if p.replaying() {
			d := p.next()
			if d.kind != 'c' {
				panic(fmt.Sprintf("replay divergence: concretize vs %c", d.kind))
			}
			eq := p.f.Eq(t, p.f.Int(t.sort, d.v))
			p.addPC(p.lit(eq, d.dir))
			if d.dir {
				return d.v
			}
			continue
		}
		p.E.concs.Add(1)
		v := p.ev.Eval(t).u
		eq := p.f.Eq(t, p.f.Int(t.sort, v))
		ne := p.f.Not(eq)
		if r, m := p.query(ne); r == Sat {
			p.fork(decision{kind: 'c', v: v, dir: false}, mergeModel(p.model, m))
		} else if r == Unknown {
			p.E.unknownBranches.Add(1)
		}
		p.record(decision{kind: 'c', v: v, dir: true})
		p.addPC(eq)
		return v
	}
}

// choose explores all n alternatives (an unconstrained finite symbolic variable).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		d := p.next()
		if d.kind != 'n' {
			panic(fmt.Sprintf("replay divergence: choice vs %c", d.kind))
		}
		return int(d.v)
	}
	p.E.choices.Add(1)
	for i := n - 1; i > 0; i-- {
		p.fork(decision{kind: 'n', v: uint64(i)}, p.model)
	}
	p.record(decision{kind: 'n', v: 0})
	return 0
}

func (p *Path) chooseSched(n int) int {
	p.schedChoices++
	return p.choose(n)
}

// chooseSel picks among several ready cases of a select statement.
func (p *Path) chooseSel(n int) int {
	if !p.concOn {
		return 0
	}
	p.schedChoices++
	return p.choose(n)
}

func (p *Path) assume(v value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"assume", ""})
		}
	case *Term:
		if d, ok := p.implied(x); ok {
			if !d {
				panic(pathEnd{"assume", ""})
			}
			return
		}
		if p.replaying() {
			p.addPC(x)
			return
		}
		if d, ok := p.evalBool(x); !ok || !d {
			r, m := p.query(x)
			switch r {
			case Sat:
				p.setModel(mergeModel(p.model, m))
			case Unsat:
				panic(pathEnd{"assume", ""})
			default:
				panic(pathEnd{"unknown", "assume"})
			}
		}
		p.addPC(x)
	default:
		chkPoison(v)
		bail("assume %T", v)
	}
}

func (p *Path) assert(v value, msg string) {
	p.asserts++
	switch x := v.(type) {
	case bool:
		if x {
			if !p.replaying() {
				p.E.assertsTrivial.Add(1)
				p.countAssert(msg)
			}
			return
		}
		p.violation("assert", msg, nil)
		panic(pathEnd{"violation", msg})
	case *Term:
		if d, ok := p.implied(x); ok && d {
			if !p.replaying() {
				p.E.assertsTrivial.Add(1)
				p.countAssert(msg)
			}
			return
		}
		if p.replaying() {
			p.pcset[x] = true
			return
		}
		p.countAssert(msg)
		if d, ok := p.evalBool(x); ok && !d {
			p.violation("assert", msg, nil)
			panic(pathEnd{"violation", msg})
		}
		r, m := p.query(p.f.Not(x))
		switch r {
		case Unsat:
			p.E.assertsProved.Add(1)
			p.pcset[x] = true
		case Sat:
			p.violation("assert", msg, mergeModel(p.model, m))
			if p.E.cfg.Round {
				p.moreModels(p.f.Not(x), msg)
			}
			p.addPC(x)
		default:
			p.E.unknownAsserts.Add(1)
			p.addPC(x)
		}
	default:
		chkPoison(v)
		bail("assert %T", v)
	}
}

// moreModels: rounding errors are over-approximated, so one counterexample may not be real;
// collect some spread over the inputs, all of which are replayed against the compiled code.
func (p *Path) moreModels(neg *Term, msg string) {
	rng := rand.New(rand.NewSource(int64(len(p.trace))))
	for try := 0; try < 24; try++ {
		c := neg
		for _, v := range p.vars {
			if v.t == nil || v.t.sort.K != 'i' || v.t.hi.Cmp(v.t.lo) == 0 || rng.Intn(3) == 0 {
				continue
			}
			w := new(big.Int).Sub(v.t.hi, v.t.lo)
			w.Rsh(w, uint(rng.Intn(w.BitLen()+1)))
			n := new(big.Int).Rand(rng, w.Add(w, bigOne))
			at := p.f.bigConst(v.t.sort, n.Add(n, v.t.lo))
			if rng.Intn(2) == 0 {
				c = p.f.And(c, p.f.Le(at, v.t))
			} else {
				c = p.f.And(c, p.f.Le(v.t, at))
			}
		}
		if r, m := p.query(c); r == Sat {
			p.violation("assert", msg, mergeModel(p.model, m))
		}
	}
}

func (p *Path) countAssert(msg string) {
	p.E.mu.Lock()
	p.E.assertMsgs[msg]++
	p.E.mu.Unlock()
}

// ---- symbolic inputs ----

func (p *Path) input(name, kind string, s Sort, lo, hi *big.Int) *Term {
	base := name
	for i := 2; ; i++ {
		if _, dup := p.varIdx[name]; !dup {
			break
		}
		name = fmt.Sprintf("%s~%d", base, i)
	}
	var t *Term
	if lo != nil {
		t = p.f.VarRange(s, name, lo, hi)
	} else {
		t = p.f.Var(s, name)
	}
	p.varIdx[name] = len(p.vars)
	p.vars = append(p.vars, symVar{name: name, kind: kind, t: t})
	return t
}

func (p *Path) inputChoice(name string, u uint64) {
	base := name
	for i := 2; ; i++ {
		if _, dup := p.varIdx[name]; !dup {
			break
		}
		name = fmt.Sprintf("%s~%d", base, i)
	}
	p.varIdx[name] = len(p.vars)
	p.vars = append(p.vars, symVar{name: name, kind: "choice", u: u})
}

// ---- globals ----

func (p *Path) global(i int) *value {
	for len(p.globals) <= i {
		p.globals = append(p.globals, nil)
	}
	if a := p.globals[i]; a != nil {
		return a
	}
	g := p.P.globalByIndex(i)
	pkg := g.Pkg
	if pkg != nil && !p.P.eager[pkg.Pkg.Path()] {
		if !p.shared && sharedPkg(pkg.Pkg.Path()) {
			a := p.P.sharedGlobal(p, i, pkg)
			p.globals[i] = a
			return a
		}
		if p.pkgState[pkg] == 0 {
			p.pkgState[pkg] = 1
			p.initStd(pkg)
			p.pkgState[pkg] = 2
			if len(p.globals) > i && p.globals[i] != nil {
				return p.globals[i]
			}
		}
	}
	for len(p.globals) <= i {
		p.globals = append(p.globals, nil)
	}
	a := new(value)
	*a = zero(g.Type().Underlying().(interface{ Elem() typesType }).Elem())
	p.globals[i] = a
	return a
}

// initStd runs a standard library package initialiser leniently.
func (p *Path) initStd(pkg *ssa.Package) {
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	c := p.P.cf(fn)
	p.P.compile(c)
	if c.err != "" {
		return
	}
	save, race, conc := p.curFr, p.raceOn, p.concOn
	p.raceOn, p.concOn = false, false
	var g *G
	if save != nil {
		g = save.g
	}
	fr := &frame{p: p, g: g, c: c, env: make([]value, c.nslots), lenient: true}
	fr.defers = &fr.ownDefers
	// the init guard is a branch on a global bool: start after it
	fr.block = &c.blocks[0]
	fr.prev = -1
	fr.run()
	p.curFr, p.raceOn, p.concOn = save, race, conc
}

func (p *Path) initEager(top *frame) {
	var paths []string
	for k := range p.P.eager {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	// the entry's package initialiser pulls in its imports in order
	pkg := p.E.entry.Pkg
	p.pkgState[pkg] = 2
	p.call(top, p.P.cf(pkg.Func("init")), nil, nil)
}

var _ = strings.Join
