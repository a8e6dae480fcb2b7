package main

// SMT-LIB printing (integer and bit-vector encodings) and solver processes.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

func (r SatRes) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type encErr struct{ msg string }

type printer struct {
	f    *Factory
	bv   bool // bit-vector/FP encoding, else Int/Real encoding
	out  strings.Builder
	name map[int32]string
	ref  map[int32]int
	vars []*Term
	seen map[int32]bool
}

func (p *printer) count(t *Term) {
	p.ref[t.id]++
	if p.ref[t.id] > 1 {
		return
	}
	for i := 0; i < t.n; i++ {
		p.count(t.a[i])
	}
}

func (p *printer) sortStr(s Sort) string {
	switch s.K {
	case 'b':
		return "Bool"
	case 'i':
		if p.bv {
			return fmt.Sprintf("(_ BitVec %d)", s.W)
		}
		return "Int"
	}
	if !p.bv {
		return "Real"
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

func bigStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func ratStr(r *big.Rat) string {
	if r.Sign() < 0 {
		return "(- " + ratStr(new(big.Rat).Neg(r)) + ")"
	}
	if r.IsInt() {
		return r.Num().String() + ".0"
	}
	return "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
}

func varName(t *Term) string { return "|" + t.name + "|" }

func (p *printer) declare(t *Term) {
	p.vars = append(p.vars, t)
	n := varName(t)
	if p.bv {
		switch t.sort.K {
		case 'f':
			fmt.Fprintf(&p.out, "(declare-fun %s () (_ BitVec %d))\n", n, t.sort.W)
		default:
			fmt.Fprintf(&p.out, "(declare-fun %s () %s)\n", n, p.sortStr(t.sort))
			if t.sort.K == 'i' {
				r := ranges[t.sort]
				le := "bvule"
				if t.sort.S {
					le = "bvsle"
				}
				if t.lo.Cmp(r.lo) > 0 {
					fmt.Fprintf(&p.out, "(assert (%s %s %s))\n", le, bvLit(lowBits(t.lo), t.sort.W), n)
				}
				if t.hi.Cmp(r.hi) < 0 {
					fmt.Fprintf(&p.out, "(assert (%s %s %s))\n", le, n, bvLit(lowBits(t.hi), t.sort.W))
				}
			}
		}
		return
	}
	fmt.Fprintf(&p.out, "(declare-fun %s () %s)\n", n, p.sortStr(t.sort))
	if t.sort.K == 'i' {
		fmt.Fprintf(&p.out, "(assert (and (<= %s %s) (<= %s %s)))\n", bigStr(t.lo), n, n, bigStr(t.hi))
	}
}

func bvLit(u uint64, w uint8) string {
	if w < 64 {
		u &= 1<<w - 1
	}
	return fmt.Sprintf("#x%0*x", int(w)/4, u)
}

func (p *printer) fpTo(s Sort) string {
	if s.W == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

func (p *printer) str(t *Term) string {
	if n, ok := p.name[t.id]; ok {
		return n
	}
	if t.op == OVar {
		p.declare(t)
		n := varName(t)
		if p.bv && t.sort.K == 'f' {
			n = "(" + p.fpTo(t.sort) + " " + n + ")"
		}
		p.name[t.id] = n
		return n
	}
	var s string
	if p.bv {
		s = p.bvStr(t)
	} else {
		s = p.intStr(t)
	}
	if t.op != OConst && (p.ref[t.id] > 1 || len(s) > 4000) {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, p.sortStr(t.sort), s)
		s = n
	}
	if t.op != OConst {
		p.name[t.id] = s
	}
	return s
}

func (p *printer) bvStr(t *Term) string {
	var a [3]string
	for i := 0; i < t.n; i++ {
		a[i] = p.str(t.a[i])
	}
	bin := func(op string) string { return "(" + op + " " + a[0] + " " + a[1] + ")" }
	sg := t.sort.S
	if t.n > 0 && t.sort.K == 'b' {
		sg = t.a[0].sort.S
	}
	switch t.op {
	case OConst:
		switch t.sort.K {
		case 'b':
			if t.u == 1 {
				return "true"
			}
			return "false"
		case 'i':
			return bvLit(t.u, t.sort.W)
		}
		if t.sort.W == 32 {
			return "(" + p.fpTo(t.sort) + " " + bvLit(uint64(math.Float32bits(float32(t.fval()))), 32) + ")"
		}
		return "(" + p.fpTo(t.sort) + " " + bvLit(t.u, 64) + ")"
	case ONot:
		return "(not " + a[0] + ")"
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OIte:
		return "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"
	case OLt:
		if sg {
			return bin("bvslt")
		}
		return bin("bvult")
	case OLe:
		if sg {
			return bin("bvsle")
		}
		return bin("bvule")
	case OAdd:
		return bin("bvadd")
	case OSub:
		return bin("bvsub")
	case OMul:
		return bin("bvmul")
	case ODiv:
		if sg {
			return bin("bvsdiv")
		}
		return bin("bvudiv")
	case ORem:
		if sg {
			return bin("bvsrem")
		}
		return bin("bvurem")
	case OBAnd:
		return bin("bvand")
	case OBOr:
		return bin("bvor")
	case OBXor:
		return bin("bvxor")
	case OShl:
		return "(bvshl " + a[0] + " " + bvLit(t.u, t.sort.W) + ")"
	case OShr:
		if sg {
			return "(bvashr " + a[0] + " " + bvLit(t.u, t.sort.W) + ")"
		}
		return "(bvlshr " + a[0] + " " + bvLit(t.u, t.sort.W) + ")"
	case OCast:
		fw, tw := t.a[0].sort.W, t.sort.W
		switch {
		case fw == tw:
			return a[0]
		case fw > tw:
			return fmt.Sprintf("((_ extract %d 0) %s)", tw-1, a[0])
		case t.a[0].sort.S:
			return fmt.Sprintf("((_ sign_extend %d) %s)", tw-fw, a[0])
		default:
			return fmt.Sprintf("((_ zero_extend %d) %s)", tw-fw, a[0])
		}
	case OFAdd:
		return "(fp.add RNE " + a[0] + " " + a[1] + ")"
	case OFSub:
		return "(fp.sub RNE " + a[0] + " " + a[1] + ")"
	case OFMul:
		return "(fp.mul RNE " + a[0] + " " + a[1] + ")"
	case OFDiv:
		return "(fp.div RNE " + a[0] + " " + a[1] + ")"
	case OFNeg:
		return "(fp.neg " + a[0] + ")"
	case OFAbs:
		return "(fp.abs " + a[0] + ")"
	case OFSqrt:
		return "(fp.sqrt RNE " + a[0] + ")"
	case OFLt:
		return bin("fp.lt")
	case OFLe:
		return bin("fp.leq")
	case OFEq:
		return bin("fp.eq")
	case OI2F:
		to := p.fpTo(t.sort)
		if !t.a[0].sort.S {
			to = strings.Replace(to, "to_fp", "to_fp_unsigned", 1)
		}
		return "(" + to + " RNE " + a[0] + ")"
	case OF2F:
		return "(" + p.fpTo(t.sort) + " RNE " + a[0] + ")"
	case OFRnd:
		return "(fp.roundToIntegral " + [...]string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[t.u] + " " + a[0] + ")"
	case OF2I:
		lo := p.bvStr(p.f.Float(sF64, -9223372036854775808.0))
		hi := p.bvStr(p.f.Float(sF64, 9223372036854775808.0))
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, a[0], a[0], hi, a[0])
	case OBitsF:
		return "((_ to_fp 11 53) " + a[0] + ")"
	}
	panic(encErr{"bv " + opNames[t.op]})
}

func (p *printer) wrap(t *Term, e string) string {
	if !wraps(t) {
		return e
	}
	r := ranges[t.sort]
	if t.sort.S {
		return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", e, r.half, r.mod, r.half)
	}
	return fmt.Sprintf("(mod %s %s)", e, r.mod)
}

func (p *printer) intStr(t *Term) string {
	var a [3]string
	for i := 0; i < t.n; i++ {
		a[i] = p.str(t.a[i])
	}
	bin := func(op string) string { return "(" + op + " " + a[0] + " " + a[1] + ")" }
	if (t.sort.K == 'f' || (t.n > 0 && t.a[0].sort.K == 'f')) && !p.f.real {
		panic(encErr{"fp in int encoding"})
	}
	switch t.op {
	case OConst:
		switch t.sort.K {
		case 'b':
			if t.u == 1 {
				return "true"
			}
			return "false"
		case 'i':
			return bigStr(bigOf(t.sort, t.u))
		}
		v := t.fval()
		if math.IsNaN(v) || math.IsInf(v, 0) {
			panic(encErr{"non-finite constant in real encoding"})
		}
		return ratStr(new(big.Rat).SetFloat64(v))
	case ONot:
		return "(not " + a[0] + ")"
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq, OFEq:
		return bin("=")
	case OIte:
		return "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"
	case OLt, OFLt:
		return bin("<")
	case OLe, OFLe:
		return bin("<=")
	case OAdd:
		return p.wrap(t, bin("+"))
	case OSub:
		return p.wrap(t, bin("-"))
	case OMul:
		return p.wrap(t, bin("*"))
	case OShl:
		return p.wrap(t, fmt.Sprintf("(* %s %s)", a[0], new(big.Int).Lsh(bigOne, uint(t.u))))
	case OShr:
		return fmt.Sprintf("(div %s %s)", a[0], new(big.Int).Lsh(bigOne, uint(t.u)))
	case ODiv, ORem:
		x, y := t.a[0], t.a[1]
		if y.lo.Sign() <= 0 {
			if y.op == OConst && y.hi.Sign() < 0 {
				ny := new(big.Int).Neg(y.lo).String()
				q := fmt.Sprintf("(ite (>= %s 0) (- (div %s %s)) (div (- %s) %s))", a[0], a[0], ny, a[0], ny)
				if t.op == ODiv {
					return p.wrap(t, q)
				}
				return fmt.Sprintf("(- %s (* %s %s))", a[0], q, a[1])
			}
			panic(encErr{"division by possibly non-positive"})
		}
		op := "div"
		if t.op == ORem {
			op = "mod"
		}
		if x.lo.Sign() >= 0 {
			return bin(op)
		}
		if x.hi.Sign() <= 0 {
			return fmt.Sprintf("(- (%s (- %s) %s))", op, a[0], a[1])
		}
		return fmt.Sprintf("(ite (>= %s 0) (%s %s %s) (- (%s (- %s) %s)))", a[0], op, a[0], a[1], op, a[0], a[1])
	case OBAnd:
		y := t.a[1]
		if y.op == OConst && y.lo.Sign() >= 0 {
			u := y.u
			tz := 0
			for u&1 == 0 {
				u >>= 1
				tz++
			}
			if k, ok := isPow2Mask(u); ok {
				e := a[0]
				if tz > 0 {
					e = fmt.Sprintf("(div %s %s)", e, new(big.Int).Lsh(bigOne, uint(tz)))
				}
				e = fmt.Sprintf("(mod %s %s)", e, new(big.Int).Lsh(bigOne, uint(k)))
				if tz > 0 {
					e = fmt.Sprintf("(* %s %s)", e, new(big.Int).Lsh(bigOne, uint(tz)))
				}
				return e
			}
		}
		panic(encErr{"and"})
	case OBXor:
		// x ^ 2^(w-1) for unsigned: add half modulo
		y := t.a[1]
		if y.op == OConst && !t.sort.S && y.lo.Cmp(ranges[t.sort].half) == 0 {
			return fmt.Sprintf("(mod (+ %s %s) %s)", a[0], ranges[t.sort].half, ranges[t.sort].mod)
		}
		if y.op == OConst && y.u == norm(t.sort, ^uint64(0)) {
			if t.sort.S {
				return fmt.Sprintf("(- (- 1) %s)", a[0])
			}
			return fmt.Sprintf("(- %s %s)", ranges[t.sort].hi, a[0])
		}
		panic(encErr{"xor"})
	case OBOr:
		x, y := t.a[0], t.a[1]
		for i := 0; i < 2; i++ {
			if x.op == OShl && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 && y.hi.BitLen() <= int(x.u) {
				return bin("+")
			}
			x, y = y, x
		}
		panic(encErr{"or"})
	case OCast:
		return p.wrap(t, a[0])
	case OFAdd:
		return bin("+")
	case OFSub:
		return bin("-")
	case OFMul:
		return bin("*")
	case OFDiv:
		return bin("/")
	case OFNeg:
		return "(- " + a[0] + ")"
	case OFAbs:
		return fmt.Sprintf("(ite (>= %s 0.0) %s (- %s))", a[0], a[0], a[0])
	case OI2F:
		return "(to_real " + a[0] + ")"
	case OF2F:
		return a[0]
	case OF2I:
		return fmt.Sprintf("(ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))", a[0], a[0], a[0])
	case OFRnd:
		x := a[0]
		switch t.u {
		case 0:
			return "(to_real (to_int " + x + "))"
		case 1:
			return "(- (to_real (to_int (- " + x + "))))"
		case 2:
			return fmt.Sprintf("(to_real (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s)))))", x, x, x)
		case 3:
			return fmt.Sprintf("(to_real (ite (>= %s 0.0) (to_int (+ %s 0.5)) (- (to_int (+ (- %s) 0.5)))))", x, x, x)
		}
	}
	panic(encErr{"int " + opNames[t.op]})
}

// encode prints the conjunction of asserts.
func encode(f *Factory, asserts []*Term, bv bool) (text string, vars []*Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(encErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	p := &printer{f: f, bv: bv, name: map[int32]string{}, ref: map[int32]int{}}
	for _, t := range asserts {
		p.count(t)
	}
	for _, t := range asserts {
		s := p.str(t)
		fmt.Fprintf(&p.out, "(assert %s)\n", s)
	}
	return p.out.String(), p.vars, nil
}

// ---- solver processes ----

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
}

func startProc(name string, args ...string) (*proc, error) {
	c := exec.Command(name, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *proc) kill() {
	if !p.dead {
		p.dead = true
		p.cmd.Process.Kill()
		go p.cmd.Wait()
	}
}

// ask sends text followed by an echo marker and returns everything before it.
func (p *proc) ask(text string, limit time.Duration) (string, bool) {
	if _, err := io.WriteString(p.in, text+"(echo \"@@done\")\n"); err != nil {
		p.kill()
		return "", false
	}
	var timedOut atomic.Bool
	timer := time.AfterFunc(limit, func() { timedOut.Store(true); p.cmd.Process.Kill() })
	defer timer.Stop()
	var b strings.Builder
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			p.kill()
			return b.String(), false
		}
		if strings.Contains(line, "@@done") {
			return b.String(), true
		}
		b.WriteString(line)
	}
}

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, Evals int64
	TimeNS                                            int64
	MaxNS                                             int64
	ByEngine                                          sync.Map // name -> *int64
}

type cacheEnt struct {
	res   SatRes
	model Model
}

type SolverShared struct {
	stats         SolverStats
	cache         sync.Map // [32]byte -> cacheEnt
	diff          bool     // cross-check every verdict with a second solver
	disagreements atomic.Int64
	crossChecked  atomic.Int64
}

type Solver struct {
	sh *SolverShared
	z3 *proc
}

func (s *Solver) close() {
	if s.z3 != nil {
		s.z3.kill()
	}
}

const z3Bin = "z3-new"

func (s *Solver) count(engine string) {
	v, _ := s.sh.stats.ByEngine.LoadOrStore(engine, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

// Check decides the conjunction of asserts.
func (s *Solver) Check(f *Factory, asserts []*Term, timeout time.Duration) (SatRes, Model) {
	hasFP := !f.real && usesFloat(asserts)
	type enc struct {
		text string
		vars []*Term
		bv   bool
	}
	var encs []enc
	if !hasFP {
		if t, v, err := encode(f, asserts, false); err == nil {
			encs = append(encs, enc{t, v, false})
		}
	}
	if !f.real {
		if t, v, err := encode(f, asserts, true); err == nil {
			encs = append(encs, enc{t, v, true})
		}
	}
	if len(encs) == 0 {
		atomic.AddInt64(&s.sh.stats.Queries, 1)
		atomic.AddInt64(&s.sh.stats.UnknownN, 1)
		return Unknown, nil
	}
	key := sha256.Sum256([]byte(encs[0].text))
	if v, ok := s.sh.cache.Load(key); ok {
		atomic.AddInt64(&s.sh.stats.CacheHits, 1)
		e := v.(cacheEnt)
		return e.res, e.model
	}
	t0 := time.Now()
	res, m := Unknown, Model(nil)
	finish := func(eng string) (SatRes, Model) {
		d := time.Since(t0).Nanoseconds()
		atomic.AddInt64(&s.sh.stats.Queries, 1)
		atomic.AddInt64(&s.sh.stats.TimeNS, d)
		for {
			o := atomic.LoadInt64(&s.sh.stats.MaxNS)
			if d <= o || atomic.CompareAndSwapInt64(&s.sh.stats.MaxNS, o, d) {
				break
			}
		}
		switch res {
		case Sat:
			atomic.AddInt64(&s.sh.stats.SatN, 1)
		case Unsat:
			atomic.AddInt64(&s.sh.stats.UnsatN, 1)
		default:
			atomic.AddInt64(&s.sh.stats.UnknownN, 1)
		}
		s.count(eng)
		if s.sh.diff && res != Unknown {
			r2, _ := s.oneShot("cvc5", encs[0].text, encs[0].vars, encs[0].bv, f.real, 20*time.Second)
			if r2 != Unknown {
				s.sh.crossChecked.Add(1)
				if r2 != res {
					s.sh.disagreements.Add(1)
					os.WriteFile(fmt.Sprintf("/tmp/disagree-%d.smt2", time.Now().UnixNano()), []byte(encs[0].text), 0644)
				}
			}
		}
		if dbgQ := os.Getenv("SYMGO_SLOWQ"); dbgQ != "" && d > 2e9 {
			os.WriteFile(fmt.Sprintf("%s/q%d-%s-%s.smt2", dbgQ, t0.UnixNano(), res, eng), []byte(encs[0].text+"(check-sat)\n"), 0644)
		}
		s.sh.cache.Store(key, cacheEnt{res, m})
		return res, m
	}
	valid := func(m Model) bool { return modelHolds(f, m, asserts) }
	for i, e := range encs {
		to := timeout
		if i == 0 && len(encs) > 1 && to > 8*time.Second {
			to = 8 * time.Second
		}
		r, mm := s.runZ3(e.text, e.vars, e.bv, f.real, to)
		eng := "z3-int"
		if e.bv {
			eng = "z3-bv"
		}
		if r == Sat && !valid(mm) {
			r = Unknown
			if d := os.Getenv("SYMGO_SLOWQ"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/badmodel-%d.smt2", d, t0.UnixNano()), []byte(e.text+"(check-sat)(get-model)\n"), 0644)
			}
		}
		if r != Unknown {
			res, m = r, mm
			return finish(eng)
		}
	}
	// portfolio of fresh processes
	type ans struct {
		r SatRes
		m Model
		n string
	}
	ch := make(chan ans, 8)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := 0
	for _, e := range encs {
		for _, eng := range []string{"cvc5", "z3"} {
			n++
			go func(eng string, e enc) {
				r, m := s.oneShotCtx(ctx, eng, e.text, e.vars, e.bv, f.real, timeout)
				ch <- ans{r, m, eng}
			}(eng, e)
		}
	}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == Sat && !valid(a.m) {
			continue
		}
		if a.r != Unknown {
			res, m = a.r, a.m
			return finish(a.n)
		}
	}
	return finish("none")
}

func modelHolds(f *Factory, m Model, asserts []*Term) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	e := newEval(f, m)
	for _, t := range asserts {
		if !e.Bool(t) {
			return false
		}
	}
	return true
}

func usesFloat(ts []*Term) bool {
	seen := map[int32]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.sort.K == 'f' {
			return true
		}
		for i := 0; i < t.n; i++ {
			if rec(t.a[i]) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

func getValueCmd(vars []*Term) string {
	if len(vars) == 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(varName(v) + " ")
	}
	b.WriteString("))\n")
	return b.String()
}

func (s *Solver) runZ3(text string, vars []*Term, bv, real bool, timeout time.Duration) (SatRes, Model) {
	if s.z3 == nil || s.z3.dead {
		p, err := startProc(z3Bin, "-in")
		if err != nil {
			return Unknown, nil
		}
		s.z3 = p
	}
	q := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :pp.decimal false)\n%s(check-sat)\n", timeout.Milliseconds(), text)
	out, ok := s.z3.ask(q, timeout+3*time.Second)
	if !ok || strings.Contains(out, "(error") {
		if strings.Contains(out, "(error") && os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3 error:", out)
			os.WriteFile("/tmp/z3err.smt2", []byte(q), 0644)
		}
		return Unknown, nil
	}
	switch strings.TrimSpace(out) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vars) == 0 {
			return Sat, Model{}
		}
		out, ok := s.z3.ask(getValueCmd(vars), 10*time.Second)
		if !ok || strings.Contains(out, "(error") {
			return Unknown, nil
		}
		m, err := parseModel(out, vars, real)
		if err != nil {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

// raw decides a question given as text.
func (s *Solver) raw(text string, timeout time.Duration) SatRes {
	t0 := time.Now()
	r, _ := s.runZ3(text, nil, false, false, timeout)
	st := &s.sh.stats
	atomic.AddInt64(&st.Queries, 1)
	atomic.AddInt64(&st.TimeNS, time.Since(t0).Nanoseconds())
	switch r {
	case Sat:
		atomic.AddInt64(&st.SatN, 1)
	case Unsat:
		atomic.AddInt64(&st.UnsatN, 1)
	default:
		atomic.AddInt64(&st.UnknownN, 1)
	}
	s.count("z3-schedule")
	return r
}

func (s *Solver) oneShot(eng, text string, vars []*Term, bv, real bool, timeout time.Duration) (SatRes, Model) {
	return s.oneShotCtx(context.Background(), eng, text, vars, bv, real, timeout)
}

func (s *Solver) oneShotCtx(ctx context.Context, eng, text string, vars []*Term, bv, real bool, timeout time.Duration) (SatRes, Model) {
	ctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	var c *exec.Cmd
	q := text + "(check-sat)\n" + getValueCmd(vars)
	switch eng {
	case "cvc5":
		args := []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds())}
		if bv {
			args = append(args, "--fp-exp")
		}
		c = exec.CommandContext(ctx, "cvc5", append(args, "-")...)
		q = "(set-logic ALL)\n" + q
	default:
		c = exec.CommandContext(ctx, "z3", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "-in")
	}
	c.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	c.Stdout = &out
	c.Run()
	o := strings.TrimSpace(out.String())
	first, rest, _ := strings.Cut(o, "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if strings.Contains(rest, "(error") {
			return Unknown, nil
		}
		m, err := parseModel(rest, vars, real)
		if err != nil {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

// ---- model parsing ----

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) (*sexp, string, error) {
	s = strings.TrimLeft(s, " \t\r\n")
	if s == "" {
		return nil, "", fmt.Errorf("eof")
	}
	if s[0] == '(' {
		s = s[1:]
		x := &sexp{list: []*sexp{}}
		for {
			s = strings.TrimLeft(s, " \t\r\n")
			if s == "" {
				return nil, "", fmt.Errorf("eof")
			}
			if s[0] == ')' {
				return x, s[1:], nil
			}
			y, r, err := parseSexp(s)
			if err != nil {
				return nil, "", err
			}
			x.list = append(x.list, y)
			s = r
		}
	}
	if s[0] == '|' {
		i := strings.IndexByte(s[1:], '|')
		if i < 0 {
			return nil, "", fmt.Errorf("bad atom")
		}
		return &sexp{atom: s[1 : i+1]}, s[i+2:], nil
	}
	i := strings.IndexAny(s, " \t\r\n()")
	if i < 0 {
		i = len(s)
	}
	return &sexp{atom: s[:i]}, s[i:], nil
}

func (x *sexp) rat() (*big.Rat, error) {
	if x.list == nil {
		a := strings.TrimSuffix(x.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		if !ok {
			return nil, fmt.Errorf("bad number %q", x.atom)
		}
		return r, nil
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r, err := x.list[1].rat()
		if err != nil {
			return nil, err
		}
		return r.Neg(r), nil
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, err := x.list[1].rat()
		if err != nil {
			return nil, err
		}
		b, err := x.list[2].rat()
		if err != nil || b.Sign() == 0 {
			return nil, fmt.Errorf("bad ratio")
		}
		return a.Quo(a, b), nil
	}
	return nil, fmt.Errorf("bad number")
}

func parseModel(out string, vars []*Term, real bool) (Model, error) {
	m := Model{}
	if len(vars) == 0 {
		return m, nil
	}
	x, _, err := parseSexp(out)
	if err != nil {
		return nil, err
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	for _, pr := range x.list {
		if len(pr.list) != 2 {
			return nil, fmt.Errorf("bad pair")
		}
		v := byName[pr.list[0].atom]
		if v == nil {
			return nil, fmt.Errorf("unknown var %s", pr.list[0].atom)
		}
		val := pr.list[1]
		switch {
		case v.sort.K == 'b':
			m[v.name] = MVal{u: b2u(val.atom == "true")}
		case strings.HasPrefix(val.atom, "#x") || strings.HasPrefix(val.atom, "#b"):
			base := 16
			if val.atom[1] == 'b' {
				base = 2
			}
			n, ok := new(big.Int).SetString(val.atom[2:], base)
			if !ok {
				return nil, fmt.Errorf("bad bv")
			}
			u := n.Uint64()
			if v.sort.K == 'i' {
				m[v.name] = MVal{u: norm(v.sort, u)}
			} else if v.sort.W == 32 {
				m[v.name] = MVal{u: math.Float64bits(float64(math.Float32frombits(uint32(u))))}
			} else {
				m[v.name] = MVal{u: u}
			}
		default:
			r, err := val.rat()
			if err != nil {
				return nil, err
			}
			if v.sort.K == 'i' {
				if !r.IsInt() {
					return nil, fmt.Errorf("non-integer")
				}
				m[v.name] = MVal{u: lowBits(r.Num())}
			} else {
				fv, _ := r.Float64()
				m[v.name] = MVal{u: math.Float64bits(fv), r: r}
			}
		}
	}
	return m, nil
}
