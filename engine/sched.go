package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program under test run as native goroutines that pass a
// baton: exactly one runs at a time, so every schedule is deterministic and is
// decided by the explorer.

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a *vclock, b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

type wcase struct {
	ch   *hchan
	send bool
	val  value
}

type G struct {
	id      int
	wake    chan struct{}
	ready   func() bool
	why     string
	done    bool
	vc      vclock
	cases   []wcase
	arrived int
	fired   int
	rval    value
	rok     bool
	partVC  vclock
	sleep   int64 // wake-up instant when sleeping
	conc    bool
	pend    []dep  // objects of the pending synchronisation operation
	held    []dep  // locks held
	dclk    vclock // events of the schedule that precede its next one
	dset    bool   // pend is that of an operation not yet performed
}

// dep is a synchronisation object touched by an operation; two operations are
// dependent if they touch a common object and not both only read it. A nil
// object stands for everything.
type dep struct {
	obj  any
	read bool
	arr  bool // a receiver arrives at the channel
	rel  bool // releases the object: never possible at the same time as the operations waiting for it
}

func conflict(a, b []dep) bool {
	for _, x := range a {
		for _, y := range b {
			if (x.obj == y.obj || x.obj == nil || y.obj == nil) && !(x.read && y.read) {
				return true
			}
		}
	}
	return false
}

// The schedules explored are one of each class of schedules that differ only in
// the order of independent operations (sleep sets). The code a goroutine runs
// between two synchronisation operations belongs to the first of them: without
// data races (which are reported) it touches nothing another goroutine can see.

// touch records that the running segment used obj.
func (p *Path) touch(d dep) {
	if p.concOn && p.por {
		p.segFoot = append(p.segFoot, d)
	}
}

// pendOf is what the next segment of g may touch: its operation's objects and the locks it may release.
func (g *G) pendAll() []dep {
	if len(g.pend) == 0 {
		return nil
	}
	return append(append([]dep(nil), g.pend...), g.held...)
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

type hchan struct {
	cap    int
	buf    []value
	bufVC  []vclock
	closed bool
	et     types.Type
	vc     vclock
	id     int
}

func (p *Path) newG() *G {
	g := &G{id: len(p.gs), wake: make(chan struct{}), fired: -1}
	p.gs = append(p.gs, g)
	return g
}

// runAll executes f as the main goroutine and returns the terminating reason.
func (p *Path) runAll(f func(g *G)) any {
	p.doneCh = make(chan any, 1)
	m := p.newG()
	m.tick()
	p.start(m, f)
	m.wake <- struct{}{}
	r := <-p.doneCh
	p.killed = true
	for _, g := range p.gs {
		if !g.done {
			close(g.wake)
		}
	}
	p.wg.Wait()
	return r
}

type gFinished struct{}

func (p *Path) start(g *G, f func(g *G)) {
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		<-g.wake
		if p.killed {
			return
		}
		p.depth = 0
		r := p.protect(func() { f(g) })
		if _, ok := r.(killedG); ok {
			return
		}
		g.done = true
		if r != nil || g.id == 0 {
			p.doneCh <- r
			return
		}
		var next *G
		r = p.protect(func() { next = p.pickNext(g) })
		if r == nil && next == nil {
			r = p.deadlock()
		}
		if r != nil {
			p.doneCh <- r
			return
		}
		next.wake <- struct{}{}
	}()
}

func (p *Path) protect(f func()) (r any) {
	defer func() {
		if x := recover(); x != nil {
			r = wrapEngine(x)
		}
	}()
	f()
	return nil
}

func (p *Path) deadlock() any {
	var b []string
	for _, g := range p.gs {
		if !g.done {
			b = append(b, fmt.Sprintf("g%d: %s", g.id, g.why))
		}
	}
	return pathEnd{"deadlock", "all goroutines are blocked: " + strings.Join(b, ", ")}
}

func (p *Path) enabled(g *G) bool {
	return !g.done && (g.ready == nil || g.ready())
}

func (p *Path) pickNext(cur *G) *G {
	for {
		var en []*G
		n := len(p.gs)
		for i := 1; i <= n; i++ {
			g := p.gs[(cur.id+i)%n]
			if p.enabled(g) {
				en = append(en, g)
			}
		}
		if len(en) == 0 {
			// advance the clock to the next sleeper
			var s *G
			for _, g := range p.gs {
				if !g.done && g.sleep != 0 && (s == nil || g.sleep < s.sleep) {
					s = g
				}
			}
			if s == nil {
				return nil
			}
			if s.sleep > p.now {
				p.now = s.sleep
			}
			continue
		}
		if !p.concOn {
			return en[0]
		}
		sort.Slice(en, func(i, j int) bool { return en[i].id < en[j].id })
		if p.por {
			p.flush()
			return p.decide(en)
		}
		if len(en) == 1 {
			return en[0]
		}
		return en[p.chooseSched(len(en))]
	}
}

func (p *Path) switchTo(from, to *G) {
	d, cf := p.depth, p.curFr
	to.wake <- struct{}{}
	<-from.wake
	if p.killed {
		panic(killedG{})
	}
	p.depth, p.curFr = d, cf
}

// block parks g until ready holds.
func (p *Path) block(g *G, why string, ready func() bool) {
	g.ready, g.why, g.dset = ready, why, true
	next := p.pickNext(g)
	if next == nil {
		panic(p.deadlock())
	}
	if next != g {
		p.switchTo(g, next)
	}
	g.ready, g.why, g.dset = nil, "", false
}

// schedPoint offers a preemption before a synchronisation operation of g on objs.
func (p *Path) schedPoint(g *G, objs ...dep) { p.schedPointIf(g, "", nil, objs...) }

// schedPointIf is schedPoint for an operation that is possible only when ready holds.
func (p *Path) schedPointIf(g *G, why string, ready func() bool, objs ...dep) {
	if !p.concOn || g == nil {
		return
	}
	if p.por {
		p.schedPoints++
		if len(objs) == 0 {
			objs = []dep{{}}
		}
		g.pend = objs
		p.block(g, why, ready)
		return
	}
	p.schedPoints++
	if p.preempts >= p.maxPreempt {
		return
	}
	var en []*G
	for _, o := range p.gs {
		if o != g && p.enabled(o) {
			en = append(en, o)
		}
	}
	if len(en) == 0 {
		return
	}
	k := p.chooseSched(len(en) + 1)
	if k == 0 {
		return
	}
	p.preempts++
	p.switchTo(g, en[k-1])
}

// yield gives other goroutines a chance (runtime.Gosched, spin loops).
func (p *Path) yield(g *G) {
	n := len(p.gs)
	for i := 1; i < n; i++ {
		o := p.gs[(g.id+i)%n]
		if o != g && p.enabled(o) {
			p.switchTo(g, o)
			return
		}
	}
}

func (p *Path) spawn(parent *G, cl *closure, args []value) *G {
	if cl == nil {
		panic(p.rtError("go of nil func value"))
	}
	if len(p.gs) > 2500 {
		panic(pathEnd{"limit", "too many goroutines"})
	}
	g := p.newG()
	if parent != nil {
		g.dclk = append(vclock(nil), parent.dclk...)
		if p.curEv != nil {
			p.curEv.fires = append(p.curEv.fires, g)
		}
		joinVC(&g.vc, parent.vc)
		parent.tick()
		g.conc = parent.conc
	}
	g.tick()
	p.start(g, func(g *G) {
		top := &frame{p: p, g: g}
		p.callClosure(top, cl, args)
	})
	return g
}

// ---- channels ----

func (p *Path) newChan(n int, et types.Type) *hchan {
	if n < 0 {
		panic(p.rtError("makechan: size out of range"))
	}
	p.nchan++
	return &hchan{cap: n, et: et, id: p.nchan}
}

func (p *Path) partner(c *hchan, send bool, self *G) (*G, int) {
	// the goroutine that has been blocked longest on the opposite operation
	var best *G
	k := -1
	for _, g := range p.gs {
		if g == self || g.done || g.fired >= 0 || best != nil && best.arrived < g.arrived {
			continue
		}
		for i := range g.cases {
			if g.cases[i].ch == c && g.cases[i].send != send {
				best, k = g, i
				break
			}
		}
	}
	return best, k
}

func (p *Path) canDo(c *hchan, send bool, self *G) bool {
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if send {
		if len(c.buf) < c.cap {
			return true
		}
	} else if len(c.buf) > 0 {
		return true
	}
	g, _ := p.partner(c, send, self)
	return g != nil
}

// fire notes that the blocked operation of o has been completed by the running goroutine.
func (p *Path) fire(o *G) {
	if p.concOn && p.por {
		o.pend = nil
		if p.curEv != nil {
			p.curEv.fires = append(p.curEv.fires, o)
		}
	}
}

// do performs a possible channel operation.
func (p *Path) doChan(g *G, w wcase) (value, bool) {
	c := w.ch
	if w.send {
		if c.closed {
			panic(targetPanic{v: iface{p.P.errorString, "send on closed channel"}, where: "send on closed channel"})
		}
		if o, i := p.partner(c, true, g); o != nil {
			o.fired, o.rval, o.rok = i, w.val, true
			p.fire(o)
			ovc := append(vclock(nil), o.vc...)
			joinVC(&o.vc, g.vc)
			joinVC(&g.vc, ovc)
			o.tick()
			g.tick()
			return nil, true
		}
		c.buf = append(c.buf, w.val)
		c.bufVC = append(c.bufVC, append(vclock(nil), g.vc...))
		joinVC(&g.vc, c.vc)
		g.tick()
		return nil, true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		joinVC(&g.vc, c.bufVC[0])
		c.buf = append([]value(nil), c.buf[1:]...)
		c.bufVC = append([]vclock(nil), c.bufVC[1:]...)
		joinVC(&c.vc, g.vc)
		g.tick()
		if o, i := p.partner(c, false, g); o != nil {
			c.buf = append(c.buf, o.cases[i].val)
			c.bufVC = append(c.bufVC, append(vclock(nil), o.vc...))
			o.fired, o.rok = i, true
			p.fire(o)
			joinVC(&o.vc, g.vc)
			o.tick()
		}
		return v, true
	}
	if o, i := p.partner(c, false, g); o != nil {
		v := o.cases[i].val
		o.fired, o.rok = i, true
		p.fire(o)
		ovc := append(vclock(nil), o.vc...)
		joinVC(&o.vc, g.vc)
		joinVC(&g.vc, ovc)
		o.tick()
		g.tick()
		return v, true
	}
	if c.closed {
		joinVC(&g.vc, c.vc)
		return zero(c.et), false
	}
	panic("doChan: not possible")
}

// chanWait performs one of the cases, blocking if necessary.
func (p *Path) chanWait(g *G, cases []wcase, blocking bool) (int, value, bool) {
	var ds []dep
	for _, w := range cases {
		if w.ch != nil {
			ds = append(ds, dep{obj: w.ch})
		}
	}
	if p.rdv && p.concOn && g != nil {
		return p.rendezvous(g, cases, blocking)
	}
	p.schedPoint(g, ds...)
	for {
		var can []int
		for i, w := range cases {
			if p.canDo(w.ch, w.send, g) {
				can = append(can, i)
			}
		}
		if len(can) > 0 {
			k := 0
			if len(can) > 1 {
				k = p.chooseSel(len(can))
			}
			v, ok := p.doChan(g, cases[can[k]])
			return can[k], v, ok
		}
		if !blocking {
			return -1, nil, false
		}
		g.cases, g.fired = cases, -1
		p.arrivals++
		g.arrived = p.arrivals
		p.block(g, chanWhy(cases), func() bool {
			if g.fired >= 0 {
				return true
			}
			for _, w := range cases {
				if w.ch != nil && p.canDoNoPartner(w.ch, w.send) {
					return true
				}
			}
			return false
		})
		g.cases = nil
		if g.fired >= 0 {
			i := g.fired
			g.fired = -1
			return i, g.rval, g.rok
		}
		if p.rdv && p.concOn && cases[0].send {
			p.exchange(g, cases[0])
			return 0, nil, true
		}
	}
}

// rendezvous is chanWait for programs whose channels are only used for
// unbuffered blocking exchanges. A receiver just arrives; the exchange is the
// sender's operation, possible when a receiver has arrived. Whether a sender
// has arrived before it can go on is not observable, and with several receivers
// each may have come first.
func (p *Path) rendezvous(g *G, cases []wcase, blocking bool) (int, value, bool) {
	send := len(cases) == 1 && cases[0].send
	for _, w := range cases {
		if !blocking || w.send != send || w.ch != nil && (w.ch.cap != 0 || w.ch.closed) {
			bail("channel operation in a library that is not a plain exchange")
		}
	}
	if send {
		c := cases[0].ch
		if c == nil {
			p.block(g, "nil channel", func() bool { return false })
		}
		p.schedPointIf(g, chanWhy(cases), func() bool { o, _ := p.partner(c, true, g); return o != nil }, dep{obj: c})
		p.exchange(g, cases[0])
		return 0, nil, true
	}
	for _, w := range cases {
		if w.ch != nil {
			p.touch(dep{obj: w.ch, read: true, arr: true})
			p.park(g, w.ch)
		}
	}
	g.cases, g.fired, g.pend = cases, -1, nil
	p.arrivals++
	g.arrived = p.arrivals
	p.block(g, chanWhy(cases), func() bool { return g.fired >= 0 })
	g.cases = nil
	i := g.fired
	g.fired = -1
	return i, g.rval, g.rok
}

// exchange hands the value to one of the receivers that have arrived.
func (p *Path) exchange(g *G, w wcase) {
	c := w.ch
	var at []*G
	var idx []int
	for _, o := range p.gs {
		if o == g || o.done || o.fired >= 0 {
			continue
		}
		for i := range o.cases {
			if o.cases[i].ch == c && !o.cases[i].send {
				at, idx = append(at, o), append(idx, i)
			}
		}
	}
	k := 0
	if len(at) > 1 {
		k = p.chooseSel(len(at))
	}
	o := at[k]
	for _, x := range o.cases {
		if x.ch != nil && x.ch != c {
			p.touch(dep{obj: x.ch})
		}
	}
	o.fired, o.rval, o.rok = idx[k], w.val, true
	p.fire(o)
	ovc := append(vclock(nil), o.vc...)
	joinVC(&o.vc, g.vc)
	joinVC(&g.vc, ovc)
	o.tick()
	g.tick()
}

func (p *Path) canDoNoPartner(c *hchan, send bool) bool {
	if c.closed {
		return true
	}
	if send {
		return len(c.buf) < c.cap
	}
	return len(c.buf) > 0
}

func chanWhy(cases []wcase) string {
	if len(cases) == 1 {
		if cases[0].ch == nil {
			return "nil channel"
		}
		if cases[0].send {
			return fmt.Sprintf("send ch%d", cases[0].ch.id)
		}
		return fmt.Sprintf("receive ch%d", cases[0].ch.id)
	}
	return "select"
}

func (p *Path) chanSend(g *G, c *hchan, v value) {
	p.chanWait(g, []wcase{{c, true, v}}, true)
}

func (p *Path) chanRecv(g *G, c *hchan) (value, bool) {
	_, v, ok := p.chanWait(g, []wcase{{c, false, nil}}, true)
	return v, ok
}

func (p *Path) chanClose(g *G, c *hchan) {
	p.schedPoint(g, dep{obj: c})
	if c == nil {
		panic(p.rtError("close of nil channel"))
	}
	if c.closed {
		panic(p.rtError("close of closed channel"))
	}
	c.closed = true
	if g != nil {
		joinVC(&c.vc, g.vc)
		g.tick()
	}
}

func (fr *frame) doSelect(ci *cinstr) value {
	p := fr.p
	sel := ci.in.(*ssa.Select)
	var cases []wcase
	for i, s := range sel.States {
		cv := fr.get(&ci.args[2*i])
		chkPoison(cv)
		ch, _ := cv.(*hchan)
		w := wcase{ch: ch, send: s.Dir == types.SendOnly}
		if w.send {
			w.val = copyVal(fr.get(&ci.args[2*i+1]))
		}
		cases = append(cases, w)
	}
	idx, v, ok := p.chanWait(fr.g, cases, sel.Blocking)
	tt := ci.typ.(*types.Tuple)
	r := tuple{uint64(int64(idx)), ok}
	for i, s := range sel.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				r = append(r, v)
			} else {
				r = append(r, zero(tt.At(len(r)).Type()))
			}
		}
	}
	return r
}

// ---- locks ----

type mstate struct {
	owner   *G
	locked  bool
	readers int
	pendW   int
	rwait   []*rwaiter
	vcW     vclock
	vcR     vclock
}

func (p *Path) mu(a value) *mstate {
	ptr := p.nilCheck(a)
	m := p.mutexes[ptr]
	if m == nil {
		m = &mstate{}
		p.mutexes[ptr] = m
	}
	return m
}

func (p *Path) lock(g *G, a value, try bool) bool {
	m := p.mu(a)
	if try {
		p.schedPoint(g, dep{obj: m})
	} else {
		p.schedPointIf(g, "Lock", func() bool { return !m.locked && m.readers == 0 }, dep{obj: m})
	}
	if m.locked || m.readers > 0 {
		if try {
			return false
		}
		m.pendW++
		p.block(g, "Lock", func() bool { return !m.locked && m.readers == 0 })
		m.pendW--
	}
	m.locked, m.owner = true, g
	p.hold(g, dep{obj: m})
	joinVC(&g.vc, m.vcW)
	joinVC(&g.vc, m.vcR)
	return true
}

func (p *Path) unlock(g *G, a value) {
	m := p.mu(a)
	if !m.locked {
		panic(pathEnd{"fatal", "unlock of unlocked mutex"})
	}
	if m.owner != g || p.P.tryLocks {
		p.schedPoint(g, dep{obj: m})
	}
	p.drop(m.owner, m)
	m.locked, m.owner = false, nil
	p.touch(dep{obj: m, rel: true})
	m.vcW = append(vclock(nil), g.vc...)
	g.tick()
	for _, w := range m.rwait {
		w.granted = true
		m.readers++
	}
	m.rwait = nil
}

func (p *Path) rlock(g *G, a value, try bool) bool {
	m := p.mu(a)
	if try {
		p.schedPoint(g, dep{obj: m, read: true})
	} else {
		p.schedPointIf(g, "RLock", func() bool { return !m.locked }, dep{obj: m, read: true})
		p.recursiveRLock(g, m)
	}
	if m.locked || m.pendW > 0 {
		if try {
			return false
		}
		w := &rwaiter{}
		m.rwait = append(m.rwait, w)
		p.block(g, "RLock", func() bool { return w.granted || !m.locked && m.pendW == 0 })
		if !w.granted {
			for i, x := range m.rwait {
				if x == w {
					m.rwait = append(append([]*rwaiter(nil), m.rwait[:i]...), m.rwait[i+1:]...)
					break
				}
			}
			m.readers++
		}
	} else {
		m.readers++
	}
	p.hold(g, dep{obj: m, read: true})
	joinVC(&g.vc, m.vcW)
	return true
}

// recursiveRLock reports a read lock taken again while a writer is about to wait for it:
// the writer, arriving first, would block the second read lock for ever.
func (p *Path) recursiveRLock(g *G, m *mstate) {
	if !p.concOn || !p.por || g == nil {
		return
	}
	for _, h := range g.held {
		if h.obj != m {
			continue
		}
		for _, o := range p.gs {
			if o != g && !o.done && o.dset && len(o.pend) == 1 && o.pend[0].obj == m && !o.pend[0].read {
				panic(pathEnd{"deadlock", "a goroutine takes a read lock it already holds while another waits for the write lock"})
			}
		}
	}
}

func (p *Path) hold(g *G, d dep) {
	if g != nil {
		g.held = append(g.held, d)
	}
}

func (p *Path) drop(g *G, m any) {
	if g == nil {
		return
	}
	for i, d := range g.held {
		if d.obj == m {
			g.held = append(append([]dep(nil), g.held[:i]...), g.held[i+1:]...)
			return
		}
	}
}

type rwaiter struct{ granted bool }

func (p *Path) runlock(g *G, a value) {
	m := p.mu(a)
	if m.readers == 0 {
		panic(pathEnd{"fatal", "RUnlock of unlocked RWMutex"})
	}
	if p.P.tryLocks {
		p.schedPoint(g, dep{obj: m})
	}
	m.readers--
	p.drop(g, m)
	p.touch(dep{obj: m, read: true, rel: true})
	joinVC(&m.vcR, g.vc)
	g.tick()
}

// syncObj is the happens-before clock of an atomic, WaitGroup or similar object.
func (p *Path) syncVC(key any) *vclock {
	v := p.syncObjs[key]
	if v == nil {
		v = new(vclock)
		p.syncObjs[key] = v
	}
	return v
}

func (p *Path) acqRel(g *G, key any) {
	if g == nil {
		return
	}
	v := p.syncVC(key)
	joinVC(&g.vc, *v)
	joinVC(v, g.vc)
	g.tick()
}

// concurrent runs the closures as goroutines under every schedule.
func (p *Path) concurrent(fr *frame, fs []value) {
	g := fr.g
	if p.concOn {
		bail("nested Concurrent")
	}
	var kids []*G
	for _, f := range fs {
		k := p.spawn(g, f.(*closure), nil)
		k.conc = true
		kids = append(kids, k)
	}
	p.kids = kids
	p.concOn, p.raceOn = true, true
	p.asleep, p.segFoot, p.curEv, p.events, p.objClks = map[int][]dep{}, nil, nil, nil, map[any]*objClock{}
	for _, o := range p.gs {
		o.dclk = nil
	}
	p.beginAudit()
	g.pend = []dep{{}} // the end comes before or after what other goroutines still do
	for _, o := range p.gs {
		// senders waiting since before count as operations of the schedule
		if !p.rdv || o.done || o.fired >= 0 || len(o.cases) != 1 || !o.cases[0].send || o.cases[0].ch == nil {
			continue
		}
		o, c := o, o.cases[0].ch
		o.cases, o.dset, o.pend = nil, true, []dep{{obj: c}}
		o.ready = func() bool { r, _ := p.partner(c, true, o); return r != nil }
	}
	p.acc = map[any]*accInfo{}
	p.block(g, "Concurrent", func() bool {
		for _, k := range kids {
			if !k.done {
				return false
			}
		}
		return true
	})
	if p.por {
		p.flush()
		p.pendingRaces()
		p.endAudit()
	}
	p.concOn, p.raceOn = false, false
	for _, k := range kids {
		joinVC(&g.vc, k.vc)
	}
	g.tick()
}

// ---- data races ----

type accInfo struct {
	wg    int
	wc    uint32
	wset  bool
	wpos  loc
	reads map[int]uint32
	rpos  map[int]loc
	// atomic accesses, which race with plain ones only
	areads, awrites map[int]uint32
	apos            map[int]loc
}

// accessAtomic notes an atomic access, which races with plain accesses.
func (p *Path) accessAtomic(key any, write bool) {
	fr := p.curFr
	if fr == nil || fr.g == nil {
		return
	}
	g := fr.g
	ai := p.acc[key]
	if ai == nil {
		ai = &accInfo{}
		p.acc[key] = ai
	}
	if ai.wset && ai.wg != g.id && ai.wc > g.vc.at(ai.wg) {
		p.race(fr, write, "plain write", ai.wpos)
	}
	if ai.apos == nil {
		ai.areads, ai.awrites, ai.apos = map[int]uint32{}, map[int]uint32{}, map[int]loc{}
	}
	ai.apos[g.id] = fr.loc()
	if !write {
		ai.areads[g.id] = g.vc.at(g.id)
		return
	}
	for r, c := range ai.reads {
		if r != g.id && c > g.vc.at(r) {
			p.race(fr, write, "plain read", ai.rpos[r])
		}
	}
	ai.awrites[g.id] = g.vc.at(g.id)
}

func (p *Path) access(a *value, write bool) {
	switch x := (*a).(type) {
	case structure:
		for i := range x {
			p.access(&x[i], write)
		}
		return
	case array:
		if len(x) > 64 {
			p.accessObj(&x[0], write)
			return
		}
		for i := range x {
			p.access(&x[i], write)
		}
		return
	}
	p.accessObj(a, write)
}

func (p *Path) accessObj(key any, write bool) {
	fr := p.curFr
	if fr == nil || fr.g == nil {
		return
	}
	g := fr.g
	ai := p.acc[key]
	if ai == nil {
		ai = &accInfo{}
		p.acc[key] = ai
	}
	if ai.wset && ai.wg != g.id && ai.wc > g.vc.at(ai.wg) {
		p.race(fr, write, "write", ai.wpos)
	}
	for r, c := range ai.awrites {
		if r != g.id && c > g.vc.at(r) {
			p.race(fr, write, "atomic write", ai.apos[r])
		}
	}
	if write {
		for r, c := range ai.areads {
			if r != g.id && c > g.vc.at(r) {
				p.race(fr, write, "atomic read", ai.apos[r])
			}
		}
		for r, c := range ai.reads {
			if r != g.id && c > g.vc.at(r) {
				p.race(fr, write, "read", ai.rpos[r])
			}
		}
		ai.wset, ai.wg, ai.wc = true, g.id, g.vc.at(g.id)
		ai.wpos = fr.loc()
		ai.reads = nil
		return
	}
	if ai.reads == nil {
		ai.reads = map[int]uint32{}
		ai.rpos = map[int]loc{}
	}
	ai.reads[g.id] = g.vc.at(g.id)
	ai.rpos[g.id] = fr.loc()
}

type loc struct {
	c  *cfunc
	ci *cinstr
}

func (fr *frame) loc() loc {
	for f := fr; f != nil; f = f.caller {
		if f.c != nil && f.c.target {
			return loc{f.c, f.cur}
		}
	}
	return loc{fr.c, fr.cur}
}

func (p *Path) locStr(l loc) string {
	if l.c == nil {
		return "?"
	}
	if l.ci == nil {
		return l.c.name
	}
	return fmt.Sprintf("%s (%s)", l.c.name, p.P.prog.Fset.Position(l.ci.in.Pos()))
}

func (p *Path) race(fr *frame, write bool, other string, where loc) {
	kind := "read"
	if write {
		kind = "write"
	}
	panic(pathEnd{"race", fmt.Sprintf("%s at %s races with %s at %s", kind, fr.where(), other, p.locStr(where))})
}
