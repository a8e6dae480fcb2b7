// Package c11: a request updates each group it reads exactly once, before reading it.
package c11

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// zeroSec is the zero time in seconds from the epoch.
const zeroSec = -62135596800

type group struct {
	g     *tricorder.Group
	calls int
	val   int64     // what the latest update left in the variables
	ts    time.Time // and the time it returned
	fn    int       // which function the latest update was
	vars  []*int64
	flts  []*float64
}

type world struct {
	groups   []*group
	of       map[string]int // path of a metric -> its group
	symbolic bool
	before   []int // calls before the request under way
	boom     bool
	n        int
}

var paths = []string{"/q/a", "/q/s/b", "/q/s/c"}
var flt = map[string]bool{}

// set makes fn the group's update function.
func (w *world) set(k, fn int) {
	g := w.groups[k]
	g.g.RegisterUpdateFunc(func() time.Time {
		g.calls++
		g.fn = fn
		id := hlp.Num(k) + "." + hlp.Num(g.calls)
		if w.symbolic {
			g.val = sym.IntRange("val"+id, -1<<50, 1<<50)
			g.ts = time.Unix(sym.IntRange("sec"+id, zeroSec, 1<<40), sym.IntRange("nsec"+id, 0, 999999999))
		} else {
			g.val = int64(100*(k+1) + g.calls)
			g.ts = time.Unix(1000000000+int64(g.calls), int64(5*k+1))
		}
		for _, v := range g.vars {
			*v = g.val
		}
		for _, v := range g.flts {
			*v = float64(g.val)
		}
		return g.ts
	})
}

func build(groups int, assign func(i int) int, third int) *world {
	w := &world{of: map[string]int{}}
	for k := 0; k < groups; k++ {
		w.groups = append(w.groups, &group{g: tricorder.NewGroup()})
		w.set(k, 0)
	}
	for i, p := range paths {
		k := assign(i)
		g := w.groups[k]
		w.of[p] = k
		var spec interface{}
		switch {
		case i == 1:
			spec = func() int64 {
				sym.Assert(g.calls == w.before[k]+1, "the update comes before the callback, once")
				if w.boom {
					panic("boom")
				}
				return g.val
			}
		case i == 2 && third == 1:
			f := new(float64)
			g.flts = append(g.flts, f)
			spec = f
		default:
			v := new(int64)
			*v = -1
			g.vars = append(g.vars, v)
			spec = v
		}
		if i == 2 {
			sym.Assert(g.g.RegisterMetric(p, spec, units.None, "d") == nil, "registration succeeds")
		} else {
			sym.Assert(tricorder.RegisterMetricInGroup(p, spec, g.g, units.None, "d") == nil, "registration succeeds")
		}
	}
	return w
}

// reported lists the metrics a request reports, in order.
func reported(kind int, path string) (r []string) {
	for _, p := range paths {
		if p == path {
			return []string{p}
		}
		if kind == hlp.RPCGet || kind == hlp.JSONOne {
			continue
		}
		if hlp.Prefix(hlp.Split(path), hlp.Split(p)) {
			if kind == hlp.HTML && len(hlp.Split(p)) != len(hlp.Split(path))+1 {
				continue
			}
			r = append(r, p)
		}
	}
	return
}

func (w *world) start() {
	w.before = nil
	for _, g := range w.groups {
		w.before = append(w.before, g.calls)
	}
}

// request sends one and checks it.
func (w *world) request(kind int, path string) {
	w.start()
	w.symbolic = kind <= hlp.RPCGet
	a := hlp.Ask(kind, path)
	want := reported(kind, path)
	delta := make([]int, len(w.groups))
	for _, p := range want {
		delta[w.of[p]] = 1
	}
	for k, g := range w.groups {
		if delta[k] == 1 {
			sym.Assert(g.calls == w.before[k]+1, "a group reported is updated exactly once")
			sym.Assert(g.fn == w.n, "the current update function is called")
		} else {
			sym.Assert(g.calls == w.before[k], "a group not reported is not updated")
		}
	}
	if kind == hlp.HTML {
		for _, p := range want {
			sym.Assert(hlp.HasNumber(a.Body, hlp.Num(int(w.groups[w.of[p]].val))), "the page shows the value the update left")
		}
		return
	}
	sym.Assert(len(a.Metrics) == len(want), "the metrics at the path are reported")
	for i := range want {
		sym.Assert(a.Metrics[i].Path == want[i], "the metrics at the path are reported")
		g := w.groups[w.of[want[i]]]
		a.Metrics[i].IntValue(g.val, g.ts)
	}
}

func (w *world) replace(do bool) {
	if do {
		w.n++
		for k := range w.groups {
			w.set(k, w.n)
		}
	}
}

var where = []string{"/q", "/q/s", "/q/a", "/q/s/b", "/q/s/c", "/none"}

// CheckRequests: any two requests in turn.
//
//sym:bound three metrics (variable, callback, variable or float variable) at two levels in one or two groups in every assignment; two requests in turn, the first of every kind (in process, RPC list and get, JSON list and single, text, HTML) and path, the second of every kind on the directory; update function replaced in between or not; values and times arbitrary in process and over RPC
//sym:assume values and times are fixed numbers in the JSON, text and HTML requests
func CheckRequests() {
	third := sym.Choose("third", 2)
	w := build(2, func(i int) int {
		if i == 0 {
			return 0
		}
		return sym.Choose("group"+hlp.Num(i), 2)
	}, third)
	path := where[sym.Choose("path", len(where))]
	kind := sym.Choose("kind", hlp.Kinds)
	w.request(kind, path)
	if len(reported(kind, path)) == 0 {
		sym.Reach("nothing reported")
	}
	w.replace(sym.Choose("replace", 2) == 1)
	w.request(sym.Choose("kind2", hlp.Kinds), "/q")
	sym.Reach("two requests")
}

// CheckThreeGroups: every metric in a group of its own or not.
//
//sym:bound three metrics in up to three groups in every assignment, one request of every kind and path
func CheckThreeGroups() {
	w := build(3, func(i int) int { return sym.Choose("group"+hlp.Num(i), i+1) }, 0)
	w.request(sym.Choose("kind", hlp.Kinds), where[sym.Choose("path", len(where))])
	sym.Reach("request")
}

// CheckBroken: requests that end early release the groups.
//
//sym:bound a text or HTML or JSON request whose connection breaks after 0..6 writes, or a panicking callback, then a request of every kind
func CheckBroken() {
	w := build(2, func(i int) int { return sym.Choose("group"+hlp.Num(i), 2) * (i % 2) }, 0)
	w.start()
	how := sym.Choose("how", 6)
	switch {
	case how == 0:
		sym.ServeFailing("/metrics/q", "format=text", sym.Choose("writes", 7))
	case how == 1:
		sym.ServeFailing("/metrics/q", "", sym.Choose("writes", 7))
	case how == 2:
		sym.ServeFailing("/metricsapi/q", "", 0)
	default:
		w.boom = true
		p := []string{"/q", "/q/s/b"}[sym.Choose("at", 2)]
		sym.Panics(func() {
			switch how {
			case 3:
				tricorder.ReadMyMetrics(p)
			case 4:
				sym.Serve("/metricsapi"+p, "")
			case 5:
				sym.Serve("/metrics"+p, []string{"", "format=text"}[sym.Choose("format", 2)])
			}
		})
		w.boom = false
	}
	for k, g := range w.groups {
		sym.Assert(g.calls <= w.before[k]+1, "a group is updated at most once")
	}
	w.request(sym.Choose("kind", hlp.Kinds), "/q")
	w.request(hlp.InProcess, "/q")
	sym.Reach("broken")
}

// CheckFloats: a float's value is checked before it is reported; that is still one request.
//
//sym:bound two float callbacks and a time pointer in one group, request of every kind but HTML, values fixed
func CheckFloats() {
	g := tricorder.NewGroup()
	calls, reads := 0, 0
	var tp *time.Time
	g.RegisterUpdateFunc(func() time.Time {
		calls++
		reads = 0
		t := time.Unix(int64(calls), 0)
		tp = &t
		return t
	})
	f := func() float64 { reads++; return float64(calls) }
	hlpReg := func(p string, s interface{}) {
		sym.Assert(g.RegisterMetric(p, s, units.None, "d") == nil, "registration succeeds")
	}
	hlpReg("/q/f", f)
	hlpReg("/q/g", f)
	hlpReg("/q/t", &tp)
	for i := 1; i <= 3; i++ {
		a := hlp.Ask(sym.Choose("kind"+hlp.Num(i), hlp.HTML), "/q/f")
		sym.Assert(calls == i, "a group reported is updated exactly once")
		sym.Assert(len(a.Metrics) == 1, "the metric is reported")
		a.Metrics[0].IntValue(int64(i), time.Unix(int64(i), 0))
	}
	l := tricorder.ReadMyMetrics("/q")
	sym.Assert(len(l) == 3 && calls == 4, "a group reported is updated exactly once")
	t, ok := l[2].Value.(time.Time)
	sym.Assert(ok && t.Equal(time.Unix(4, 0)), "the value the update left is reported")
	for _, m := range l {
		ts, ok := m.TimeStamp.(time.Time)
		sym.Assert(ok && ts.Equal(t), "all metrics of the group carry the update's time")
	}
	sym.Reach("floats")
}

// CheckKinds: a metric of any type carries the time of the update, which it causes alone.
//
//sym:bound one metric of 15 kinds (variables and callbacks of bool, int, float, string, time, time pointer, duration; lists and distributions) beside another of the group, arbitrary times from the zero time on; two requests in process or by RPC for the metric, its directory or the other
func CheckKinds() {
	g := tricorder.NewGroup()
	calls := 0
	var ts time.Time
	g.RegisterUpdateFunc(func() time.Time {
		calls++
		id := hlp.Num(calls)
		ts = time.Unix(sym.IntRange("sec"+id, zeroSec, 1<<40), sym.IntRange("nsec"+id, 0, 999999999))
		return ts
	})
	var b bool
	n, s, dur := 5, "s", time.Second
	tm := time.Unix(77, 0)
	tp := &tm
	f := 1.5
	specs := []interface{}{&b, &n, &f, &s, &tm, &tp, &dur,
		func() bool { return b }, func() float32 { return 2.5 }, func() string { return s },
		func() time.Time { return tm }, func() *time.Time { return tp }, func() time.Duration { return dur },
		tricorder.NewList([]int{1}, true), tricorder.PowersOfTwo.NewCumulativeDistribution()}
	k := sym.Choose("kind of metric", len(specs))
	own := k >= len(specs)-2 // lists and distributions belong to no group
	sym.Assert(g.RegisterMetric("/q/m", specs[k], units.None, "d") == nil, "registration succeeds")
	sym.Assert(g.RegisterMetric("/q/o", &n, units.None, "d") == nil, "registration succeeds")
	for i := 0; i < 2; i++ {
		before := calls
		path := []string{"/q/m", "/q", "/q/o"}[sym.Choose("path"+hlp.Num(i), 3)]
		kind := sym.Choose("kind"+hlp.Num(i), 3)
		if kind == hlp.RPCGet && path == "/q" {
			return
		}
		a := hlp.Ask(kind, path)
		want := before + 1
		if own && path == "/q/m" {
			want = before
		}
		sym.Assert(calls == want, "a group is updated exactly once if one of its metrics is reported")
		for _, m := range a.Metrics {
			if own && m.Path == "/q/m" {
				continue
			}
			at, ok := m.Metric.TimeStamp.(time.Time)
			sym.Assert(ok && at.Equal(ts), "a metric of the group carries the update's time")
		}
	}
	sym.Reach("kinds")
}

// CheckEveryType: as CheckKinds, with every type and every kind of request.
//
//sym:bound one metric of 34 kinds (a variable and a callback of each supported type) beside another of the group; a request of every kind for the metric or its directory, then one of every kind for the directory; times fixed
func CheckEveryType() {
	g := tricorder.NewGroup()
	calls, before := 0, 0
	g.RegisterUpdateFunc(func() time.Time {
		calls++
		return time.Unix(int64(1000+calls), 0)
	})
	look := func() { sym.Assert(calls == before+1, "the update comes before the callback, once") }
	var (
		b   bool
		i   int
		i8  int8
		i16 int16
		i32 int32
		i64 int64
		u   uint
		u8  uint8
		u16 uint16
		u32 uint32
		u64 uint64
		f32 float32
		f64 float64
		s   = "s"
		tm  = time.Unix(77, 0)
		tp  = &tm
		dur = time.Second
	)
	specs := []interface{}{&b, &i, &i8, &i16, &i32, &i64, &u, &u8, &u16, &u32, &u64, &f32, &f64, &s, &tm, &tp, &dur,
		func() bool { look(); return b }, func() int { look(); return i }, func() int8 { look(); return i8 },
		func() int16 { look(); return i16 }, func() int32 { look(); return i32 }, func() int64 { look(); return i64 },
		func() uint { look(); return u }, func() uint8 { look(); return u8 }, func() uint16 { look(); return u16 },
		func() uint32 { look(); return u32 }, func() uint64 { look(); return u64 },
		func() float32 { look(); return f32 }, func() float64 { look(); return f64 },
		func() string { look(); return s }, func() time.Time { look(); return tm },
		func() *time.Time { look(); return tp }, func() time.Duration { look(); return dur }}
	k := sym.Choose("kind of metric", len(specs))
	sym.Assert(g.RegisterMetric("/q/m", specs[k], units.None, "d") == nil, "registration succeeds")
	sym.Assert(g.RegisterMetric("/q/o", &u8, units.None, "d") == nil, "registration succeeds")
	for r := 0; r < 2; r++ {
		before = calls
		path := "/q"
		if r == 0 {
			path = []string{"/q/m", "/q"}[sym.Choose("path", 2)]
		}
		kind := sym.Choose("kind"+hlp.Num(r), hlp.Kinds)
		if path == "/q" && (kind == hlp.RPCGet || kind == hlp.JSONOne) {
			path = "/q/m"
		}
		a := hlp.Ask(kind, path)
		sym.Assert(a.Found && calls == before+1, "a group reported is updated exactly once")
		if kind != hlp.HTML {
			n := 2
			if path == "/q/m" {
				n = 1
			}
			sym.Assert(len(a.Metrics) == n, "the metrics at the path are reported")
		}
		for _, m := range a.Metrics {
			if m.Metric != nil {
				at, ok := m.Metric.TimeStamp.(time.Time)
				sym.Assert(ok && at.Equal(time.Unix(int64(1000+calls), 0)), "a metric of the group carries the update's time")
			} else if m.Node != nil {
				sym.Assert(m.Node.Get("timestamp").Text == hlp.Num(1000+calls)+".000000000", "a metric of the group carries the update's time")
			}
		}
	}
	sym.Reach("every type")
}

// CheckManyGroups: requests that report many groups.
//
//sym:bound 4, 5, 8, 9, 16, 17 or 33 groups with two variables each, in two directories; two requests of every kind but HTML on both directories or one
func CheckManyGroups() {
	n := []int{4, 5, 8, 9, 16, 17, 33}[sym.Choose("groups", 7)]
	calls := make([]int, n)
	vars := make([][2]int64, n)
	for i := 0; i < n; i++ {
		i := i
		g := tricorder.NewGroup()
		g.RegisterUpdateFunc(func() time.Time {
			calls[i]++
			vars[i][0], vars[i][1] = int64(10*calls[i]+1), int64(10*calls[i]+2)
			return time.Unix(int64(1000*i+calls[i]), 0)
		})
		for j, d := range []string{"/q/a/", "/q/b/"} {
			sym.Assert(g.RegisterMetric(d+"m"+hlp.Num(100+i), &vars[i][j], units.None, "d") == nil, "registration succeeds")
		}
	}
	for round := 1; round <= 2; round++ {
		kind := []int{hlp.InProcess, hlp.RPCList, hlp.JSONList, hlp.Text}[sym.Choose("kind"+hlp.Num(round), 4)]
		path := []string{"/q", "/q/b"}[sym.Choose("path"+hlp.Num(round), 2)]
		a := hlp.Ask(kind, path)
		for i := range calls {
			sym.Assert(calls[i] == round, "a group reported is updated exactly once")
		}
		sym.Assert(len(a.Metrics) == n*(2-len(path)/4), "the metrics at the path are reported")
		for k, m := range a.Metrics {
			i := k % n
			j := k / n
			if path == "/q/b" {
				j = 1
			}
			m.IntValue(vars[i][j], time.Unix(int64(1000*i+round), 0))
		}
	}
	sym.Reach("many groups")
}

// CheckWithin: an update function is replaced by a callback while a request reads the group.
//
//sym:bound two groups with a callback and a variable each; the first group's callback replaces the update function of its own or of the other group, once or twice, in a request of any kind; then two more requests of any kind
func CheckWithin() {
	var calls [2][3]int
	var vals [2]int64
	var gs [2]*tricorder.Group
	set := func(k, fn int) {
		gs[k].RegisterUpdateFunc(func() time.Time {
			calls[k][fn]++
			vals[k] = int64(1000*(k+1) + 100*fn + calls[k][fn])
			return time.Unix(vals[k], 0)
		})
	}
	replace, of := 0, sym.Choose("of", 2)
	fn := 0
	for k := range gs {
		k := k
		gs[k] = tricorder.NewGroup()
		set(k, 0)
		d := "/q/" + hlp.Num(k)
		sym.Assert(gs[k].RegisterMetric(d+"/a", func() int64 {
			if k == 0 {
				for ; replace > 0; replace-- {
					fn++
					set(of, fn)
				}
			}
			return vals[k]
		}, units.None, "") == nil, "registration succeeds")
		sym.Assert(gs[k].RegisterMetric(d+"/b", &vals[k], units.None, "") == nil, "registration succeeds")
	}
	fns := [2]int{}
	for i := 0; i < 3; i++ {
		before := calls
		if i == 0 {
			replace = 1 + sym.Choose("times", 2)
		}
		kind := sym.Choose("kind"+hlp.Num(i), hlp.Kinds)
		one := kind == hlp.RPCGet || kind == hlp.JSONOne || kind == hlp.HTML
		path := "/q"
		if one {
			path = "/q/0/a"
		}
		a := hlp.Ask(kind, path)
		// the first group is updated by the function it had; the second is reached after the callback
		want := before
		want[0][fns[0]]++
		fns[of] = fn
		if !one {
			want[1][fns[1]]++
		}
		sym.Assert(calls == want, "a request calls the current update function of each group it reports exactly once, and no other")
		if kind != hlp.HTML {
			sym.Assert(len(a.Metrics) == 1 || !one && len(a.Metrics) == 4, "the metrics are reported")
			for j := range a.Metrics {
				v := vals[j/2]
				a.Metrics[j].IntValue(v, time.Unix(v, 0))
			}
		}
	}
	sym.Reach("within")
}
