// Package c12: overlapping requests see one consistent update of a group.
package c12

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// group is a group whose update function leaves the number of the update in
// every variable and returns it as the time.
type group struct {
	g       *tricorder.Group
	n       int64 // updates so far, written by updates only
	inside  bool
	base    int64 // added to n by the current update function
	lastFn  int64
	a, b, c int64
}

func (g *group) update(fn int64) func() time.Time {
	return func() time.Time {
		sym.Assert(!g.inside, "an update is not called during another")
		g.inside = true
		g.n++
		g.lastFn = fn
		g.a, g.b, g.c = g.n, g.n, g.n
		g.inside = false
		return time.Unix(g.n, fn)
	}
}

func newGroup(pre string) *group {
	g := &group{g: tricorder.NewGroup()}
	g.g.RegisterUpdateFunc(g.update(1))
	reg(g, pre+"/a", &g.a)
	reg(g, pre+"/b", func() int64 { return g.b })
	reg(g, pre+"/c", &g.c)
	return g
}

func reg(g *group, p string, s interface{}) {
	sym.Assert(tricorder.RegisterMetricInGroup(p, s, g.g, units.None, "d") == nil, "registration succeeds")
}

// consistent checks a response of all metrics of one group and returns the update it saw.
func consistent(kind int, a *hlp.Answer, n int) int64 {
	if kind == hlp.HTML {
		sym.Assert(a.Found, "the metrics are reported")
		return -1
	}
	sym.Assert(len(a.Metrics) == n, "the metrics are reported")
	var v int64
	for i, m := range a.Metrics {
		var x int64
		switch {
		case m.Metric != nil:
			x = m.Metric.Value.(int64)
			sym.Assert(m.Metric.TimeStamp.(time.Time).Unix() == x, "values carry the timestamp of the update that left them")
		case m.Node != nil:
			t := m.Node.Get("value").Text
			x = int64(t[0] - '0')
			sym.Assert(m.Node.Get("timestamp").Text[:2] == t+".", "values carry the timestamp of the update that left them")
		default:
			x = int64(m.Text[0] - '0')
		}
		sym.Assert(i == 0 || x == v, "all values of a response are those of one update")
		v = x
	}
	sym.Assert(v >= 1, "values are those of an update")
	return v
}

// CheckTwo: two requests of any kinds at once.
//
//sym:bound a group of two variables and a callback; two concurrent requests of every pair of kinds on the directory; every schedule
func CheckTwo() {
	g := newGroup("/q")
	k0 := sym.Choose("kind0", hlp.Kinds)
	k1 := sym.Choose("kind1", hlp.Kinds)
	one := func(k int) bool { return k == hlp.RPCGet || k == hlp.JSONOne }
	sym.Assume(!one(k0) && !one(k1) && k0 <= k1)
	var v [2]int64
	sym.Concurrent(
		func() { v[0] = consistent(k0, hlp.Ask(k0, "/q"), 3) },
		func() { v[1] = consistent(k1, hlp.Ask(k1, "/q"), 3) })
	sym.Assert(g.n >= 1 && g.n <= 2, "each request updates at most once")
	n := g.n
	w := consistent(0, hlp.Ask(hlp.InProcess, "/q"), 3)
	sym.Assert(w == n+1 && g.n == n+1, "the first request after all others have finished calls the update function")
	if n == 1 {
		sym.Reach("shared")
	} else {
		sym.Reach("separate")
	}
}

// CheckSingle: requests for a single metric.
//
//sym:bound two concurrent requests of every pair of kinds for the same variable or callback; every schedule
func CheckSingle() {
	g := newGroup("/q")
	p := []string{"/q/a", "/q/b"}[sym.Choose("metric", 2)]
	k0 := sym.Choose("kind0", hlp.Kinds)
	k1 := sym.Choose("kind1", hlp.Kinds)
	sym.Assume(k0 <= k1)
	sym.Concurrent(
		func() { consistent(k0, hlp.Ask(k0, p), 1) },
		func() { consistent(k1, hlp.Ask(k1, p), 1) })
	n := g.n
	w := consistent(0, hlp.Ask(hlp.InProcess, p), 1)
	sym.Assert(w == n+1 && g.n == n+1, "the first request after all others have finished calls the update function")
	sym.Reach("single")
}

// CheckThree: three requests at once.
//
//sym:bound three concurrent in-process requests on a group with two metrics; every schedule
func CheckThree() {
	g := &group{g: tricorder.NewGroup()}
	g.g.RegisterUpdateFunc(g.update(1))
	reg(g, "/q/a", &g.a)
	reg(g, "/q/c", &g.c)
	var v [3]int64
	r := func(i int) func() {
		return func() { v[i] = consistent(0, hlp.Ask(hlp.InProcess, "/q"), 2) }
	}
	sym.Concurrent(r(0), r(1), r(2))
	n := g.n
	sym.Assert(n >= 1 && n <= 3, "each request updates at most once")
	w := consistent(0, hlp.Ask(hlp.InProcess, "/q"), 2)
	sym.Assert(w == n+1, "the first request after all others have finished calls the update function")
	sym.Reach("updates " + hlp.Num(int(n)))
}

// CheckReplace: requests while the update function is replaced.
//
//sym:bound two concurrent in-process or RPC requests and one or two goroutines replacing the update function; every schedule
func CheckReplace() {
	g := &group{g: tricorder.NewGroup()}
	g.g.RegisterUpdateFunc(g.update(1))
	reg(g, "/q/a", &g.a)
	reg(g, "/q/c", &g.c)
	k := sym.Choose("kind", 2)
	fs := []func(){
		func() { consistent(k, hlp.Ask(k, "/q"), 2) },
		func() {
			g.g.RegisterUpdateFunc(g.update(2))
			w := hlp.Ask(hlp.InProcess, "/q")
			consistent(0, w, 2)
		}}
	if sym.Choose("more", 2) == 1 {
		fs = append(fs, func() { g.g.RegisterUpdateFunc(g.update(3)) })
	} else {
		fs = append(fs, func() { consistent(0, hlp.Ask(0, "/q/c"), 1) })
	}
	sym.Concurrent(fs...)
	n := g.n
	w := consistent(0, hlp.Ask(hlp.InProcess, "/q"), 2)
	sym.Assert(w == n+1, "the first request after all others have finished calls the update function")
	sym.Assert(g.lastFn > 1, "the function registered last is called")
	sym.Reach("replaced")
}

// CheckTwoGroups: requests that visit two groups in opposite orders.
//
//sym:bound two groups with metrics in two directories in opposite orders, two concurrent in-process requests; every schedule
func CheckTwoGroups() {
	var g [2]*group
	for i := range g {
		g[i] = &group{g: tricorder.NewGroup()}
		g[i].g.RegisterUpdateFunc(g[i].update(1))
	}
	reg(g[0], "/q/1", &g[0].a)
	reg(g[1], "/q/2", &g[1].a)
	reg(g[1], "/r/1", &g[1].b)
	reg(g[0], "/r/2", &g[0].b)
	reg(g[1], "/r/3", &g[1].c)
	sym.Concurrent(
		func() { hlp.Ask(0, "/q") },
		func() {
			l := hlp.Ask(0, "/r").Metrics
			sym.Assert(l[0].Metric.Value == l[2].Metric.Value, "all values of a response are those of one update")
		})
	n0, n1 := g[0].n, g[1].n
	hlp.Ask(0, "/q")
	sym.Assert(g[0].n == n0+1 && g[1].n == n1+1, "the first request after all others have finished calls the update function")
	sym.Reach("both")
}

// CheckNested: a request that starts while another is under way.
//
//sym:bound a request of every kind made while a request of every kind is reading a group (from its callback), before or after other metrics of the group
func CheckNested() {
	g := &group{g: tricorder.NewGroup()}
	g.g.RegisterUpdateFunc(g.update(1))
	k0 := sym.Choose("outer", hlp.Kinds)
	k1 := sym.Choose("inner", hlp.Kinds)
	replace := sym.Choose("replace", 2) == 1
	runs := 0
	reg(g, "/q/a", &g.a)
	reg(g, "/q/b", func() int64 {
		before := g.n
		runs++
		if replace {
			g.g.RegisterUpdateFunc(g.update(2))
		}
		p := "/q/c"
		v := consistent(k1, hlp.Ask(k1, p), 1)
		sym.Assert(g.n == before, "no update while a request is reading the group")
		sym.Assert(v == before || k1 == hlp.HTML, "a request that starts meanwhile reports the same values")
		return g.b
	})
	reg(g, "/q/c", &g.c)
	p, n := "/q", 3
	if k0 == hlp.RPCGet || k0 == hlp.JSONOne {
		p, n = "/q/b", 1
	}
	for i := int64(1); i <= 2; i++ {
		v := consistent(k0, hlp.Ask(k0, p), n)
		sym.Assert(v == i || k0 == hlp.HTML, "the request reports its update")
		sym.Assert(g.n == i && runs == int(i), "the next request updates again")
		sym.Assert(i == 1 || g.lastFn == 2 == replace, "the current update function is called")
	}
	sym.Reach("nested")
}

// CheckBroken: a request that fails while another is reading.
//
//sym:bound a text request whose connection breaks after 1..3 writes, or a panicking callback, concurrent with an in-process request; every schedule
func CheckBroken() {
	g := &group{g: tricorder.NewGroup()}
	g.g.RegisterUpdateFunc(g.update(1))
	reg(g, "/q/a", &g.a)
	reg(g, "/q/c", &g.c)
	reg(g, "/r/x", func() int64 { panic("boom") })
	how := sym.Choose("how", 4)
	sym.Concurrent(
		func() {
			if how == 0 {
				sym.Panics(func() { tricorder.ReadMyMetrics("/r") })
			} else {
				sym.ServeFailing("/metrics/q", "format=text", how)
			}
		},
		func() { consistent(0, hlp.Ask(0, "/q"), 2) })
	n := g.n
	sym.Assert(consistent(0, hlp.Ask(0, "/q"), 2) == n+1, "the first request after all others have finished calls the update function")
	sym.Reach("broken")
}
