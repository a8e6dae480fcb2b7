// Package c08: listing a path yields exactly the metrics registered there, once each, in order.
package c08

import (
	"math"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

func name(n string, l int) string {
	s := sym.Str(n, l)
	for i := 0; i < l; i++ {
		sym.Assume(s[i] > ' ' && s[i] < 0x7f && s[i] != '/')
	}
	return s
}

func listing(n, depth, length int, list func(t *hlp.Tree)) {
	sym.ReverseMaps(sym.Choose("reverse", 2) == 1)
	var t hlp.Tree
	for i := 0; i < n; i++ {
		comps := []string{"q"}
		d := 1 + sym.Choose("depth"+hlp.Num(i), depth)
		for j := 0; j < d; j++ {
			comps = append(comps, name("n"+hlp.Num(i)+"."+hlp.Num(j), length))
		}
		v := new(int64)
		*v = int64(i + 10)
		e := &hlp.Entry{Path: comps, Val: *v, Desc: "d", Unit: units.None}
		sym.Assume(t.CanAdd(comps, false))
		sym.Assert(tricorder.RegisterMetric(hlp.Join(comps), v, units.None, "d") == nil, "a free path can be registered")
		t.Add(e)
	}
	list(&t)
	sym.Reach("listed")
}

// CheckDirectory: the listing of a directory.
//
//sym:bound 3 metrics at arbitrary paths of 1..2 components, each an arbitrary visible ASCII character; both map iteration orders
func CheckDirectory() { listing(3, 2, 1, func(t *hlp.Tree) { t.Check("/q") }) }

// CheckFlat: names of several characters.
//
//sym:bound 3 metrics directly in a directory with arbitrary names of 2 characters
func CheckFlat() { listing(3, 1, 2, func(t *hlp.Tree) { t.Check("/q") }) }

// CheckAnyPath: the listing of any path, of directories, metrics and missing ones.
//
//sym:bound 2 metrics at arbitrary paths of 1..2 components and an arbitrary queried path of 0..3 components
func CheckAnyPath() {
	listing(2, 2, 1, func(t *hlp.Tree) {
		p := "/q"
		for i := sym.Choose("qdepth", 4); i > 0; i-- {
			p += "/" + name("query"+hlp.Num(i), 1)
		}
		t.Check(p)
	})
}

// CheckFour: four metrics.
//
//sym:bound 4 metrics directly in a directory with arbitrary one-character names
func CheckFour() { listing(4, 1, 1, func(t *hlp.Tree) { t.Check("/q") }) }

// CheckDeeper is CheckDirectory with more metrics and deeper paths.
//
//sym:opt tier=thorough
//sym:bound 4 metrics at arbitrary paths of 1..3 components
func CheckDeeper() { listing(4, 3, 1, func(t *hlp.Tree) { t.Check("/q") }) }

// CheckPrefix: names that are prefixes of each other and characters below and above the slash.
//
//sym:bound metrics x, xy and x2/z (2 a character) for arbitrary characters, and a metric two levels down
func CheckPrefix() {
	a := name("a", 1)
	b := name("b", 2)
	c := name("c", 2)
	sym.ReverseMaps(sym.Choose("reverse", 2) == 1)
	var t hlp.Tree
	for i, p := range [][]string{{"q", a, "m"}, {"q", b, "m"}, {"q", c}} {
		v := new(int64)
		*v = int64(i)
		sym.Assume(t.CanAdd(p, false))
		sym.Assert(tricorder.RegisterMetric(hlp.Join(p), v, units.None, "d") == nil, "a free path can be registered")
		t.Add(&hlp.Entry{Path: p, Val: *v, Desc: "d", Unit: units.None})
	}
	t.Check("/q")
	sym.Reach("prefix")
}

// CheckRoot: the root listing contains the built-in metrics and the new ones in order.
//
//sym:bound the built-in metrics and one metric with an arbitrary name of 1..2 characters at the root
func CheckRoot() {
	n := name("n", 1+sym.Choose("len", 2))
	before := tricorder.ReadMyMetrics("/")
	x := 1
	hlp.Must(n, &x)
	after := tricorder.ReadMyMetrics("")
	sym.Assert(len(after) == len(before)+1, "one more metric is listed")
	j := 0
	for i, m := range after {
		sym.Assert(i == 0 || hlp.Less(hlp.Split(after[i-1].Path), hlp.Split(m.Path)), "listed in ascending order, once each")
		if m.Path == "/"+n {
			continue
		}
		sym.Assert(m.Path == before[j].Path, "the others are as before")
		j++
	}
	sym.Assert(j == len(before), "the new metric is listed")
	sym.Reach("root")
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// CheckNotFinite: floats that are not finite are left out, wherever they are.
//
//sym:bound a float64 variable, a float64 callback, a float32 variable and a float32 callback with arbitrary IEEE values between two other metrics
func CheckNotFinite() {
	a, b := 1, "text"
	f1, f2 := sym.Float64("f1"), sym.Float64("f2")
	g1, g2 := sym.Float32("g1"), sym.Float32("g2")
	hlp.Must("/q/a", &a)
	hlp.Must("/q/f1", &f1)
	hlp.Must("/q/f2", func() float64 { return f2 })
	hlp.Must("/q/g1", &g1)
	hlp.Must("/q/g2", func() float32 { return g2 })
	hlp.Must("/q/z", &b)
	want := []string{"/q/a"}
	if finite(f1) {
		want = append(want, "/q/f1")
	}
	if finite(f2) {
		want = append(want, "/q/f2")
	}
	if finite(float64(g1)) {
		want = append(want, "/q/g1")
	}
	if finite(float64(g2)) {
		want = append(want, "/q/g2")
	}
	want = append(want, "/q/z")
	got := tricorder.ReadMyMetrics("/q")
	sym.Assert(len(got) == len(want), "exactly the finite floats and the other metrics are listed")
	for i, m := range got {
		sym.Assert(m.Path == want[i], "in order")
		switch v := m.Value.(type) {
		case float64:
			sym.Assert(finite(v) && (i == 0 || m.Path != "/q/f1" || v == f1) && (m.Path != "/q/f2" || v == f2), "a finite float is reported as it is")
		case float32:
			sym.Assert(finite(float64(v)) && (m.Path != "/q/g1" || v == g1) && (m.Path != "/q/g2" || v == g2), "a finite float is reported as it is")
		}
	}
	single := tricorder.ReadMyMetrics("/q/f1")
	sym.Assert(len(single) == 0 && !finite(f1) || len(single) == 1 && finite(f1), "reading the metric itself likewise")
	sym.Reach("not finite")
}

// CheckNotFiniteViews: the same in the JSON and text listings.
//
//sym:bound the values NaN, +Inf, -Inf and 2.5
func CheckNotFiniteViews() {
	a := 1
	f := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 2.5}[sym.Choose("f", 4)]
	g := func() float32 { return float32(f) }
	hlp.Must("/q/a", &a)
	hlp.Must("/q/f", &f)
	hlp.Must("/q/g", g)
	hlp.Must("/q/z", &a)
	n := 2
	if finite(f) {
		n = 4
	}
	j, err := sym.ParseJSON(sym.Serve("/metricsapi/q", "").Body)
	sym.Assert(err == nil && len(j.Kids) == n, "the JSON listing has the finite metrics")
	text := string(sym.Serve("/metrics/q", "format=text").Body)
	lines := 0
	for _, c := range text {
		if c == '\n' {
			lines++
		}
	}
	sym.Assert(lines == n, "the text listing has the finite metrics")
	sym.Reach("views")
}

// CheckLarge: directories of many metrics, one of which is replaced.
//
//sym:bound 13, 33, 70 or 130 metrics of fixed two-character names registered in a scattered order, every third in a sub-directory, and one metric with an arbitrary one-character name; then one of them unregistered and another registered
func CheckLarge() {
	n := []int{13, 33, 70, 130}[sym.Choose("metrics", 4)]
	sym.ReverseMaps(sym.Choose("reverse", 2) == 1)
	var t hlp.Tree
	add := func(p []string, v int64) {
		x := new(int64)
		*x = v
		sym.Assert(tricorder.RegisterMetric(hlp.Join(p), x, units.None, "d") == nil, "a free path can be registered")
		t.Add(&hlp.Entry{Path: p, Val: v, Desc: "d", Unit: units.None})
	}
	nm := func(i int) string { return string([]byte{byte('A' + i/12), byte('a' + i%12*2)}) }
	for k := 0; k < n; k++ {
		i := k * 37 % n
		p := []string{"q", nm(i)}
		if i%3 == 2 {
			p = append(p, "x")
		}
		add(p, int64(i))
	}
	add([]string{"q", name("name", 1)}, 1000)
	t.Check("/q")
	gone := []string{"q", nm(n / 2)}
	tricorder.UnregisterPath(hlp.Join(gone))
	t.Remove(gone)
	t.Check("/q")
	add([]string{"q", nm(n)}, 2000)
	t.Check("/q")
	sym.Reach("large")
}

// CheckBetween: listings between changes, as many metrics as before or not.
//
//sym:bound a directory with two metrics and a sub-directory with one, listed; then two changes in turn, each removing, adding or replacing an arbitrary one-character name, or clearing the sub-directory, with a listing after each or only in the end
func CheckBetween() {
	var t hlp.Tree
	val := int64(10)
	add := func(p ...string) {
		sym.Assume(t.CanAdd(p, false))
		x := new(int64)
		val++
		*x = val
		sym.Assert(tricorder.RegisterMetric(hlp.Join(p), x, units.None, "d") == nil, "a free path can be registered")
		t.Add(&hlp.Entry{Path: p, Val: *x, Desc: "d", Unit: units.None})
	}
	rm := func(p ...string) {
		tricorder.UnregisterPath(hlp.Join(p))
		t.Remove(p)
	}
	add("q", "b")
	add("q", "m")
	add("q", "s", "x")
	t.Check("/q")
	every := sym.Choose("listings", 2) == 1
	for i := 0; i < 2; i++ {
		switch n := hlp.Num(i); sym.Choose("change"+n, 5) {
		case 0:
			rm("q", "b")
			add("q", name("new"+n, 1))
		case 1:
			rm("q", name("gone"+n, 1))
		case 2:
			add("q", name("new"+n, 1))
		case 3:
			rm("q", "s")
			add("q", name("dir"+n, 1), "y")
		default:
			rm("q", "s", "x")
			add("q", "s", name("new"+n, 1))
		}
		if every {
			t.Check("/q")
		}
	}
	t.Check("/q")
	t.Check("/q/s")
	sym.Reach("between")
}

// CheckChangingFloat: a callback whose value changes from one call to the next, in and out of the finite ones.
//
//sym:bound a float64 or float32 callback between two other metrics; each call of it returns one of 2.5, NaN, +Inf and -Inf, in any sequence of up to 6 calls; two listings in turn, in process, by RPC, as JSON or as text
func CheckChangingFloat() {
	a, calls := 1, 0
	next := func() float64 {
		k := 0
		if calls < 6 {
			k = sym.Choose("value"+hlp.Num(calls), 4)
		}
		calls++
		return []float64{2.5, math.NaN(), math.Inf(1), math.Inf(-1)}[k]
	}
	hlp.Must("/q/a", &a)
	if sym.Choose("bits", 2) == 0 {
		hlp.Must("/q/f", next)
	} else {
		hlp.Must("/q/f", func() float32 { return float32(next()) })
	}
	hlp.Must("/q/z", &a)
	kind := []int{hlp.InProcess, hlp.RPCList, hlp.JSONList, hlp.Text}[sym.Choose("request", 4)]
	calls = 0
	for i := 0; i < 2; i++ {
		l := hlp.Ask(kind, "/q").Metrics
		n := len(l)
		sym.Assert((n == 2 || n == 3) && l[0].Path == "/q/a" && l[n-1].Path == "/q/z", "the other metrics are listed")
		if n == 2 {
			sym.Reach("left out")
			continue
		}
		sym.Assert(l[1].Path == "/q/f", "in order")
		switch kind {
		case hlp.JSONList:
			sym.Assert(l[1].Node.Get("value").Text == "2.5", "what is listed is finite")
		case hlp.Text:
			sym.Assert(l[1].Text == "2.5", "what is listed is finite")
		default:
			v, ok := l[1].Metric.Value.(float64)
			w, ok2 := l[1].Metric.Value.(float32)
			sym.Assert(ok && v == 2.5 || ok2 && w == 2.5, "what is listed is finite")
		}
		sym.Reach("listed")
	}
}
