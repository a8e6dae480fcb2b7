// Package c25: all remote interfaces report the same metrics for the same path.
package c25

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// number requires that the JSON number is v.
func number(n *sym.Node, v int64) {
	if n == nil || n.Kind != "number" || len(n.Text) == 0 {
		sym.Assert(false, "a number is a JSON number")
		return
	}
	if n.Text[0] == '-' {
		u, end := hlp.Num64(n.Text, 1)
		sym.Assert(end == len(n.Text) && end > 1 && -int64(u) == v, "the JSON value is that of the RPC metric")
		return
	}
	u, end := hlp.Num64(n.Text, 0)
	sym.Assert(end == len(n.Text) && int64(u) == v, "the JSON value is that of the RPC metric")
}

func float(n *sym.Node, v float64) {
	if n == nil || n.Kind != "number" {
		sym.Assert(false, "a float is a JSON number")
		return
	}
	f, err := strconv.ParseFloat(n.Text, 64)
	sym.Assert(err == nil && f == v, "the JSON value is that of the RPC metric")
}

func text(n *sym.Node, s string) {
	sym.Assert(n != nil && n.Kind == "string" && n.Text == s, "the JSON text is that of the RPC metric")
}

// seconds requires the JSON form of an amount of time in the unit.
func seconds(n *sym.Node, sec, ns int64, unit units.Unit) {
	if n == nil || n.Kind != "string" {
		sym.Assert(false, "times are JSON strings")
		return
	}
	if unit == units.Millisecond {
		sec, ns = sec*1000+ns/1000000, ns%1000000*1000
	}
	u, end := hlp.Num64(n.Text, 0)
	sym.Assert(end < len(n.Text) && n.Text[end] == '.' && int64(u) == sec, "the JSON time is that of the RPC metric")
	u, last := hlp.Num64(n.Text, end+1)
	sym.Assert(last == len(n.Text) && last == end+10 && int64(u) == ns, "the JSON time is that of the RPC metric")
}

func instant(n *sym.Node, t time.Time, u units.Unit) {
	if t.IsZero() {
		seconds(n, 0, 0, u)
		return
	}
	seconds(n, t.Unix(), int64(t.Nanosecond()), u)
}

func span(n *sym.Node, d time.Duration, u units.Unit) {
	seconds(n, int64(d/time.Second), int64(d%time.Second), u)
}

func array(n *sym.Node, size int, el func(*sym.Node, int)) {
	if n == nil || n.Kind != "array" || len(n.Kids) != size {
		sym.Assert(false, "a list is a JSON array of its elements")
		return
	}
	for i, k := range n.Kids {
		el(k, i)
	}
}

// value requires the JSON form of an RPC value and returns the JSON names of its kind and sub-type.
func value(n *sym.Node, v interface{}, unit units.Unit) (kind, sub types.Type) {
	switch x := v.(type) {
	case bool:
		sym.Assert(n != nil && n.Kind == "bool" && (n.Text == "true") == x, "the JSON value is that of the RPC metric")
		return types.Bool, ""
	case int8:
		number(n, int64(x))
		return types.Int8, ""
	case int16:
		number(n, int64(x))
		return types.Int16, ""
	case int32:
		number(n, int64(x))
		return types.Int32, ""
	case int64:
		number(n, x)
		return types.Int64, ""
	case uint8:
		number(n, int64(x))
		return types.Uint8, ""
	case uint16:
		number(n, int64(x))
		return types.Uint16, ""
	case uint32:
		number(n, int64(x))
		return types.Uint32, ""
	case uint64:
		number(n, int64(x))
		return types.Uint64, ""
	case float32:
		f, err := strconv.ParseFloat(n.Text, 32)
		sym.Assert(err == nil && float32(f) == x, "the JSON value is that of the RPC metric")
		return types.Float32, ""
	case float64:
		float(n, x)
		return types.Float64, ""
	case string:
		text(n, x)
		return types.String, ""
	case time.Time:
		instant(n, x, unit)
		return types.Time, ""
	case time.Duration:
		span(n, x, unit)
		return types.Duration, ""
	case []bool:
		array(n, len(x), func(n *sym.Node, i int) {
			sym.Assert(n.Kind == "bool" && (n.Text == "true") == x[i], "the JSON value is that of the RPC metric")
		})
		return types.List, types.Bool
	case []int64:
		array(n, len(x), func(n *sym.Node, i int) { number(n, x[i]) })
		return types.List, types.Int64
	case []uint16:
		array(n, len(x), func(n *sym.Node, i int) { number(n, int64(x[i])) })
		return types.List, types.Uint16
	case []float64:
		array(n, len(x), func(n *sym.Node, i int) { float(n, x[i]) })
		return types.List, types.Float64
	case []string:
		array(n, len(x), func(n *sym.Node, i int) { text(n, x[i]) })
		return types.List, types.String
	case []time.Time:
		array(n, len(x), func(n *sym.Node, i int) { instant(n, x[i], unit) })
		return types.List, types.Time
	case []time.Duration:
		array(n, len(x), func(n *sym.Node, i int) { span(n, x[i], unit) })
		return types.List, types.Duration
	case *messages.Distribution:
		if n == nil || n.Kind != "object" {
			sym.Assert(false, "a distribution is a JSON object")
			return
		}
		float(n.Get("min"), x.Min)
		float(n.Get("max"), x.Max)
		float(n.Get("average"), x.Average)
		float(n.Get("median"), x.Median)
		float(n.Get("sum"), x.Sum)
		number(n.Get("count"), int64(x.Count))
		number(n.Get("generation"), int64(x.Generation))
		nc := n.Get("isNotCumulative")
		sym.Assert((nc != nil && nc.Text == "true") == x.IsNotCumulative, "the JSON value is that of the RPC metric")
		array(n.Get("ranges"), len(x.Ranges), func(n *sym.Node, i int) {
			if i > 0 {
				float(n.Get("lower"), x.Ranges[i].Lower)
			}
			if i+1 < len(x.Ranges) {
				float(n.Get("upper"), x.Ranges[i].Upper)
			}
			number(n.Get("count"), int64(x.Ranges[i].Count))
		})
		return types.Dist, ""
	}
	sym.Assert(false, "a reported value has a documented type")
	return
}

// optional is the text of an optional member.
func optional(n *sym.Node, key string) string {
	if k := n.Get(key); k != nil {
		return k.Text
	}
	return ""
}

// jsonOf requires that the JSON object is the RPC metric in JSON form.
func jsonOf(n *sym.Node, m *messages.Metric) {
	text(n.Get("path"), m.Path)
	text(n.Get("description"), m.Description)
	sym.Assert(optional(n, "unit") == string(m.Unit), "the JSON unit is that of the RPC metric")
	k, s := value(n.Get("value"), m.Value, m.Unit)
	text(n.Get("kind"), string(k))
	sym.Assert(optional(n, "subType") == string(s), "the JSON sub-type is that of the RPC metric")
	bits := optional(n, "bits")
	if bits == "" {
		bits = "0"
	}
	sym.Assert(bits == hlp.Num(m.Bits), "the JSON bits are those of the RPC metric")
	number(n.Get("groupId"), int64(m.GroupId))
	switch ts := m.TimeStamp.(type) {
	case nil:
		text(n.Get("timestamp"), "")
	case time.Time:
		seconds(n.Get("timestamp"), ts.Unix(), int64(ts.Nanosecond()), units.Second)
	default:
		sym.Assert(false, "an RPC timestamp is a time")
	}
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case *messages.Distribution:
		y, ok := b.(*messages.Distribution)
		if !ok || len(x.Ranges) != len(y.Ranges) {
			return false
		}
		for i := range x.Ranges {
			if *x.Ranges[i] != *y.Ranges[i] {
				return false
			}
		}
		return x.Min == y.Min && x.Max == y.Max && x.Average == y.Average && x.Median == y.Median && x.Sum == y.Sum &&
			x.Count == y.Count && x.Generation == y.Generation && x.IsNotCumulative == y.IsNotCumulative
	case []bool:
		y, ok := b.([]bool)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []int64:
		y, ok := b.([]int64)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []uint16:
		y, ok := b.([]uint16)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []float64:
		y, ok := b.([]float64)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []string:
		y, ok := b.([]string)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []time.Time:
		y, ok := b.([]time.Time)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i].Equal(y[i]) })
	case []time.Duration:
		y, ok := b.([]time.Duration)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	}
	return a == b
}

func each(n int, f func(int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func same(a, b *messages.Metric) {
	sym.Assert(a.Path == b.Path && a.Description == b.Description && a.Unit == b.Unit && a.Kind == b.Kind && a.SubType == b.SubType && a.Bits == b.Bits && a.GroupId == b.GroupId,
		"in-process reads and RPC report the same metrics in the same order")
	sym.Assert(sameValue(a.Value, b.Value), "in-process reads and RPC report the same values")
	sym.Assert(sameValue(a.TimeStamp, b.TimeStamp), "in-process reads and RPC report the same timestamps")
}

// agree asks for the path in every way; is tells which metric it is, want how many are listed below it.
func agree(path string, isMetric, exists bool) messages.MetricList {
	in := hlp.Ask(hlp.InProcess, path)
	rpc := hlp.Ask(hlp.RPCList, path)
	js := hlp.Ask(hlp.JSONList, path)
	sym.Assert(len(in.Metrics) == len(rpc.Metrics) && len(in.Metrics) == len(js.Metrics), "the interfaces list equally many metrics")
	for i := range in.Metrics {
		same(in.Metrics[i].Metric, rpc.Metrics[i].Metric)
		jsonOf(js.Metrics[i].Node, rpc.Metrics[i].Metric)
	}
	one, jone := hlp.Ask(hlp.RPCGet, path), hlp.Ask(hlp.JSONOne, path)
	sym.Assert(one.Found == isMetric, "the RPC get fails with ErrMetricNotFound exactly when the path is no metric")
	sym.Assert(jone.Found == isMetric, "the single JSON metric is answered with status 404 exactly when the path is no metric")
	t := hlp.Ask(hlp.Text, path)
	sym.Assert(t.Found == exists, "the text of a missing path says so")
	if isMetric {
		sym.Assert(len(in.Metrics) == 1, "a metric lists itself")
		same(in.Metrics[0].Metric, one.Metrics[0].Metric)
		jsonOf(jone.Metrics[0].Node, one.Metrics[0].Metric)
	}
	sym.Assert(len(t.Metrics) == len(in.Metrics), "the text listing has one line for each metric")
	var l messages.MetricList
	for i := range in.Metrics {
		m := in.Metrics[i].Metric
		l = append(l, m)
		if !isMetric {
			sym.Assert(t.Metrics[i].Path == m.Path, "each line of the text listing starts with the metric's path")
			single := hlp.Ask(hlp.Text, m.Path)
			sym.Assert(len(single.Metrics) == 1 && single.Metrics[0].Text == t.Metrics[i].Text, "each line of the text listing ends with the metric's value")
		}
		line(t.Metrics[i].Text, m, js.Metrics[i].Node.Get("value"))
	}
	return l
}

// line requires the text form of a value; v is its JSON form (the forms themselves are the subject of C18, C19 and C20).
func line(s string, m *messages.Metric, v *sym.Node) {
	show := func(got, want string) { sym.Assert(got == want, "the text listing shows the value") }
	elements := func(form func(*sym.Node) string) {
		all := ""
		for i, k := range v.Kids {
			if i > 0 {
				all += "|"
			}
			all += form(k)
		}
		show(s, all)
	}
	plain := func(n *sym.Node) string { return n.Text }
	switch x := m.Value.(type) {
	case bool:
		sym.Assert((s == "true") == x && (s == "false") == !x, "the text listing shows the value")
	case string:
		show(s, "\""+x+"\"")
	case int64:
		n := &sym.Node{Kind: "number", Text: s}
		number(n, x)
	case time.Time, time.Duration, int8, int16, int32, uint8, uint16, uint32, uint64:
		show(s, v.Text)
	case []time.Time, []time.Duration, []int64, []uint16, []bool:
		elements(plain)
	case []string:
		elements(func(n *sym.Node) string { return "\"" + n.Text + "\"" })
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		sym.Assert(err == nil && f == x, "the text listing shows the value")
	case *messages.Distribution:
		distText(s, x)
	}
}

// distText requires the text form of a distribution: its figures in single precision, and the buckets that hold something.
func distText(s string, d *messages.Distribution) {
	take := func(lit string) {
		if !strings.HasPrefix(s, lit) {
			sym.Assert(false, "the text listing shows the distribution: "+lit)
			s = ""
			return
		}
		s = s[len(lit):]
	}
	num := func(end string, want float64) {
		i := strings.Index(s, end)
		if i < 0 {
			sym.Assert(false, "the text listing shows the distribution's figures")
			return
		}
		f, err := strconv.ParseFloat(s[:i], 64)
		sym.Assert(err == nil && math.Abs(f-want) <= math.Abs(want)*1e-6, "the text listing shows the distribution's figures")
		s = s[i+len(end):]
	}
	take("{min:")
	num(";max:", d.Min)
	num(";avg:", d.Max)
	num(";median:", d.Average)
	num(";sum:", d.Median)
	num(";count:", d.Sum)
	take(hlp.Num(int(d.Count)))
	for i, r := range d.Ranges {
		if r.Count == 0 {
			continue
		}
		take(";[")
		if i == 0 {
			take("-inf,")
		} else {
			num(",", r.Lower)
		}
		if i == len(d.Ranges)-1 {
			take("inf):")
		} else {
			num("):", r.Upper)
		}
		take(hlp.Num(int(r.Count)))
	}
	sym.Assert(s == "}", "the text listing shows every bucket that holds something")
}

// registry registers a metric of nearly every kind below /q, the plain ones in a group with its own clock.
func registry() {
	g := tricorder.NewGroup()
	ts := time.Unix(int64(sym.Digits("ts", 3)), 5)
	g.RegisterUpdateFunc(func() time.Time { return ts })
	reg := func(path string, m interface{}, u units.Unit) {
		sym.Assert(g.RegisterMetric(path, m, u, "about "+path) == nil, "registering a metric succeeds")
	}
	a := int64(sym.Digits("a", 2))
	if sym.Choose("neg", 2) == 1 {
		a = -a
	}
	reg("/q/a", &a, units.None)
	b := sym.StrIn("b", 1, "x<&%")
	reg("/q/b", &b, units.None)
	c := sym.Bool("c")
	reg("/q/c", &c, units.None)
	t := time.Unix(int64(sym.Digits("t", 4)), 120000007)
	reg("/q/d/t", &t, units.Millisecond)
	d := time.Duration(sym.Digits("d", 4))
	reg("/q/d/u", func() time.Duration { return d }, units.Second)
	u := uint16(700)
	reg("/q/d/v", &u, units.Byte)
	f := []float64{0, -1.5, 1e30}[sym.Choose("f", 3)]
	reg("/q/f", &f, units.Celsius)
	hlp.MustUnit("/q/l", tricorder.NewList([]int64{int64(sym.Digits("l", 1)), 5}, true), units.None, "a list")
	dist := tricorder.NewArbitraryBucketer(1, 10).NewNonCumulativeDistribution()
	hlp.MustUnit("/q/z", dist, units.Second, "a distribution")
	if sym.Choose("dist", 2) == 1 {
		dist.Add(2.5)
		dist.Add(20.0)
	}
	_, err := tricorder.RegisterDirectory("/q/e")
	sym.Assert(err == nil, "registering a directory succeeds")
}

// CheckPaths: every interface for paths of every kind.
//
//sym:bound a registry of 9 metrics of 8 kinds with arbitrary small values; 20 spellings of directories, metrics and missing paths
func CheckPaths() {
	registry()
	type p struct {
		path           string
		metric, exists bool
		n              int
	}
	x := []p{
		{"/q", false, true, 9}, {"/q/", false, true, 9}, {"/q/d/", false, true, 3},
		{"/q/d", false, true, 3}, {"/q/e/", false, true, 0}, {"/q/e", false, true, 0},
		{"/q/a", true, true, 1}, {"/q/b/", true, true, 1}, {"/q/c", true, true, 1}, {"/q/d/t", true, true, 1}, {"/q/d/u", true, true, 1}, {"/q/d/v/", true, true, 1},
		{"/q/f", true, true, 1}, {"/q/l", true, true, 1}, {"/q/z", true, true, 1},
		{"/nope", false, false, 0}, {"/q/nope", false, false, 0}, {"/q/a/b", false, false, 0}, {"/q/d/t/x", false, false, 0}, {"/Q", false, false, 0},
	}[sym.Choose("path", 20)]
	l := agree(x.path, x.metric, x.exists)
	sym.Assert(len(l) == x.n, "all metrics at or below the path are listed")
	sym.Observe("n", len(l))
	switch {
	case x.metric:
		sym.Reach("metric")
	case x.exists:
		sym.Reach("directory")
	default:
		sym.Reach("missing")
	}
}

// CheckAnyPath: an arbitrary path against a small registry.
//
//sym:bound a metric with a name of one arbitrary visible ASCII character, alone or with a blank before or after it, in /q and a metric /q/y/z; an arbitrary queried path of 0..3 components below /q, each an arbitrary visible ASCII character (but ".", which has a meaning of its own in URLs)
func CheckAnyPath() {
	x, z := int64(1), "two"
	name := hlp.Name("name")
	sym.Assume(name != "y" && name != ".")
	switch sym.Choose("blank", 3) {
	case 1:
		name = " " + name
	case 2:
		name += " "
	}
	hlp.Must("/q/"+name, &x)
	hlp.Must("/q/y/z", &z)
	path := "/q"
	var comps []string
	for i := sym.Choose("comps", 4); i > 0; i-- {
		c := hlp.Name("c" + hlp.Num(i))
		sym.Assume(c != ".")
		if len(name) == 2 && i == 1 {
			c = name // the path of the metric, or one that ends like it
		}
		comps = append(comps, c)
		path += "/" + c
	}
	is, dir := false, len(comps) == 0
	n := 0
	switch {
	case dir:
		n = 2
	case comps[0] == name && len(comps) == 1:
		is, n = true, 1
	case comps[0] == "y" && len(comps) == 1:
		dir, n = true, 1
	case comps[0] == "y" && comps[1] == "z" && len(comps) == 2:
		is, n = true, 1
	}
	in, rpc, js, tx := hlp.Ask(hlp.InProcess, path), hlp.Ask(hlp.RPCList, path), hlp.Ask(hlp.JSONList, path), hlp.Ask(hlp.Text, path)
	sym.Assert(len(in.Metrics) == n && len(rpc.Metrics) == n && len(js.Metrics) == n && len(tx.Metrics) == n, "the interfaces list the metrics at or below the path")
	for i := 0; i < n; i++ {
		p := in.Metrics[i].Path
		sym.Assert(rpc.Metrics[i].Path == p && js.Metrics[i].Path == p && (is || len(name) == 2 || tx.Metrics[i].Path == p), "the interfaces list the metrics in the same order") // a blank ends the path in text
	}
	one, jone, html := hlp.Ask(hlp.RPCGet, path), hlp.Ask(hlp.JSONOne, path), hlp.Ask(hlp.HTML, path)
	sym.Assert(one.Found == is, "the RPC get fails with ErrMetricNotFound exactly when the path is no metric")
	sym.Assert(jone.Found == is, "the single JSON metric is answered with status 404 exactly when the path is no metric")
	sym.Assert(tx.Found == (is || dir) && html.Found == (is || dir), "a missing path is answered with the not-found text")
	if is {
		sym.Reach("metric")
	}
	if !is && !dir {
		sym.Reach("missing")
	}
}

// CheckKinds: a metric of every documented type, alone.
//
//sym:bound variables of every documented type and lists of 7 element types with 0..2 elements; values of up to 4 digits (floats 3 values), 4 units
func CheckKinds() {
	n := sym.Digits("n", 2)
	neg := sym.Choose("neg", 2) == 1
	s := int64(n)
	if neg {
		s = -s
	}
	var m interface{}
	i8, i16, i32, u8, u32, u64 := int8(s), int16(s), int32(s), uint8(n), uint32(n), n
	f32, f64 := float32(2.5), []float64{0, -1.5, 1e30}[sym.Choose("f", 3)]
	tm, du := time.Unix(int64(n), 7), time.Duration(n)
	ln := sym.Choose("len", 3)
	switch sym.Choose("kind", 18) {
	case 0:
		m = &i8
	case 1:
		m = &i16
	case 2:
		m = &i32
	case 3:
		m = &u8
	case 4:
		m = &u32
	case 5:
		m = &u64
	case 6:
		m = &f32
	case 7:
		m = &f64
	case 8:
		m = &tm
	case 9:
		m = &du
	case 10:
		p := &tm
		if neg {
			p = nil
		}
		m = &p
	case 11:
		m = tricorder.NewList([]int64{s * s, 2}[:ln], true)
	case 12:
		m = tricorder.NewList([]uint16{uint16(n), 2}[:ln], true)
	case 13:
		m = tricorder.NewList([]float64{f64, 2}[:ln], true)
	case 14:
		m = tricorder.NewList([]string{"a\"b%d", "c|d"}[:ln], true)
	case 15:
		m = tricorder.NewList([]time.Time{tm, {}}[:ln], true)
	case 16:
		m = tricorder.NewList([]time.Duration{du, time.Hour}[:ln], true)
	default:
		m = tricorder.NewList([]bool{neg, true}[:ln], true)
	}
	u := []units.Unit{units.None, units.Millisecond, units.Second, units.Byte}[sym.Choose("unit", 4)]
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	sym.Assert(g.RegisterMetric("/q/m", m, u, "d") == nil, "registering a metric succeeds")
	path := []string{"/q", "/q/m"}[sym.Choose("path", 2)]
	sym.Assert(len(agree(path, path == "/q/m", true)) == 1, "the metric is listed")
	sym.Reach("done")
}

// CheckRoot: the root lists the same metrics everywhere, built-in ones included.
//
//sym:bound the built-in metrics and one more
func CheckRoot() {
	x := int64(1)
	hlp.Must("/zz", &x)
	path := []string{"", "/"}[sym.Choose("path", 2)]
	in, rpc, js, tx := hlp.Ask(hlp.InProcess, path), hlp.Ask(hlp.RPCList, path), hlp.Ask(hlp.JSONList, "/"), hlp.Ask(hlp.Text, "/")
	n := len(in.Metrics)
	sym.Assert(n > 20 && len(rpc.Metrics) == n && len(js.Metrics) == n && len(tx.Metrics) == n, "the interfaces list equally many metrics")
	for i := range in.Metrics {
		a, b := in.Metrics[i].Metric, rpc.Metrics[i].Metric
		sym.Assert(a.Path == b.Path && a.Kind == b.Kind && a.Unit == b.Unit && a.Description == b.Description && a.GroupId == b.GroupId, "the interfaces list the same metrics in the same order")
		sym.Assert(js.Metrics[i].Path == a.Path && tx.Metrics[i].Path == a.Path, "the interfaces list the same metrics in the same order")
		text(js.Metrics[i].Node.Get("description"), a.Description)
	}
	sym.Reach("done")
}

// CheckNotFinite: metrics that are not finite numbers can be fetched by RPC all the same.
//
//sym:bound a float64 or float32 metric that is NaN or infinite
func CheckNotFinite() {
	f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[sym.Choose("f", 3)]
	f32 := float32(f)
	if sym.Choose("size", 2) == 0 {
		hlp.MustUnit("/q/f", &f, units.None, "d")
	} else {
		hlp.MustUnit("/q/f", &f32, units.None, "d")
	}
	a := hlp.Ask(hlp.RPCGet, "/q/f")
	sym.Assert(a.Found, "the RPC get fails with ErrMetricNotFound exactly when the path is no metric")
	var got float64
	switch x := a.Metrics[0].Metric.Value.(type) {
	case float64:
		got = x
	case float32:
		got = float64(x)
	default:
		sym.Assert(false, "a float is reported as a float")
	}
	sym.Assert(got == f || got != got && f != f, "the RPC get returns the metric")
	r := sym.Serve("/metricsapi/q/f", "singleton=true")
	sym.Assert(r.Code != 404, "the single JSON metric is answered with status 404 exactly when the path is no metric")
	sym.Reach("fetched")
}

// CheckCompressed: what a JSON client receives, compressed or not.
//
//sym:bound 3 metrics; 4 paths, as list and as single metric, 13 Accept-Encoding headers (5 that accept gzip, 8 that do not)
func CheckCompressed() {
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	n := int64(sym.Digits("n", 2))
	t := sym.StrIn("t", 1, "x<&%")
	sym.Assert(g.RegisterMetric("/q/a", &n, units.None, "d") == nil && g.RegisterMetric("/q/b/c", &t, units.None, "d") == nil &&
		g.RegisterMetric("/q/b/d", func() bool { return true }, units.None, "d") == nil, "registering a metric succeeds")
	path := "/metricsapi" + []string{"/q", "/q/b/c", "/q/nope", "/"}[sym.Choose("path", 4)]
	query := []string{"", "singleton=true"}[sym.Choose("singleton", 2)]
	if path == "/metricsapi/" {
		query = "singleton=true" // the listing of everything changes from one request to the next
	}
	pick := sym.Choose("enc", 13)
	enc := []string{
		"gzip", "deflate, gzip;q=1.0, *;q=0.5", "gzip, deflate, br", "br , gzip ; q=0.001", "gzip;q=1;x=0",
		"identity", "deflate", "gzip;q=0", "deflate, gzip; q=0.000", "gzip ;q=0,br", "identity;q=1, gzip;Q=0.0, *;q=0", "gzipped, notgzip", "br;gzip=1",
	}[pick]
	want := sym.Serve(path, query)
	got := sym.Serve(path, query, "Accept-Encoding", enc)
	sym.Assert(want.Header.Get("Content-Encoding") == "", "a client that does not accept compression gets none")
	sym.Assert(got.Code == want.Code, "the status does not depend on compression")
	if want.Code == 200 {
		sym.Assert(got.Header.Get("Content-Type") == "application/json" && want.Header.Get("Content-Type") == "application/json", "a JSON response says so")
	}
	body := got.Body
	switch got.Header.Get("Content-Encoding") {
	case "":
	case "gzip":
		sym.Assert(pick < 5, "a client that does not accept compression gets none")
		var err error
		body, err = sym.Gunzip(body)
		sym.Assert(err == nil, "a compressed response is complete")
	default:
		sym.Assert(false, "a response is compressed with gzip or not at all")
	}
	sym.Assert(string(body) == string(want.Body), "a compressed response holds the same metrics")
	if want.Code == 404 {
		sym.Reach("missing")
	}
	sym.Reach("compared")
}

// CheckLarge: registries of many metrics.
//
//sym:bound 40, 90 or 150 integers, texts and durations in 1 or 5 directories of fixed names, two of them with arbitrary values of 2 digits
func CheckLarge() {
	n := []int{40, 90, 150}[sym.Choose("metrics", 3)]
	dirs := []int{1, 5}[sym.Choose("dirs", 2)]
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	for k := 0; k < n; k++ {
		i := k * 37 % n
		path := "/q/d" + hlp.Num(i%dirs) + "/m" + hlp.Num(i)
		v := int64(1000*i - 7)
		if i == 17 || i == 33 {
			v = int64(sym.Digits("v"+hlp.Num(i), 2))
		}
		t, d := "text "+hlp.Num(i), time.Duration(i)*time.Millisecond
		m := []interface{}{&v, &t, &d}[i%8%3]
		sym.Assert(g.RegisterMetric(path, m, units.None, "about "+path) == nil, "registering a metric succeeds")
	}
	hlp.MustUnit("/q/zlist", tricorder.NewList([]string{"a", "b"}, true), units.None, "a list")
	l := agree("/q", false, true)
	sym.Assert(len(l) == n+1, "all metrics at or below the path are listed")
	sym.Reach("large")
}

// CheckLongTexts: long texts, descriptions, names and lists.
//
//sym:bound a text of 20, 64, 65, 100, 200, 256, 257 or 300 letters, as value, description, name or list element; lists of that many numbers
func CheckLongTexts() {
	n := []int{20, 64, 65, 100, 200, 256, 257, 300}[sym.Choose("length", 8)]
	b := make([]byte, n)
	var l []int64
	for i := range b {
		b[i] = byte('a' + i%26)
		l = append(l, int64(7*i))
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	c := sym.Uint8("c")
	sym.Assume(c >= 'A' && c <= 'Z')
	b[at] = c
	t := string(b)
	x := int64(5)
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	reg := func(path string, m interface{}, u units.Unit, d string) {
		sym.Assert(g.RegisterMetric(path, m, u, d) == nil, "registering a metric succeeds")
	}
	path := "/q/m"
	switch sym.Choose("where", 5) {
	case 0:
		reg(path, &t, units.None, "d")
	case 1:
		reg(path, &x, units.None, t)
	case 2:
		path = "/q/" + t
		reg(path, &x, units.None, "d")
	case 3:
		hlp.MustUnit(path, tricorder.NewList([]string{"x", t, "y"}, true), units.None, "d")
	default:
		hlp.MustUnit(path, tricorder.NewList(l, true), units.None, "d")
	}
	y := "other"
	reg("/q/zz", &y, units.None, "e")
	sym.Assert(len(agree("/q", false, true)) == 2, "all metrics at or below the path are listed")
	sym.Reach("long texts")
}

// CheckDistributions: every interface for distributions of every small population.
//
//sym:bound distributions of 2..4 buckets (bounds -2.5, 10, 1000), cumulative or not, with 0..2 values in each bucket (fixed ones); by every interface
func CheckDistributions() {
	n := 2 + sym.Choose("buckets", 3)
	b := tricorder.NewArbitraryBucketer([]float64{-2.5, 10, 1000}[:n-1]...)
	at := []float64{-7.25, 3, 10, 4096}
	at[n-1] = 4096
	var c *tricorder.CumulativeDistribution
	var d *tricorder.NonCumulativeDistribution
	if sym.Choose("cumulative", 2) == 0 {
		c = b.NewCumulativeDistribution()
		hlp.MustUnit("/q/z", c, units.None, "a distribution")
	} else {
		d = b.NewNonCumulativeDistribution()
		hlp.MustUnit("/q/z", d, units.None, "a distribution")
	}
	for i := 0; i < n; i++ {
		for k := sym.Choose("count"+hlp.Num(i), 3); k > 0; k-- {
			if c != nil {
				c.Add(at[i])
			} else {
				d.Add(at[i])
			}
		}
	}
	agree("/q/z", true, true)
	l := agree("/q", false, true)
	sym.Assert(len(l) == 1, "the distribution is listed")
	sym.Reach("distributions")
}

// CheckTexts: texts of special characters.
//
//sym:bound texts of 0..1 arbitrary ASCII characters but newline and NUL as value, description or list element, alone or followed by a letter
func CheckTexts() { texts(sym.Choose("len", 2)) }

// CheckLongerTexts: longer texts of special characters.
//
//sym:opt tier=thorough
//sym:bound texts of 2 arbitrary ASCII characters but newline and NUL as value, description or list element, alone or followed by a letter
func CheckLongerTexts() { texts(2) }

func texts(n int) {
	t := sym.Str("t", n)
	for i := 0; i < n; i++ {
		sym.Assume(t[i] < 0x80 && t[i] != 0 && t[i] != '\n')
	}
	if sym.Choose("more", 2) == 1 {
		t += "b"
	}
	x := int64(5)
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	var err error
	switch sym.Choose("where", 3) {
	case 0:
		err = g.RegisterMetric("/q/m", &t, units.None, "d")
	case 1:
		err = g.RegisterMetric("/q/m", &x, units.None, t)
	default:
		err = g.RegisterMetric("/q/m", tricorder.NewList([]string{"x", t, "y"}, true), units.None, "d")
	}
	sym.Assert(err == nil, "registering a metric succeeds")
	path := []string{"/q", "/q/m"}[sym.Choose("path", 2)]
	sym.Assert(len(agree(path, path == "/q/m", true)) == 1, "the metric is listed")
	sym.Reach("texts")
}

// CheckUnicode: names, descriptions and texts beyond ASCII.
//
//sym:bound 6 texts of 2, 3 and 4 byte characters, with and without ASCII ones, as name, description, value and list element
func CheckUnicode() {
	t := []string{"ü", "日本語", "a😀b", "żółć", "\u00a0x", "e\u0301"}[sym.Choose("text", 6)]
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	n := int64(5)
	v := t
	l := tricorder.NewList([]string{t, "x", t}, tricorder.MutableSlice)
	sym.Assert(g.RegisterMetric("/q/z"+t+"/"+t, &n, units.None, t) == nil && g.RegisterMetric("/q/a", &v, units.None, t) == nil &&
		g.RegisterMetric("/q/b", l, units.None, t) == nil, "registering a metric succeeds")
	agree("/q", false, true)
	agree("/q/z"+t, false, true)
	agree("/q/z"+t+"/"+t, true, true)
	m := hlp.Ask(hlp.RPCList, "/q").Metrics
	sym.Assert(len(m) == 3 && m[0].Metric.Value == t && m[2].Path == "/q/z"+t+"/"+t && m[2].Metric.Description == t, "texts are reported as they are")
	sym.Reach("unicode")
}
