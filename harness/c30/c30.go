// Package c30: metrics survive the Go RPC wire encoding unchanged.
package c30

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

func each(n int, f func(int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || x != x && y != y)
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case *messages.Distribution:
		y, ok := b.(*messages.Distribution)
		return ok && x != nil && y != nil && x.Min == y.Min && x.Max == y.Max && x.Average == y.Average && x.Median == y.Median && x.Sum == y.Sum &&
			x.Count == y.Count && x.Generation == y.Generation && x.IsNotCumulative == y.IsNotCumulative &&
			len(x.Ranges) == len(y.Ranges) && each(len(x.Ranges), func(i int) bool {
			return x.Ranges[i].Lower == y.Ranges[i].Lower && x.Ranges[i].Upper == y.Ranges[i].Upper && x.Ranges[i].Count == y.Ranges[i].Count
		})
	case []bool:
		y, ok := b.([]bool)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []int8:
		y, ok := b.([]int8)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []int16:
		y, ok := b.([]int16)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []int32:
		y, ok := b.([]int32)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []int64:
		y, ok := b.([]int64)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []uint8:
		y, ok := b.([]uint8)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []uint16:
		y, ok := b.([]uint16)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []uint32:
		y, ok := b.([]uint32)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []uint64:
		y, ok := b.([]uint64)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []float32:
		y, ok := b.([]float32)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] || x[i] != x[i] && y[i] != y[i] })
	case []float64:
		y, ok := b.([]float64)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] || x[i] != x[i] && y[i] != y[i] })
	case []string:
		y, ok := b.([]string)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []time.Duration:
		y, ok := b.([]time.Duration)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i] == y[i] })
	case []time.Time:
		y, ok := b.([]time.Time)
		return ok && len(x) == len(y) && each(len(x), func(i int) bool { return x[i].Equal(y[i]) })
	}
	return a == b
}

func same(a, b *messages.Metric) {
	sym.Assert(a.Path == b.Path && a.Description == b.Description && a.Unit == b.Unit && a.Kind == b.Kind && a.SubType == b.SubType && a.Bits == b.Bits && a.GroupId == b.GroupId,
		"a metric fetched over RPC has the attributes of the one read in process")
	sym.Assert(sameValue(a.Value, b.Value), "a metric fetched over RPC has the value of the one read in process, as the same type")
	sym.Assert(sameValue(a.TimeStamp, b.TimeStamp), "a metric fetched over RPC has the timestamp of the one read in process")
}

// fetch compares the listing of dir and the metric at path over RPC with in-process reads.
func fetch(dir, path string) {
	in := tricorder.ReadMyMetrics(dir)
	var l messages.MetricList
	sym.Assert(sym.CallRPC("MetricsServer.ListMetrics", dir, &l) == nil, "a metric list can be fetched over RPC")
	sym.Assert(len(l) == len(in), "the metric list has its length")
	for i := range in {
		same(in[i], l[i])
		if in[i].Path == path {
			var m messages.Metric
			sym.Assert(sym.CallRPC("MetricsServer.GetMetric", path, &m) == nil, "a metric can be fetched over RPC")
			same(in[i], &m)
			sym.Reach("fetched")
		}
	}
}

// spec is a metric of the kind with an arbitrary value, or a list of n of them.
func spec(kind int, list bool, n int) interface{} {
	switch kind {
	case 0:
		x := sym.Bool("x")
		if list {
			l := make([]bool, n)
			for i := range l {
				l[i] = sym.Bool("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 1:
		x := sym.Int8("x")
		if list {
			l := make([]int8, n)
			for i := range l {
				l[i] = sym.Int8("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 2:
		x := sym.Int16("x")
		if list {
			l := make([]int16, n)
			for i := range l {
				l[i] = sym.Int16("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 3:
		x := sym.Int32("x")
		if list {
			l := make([]int32, n)
			for i := range l {
				l[i] = sym.Int32("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 4:
		x := sym.Int64("x")
		if list {
			l := make([]int64, n)
			for i := range l {
				l[i] = sym.Int64("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 5:
		x := sym.Uint8("x")
		if list {
			l := make([]uint8, n)
			for i := range l {
				l[i] = sym.Uint8("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 6:
		x := sym.Uint16("x")
		if list {
			l := make([]uint16, n)
			for i := range l {
				l[i] = sym.Uint16("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 7:
		x := sym.Uint32("x")
		if list {
			l := make([]uint32, n)
			for i := range l {
				l[i] = sym.Uint32("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 8:
		x := sym.Uint64("x")
		if list {
			l := make([]uint64, n)
			for i := range l {
				l[i] = sym.Uint64("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 9:
		x := sym.Float32("x")
		if list {
			l := make([]float32, n)
			for i := range l {
				l[i] = sym.Float32("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 10:
		x := sym.Float64("x")
		if list {
			l := make([]float64, n)
			for i := range l {
				l[i] = sym.Float64("e" + hlp.Num(i))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 11:
		x := sym.Str("x", 2)
		if list {
			l := make([]string, n)
			for i := range l {
				l[i] = sym.Str("e"+hlp.Num(i), 2)
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 12:
		x := time.Duration(sym.Int64("x"))
		if list {
			l := make([]time.Duration, n)
			for i := range l {
				l[i] = time.Duration(sym.Int64("e" + hlp.Num(i)))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	case 13:
		x := time.Unix(sym.IntRange("x", -1<<36, 1<<36), sym.IntRange("x"+"-ns", 0, 999999999))
		if list {
			l := make([]time.Time, n)
			for i := range l {
				l[i] = time.Unix(sym.IntRange("e"+hlp.Num(i), -1<<36, 1<<36), sym.IntRange("e"+hlp.Num(i)+"-ns", 0, 999999999))
			}
			return tricorder.NewList(l, true)
		}
		return &x
	}
	return nil
}

var someUnits = []units.Unit{units.None, units.Second, units.Celsius}

func group() *tricorder.Group {
	g := tricorder.NewGroup()
	ts := time.Unix(sym.IntRange("ts", 0, 1<<33), sym.IntRange("ts-ns", 0, 999999999))
	g.RegisterUpdateFunc(func() time.Time { return ts })
	return g
}

// CheckKinds: a metric of every kind, or a list of them.
//
//sym:opt float=ieee
//sym:bound variables of the 14 documented types and lists of 0..2 of them, every value (floats finite if not in lists, strings of 2 bytes, times within 2^36 s of the epoch), beside another metric; arbitrary timestamps up to 2^33 s
func CheckKinds() {
	g := group()
	list := sym.Choose("list", 4)
	m := spec(sym.Choose("kind", 14), list > 0, list-1)
	switch x := m.(type) {
	case *float32:
		sym.Assume(*x-*x == 0)
	case *float64:
		sym.Assume(*x-*x == 0)
	}
	sym.Assert(g.RegisterMetric("/q/m", m, someUnits[sym.Choose("unit", 3)], "desc") == nil, "registering a metric succeeds")
	z := "other"
	sym.Assert(g.RegisterMetric("/q/z", &z, units.None, "") == nil, "registering a metric succeeds")
	fetch("/q", "/q/m")
}

// CheckPlain: plain int and uint, derived types, pointers to times, callbacks, and nothing at all.
//
//sym:bound 8 further kinds of variables and callbacks, every value; an empty directory
func CheckPlain() {
	g := group()
	type small uint16
	type text string
	var m interface{}
	n := sym.Int("n")
	u := sym.Uint("u")
	s := small(sym.Uint16("s"))
	t := text(sym.Str("t", 1))
	now := time.Unix(sym.IntRange("time", -1<<36, 1<<36), 17)
	var p *time.Time
	switch sym.Choose("kind", 9) {
	case 0:
		m = &n
	case 1:
		m = &u
	case 2:
		m = &s
	case 3:
		m = &t
	case 4:
		p = &now
		m = &p
	case 5:
		m = &p
	case 6:
		m = func() int { return n }
	case 7:
		m = func() *time.Time { return &now }
	default:
		_, err := tricorder.RegisterDirectory("/q")
		sym.Assert(err == nil, "registering a directory succeeds")
		fetch("/q", "/q/m")
		fetch("/nope", "/nope")
		sym.Reach("empty")
		return
	}
	sym.Assert(g.RegisterMetric("/q/m", m, units.None, "desc") == nil, "registering a metric succeeds")
	fetch("/q", "/q/m")
}

// CheckDistribution: distributions.
//
//sym:opt float=real
//sym:bound cumulative and non-cumulative distributions with 2 bounds and 0..3 arbitrary values (multiples of 1/16 below 256 in size), the second removed or not
func CheckDistribution() {
	b := tricorder.NewArbitraryBucketer(1, 10)
	n := sym.Choose("n", 4)
	v := func(i int) float64 { return sym.Dyadic("v"+hlp.Num(i), -4096, 4096, 4) }
	if sym.Choose("cumulative", 2) == 1 {
		d := b.NewCumulativeDistribution()
		hlp.MustUnit("/q/m", d, units.Second, "desc")
		for i := 0; i < n; i++ {
			d.Add(v(i))
		}
	} else {
		d := b.NewNonCumulativeDistribution()
		hlp.MustUnit("/q/m", d, units.None, "desc")
		for i := 0; i < n; i++ {
			x := v(i)
			d.Add(x)
			if i == 1 && sym.Choose("remove", 2) == 1 {
				d.Remove(x)
			}
		}
	}
	fetch("/q", "/q/m")
}

// CheckAll: all metrics of the process at once.
//
//sym:bound the built-in metrics beside a list and a distribution: names, kinds, units, descriptions and the types of values
func CheckAll() {
	hlp.MustUnit("/q/l", tricorder.NewList([]time.Time{time.Unix(5, 6)}, true), units.Second, "desc")
	hlp.MustUnit("/q/m", tricorder.PowersOfTwo.NewCumulativeDistribution(), units.Second, "desc")
	in := tricorder.ReadMyMetrics("/")
	var l messages.MetricList
	sym.Assert(sym.CallRPC("MetricsServer.ListMetrics", "", &l) == nil, "a metric list can be fetched over RPC")
	sym.Assert(len(l) == len(in) && len(l) > 20, "the metric list has its length")
	for i := range in {
		a, b := in[i], l[i]
		sym.Assert(a.Path == b.Path && a.Description == b.Description && a.Unit == b.Unit && a.Kind == b.Kind && a.SubType == b.SubType && a.Bits == b.Bits && a.GroupId == b.GroupId,
			"a metric fetched over RPC has the attributes of the one read in process")
		_, isTime := b.TimeStamp.(time.Time)
		sym.Assert(isTime || a.TimeStamp == nil && b.TimeStamp == nil, "timestamps are times")
	}
	sym.Reach("all")
}

// CheckLong: long lists and texts.
//
//sym:opt float=ieee
//sym:bound lists of 12 kinds (all but floats) of 17, 65, 129 or 257 arbitrary elements; texts of as many arbitrary bytes
func CheckLong() {
	g := group()
	n := []int{17, 65, 129, 257}[sym.Choose("len", 4)]
	k := sym.Choose("kind", 15)
	sym.Assume(k != 9 && k != 10)
	desc := "desc"
	var m interface{}
	if k == 14 {
		t := sym.Str("x", n)
		m, desc = &t, sym.Str("desc", n)
	} else {
		m = spec(k, true, n)
	}
	sym.Assert(g.RegisterMetric("/q/m", m, units.None, desc) == nil, "registering a metric succeeds")
	fetch("/q", "/q/m")
}

// CheckLarge: many metrics.
//
//sym:bound 40, 130 or 300 metrics of fixed names with arbitrary values, integers, texts and durations
func CheckLarge() {
	g := group()
	n := []int{40, 130, 300}[sym.Choose("metrics", 3)]
	for i := 0; i < n; i++ {
		x, t, d := sym.Int64("x"+hlp.Num(i)), sym.Str("t"+hlp.Num(i), 1), time.Duration(sym.Int64("d"+hlp.Num(i)))
		m := []interface{}{&x, &t, &d, func() int64 { return x }}[i%4]
		sym.Assert(g.RegisterMetric("/q/d"+hlp.Num(i%7)+"/m"+hlp.Num(i), m, units.None, "desc") == nil, "registering a metric succeeds")
	}
	fetch("/q", "/q/d0/m0")
}
