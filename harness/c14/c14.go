// Package c14: a metric reports the current value of its variable or callback, correctly typed.
package c14

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

var allUnits = []units.Unit{units.None, units.Millisecond, units.Second, units.Celsius, units.Byte, units.BytePerSecond}

// read fetches the metric and checks everything but the value.
func read(kind types.Type, bits int, unit units.Unit, desc string) interface{} {
	var m messages.Metric
	switch sym.Choose("how", 3) {
	case 0:
		m = *hlp.Read("/q/m")
	case 1:
		sym.Assert(sym.CallRPC("MetricsServer.GetMetric", "/q/m", &m) == nil, "the metric is there")
	case 2:
		var l messages.MetricList
		sym.Assert(sym.CallRPC("MetricsServer.ListMetrics", "/q", &l) == nil && len(l) == 1, "the metric is there")
		m = *l[0]
	}
	sym.Assert(m.Kind == kind && m.SubType == types.Unknown, "the kind matches the type")
	sym.Assert(m.Bits == bits, "the bit size matches the type")
	sym.Assert(m.Unit == unit, "the unit is the one registered")
	sym.Assert(m.Description == desc && m.Path == "/q/m", "the description is the one registered")
	return m.Value
}

type (
	myBool   bool
	myInt8   int8
	myInt    int
	myUint16 uint16
	myFloat  float64
	myString string
	myDur    time.Duration
)

// cell is a variable of some type: set gives it the i-th arbitrary value, is
// checks that a reported value is the current one.
type cell struct {
	kind types.Type
	bits int
	ptr  interface{}
	fn   interface{}
	set  func(i string)
	is   func(v interface{}) bool
}

func cells() []func() *cell {
	return []func() *cell{
		func() *cell {
			var x bool
			return &cell{types.Bool, 0, &x, func() bool { return x }, func(i string) { x = sym.Bool(i) }, func(v interface{}) bool { y, ok := v.(bool); return ok && x == y }}
		},
		func() *cell {
			var x int8
			return &cell{types.Int8, 8, &x, func() int8 { return x }, func(i string) { x = sym.Int8(i) }, func(v interface{}) bool { y, ok := v.(int8); return ok && x == y }}
		},
		func() *cell {
			var x int16
			return &cell{types.Int16, 16, &x, func() int16 { return x }, func(i string) { x = sym.Int16(i) }, func(v interface{}) bool { y, ok := v.(int16); return ok && x == y }}
		},
		func() *cell {
			var x int32
			return &cell{types.Int32, 32, &x, func() int32 { return x }, func(i string) { x = sym.Int32(i) }, func(v interface{}) bool { y, ok := v.(int32); return ok && x == y }}
		},
		func() *cell {
			var x int64
			return &cell{types.Int64, 64, &x, func() int64 { return x }, func(i string) { x = sym.Int64(i) }, func(v interface{}) bool { y, ok := v.(int64); return ok && x == y }}
		},
		func() *cell {
			var x int
			return &cell{types.Int64, 64, &x, func() int { return x }, func(i string) { x = sym.Int(i) }, func(v interface{}) bool { y, ok := v.(int64); return ok && int64(x) == y }}
		},
		func() *cell {
			var x uint8
			return &cell{types.Uint8, 8, &x, func() uint8 { return x }, func(i string) { x = sym.Uint8(i) }, func(v interface{}) bool { y, ok := v.(uint8); return ok && x == y }}
		},
		func() *cell {
			var x uint16
			return &cell{types.Uint16, 16, &x, func() uint16 { return x }, func(i string) { x = sym.Uint16(i) }, func(v interface{}) bool { y, ok := v.(uint16); return ok && x == y }}
		},
		func() *cell {
			var x uint32
			return &cell{types.Uint32, 32, &x, func() uint32 { return x }, func(i string) { x = sym.Uint32(i) }, func(v interface{}) bool { y, ok := v.(uint32); return ok && x == y }}
		},
		func() *cell {
			var x uint64
			return &cell{types.Uint64, 64, &x, func() uint64 { return x }, func(i string) { x = sym.Uint64(i) }, func(v interface{}) bool { y, ok := v.(uint64); return ok && x == y }}
		},
		func() *cell {
			var x uint
			return &cell{types.Uint64, 64, &x, func() uint { return x }, func(i string) { x = sym.Uint(i) }, func(v interface{}) bool { y, ok := v.(uint64); return ok && uint64(x) == y }}
		},
		func() *cell {
			var x string
			return &cell{types.String, 0, &x, func() string { return x }, func(i string) { x = sym.Str(i, 3) }, func(v interface{}) bool { y, ok := v.(string); return ok && x == y }}
		},
		func() *cell {
			var x time.Duration
			return &cell{types.GoDuration, 0, &x, func() time.Duration { return x }, func(i string) { x = time.Duration(sym.Int64(i)) }, func(v interface{}) bool { y, ok := v.(time.Duration); return ok && x == y }}
		},
		func() *cell {
			var x time.Time
			return &cell{types.GoTime, 0, &x, func() time.Time { return x }, func(i string) { x = someTime(i) }, func(v interface{}) bool { y, ok := v.(time.Time); return ok && x == y }}
		},
		func() *cell {
			var x *time.Time
			return &cell{types.GoTime, 0, &x, func() *time.Time { return x }, func(i string) {
				if x == nil {
					t := someTime(i)
					x = &t
				} else {
					x = nil
				}
			}, func(v interface{}) bool {
				y, ok := v.(time.Time)
				return ok && (x == nil && y.IsZero() || x != nil && *x == y)
			}}
		},
		// types defined in terms of the supported ones
		func() *cell {
			var x myBool
			return &cell{types.Bool, 0, &x, func() myBool { return x }, func(i string) { x = myBool(sym.Bool(i)) }, func(v interface{}) bool { y, ok := v.(bool); return ok && bool(x) == y }}
		},
		func() *cell {
			var x myInt8
			return &cell{types.Int8, 8, &x, func() myInt8 { return x }, func(i string) { x = myInt8(sym.Int8(i)) }, func(v interface{}) bool { y, ok := v.(int8); return ok && int8(x) == y }}
		},
		func() *cell {
			var x myInt
			return &cell{types.Int64, 64, &x, func() myInt { return x }, func(i string) { x = myInt(sym.Int(i)) }, func(v interface{}) bool { y, ok := v.(int64); return ok && int64(x) == y }}
		},
		func() *cell {
			var x myUint16
			return &cell{types.Uint16, 16, &x, func() myUint16 { return x }, func(i string) { x = myUint16(sym.Uint16(i)) }, func(v interface{}) bool { y, ok := v.(uint16); return ok && uint16(x) == y }}
		},
		func() *cell {
			var x myString
			return &cell{types.String, 0, &x, func() myString { return x }, func(i string) { x = myString(sym.Str(i, 2)) }, func(v interface{}) bool { y, ok := v.(string); return ok && string(x) == y }}
		},
		func() *cell {
			var x myDur
			return &cell{types.Int64, 64, &x, func() myDur { return x }, func(i string) { x = myDur(sym.Int64(i)) }, func(v interface{}) bool { y, ok := v.(int64); return ok && int64(x) == y }}
		},
	}
}

func someTime(i string) time.Time {
	return time.Unix(sym.IntRange(i+"s", -1<<40, 1<<40), sym.IntRange(i+"ns", 0, 999999999))
}

func through(c *cell, unit units.Unit) {
	n := 0
	spec := c.ptr
	if sym.Choose("fn", 2) == 1 {
		spec = c.fn
	}
	desc := sym.Str("desc", 2)
	c.set("v0")
	var err error
	switch sym.Choose("reg", 4) {
	case 0:
		err = tricorder.RegisterMetric("/q/m", spec, unit, desc)
	case 1:
		err = tricorder.RegisterMetricInGroup("/q/m", spec, tricorder.NewGroup(), unit, desc)
	case 2:
		err = tricorder.NewGroup().RegisterMetric("/q/m", spec, unit, desc)
	case 3:
		d, _ := tricorder.RegisterDirectory("/q")
		err = d.RegisterMetric("m", spec, unit, desc)
	}
	sym.Assert(err == nil, "a supported type is registered")
	for ; n < 3; n++ {
		if n > 0 {
			c.set("v" + hlp.Num(n))
		}
		sym.Assert(c.is(read(c.kind, c.bits, unit, desc)), "the value is the current one, as the documented type")
	}
	sym.Reach("read")
}

// CheckAll: every type but floats.
//
//sym:bound every supported integer, bool, string (3 bytes), time (seconds within 2^40 of the epoch), time pointer and duration type, and types derived from them, as variable and callback, arbitrary values at registration and two changes, four ways of registering, two units, in process and over RPC
func CheckAll() {
	c := cells()
	through(c[sym.Choose("type", len(c))](), []units.Unit{units.None, units.Byte}[sym.Choose("unit", 2)])
}

// CheckUnits: every unit.
//
//sym:bound an int64 and a duration variable under every unit
func CheckUnits() {
	c := cells()
	u := allUnits[sym.Choose("unit", len(allUnits))]
	through(c[[]int{4, 12}[sym.Choose("type", 2)]](), u)
}

// CheckFloats: floats of every value.
//
//sym:opt float=ieee
//sym:bound float64, float32 and a derived type, variable and callback, every finite IEEE value at registration and after a change
func CheckFloats() {
	var a float64
	var b float32
	var c myFloat
	which := sym.Choose("type", 3)
	specs := []interface{}{&a, &b, &c, func() float64 { return a }, func() float32 { return b }, func() myFloat { return c }}
	kind, bits := types.Float64, 64
	if which == 1 {
		kind, bits = types.Float32, 32
	}
	sym.Assert(tricorder.RegisterMetric("/q/m", specs[which+3*sym.Choose("fn", 2)], units.Second, "d") == nil, "a supported type is registered")
	for n := 0; n < 2; n++ {
		x := sym.Float64("x" + hlp.Num(n))
		y := sym.Float32("y" + hlp.Num(n))
		sym.Assume(x-x == 0 && y-y == 0)
		a, b, c = x, y, myFloat(x)
		v := read(kind, bits, units.Second, "d")
		if which == 1 {
			z, ok := v.(float32)
			sym.Assert(ok && z == y, "the value is the current one, as the documented type")
		} else {
			z, ok := v.(float64)
			sym.Assert(ok && z == x, "the value is the current one, as the documented type")
		}
	}
	sym.Reach("floats")
}

type odd struct{ x int }

// CheckUnsupported: other types are refused.
//
//sym:bound some 40 unsupported types of every Go kind, variables, callbacks, plain values and nils, on a free path and below a directory
func CheckUnsupported() {
	var c64 complex64
	var st odd
	var sp *odd
	var ip *int
	var sl []int
	var mp map[string]int
	var ch chan int
	var ar [2]int
	var fn func() int
	var ifc interface{}
	var e error
	var up uintptr
	var tpp **time.Time
	five, now := 5, time.Unix(5, 0)
	ip5, tp5 := &five, &now
	tpp5 := &tp5
	sp5, ip55 := &st, &ip5
	var ifc5, ifcp interface{} = five, &five
	bad := []interface{}{
		&c64, &st, &sp, &ip, &sl, &mp, &ch, &ar, &fn, &ifc, &e, &up, &tpp,
		func() complex64 { return 0 }, func() odd { return st }, func() *int { return ip }, func() []int { return sl }, func() interface{} { return 1 }, func() error { return nil },
		nil, 5, "x", st, (*int)(nil), (func() int)(nil), (*time.Time)(nil),
		func(int) int { return 1 }, func(int, ...int) int { return 1 }, time.Now(), true, 1.5,
		&ip5, &ip55, &tpp5, &sp5, &ifc5, &ifcp, func() *int { return ip5 }, func() **time.Time { return &tp5 }, func() interface{} { return &five }, []int{5}, map[string]int{"a": 5}, &[]int64{5},
	}
	p := []string{"/q", "/q/m", "/q/d/m"}[sym.Choose("path", 3)]
	x := 1
	hlp.Must("/q2/keep", &x)
	before := len(tricorder.ReadMyMetrics("/"))
	err := tricorder.RegisterMetric(p, bad[sym.Choose("type", len(bad))], units.None, "d")
	sym.Assert(err == tricorder.ErrWrongType, "an unsupported type is refused")
	sym.Assert(len(tricorder.ReadMyMetrics("/")) == before, "nothing is registered")
	_, err = tricorder.GetDirectory(p)
	sym.Assert(err == tricorder.ErrNotFound, "nothing is registered")
	hlp.Must(p, &x)
	sym.Assert(hlp.Read(p).Value.(int64) == 1, "the path is still free")
	sym.Reach("refused")
}

// CheckLongStrings: long strings and descriptions.
//
//sym:bound strings and descriptions of 15..300 arbitrary bytes, variable and callback
func CheckLongStrings() {
	n := []int{15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300}[sym.Choose("length", 14)]
	s, desc := sym.Str("s", n), sym.Str("desc", n)
	var spec interface{} = &s
	if sym.Choose("fn", 2) == 1 {
		spec = func() string { return s }
	}
	sym.Assert(tricorder.RegisterMetric("/q/m", spec, units.None, desc) == nil, "a supported type is registered")
	for i := 0; i < 2; i++ {
		v, ok := read(types.String, 0, units.None, desc).(string)
		sym.Assert(ok && v == s, "the value is the current one, as the documented type")
		s = sym.Str("s2", n+1)
	}
	sym.Reach("long strings")
}

// CheckManyReads: many reads, each of the current value.
//
//sym:bound 300 reads of an arbitrary changing integer, variable and callback, and of a time pointer set and unset
func CheckManyReads() {
	x := sym.Int64("x")
	t := time.Unix(5, 0)
	var p *time.Time
	calls := int64(0)
	fn := func() int64 { calls++; return x - calls }
	for i, spec := range []interface{}{&x, fn, &p} {
		sym.Assert(tricorder.RegisterMetric("/q/m"+hlp.Num(i), spec, units.None, "d") == nil, "a supported type is registered")
	}
	for i := 0; i < 100; i++ {
		if i%3 == 0 {
			x = sym.Int64("x" + hlp.Num(i))
		}
		p = nil
		if i%2 == 1 {
			p = &t
		}
		v, ok := hlp.Read("/q/m0").Value.(int64)
		sym.Assert(ok && v == x, "the value is the current one, as the documented type")
		w, ok := hlp.Read("/q/m1").Value.(int64)
		sym.Assert(ok && w == x-calls, "the value is the current one, as the documented type")
		g, ok := hlp.Read("/q/m2").Value.(time.Time)
		sym.Assert(ok && (p == nil && g.IsZero() || p != nil && g.Equal(t)), "the value is the current one, as the documented type")
	}
	sym.Reach("many reads")
}
