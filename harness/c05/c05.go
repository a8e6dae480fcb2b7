// Package c05: a distribution's unit is fixed once and governs how durations are recorded.
package c05

import (
	"math"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

var allUnits = []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, units.BytePerSecond, units.Celsius, units.Unknown}

type dist interface {
	Add(v interface{})
}

func newDist(cumulative bool) dist {
	b := tricorder.NewArbitraryBucketer(0, 1, 1000)
	if cumulative {
		return b.NewCumulativeDistribution()
	}
	return b.NewNonCumulativeDistribution()
}

func register(path string, d interface{}, u units.Unit) error {
	return tricorder.RegisterMetric(path, d, u, "d")
}

// CheckFixed: the first registration decides the unit.
//
//sym:bound every ordered pair of the predefined units and an arbitrary 2-byte unit, three registrations, both kinds of distribution
func CheckFixed() {
	pick := func(name string) units.Unit {
		k := sym.Choose(name, len(allUnits)+1)
		if k == len(allUnits) {
			return units.Unit(sym.Str(name+".text", 2))
		}
		return allUnits[k]
	}
	u1, u2 := pick("unit1"), pick("unit2")
	d := newDist(sym.Choose("cumulative", 2) == 1)
	sym.Assert(register("/x/d", d, u1) == nil, "the first registration succeeds")
	err := register("/x/e", d, u2)
	if u1 == u2 {
		sym.Assert(err == nil, "registering again under the same unit succeeds")
		sym.Assert(hlp.Read("/x/e").Unit == u2, "unit of the second registration")
		sym.Reach("same unit")
	} else {
		sym.Assert(err == tricorder.ErrWrongUnit, "registering again under another unit fails with ErrWrongUnit")
		sym.Assert(len(tricorder.ReadMyMetrics("/x")) == 1, "the refused registration registers nothing")
		sym.Assert(register("/x/e", d, u1) == nil, "after the refusal the first unit is still the unit")
		sym.Reach("other unit")
	}
	sym.Assert(hlp.Read("/x/d").Unit == u1, "the unit of the first registration is final")
	sym.Assert(register("/x/f", d, u1) == nil, "registering under the first unit always succeeds")
	d.Add(2.5)
	sym.Assert(hlp.Dist("/x/d").Count == 1 && hlp.Dist("/x/f").Count == 1, "one distribution under all its paths")
}

func near(got, want float64) bool {
	tol := math.Abs(want)*1e-14 + 1e-9
	return got >= want-tol && got <= want+tol
}

// CheckDuration: durations are recorded in the distribution's unit.
//
//sym:opt float=real
//sym:bound every time.Duration, added, removed and updated; units seconds and milliseconds
func CheckDuration() {
	u, per := units.Second, 1e9
	if sym.Choose("unit", 2) == 1 {
		u, per = units.Millisecond, 1e6
	}
	x := sym.Int64("ns")
	want := float64(x) / per
	d := tricorder.NewArbitraryBucketer(0, 1, 1000).NewNonCumulativeDistribution()
	sym.Assert(register("/d", d, u) == nil, "registration")
	if sym.Choose("second", 2) == 1 {
		// a refused unit does not change how durations are recorded
		sym.Assert(register("/e", d, units.Celsius) == tricorder.ErrWrongUnit, "refused")
	}
	switch sym.Choose("op", 3) {
	case 0:
		d.Add(time.Duration(x))
	case 1:
		d.Add(1.0)
		d.Update(1.0, time.Duration(x))
		r := hlp.Dist("/d")
		sym.Assert(near(r.Sum, want), "a replaced duration is recorded in the unit")
		sym.Reach("update")
		return
	default:
		d.Add(time.Duration(x))
		d.Add(1.0)
		d.Remove(time.Duration(x))
		sym.Assert(near(hlp.Dist("/d").Sum, 1), "a removed duration is removed in the unit")
		sym.Reach("remove")
		return
	}
	r := hlp.Dist("/d")
	sym.Assert(r.Count == 1, "recorded once")
	sym.Assert(near(r.Min, want), "a duration is recorded in the unit (min)")
	sym.Assert(near(r.Sum, want), "a duration is recorded in the unit (sum)")
	sym.Assert(near(r.Average, want), "a duration is recorded in the unit (average)")
	sym.Reach("add")
}

// CheckFloats: float32 and float64 are recorded unchanged under every unit.
//
//sym:bound every non-NaN float64 and float32, every predefined unit
func CheckFloats() {
	d := tricorder.NewArbitraryBucketer(0, 1).NewCumulativeDistribution()
	sym.Assert(register("/d", d, allUnits[sym.Choose("unit", len(allUnits))]) == nil, "registration")
	if sym.Choose("type", 2) == 0 {
		v := sym.Float64("f64")
		sym.Assume(!math.IsNaN(v))
		d.Add(v)
		r := hlp.Dist("/d")
		sym.Assert(r.Min == v && r.Max == v, "a float64 is recorded unchanged")
		sym.Reach("float64")
	} else {
		v := sym.Float32("f32")
		sym.Assume(v == v)
		d.Add(v)
		r := hlp.Dist("/d")
		sym.Assert(r.Min == float64(v) && r.Max == float64(v), "a float32 is recorded unchanged")
		sym.Reach("float32")
	}
}

func bad(k int) interface{} {
	f := 1.5
	switch k {
	case 0:
		return 3
	case 1:
		return int64(7)
	case 2:
		return "1.0"
	case 3:
		return nil
	case 4:
		return &f
	case 5:
		return uint64(9)
	case 6:
		return true
	case 7:
		return []float64{1}
	default:
		return time.Unix(5, 0)
	}
}

// CheckRefused: values that cannot be recorded panic and change nothing.
//
//sym:opt float=real
//sym:bound no unit / non-time unit / other types (9 of them); Add, Update and Remove; two arbitrary values k/16 held before
func CheckRefused() {
	d := tricorder.NewArbitraryBucketer(0, 1).NewNonCumulativeDistribution()
	a, b := sym.Dyadic("a", -4096, 4096, 4), sym.Dyadic("b", -4096, 4096, 4)
	var v interface{}
	ok := interface{}(a)
	switch sym.Choose("case", 3) {
	case 0: // no unit yet
		v = []interface{}{1.0, float32(2), time.Second}[sym.Choose("value", 3)]
		sym.Assert(sym.Panics(func() { d.Add(v) }), "adding without a unit panics")
		sym.Assert(register("/d", d, units.Second) == nil, "registration")
		sym.Assert(hlp.Dist("/d").Count == 0 && hlp.Dist("/d").Generation == 0, "the refused value is not recorded")
		d.Add(a)
		sym.Assert(hlp.Dist("/d").Sum == a, "the distribution is usable")
		sym.Reach("no unit")
		return
	case 1: // a duration under a unit that is not a time
		u := []units.Unit{units.None, units.Byte, units.BytePerSecond, units.Celsius, units.Unknown}[sym.Choose("unit", 5)]
		sym.Assert(register("/d", d, u) == nil, "registration")
		v = time.Duration(sym.Int64("ns"))
	default:
		sym.Assert(register("/d", d, units.Second) == nil, "registration")
		v = bad(sym.Choose("value", 9))
	}
	d.Add(a)
	d.Add(b)
	before := hlp.Dist("/d")
	var p bool
	switch sym.Choose("op", 4) {
	case 0:
		p = sym.Panics(func() { d.Add(v) })
	case 1:
		p = sym.Panics(func() { d.Remove(v) })
	case 2:
		p = sym.Panics(func() { d.Update(v, ok) })
	default:
		p = sym.Panics(func() { d.Update(ok, v) })
	}
	sym.Assert(p, "a value that cannot be recorded panics")
	after := hlp.Dist("/d")
	sym.Assert(after.Count == before.Count && after.Generation == before.Generation && after.Sum == before.Sum &&
		after.Min == before.Min && after.Max == before.Max, "the distribution is unchanged")
	for i := range after.Ranges {
		sym.Assert(after.Ranges[i].Count == before.Ranges[i].Count, "the bucket counts are unchanged")
	}
	d.Remove(b)
	sym.Assert(hlp.Dist("/d").Count == 1 && hlp.Dist("/d").Sum == a, "the distribution is usable")
	sym.Reach("refused")
}

// CheckExact: values whose decimal text differs from their binary value.
//
//sym:bound 12 float32 and float64 values without an exact short decimal form, in every predefined unit; Add, Update and Remove
func CheckExact() {
	k := sym.Choose("value", 6)
	f32 := []float32{0.1, -0.3, 1e-45, 3.4028235e38, 16777217, 1.0 / 3}[k]
	f64 := []float64{0.1, -0.3, 5e-324, 1.7976931348623157e308, 9007199254740993, 1.0 / 3}[k]
	v, want := interface{}(f32), float64(f32)
	if sym.Choose("size", 2) == 1 {
		v, want = f64, f64
	}
	d := tricorder.NewArbitraryBucketer(10, 100).NewNonCumulativeDistribution()
	sym.Assert(register("/x", d, allUnits[sym.Choose("unit", len(allUnits))]) == nil, "a distribution can be registered")
	d.Add(v)
	m := hlp.Dist("/x")
	sym.Assert(m.Min == want && m.Max == want && m.Sum == want && d.Sum() == want, "a float is recorded unchanged")
	if sym.Choose("then", 2) == 0 {
		d.Remove(v)
		sym.Assert(d.Sum() == 0 && d.Count() == 0, "a float is removed unchanged")
	} else {
		d.Update(v, float32(0.7))
		d.Update(float32(0.7), v)
		m = hlp.Dist("/x")
		lo, hi := float64(float32(0.7)), want
		if hi < lo {
			lo, hi = hi, lo
		}
		sym.Assert(m.Min == lo && m.Max == hi, "a float is recorded unchanged by an update")
	}
	sym.Reach("exact")
}

// CheckFailedFirst: a registration that fails fixes no unit.
//
//sym:bound every ordered pair of the predefined units; one or two failing registrations (a metric or directory in the way, below a metric, at the root) under the first, then one under the second; both kinds of distribution
func CheckFailedFirst() {
	u1, u2 := allUnits[sym.Choose("unit1", len(allUnits))], allUnits[sym.Choose("unit2", len(allUnits))]
	x := 1
	hlp.Must("/x/m", &x)
	d := newDist(sym.Choose("cumulative", 2) == 1)
	for i := 1 + sym.Choose("twice", 2); i > 0; i-- {
		path := []string{"/x/m", "/x", "/x/m/d", "/"}[sym.Choose("path"+hlp.Num(i), 4)]
		sym.Assert(register(path, d, u1) == tricorder.ErrPathInUse, "a path in use is refused")
		sym.Assert(sym.Panics(func() { d.Add(2.5) }), "a distribution not registered yet has no unit")
	}
	sym.Assert(register("/x/d", d, u2) == nil, "registering a distribution not registered yet succeeds")
	sym.Assert(hlp.Read("/x/d").Unit == u2, "its unit is that of the registration")
	d.Add(2.5)
	if u2 == units.Second {
		d.Add(2 * time.Second)
		sym.Assert(hlp.Dist("/x/d").Sum == 4.5, "durations are recorded in the unit of the registration")
	}
	sym.Assert(register("/x/e", d, u2) == nil, "registering again under the same unit succeeds")
	if u1 != u2 {
		sym.Assert(register("/x/f", d, u1) == tricorder.ErrWrongUnit, "registering again under another unit fails with ErrWrongUnit")
		sym.Reach("other unit")
	}
	sym.Assert(len(tricorder.ReadMyMetrics("/x")) == 3, "the refused registrations register nothing")
	sym.Reach("registered")
}
