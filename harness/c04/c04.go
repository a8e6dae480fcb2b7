// Package c04: bucketers yield the documented contiguous ascending buckets.
package c04

import (
	"math"

	"github.com/Symantec/tricorder/go/tricorder"
	"vh/hlp"
	"vh/sym"
)

// bounds registers a distribution over b and returns the reported bounds.
func bounds(b *tricorder.Bucketer) []float64 {
	hlp.Must("/d", b.NewCumulativeDistribution())
	r := hlp.Dist("/d").Ranges
	sym.Assert(len(r) >= 2, "at least two buckets")
	var e []float64
	for i := range r {
		if i > 0 {
			sym.Assert(r[i].Lower == r[i-1].Upper, "each lower bound is the previous upper bound")
			e = append(e, r[i].Lower)
		}
	}
	return e
}

func ascending(e []float64) {
	for i := 1; i < len(e); i++ {
		sym.Assert(e[i-1] < e[i], "bounds ascend")
	}
}

// CheckLinear: linear bucketers.
//
//sym:opt float=real
//sym:bound 2..10 buckets (thorough: 40); arbitrary start k/16 and increment k/16 > 0, |k| <= 2^20, on which float64 arithmetic is exact
func CheckLinear() { linear(9) }

// CheckLinearDeep is the same with more buckets.
//
//sym:opt float=real tier=thorough
//sym:bound 2..60 buckets
func CheckLinearDeep() { linear(59) }

func linear(n int) {
	count := 2 + sym.Choose("count", n)
	start := sym.Dyadic("start", -1<<20, 1<<20, 4)
	inc := sym.Dyadic("increment", 1, 1<<20, 4)
	e := bounds(tricorder.NewLinearBucketer(count, start, inc))
	sym.Assert(len(e) == count-1, "linear gives count buckets")
	for i := range e {
		sym.Assert(e[i] == start+float64(i)*inc, "linear bound is start + i*increment")
	}
	ascending(e)
	sym.Reach("linear")
}

// CheckExponential: exponential bucketers.
//
//sym:opt float=real
//sym:bound 2..7 buckets; arbitrary start k/16 in (0, 65536], scales 1.25, 1.5, 2, 3, 4, 10, 16
func CheckExponential() {
	count := 2 + sym.Choose("count", 6)
	start := sym.Dyadic("start", 1, 1<<20, 4)
	scale := []float64{1.25, 1.5, 2, 3, 4, 10, 16}[sym.Choose("scale", 7)]
	e := bounds(tricorder.NewExponentialBucketer(count, start, scale))
	sym.Assert(len(e) == count-1, "exponential gives count buckets")
	f := 1.0
	for i := range e {
		sym.Assert(e[i] == start*f, "exponential bound is start * scale^i")
		f *= scale
	}
	ascending(e)
	sym.Reach("exponential")
}

// CheckExponentialScale: arbitrary scale.
//
//sym:opt float=real
//sym:bound 2..4 buckets; arbitrary start k/4 in (0,256] and scale k/4 in (1,64]
func CheckExponentialScale() {
	count := 2 + sym.Choose("count", 3)
	start := sym.Dyadic("start", 1, 1024, 2)
	scale := sym.Dyadic("scale", 5, 256, 2)
	e := bounds(tricorder.NewExponentialBucketer(count, start, scale))
	sym.Assert(len(e) == count-1, "exponential gives count buckets")
	sym.Assert(e[0] == start, "exponential starts at start")
	for i := 1; i < len(e); i++ {
		sym.Assert(e[i] == e[i-1]*scale, "each exponential bound is the previous one times scale")
	}
	sym.Reach("exponential scale")
}

// CheckArbitrary: arbitrary bucketers.
//
//sym:bound 1..8 arbitrary ascending finite float64 endpoints
func CheckArbitrary() {
	n := 1 + sym.Choose("endpoints", 8)
	var in []float64
	for i := 0; i < n; i++ {
		b := sym.Float64("end" + hlp.Num(i))
		sym.Assume(!math.IsNaN(b) && !math.IsInf(b, 0))
		if i > 0 {
			sym.Assume(in[i-1] < b)
		}
		in = append(in, b)
	}
	b := tricorder.NewArbitraryBucketer(append([]float64{}, in...)...)
	e := bounds(b)
	sym.Assert(len(e) == n, "arbitrary gives the given endpoints")
	for i := range e {
		sym.Assert(e[i] == in[i], "arbitrary gives exactly the given endpoints")
	}
	ascending(e)
	sym.Reach("arbitrary")
}

// steps are the 1-2-5 bounds; a bound is compared up to relative rounding because
// powers below one are not exact in binary.
var steps []float64

func init() {
	for _, p := range []float64{1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7} {
		steps = append(steps, p, 2*p, 5*p)
	}
}

func same(a, b float64) bool { return a > b*(1-1e-9) && a < b*(1+1e-9) }

func geometric(lo, hi float64, slack float64) {
	e := bounds(tricorder.NewGeometricBucketer(lo, hi))
	first := -1
	for i, s := range steps {
		if same(e[0], s) {
			first = i
		}
	}
	sym.Assert(first >= 0, "the first geometric bound is a 1-2-5 number")
	for i := range e {
		if first+i >= len(steps) {
			sym.Assert(false, "geometric bounds end near upper")
		}
		sym.Assert(same(e[i], steps[first+i]), "geometric bounds are consecutive 1-2-5 numbers")
	}
	sym.Assert(e[0] <= lo*(1+slack), "the first bound is not above lower")
	sym.Assert(steps[first+1] > lo*(1-slack), "the first bound is the largest one not above lower")
	last := e[len(e)-1]
	sym.Assert(last >= hi*(1-slack), "the last bound is not below upper")
	if len(e) > 1 {
		sym.Assert(e[len(e)-2] < hi*(1+slack), "the last bound is the first one not below upper")
	}
	sym.Reach("geometric")
}

// CheckGeometric: geometric bucketers over exactly represented numbers.
//
//sym:opt float=real
//sym:bound arbitrary lower <= upper, both k/16 in [1, 4096)
func CheckGeometric() {
	lo := sym.Dyadic("lower", 16, 65535, 4)
	hi := sym.Dyadic("upper", 16, 65535, 4)
	sym.Assume(lo <= hi)
	geometric(lo, hi, 1e-12)
}

// CheckGeometricSmall: lower bounds below one.
//
//sym:opt float=real
//sym:bound arbitrary lower <= upper, both k/65536 in (0, 2); bounds up to a relative 1e-9
func CheckGeometricSmall() {
	lo := sym.Dyadic("lower", 1, 131072, 16)
	hi := sym.Dyadic("upper", 1, 131072, 16)
	sym.Assume(lo <= hi)
	geometric(lo, hi, 1e-9)
}

// CheckInvalid: arguments documented as invalid panic.
//
//sym:opt float=real
//sym:bound counts -3..4, start/scale/increment/lower/upper k/16 with |k| <= 2^20, invalid in at least one documented way
func CheckInvalid() {
	count := int(sym.IntRange("count", -3, 4))
	a := sym.Dyadic("a", -1<<20, 1<<20, 4)
	b := sym.Dyadic("b", -1<<20, 1<<20, 4)
	switch sym.Choose("bucketer", 3) {
	case 0:
		sym.Assume(count < 2 || a <= 0 || b <= 1)
		sym.Assert(sym.Panics(func() { tricorder.NewExponentialBucketer(count, a, b) }), "exponential with invalid arguments panics")
		sym.Reach("invalid exponential")
	case 1:
		sym.Assume(count < 2 || b <= 0)
		sym.Assert(sym.Panics(func() { tricorder.NewLinearBucketer(count, a, b) }), "linear with invalid arguments panics")
		sym.Reach("invalid linear")
	default:
		sym.Assume(a <= 0 || b < a)
		sym.Assert(sym.Panics(func() { tricorder.NewGeometricBucketer(a, b) }), "geometric with invalid arguments panics")
		sym.Reach("invalid geometric")
	}
}

// CheckGeometricExact: lower and upper that are themselves 1-2-5 numbers, in IEEE arithmetic.
//
//sym:bound lower and upper 1-2-5 numbers from 1e-5 to 5e7 (every pair, concrete)
func CheckGeometricExact() {
	from := 3 + sym.Choose("from", len(steps)-3)
	to := from + sym.Choose("to", len(steps)-from)
	e := bounds(tricorder.NewGeometricBucketer(steps[from], steps[to]))
	sym.Assert(len(e) == to-from+1, "geometric bounds run from lower to upper")
	for i := range e {
		sym.Assert(same(e[i], steps[from+i]), "geometric bounds are consecutive 1-2-5 numbers")
	}
	ascending(e)
	sym.Reach("geometric exact")
}

// CheckMany: linear and exponential bucketers of many buckets.
//
//sym:opt float=real
//sym:bound 11, 17, 33, 65, 100, 129, 257 or 300 buckets; arbitrary start k/16 in (0, 65536], increment 1/8, 3 or 1000, scale 1.5 or 2
func CheckMany() {
	count := []int{11, 17, 33, 65, 100, 129, 257, 300}[sym.Choose("count", 8)]
	start := sym.Dyadic("start", 1, 1<<20, 4)
	k := sym.Choose("kind", 5)
	if k < 3 {
		inc := []float64{0.125, 3, 1000}[k]
		e := bounds(tricorder.NewLinearBucketer(count, start, inc))
		sym.Assert(len(e) == count-1, "linear gives count buckets")
		for i := range e {
			sym.Assert(e[i] == start+float64(i)*inc, "linear bound is start + i*increment")
		}
		sym.Reach("many linear")
		return
	}
	sym.Assume(count <= 129)
	scale := []float64{1.5, 2}[k-3]
	e := bounds(tricorder.NewExponentialBucketer(count, start, scale))
	sym.Assert(len(e) == count-1, "exponential gives count buckets")
	f := 1.0
	for i := range e {
		sym.Assert(same(e[i], start*f), "exponential bound is start * scale^i")
		f *= scale
	}
	sym.Reach("many exponential")
}

// CheckManyEndpoints: arbitrary bucketers of many endpoints.
//
//sym:bound 9, 16, 17, 33, 64, 65, 100, 129 or 257 endpoints, integers around 0 from an offset on
func CheckManyEndpoints() {
	n := []int{9, 16, 17, 33, 64, 65, 100, 129, 257}[sym.Choose("endpoints", 9)]
	from := sym.Choose("from", 3)
	var in []float64
	for i := 0; i < n; i++ {
		in = append(in, float64(i-from*n/2))
	}
	e := bounds(tricorder.NewArbitraryBucketer(in...))
	sym.Assert(len(e) == n, "arbitrary gives the given endpoints")
	for i := range e {
		sym.Assert(e[i] == float64(i-from*n/2), "arbitrary gives exactly the given endpoints")
	}
	sym.Reach("many endpoints")
}

// CheckGeometricWide: geometric bucketers over many decades, in IEEE arithmetic.
//
//sym:bound lower and upper 1.5, 3 and 7 times a power of ten from 10^-15 to 10^20, 1 to 100 steps apart (concrete)
func CheckGeometricWide() {
	var at, next []float64
	for k, p := -15, 1e-15; k <= 20; k++ {
		at = append(at, 1.5*p, 3*p, 7*p)
		next = append(next, 2*p, 5*p, 10*p)
		p *= 10
	}
	from := sym.Choose("from", len(at)-1)
	d := []int{1, 2, 3, 4, 7, 12, 25, 40, 61, 75, 100}[sym.Choose("steps", 11)]
	sym.Assume(from+d < len(at))
	e := bounds(tricorder.NewGeometricBucketer(at[from], at[from+d]))
	sym.Assert(len(e) == d+2, "geometric bounds run from lower to upper")
	for i := 1; i < len(e); i++ {
		sym.Assert(same(e[i], next[from+i-1]), "geometric bounds are consecutive 1-2-5 numbers")
	}
	sym.Assert(e[0] < at[from] && e[0] > at[from]/2, "the first bound is the largest one not above lower")
	ascending(e)
	sym.Reach("geometric wide")
}

// CheckFirst: the first bounds of linear and exponential bucketers, bit by bit.
//
//sym:opt float=ieee
//sym:bound 2 or 3 buckets; start and increment or scale every valid finite float64 whose bounds are finite
func CheckFirst() {
	count := 2 + sym.Choose("count", 2)
	a, b := sym.Float64("start"), sym.Float64("step")
	sym.Assume(a < 1e300 && a > -1e300 && b < 1e300)
	var e []float64
	if sym.Choose("kind", 2) == 0 {
		sym.Assume(b > 0)
		e = bounds(tricorder.NewLinearBucketer(count, a, b))
		sym.Assert(len(e) == count-1 && e[0] == a, "linear starts at start")
		sym.Assert(count == 2 || e[1] == a+b, "linear bound is start + i*increment")
	} else {
		sym.Assume(a > 0 && b > 1)
		e = bounds(tricorder.NewExponentialBucketer(count, a, b))
		sym.Assert(len(e) == count-1 && e[0] == a, "exponential starts at start")
		sym.Assert(count == 2 || e[1] == a*b, "exponential bound is start * scale^i")
	}
	sym.Reach("first")
}

// CheckOdd: linear and exponential bucketers over numbers that are not exact in binary or large, in IEEE arithmetic.
//
//sym:bound 2, 5, 13 or 40 buckets; 7 starts and 6 increments or scales (concrete); bounds up to a relative 10^-9
func CheckOdd() {
	count := []int{2, 5, 13, 40}[sym.Choose("count", 4)]
	start := []float64{0.1, 1e9 + 0.7, 123456789.125, 1e12 / 3, 1e-7, 1<<53 - 1, 7e-300}[sym.Choose("start", 7)]
	s := sym.Choose("step", 6)
	if sym.Choose("kind", 2) == 0 {
		inc := []float64{0.1, 1e-3, 7e8 / 3, 16777217, 1e-9, 1}[s]
		sym.Assume(start+inc != start)
		e := bounds(tricorder.NewLinearBucketer(count, start, inc))
		sym.Assert(len(e) == count-1, "linear gives count buckets")
		for i := range e {
			sym.Assert(same(e[i], start+float64(i)*inc), "linear bound is start + i*increment")
			if i > 0 {
				sym.Assert(math.Abs(e[i]-e[i-1]-inc) < 1e-6*inc+1e-14*start, "linear bounds are increment apart")
			}
		}
	} else {
		scale := []float64{1.001, 1.1, 2.5, 7.3, 10, 1 + 1e-8}[s]
		e := bounds(tricorder.NewExponentialBucketer(count, start, scale))
		sym.Assert(len(e) == count-1, "exponential gives count buckets")
		f := 1.0
		for i := range e {
			sym.Assert(same(e[i], start*f), "exponential bound is start * scale^i")
			sym.Assert(i == 0 || math.Abs(e[i]/e[i-1]-scale) < 1e-12*scale, "each exponential bound is the previous one times scale")
			f *= scale
		}
	}
	sym.Reach("odd")
}

// CheckGeometricTiny: geometric bucketers over the smallest numbers there are, in IEEE arithmetic.
//
//sym:bound lower 5e-324, 1e-323, 2e-323, 7e-323, 1e-320, 3e-315, 1e-310, 4e-308 or 1e-300; upper 1 to 1e20 times as large, or 1 (concrete); up to rounding
func CheckGeometricTiny() {
	lower := []float64{5e-324, 1e-323, 2e-323, 7e-323, 1e-320, 3e-315, 1e-310, 4e-308, 1e-300}[sym.Choose("lower", 9)]
	upper := []float64{lower, 2 * lower, 30 * lower, 1e5 * lower, 1e20 * lower, 1}[sym.Choose("upper", 6)]
	e := bounds(tricorder.NewGeometricBucketer(lower, upper))
	const ulp = 5e-324 // numbers this small are all some ulps apart
	sym.Assert(e[0] > 0 && e[0] <= lower*(1+1e-9)+ulp && e[0] >= lower/12-ulp, "the first bound is the largest one not above lower")
	ascending(e)
	last := len(e) - 1
	sym.Assert(e[last] >= upper*(1-1e-9)-ulp && (last == 0 || e[last-1] <= upper*(1+1e-9)+ulp), "the last bound is the first one not below upper")
	sym.Reach("tiny")
}
