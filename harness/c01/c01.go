// Package c01: every value in a distribution is counted in exactly the bucket covering it.
package c01

import (
	"math"

	"github.com/Symantec/tricorder/go/tricorder"
	"vh/hlp"
	"vh/sym"
)

func value(name string) float64 {
	v := sym.Float64(name)
	sym.Assume(!math.IsNaN(v))
	return v
}

// ends are n arbitrary ascending bucket bounds.
func ends(n int) []float64 {
	var e []float64
	for i := 0; i < n; i++ {
		b := sym.Float64("end" + hlp.Num(i))
		sym.Assume(!math.IsNaN(b) && !math.IsInf(b, 0))
		if i > 0 {
			sym.Assume(e[i-1] < b)
		}
		e = append(e, b)
	}
	return e
}

func in(v float64, e []float64, i int) bool {
	if i > 0 && !(v >= e[i-1]) {
		return false
	}
	return i == len(e) || v < e[i]
}

// verify compares the report at path with the values held.
func verify(path string, e, vals []float64) {
	d := hlp.Dist(path)
	sym.Assert(len(d.Ranges) == len(e)+1, "one more bucket than bounds")
	var total uint64
	for i, r := range d.Ranges {
		var want uint64
		for _, v := range vals {
			if in(v, e, i) {
				want++
			}
		}
		sym.Assert(r.Count == want, "bucket count is the number of values in its range")
		if i > 0 {
			sym.Assert(r.Lower == e[i-1], "lower bound")
		}
		if i < len(e) {
			sym.Assert(r.Upper == e[i], "upper bound")
		}
		total += r.Count
		sym.Observe("count", r.Count)
	}
	sym.Assert(total == d.Count, "bucket counts add up to the count")
	sym.Assert(d.Count == uint64(len(vals)), "count is adds minus removes")
}

func cumulative(nEnds, nVals int) {
	e := ends(nEnds)
	d := tricorder.NewArbitraryBucketer(e...).NewCumulativeDistribution()
	hlp.Must("/d", d)
	var vals []float64
	verify("/d", e, vals)
	for i := 0; i < nVals; i++ {
		v := value("v" + hlp.Num(i))
		d.Add(v)
		vals = append(vals, v)
	}
	verify("/d", e, vals)
	sym.Reach("cumulative")
}

// CheckCumulative: values added to a cumulative distribution over arbitrary bounds.
//
//sym:bound 1..3 arbitrary ascending finite bounds, 3 arbitrary non-NaN float64 values
func CheckCumulative() { cumulative(1+sym.Choose("ends", 3), 3) }

// CheckCumulativeDeep: more bounds and values.
//
//sym:opt tier=thorough
//sym:bound 4..5 arbitrary ascending finite bounds, 4 arbitrary non-NaN float64 values
func CheckCumulativeDeep() { cumulative(4+sym.Choose("ends", 2), 4) }

// CheckManyBuckets: one value against a bucketer with many buckets.
//
//sym:bound linear bucketers of 2..40 buckets (start -5, increment 3), one arbitrary non-NaN value
func CheckManyBuckets() {
	n := 2 + sym.Choose("buckets", 39)
	var e []float64
	for i := 0; i < n-1; i++ {
		e = append(e, -5+3*float64(i))
	}
	d := tricorder.NewLinearBucketer(n, -5, 3).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	v := value("v")
	d.Add(v)
	verify("/d", e, []float64{v})
	d.Remove(v)
	verify("/d", e, nil)
	sym.Reach("many buckets")
}

// CheckPredefined: the predefined bucketers.
//
//sym:bound PowersOfTwo, PowersOfFour, PowersOfTen, one arbitrary non-NaN value
func CheckPredefined() {
	var b *tricorder.Bucketer
	n, scale := 0, 0.0
	switch sym.Choose("bucketer", 3) {
	case 0:
		b, n, scale = tricorder.PowersOfTwo, 20, 2
	case 1:
		b, n, scale = tricorder.PowersOfFour, 11, 4
	default:
		b, n, scale = tricorder.PowersOfTen, 7, 10
	}
	var e []float64
	x := 1.0
	for i := 0; i < n-1; i++ {
		e = append(e, x)
		x *= scale
	}
	d := b.NewCumulativeDistribution()
	hlp.Must("/d", d)
	v := value("v")
	d.Add(v)
	verify("/d", e, []float64{v})
	sym.Reach("predefined")
}

func history(nEnds, nOps int) {
	e := ends(nEnds)
	d := tricorder.NewArbitraryBucketer(e...).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	v := value("first")
	d.Add(v)
	vals := []float64{v}
	for i := 0; i < nOps; i++ {
		n := hlp.Num(i)
		op := 0
		if len(vals) > 0 {
			op = sym.Choose("op"+n, 3)
		}
		switch op {
		case 0:
			v := value("add" + n)
			d.Add(v)
			vals = append(vals, v)
		case 1:
			k := sym.Choose("which"+n, len(vals))
			d.Remove(vals[k])
			rest := append([]float64{}, vals[:k]...)
			vals = append(rest, vals[k+1:]...)
			sym.Reach("removed")
		default:
			k := sym.Choose("which"+n, len(vals))
			v := value("new" + n)
			d.Update(vals[k], v)
			vals = append([]float64{}, vals...)
			vals[k] = v
			sym.Reach("updated")
		}
	}
	verify("/d", e, vals)
	sym.Assert(d.Count() == uint64(len(vals)), "Count is adds minus removes")
	sym.Reach("history")
}

// CheckHistory: every sequence of Add, Update and Remove of present values.
//
//sym:bound 2 arbitrary ascending bounds; one Add and then 3 operations; arbitrary non-NaN float64 values
func CheckHistory() { history(2, 3) }

// CheckHistoryDeep: longer sequences.
//
//sym:opt tier=thorough
//sym:bound 2 arbitrary ascending bounds; one Add and then 4 operations; arbitrary non-NaN float64 values
func CheckHistoryDeep() { history(2, 4) }

// CheckLarge: populations beyond 2^16.
//
//sym:bound 70000 Adds of one arbitrary value and 5 of another, then updates and removals, over one arbitrary bound
func CheckLarge() {
	e := ends(1)
	d := tricorder.NewArbitraryBucketer(e...).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	a, b := value("a"), value("b")
	const n = 70000
	for i := 0; i < n; i++ {
		d.Add(a)
	}
	for i := 0; i < 5; i++ {
		d.Add(b)
	}
	d.Update(a, b)
	d.Remove(a)
	want := [2]uint64{}
	for i := range want {
		if in(a, e, i) {
			want[i] += n - 2
		}
		if in(b, e, i) {
			want[i] += 6
		}
	}
	r := hlp.Dist("/d")
	sym.Assert(r.Count == n+4, "count is adds minus removes")
	sym.Assert(len(r.Ranges) == 2 && r.Ranges[0].Count == want[0] && r.Ranges[1].Count == want[1], "bucket count is the number of values in its range")
	sym.Reach("large")
}

// CheckSharedBucketer: distributions made by one bucketer are independent.
//
//sym:bound 2..6 distributions of one bucketer of 2 arbitrary bounds, both kinds in any order of the first two, one arbitrary value added to each of two of them and the others empty
func CheckSharedBucketer() {
	e := ends(2)
	b := tricorder.NewArbitraryBucketer(e...)
	n := 2 + sym.Choose("count", 5)
	adds := make([]func(interface{}), n)
	for i := 0; i < n; i++ {
		if i < 2 && sym.Choose("kind"+hlp.Num(i), 2) == 1 {
			d := b.NewNonCumulativeDistribution()
			adds[i] = d.Add
			hlp.Must("/s/"+hlp.Num(i), d)
		} else {
			d := b.NewCumulativeDistribution()
			adds[i] = d.Add
			hlp.Must("/s/"+hlp.Num(i), d)
		}
	}
	i := sym.Choose("first", n)
	j := sym.Choose("second", n)
	v, u := value("v"), value("u")
	adds[i](v)
	adds[j](u)
	for k := 0; k < n; k++ {
		var vals []float64
		if k == i {
			vals = append(vals, v)
		}
		if k == j {
			vals = append(vals, u)
		}
		verify("/s/"+hlp.Num(k), e, vals)
	}
	sym.Reach("shared bucketer")
}
