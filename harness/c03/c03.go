// Package c03: the reported median lies in the bucket holding the middle value.
package c03

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"vh/hlp"
	"vh/sym"
)

const eps = 1e-6 // rounding; values and bounds are multiples of 1/16 below 256 in size

func value(name string) float64 { return sym.Dyadic(name, -4096, 4096, 4) }

func in(v float64, e []float64, i int) bool {
	if i > 0 && !(v >= e[i-1]) {
		return false
	}
	return i == len(e) || v < e[i]
}

// bucketOf is the bucket holding the value of the given rank (0 based).
func bucketOf(e, vals []float64, rank int) int {
	for i := 0; i <= len(e); i++ {
		for _, v := range vals {
			if in(v, e, i) {
				rank--
			}
		}
		if rank < 0 {
			return i
		}
	}
	return len(e)
}

func verify(path string, e, vals []float64) {
	d := hlp.Dist(path)
	n := len(vals)
	if n == 0 {
		return
	}
	if n <= 2 {
		sum := 0.0
		for _, v := range vals {
			sum += v
		}
		sym.Assert(d.Median == sum/float64(n), "with one or two values the median is their mean")
		sym.Reach("mean")
		return
	}
	sym.Assert(d.Median >= d.Min-eps, "median is not below min")
	sym.Assert(d.Median <= d.Max+eps, "median is not above max")
	lo, hi := bucketOf(e, vals, (n-1)/2), bucketOf(e, vals, n/2)
	if lo > 0 {
		sym.Assert(d.Median >= e[lo-1]-eps, "median is not below the bucket of the middle value")
	}
	if hi < len(e) {
		sym.Assert(d.Median <= e[hi]+eps, "median is not above the bucket of the middle value")
	}
	if n%2 == 1 {
		sym.Reach("odd")
	} else {
		sym.Reach("even")
	}
	if lo != hi {
		sym.Reach("middle values in different buckets")
	}
}

func adds(nEnds, n int) {
	var e []float64
	for i := 0; i < nEnds; i++ {
		b := value("end" + hlp.Num(i))
		if i > 0 {
			sym.Assume(e[i-1] < b)
		}
		e = append(e, b)
	}
	d := tricorder.NewArbitraryBucketer(e...).NewCumulativeDistribution()
	hlp.Must("/d", d)
	var vals []float64
	for i := 0; i < n; i++ {
		v := value("v" + hlp.Num(i))
		d.Add(v)
		vals = append(vals, v)
	}
	verify("/d", e, vals)
}

// CheckFew: arbitrary bounds and values.
//
//sym:opt float=real
//sym:bound 1 or 2 arbitrary ascending bounds, 0..4 arbitrary values; all k/16 with |k| <= 4096
func CheckFew() { adds(1+sym.Choose("ends", 2), sym.Choose("values", 5)) }

// CheckFive: five values over two arbitrary bounds.
//
//sym:opt float=real tier=thorough
//sym:bound 2 arbitrary ascending bounds, 5 arbitrary values; all k/16 with |k| <= 4096
func CheckFive() { adds(2, 5) }

// CheckBuckets: values over more buckets, so that the middle ranks skip empty ones.
//
//sym:opt float=real
//sym:bound bounds -20,-1,0,3,50; 3 or 4 arbitrary values k/16 with |k| <= 4096
func CheckBuckets() {
	e := []float64{-20, -1, 0, 3, 50}
	d := tricorder.NewArbitraryBucketer(e...).NewCumulativeDistribution()
	hlp.Must("/d", d)
	var vals []float64
	for i, n := 0, 3+sym.Choose("values", 2); i < n; i++ {
		v := value("v" + hlp.Num(i))
		d.Add(v)
		vals = append(vals, v)
	}
	verify("/d", e, vals)
}

// CheckPopulations: larger populations per bucket.
//
//sym:opt float=real
//sym:bound bounds -4, 0, 4 (arbitrary values k/16, one per bucket, the other values of a bucket equal to it); every population of 0..7 per bucket
func CheckPopulations() {
	e := []float64{-4, 0, 4}
	d := tricorder.NewArbitraryBucketer(e...).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	var vals []float64
	for i := 0; i < 4; i++ {
		v := value("v" + hlp.Num(i))
		sym.Assume(in(v, e, i))
		for k := sym.Choose("population"+hlp.Num(i), 8); k > 0; k-- {
			d.Add(v)
			vals = append(vals, v)
		}
	}
	verify("/d", e, vals)
	sym.Reach("populations")
}

// CheckAfterRemoval: values removed or replaced leave min and max wider than the values.
//
//sym:opt float=real
//sym:bound bounds -1, 1; 4 adds, one removal or update, values k/16 with |k| <= 4096
func CheckAfterRemoval() {
	e := []float64{-1, 1}
	d := tricorder.NewArbitraryBucketer(e...).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	var vals []float64
	for i := 0; i < 4; i++ {
		v := value("v" + hlp.Num(i))
		d.Add(v)
		vals = append(vals, v)
	}
	if sym.Choose("op", 2) == 0 {
		d.Remove(vals[0])
		vals = vals[1:]
	} else {
		v := value("new")
		d.Update(vals[0], v)
		vals[0] = v
	}
	verify("/d", e, vals)
	sym.Reach("after removal")
}

// CheckManyBuckets: the middle value among many buckets, most of them empty.
//
//sym:opt float=real
//sym:bound 9, 17, 33 or 65 buckets of width 2; one of 3 values held once or twice and an arbitrary one k/16 held 3 or 4 times
func CheckManyBuckets() {
	n := []int{9, 17, 33, 65}[sym.Choose("buckets", 4)]
	d := tricorder.NewLinearBucketer(n, -16, 2).NewCumulativeDistribution()
	hlp.Must("/d", d)
	var e []float64
	for i := 0; i < n-1; i++ {
		e = append(e, float64(2*i-16))
	}
	var vals []float64
	add := func(v float64, times int) {
		for ; times > 0; times-- {
			d.Add(v)
			vals = append(vals, v)
		}
	}
	shape := sym.Choose("shape", 4)
	add([]float64{-17.5, 0.25, 40}[sym.Choose("a", 3)], 1+shape%2)
	add(value("b"), 3+shape/2)
	verify("/d", e, vals)
	sym.Reach("many buckets")
}

// CheckLargePopulations: populations beyond the small ones.
//
//sym:opt float=real
//sym:bound bounds -4, 0, 4; populations of 0, 1, 127, 256 or 1500 per bucket, of one arbitrary value k/16 per bucket
func CheckLargePopulations() {
	e := []float64{-4, 0, 4}
	d := tricorder.NewArbitraryBucketer(e...).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	var vals []float64
	for i := 0; i < 4; i++ {
		v := value("v" + hlp.Num(i))
		sym.Assume(in(v, e, i))
		for k := []int{0, 1, 127, 256, 1500}[sym.Choose("population"+hlp.Num(i), 5)]; k > 0; k-- {
			d.Add(v)
			vals = append(vals, v)
		}
	}
	verify("/d", e, vals)
	sym.Reach("populations")
}
