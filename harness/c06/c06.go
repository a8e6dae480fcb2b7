// Package c06: distributions are safe and atomic under concurrent use.
package c06

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// state is what a report shows.
type state struct {
	sum, min, max float64
	count, gen    uint64
	buckets       [3]uint64 // bounds 10, 100
}

func bucket(v float64) int {
	if v < 10 {
		return 0
	}
	if v < 100 {
		return 1
	}
	return 2
}

func (s state) add(v float64) state {
	if s.count == 0 {
		s.min, s.max = v, v
	}
	if v < s.min {
		s.min = v
	}
	if v > s.max {
		s.max = v
	}
	s.sum += v
	s.count++
	s.gen++
	s.buckets[bucket(v)]++
	return s
}

func (s state) remove(v float64) state {
	s.sum -= v
	s.count--
	s.gen++
	s.buckets[bucket(v)]--
	return s
}

func (s state) update(o, n float64) state {
	s.sum += n - o
	if n < s.min {
		s.min = n
	}
	if n > s.max {
		s.max = n
	}
	s.gen++
	s.buckets[bucket(o)]--
	s.buckets[bucket(n)]++
	return s
}

func matches(d *messages.Distribution, s state) bool {
	if d.Count != s.count || d.Generation != s.gen || len(d.Ranges) != 3 {
		return false
	}
	for i := range s.buckets {
		if d.Ranges[i].Count != s.buckets[i] {
			return false
		}
	}
	return s.count == 0 || d.Sum == s.sum && d.Min == s.min && d.Max == s.max
}

// op is one operation of a goroutine.
type op struct {
	kind     int // 0 add, 1 remove, 2 update
	old, new float64
}

func (o op) do(d *tricorder.NonCumulativeDistribution) {
	switch o.kind {
	case 0:
		d.Add(o.new)
	case 1:
		d.Remove(o.old)
	default:
		d.Update(o.old, o.new)
	}
}

func (o op) on(s state) state {
	switch o.kind {
	case 0:
		return s.add(o.new)
	case 1:
		return s.remove(o.old)
	default:
		return s.update(o.old, o.new)
	}
}

// position is how far a report says two programs have got; ok false if none fits.
// Operations of the two programs that commute give the same state in any order
// except for min and max, so every merge order is tried.
func position(d *messages.Distribution, s0 state, a, b []op) (i, j int, ok bool) {
	for i := 0; i <= len(a); i++ {
		for j := 0; j <= len(b); j++ {
			if merges(d, s0, a[:i], b[:j]) {
				return i, j, true
			}
		}
	}
	return 0, 0, false
}

func merges(d *messages.Distribution, s state, a, b []op) bool {
	if len(a) == 0 && len(b) == 0 {
		return matches(d, s)
	}
	return len(a) > 0 && merges(d, a[0].on(s), a[1:], b) || len(b) > 0 && merges(d, b[0].on(s), a, b[1:])
}

func val(n string) float64 { return sym.Dyadic(n, -200, 800, 1) }

func programs(k int, p, q float64) (a, b []op) {
	add := func(n string) op { return op{0, 0, val(n)} }
	rem := func(v float64) op { return op{1, v, 0} }
	upd := func(o float64, n string) op { return op{2, o, val(n)} }
	switch k {
	case 0:
		return []op{add("v1")}, []op{add("v2")}
	case 1:
		x := add("v1")
		return []op{x, rem(x.new)}, []op{add("v2")}
	case 2:
		return []op{upd(p, "v1")}, []op{add("v2")}
	case 3:
		return []op{upd(p, "v1")}, []op{upd(q, "v2")}
	case 4:
		return []op{rem(p)}, []op{rem(q)}
	default:
		return []op{upd(p, "v1"), add("v2")}, []op{rem(q), add("v3")}
	}
}

func run(k, reads int) {
	d := tricorder.NewArbitraryBucketer(10, 100).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	var s0 state
	var p, q float64
	if k >= 2 {
		p, q = val("p"), val("q")
		d.Add(p)
		d.Add(q)
		s0 = s0.add(p).add(q)
	}
	a, b := programs(k, p, q)
	var reports []*messages.Distribution
	sym.Concurrent(
		func() {
			for _, o := range a {
				o.do(d)
			}
		},
		func() {
			for _, o := range b {
				o.do(d)
			}
		},
		func() {
			for n := 0; n < reads; n++ {
				reports = append(reports, hlp.Dist("/d"))
			}
		})
	gen := uint64(0)
	for _, r := range reports {
		_, _, ok := position(r, s0, a, b)
		sym.Assert(ok, "a report is of one moment: the state after some prefix of the operations")
		sym.Assert(r.Generation >= gen, "reports never go back")
		gen = r.Generation
	}
	i, j, ok := position(hlp.Dist("/d"), s0, a, b)
	sym.Assert(ok && i == len(a) && j == len(b), "no operation is lost")
	sym.Reach("concurrent")
}

// CheckConcurrent: two writers and a reader.
//
//sym:opt float=real
//sym:bound two goroutines of 1..2 operations each (5 programs) on symbolic values (multiples of 1/2 in [-200,800]) and a reader of 2 reports; every schedule
func CheckConcurrent() { run(sym.Choose("program", 5), 2) }

// CheckLonger: two operations each.
//
//sym:opt float=real tier=thorough
//sym:bound two goroutines of 2 operations each on symbolic values and a reader of 1 report; every schedule
func CheckLonger() { run(5, 1) }

// CheckSum: Sum and Count called while values are added.
//
//sym:bound two adders and a reader of Sum and Count; every schedule
func CheckSum() {
	d := tricorder.NewArbitraryBucketer(10, 100).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	sym.Concurrent(
		func() { d.Add(1.0) },
		func() { d.Add(20.0) },
		func() {
			s := d.Sum()
			sym.Assert(s == 0 || s == 1 || s == 20 || s == 21, "Sum is that of a prefix")
			c := d.Count()
			sym.Assert(c <= 2, "Count is that of a prefix")
			sym.Assert(!(s == 21 && c != 2) && !(s != 0 && c == 0), "Count never goes back behind Sum")
		})
	sym.Assert(d.Sum() == 21 && d.Count() == 2, "no operation is lost")
	sym.Reach("sum")
}

// CheckCumulative: the cumulative kind.
//
//sym:bound two adders of one value each and a reader; every schedule
func CheckCumulative() {
	d := tricorder.NewArbitraryBucketer(10, 100).NewCumulativeDistribution()
	hlp.Must("/d", d)
	a, b := []op{{0, 0, 4}}, []op{{0, 0, 400}}
	sym.Concurrent(
		func() { d.Add(4.0) },
		func() { d.Add(400.0) },
		func() {
			_, _, ok := position(hlp.Dist("/d"), state{}, a, b)
			sym.Assert(ok, "a report is of one moment: the state after some prefix of the operations")
		})
	i, j, ok := position(hlp.Dist("/d"), state{}, a, b)
	sym.Assert(ok && i == 1 && j == 1, "no operation is lost")
	sym.Reach("cumulative")
}

// CheckUnitRace: registering under two units while the distribution is read.
//
//sym:bound two registrations of one distribution under different units and a listing; every schedule
func CheckUnitRace() {
	d := tricorder.NewArbitraryBucketer(10, 100).NewCumulativeDistribution()
	var e1, e2 error
	sym.Concurrent(
		func() { e1 = tricorder.RegisterMetric("/u/a", d, units.Second, "") },
		func() { e2 = tricorder.RegisterMetric("/u/b", d, units.Byte, "") },
		func() { sym.Assert(len(tricorder.ReadMyMetrics("/u")) <= 1, "at most one is registered") })
	sym.Assert((e1 == nil) != (e2 == nil), "exactly one unit wins")
	sym.Assert(e1 == nil || e1 == tricorder.ErrWrongUnit, "the other fails with ErrWrongUnit")
	sym.Assert(e2 == nil || e2 == tricorder.ErrWrongUnit, "the other fails with ErrWrongUnit")
	l := tricorder.ReadMyMetrics("/u")
	sym.Assert(len(l) == 1 && (l[0].Unit == units.Second) == (e1 == nil), "the winner's unit is reported")
	sym.Reach("unit race")
}

// CheckReaders: several readers of a distribution that holds enough values for
// every computed figure.
//
//sym:opt float=real
//sym:bound a distribution of 3..4 values, two readers and one writer (an add, an update or a remove); every schedule
func CheckReaders() {
	d := tricorder.NewArbitraryBucketer(10, 100).NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	var s0 state
	for i, n := 0, 3+sym.Choose("extra", 2); i < n; i++ {
		v := float64(4 + 37*i)
		d.Add(v)
		s0 = s0.add(v)
	}
	w := []op{{sym.Choose("op", 3), 41, 250}}
	var r [2]*messages.Distribution
	sym.Concurrent(
		func() { r[0] = hlp.Dist("/d") },
		func() { r[1] = hlp.Dist("/d") },
		func() { w[0].do(d) })
	for _, m := range r {
		_, _, ok := position(m, s0, w, nil)
		sym.Assert(ok, "a report is of one moment: the state after some prefix of the operations")
		sym.Assert(m.Median >= m.Min && m.Median <= m.Max, "the median of a report lies between its min and max")
		sym.Assert(m.Average*float64(m.Count)-m.Sum < 1e-6 && m.Sum-m.Average*float64(m.Count) < 1e-6, "the average of a report is its sum divided by its count")
	}
	i, _, ok := position(hlp.Dist("/d"), s0, w, nil)
	sym.Assert(ok && i == 1, "no operation is lost")
	sym.Reach("readers")
}

// CheckRegistering: a distribution used while it is being registered.
//
//sym:bound a registration of a distribution, an add (which panics before the registration) and a reader of Sum and Count; every schedule
func CheckRegistering() {
	d := tricorder.NewArbitraryBucketer(10, 100).NewNonCumulativeDistribution()
	var err error
	added := false
	sym.Concurrent(
		func() { err = tricorder.RegisterMetric("/r", d, units.Byte, "") },
		func() {
			defer func() { recover() }()
			d.Add(20.0)
			added = true
		},
		func() {
			s := d.Sum()
			sym.Assert(s == 0 || s == 20, "Sum is that of a prefix")
		})
	sym.Assert(err == nil, "the distribution is registered")
	m := hlp.Dist("/r")
	if added {
		sym.Assert(m.Count == 1 && m.Sum == 20 && m.Ranges[1].Count == 1, "no operation is lost")
		sym.Reach("added")
	} else {
		sym.Assert(m.Count == 0 && m.Generation == 0, "a refused add changes nothing")
		sym.Reach("refused")
	}
}

// CheckManyBuckets: distributions of more buckets.
//
//sym:opt float=real
//sym:bound the predefined buckets (7, 11 and 20 of them) and 3 values; an add or an update, concurrent with a reader; every schedule
func CheckManyBuckets() {
	b := []*tricorder.Bucketer{tricorder.PowersOfTen, tricorder.PowersOfFour, tricorder.PowersOfTwo}[sym.Choose("buckets", 3)]
	d := b.NewNonCumulativeDistribution()
	hlp.Must("/d", d)
	for _, v := range []float64{0.5, 3, 40} {
		d.Add(v)
	}
	update := sym.Choose("op", 2) == 1
	sym.Concurrent(
		func() {
			if update {
				d.Update(3.0, 4000.0)
			} else {
				d.Add(4000.0)
			}
		},
		func() {
			r := hlp.Dist("/d")
			total, last := uint64(0), uint64(0)
			for _, x := range r.Ranges {
				total += x.Count
				if x.Lower <= 4000 && (x.Upper > 4000 || x.Upper == 0) {
					last = x.Count
				}
			}
			sym.Assert(total == r.Count, "a report is of one moment: the bucket counts add up to the count")
			done := r.Generation == 4
			sym.Assert(done || r.Generation == 3, "a report is of one moment: the generation")
			sym.Assert((last == 1) == done && (r.Max == 4000) == done, "a report is of one moment: the state after some prefix of the operations")
			want := 43.5
			if done && update {
				want = 4040.5
			} else if done {
				want = 4043.5
			}
			sym.Assert(r.Sum == want, "a report is of one moment: the sum")
		})
	sym.Assert(hlp.Dist("/d").Generation == 4, "no operation is lost")
	sym.Reach("many buckets")
}
