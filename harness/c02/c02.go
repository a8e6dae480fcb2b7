// Package c02: min, max, sum, average, count and generation of a distribution are exact.
package c02

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"time"
	"vh/hlp"
	"vh/sym"
)

type model struct {
	vals     []float64
	min, max float64
	sum      float64
	gen      uint64
	// the latest change of the distribution happened between these
	from, to time.Time
}

// change runs one operation on the distribution.
func (m *model) change(op func()) {
	m.from = time.Now()
	op()
	m.to = time.Now()
}

func (m *model) held(v float64) {
	if v < m.min {
		m.min = v
	}
	if v > m.max {
		m.max = v
	}
}

func (m *model) add(v float64) {
	if len(m.vals) == 0 {
		m.min, m.max = v, v
	}
	m.held(v)
	m.vals = append(append([]float64{}, m.vals...), v)
	m.sum += v
	m.gen++
}

func (m *model) remove(k int) float64 {
	v := m.vals[k]
	rest := append([]float64{}, m.vals[:k]...)
	m.vals = append(rest, m.vals[k+1:]...)
	m.sum -= v
	m.gen++
	return v
}

func (m *model) update(k int, v float64) float64 {
	old := m.vals[k]
	m.vals = append([]float64{}, m.vals...)
	m.vals[k] = v
	m.held(v)
	m.sum += v - old
	m.gen++
	return old
}

func value(name string) float64 { return sym.Dyadic(name, -4096, 4096, 4) }

func verify(x *messages.Metric, m *model, notCumulative bool) {
	d, ok := x.Value.(*messages.Distribution)
	sym.Assert(ok && d != nil, "a distribution is reported")
	ts, ok := x.TimeStamp.(time.Time)
	sym.Assert(ok && !ts.Before(m.from) && !ts.After(m.to), "the timestamp is the time of the latest change")
	n := uint64(len(m.vals))
	sym.Assert(d.Count == n, "count is the number of values held")
	sym.Assert(d.Generation == m.gen, "generation grows by one with each operation")
	sym.Assert(d.IsNotCumulative == notCumulative, "the cumulative flag is that of the distribution")
	sym.Observe("generation", d.Generation)
	if n == 0 {
		sym.Reach("empty")
		return
	}
	sym.Assert(d.Sum == m.sum, "sum is the sum of the values held")
	sym.Assert(d.Min == m.min, "min is the smallest value held")
	sym.Assert(d.Max == m.max, "max is the largest value held")
	sym.Assert(d.Average == d.Sum/float64(n), "average is sum divided by count")
}

func history(nOps int) {
	m := &model{}
	var d *tricorder.NonCumulativeDistribution
	m.change(func() { d = tricorder.NewArbitraryBucketer(-10, 0, 10).NewNonCumulativeDistribution() })
	hlp.Must("/d", d)
	verify(hlp.Read("/d"), m, true)
	for i := 0; i < nOps; i++ {
		n := hlp.Num(i)
		op := 0
		if len(m.vals) > 0 {
			op = sym.Choose("op"+n, 3)
		}
		switch op {
		case 0:
			v := value("add" + n)
			m.add(v)
			m.change(func() { d.Add(v) })
		case 1:
			m.change(func() { d.Remove(m.remove(sym.Choose("which"+n, len(m.vals)))) })
			sym.Reach("removed")
		default:
			v := value("new" + n)
			m.change(func() { d.Update(m.update(sym.Choose("which"+n, len(m.vals)), v), v) })
			sym.Reach("updated")
		}
	}
	verify(hlp.Read("/d"), m, true)
	sym.Assert(d.Sum() == m.sum, "Sum agrees")
	sym.Assert(d.Count() == uint64(len(m.vals)), "Count agrees")
	r := hlp.Dist("/d")
	sym.Assert(r.Generation == m.gen, "reading does not change the generation")
	sym.Reach("history")
}

// CheckHistory: every sequence of Add, Update and Remove.
//
//sym:opt float=real
//sym:bound 4 operations on a non-cumulative distribution; values k/16 with |k| <= 4096, on which float64 sums are exact
func CheckHistory() { history(4) }

// CheckHistoryDeep: longer sequences.
//
//sym:opt float=real tier=thorough
//sym:bound 5 operations on a non-cumulative distribution; values k/16 with |k| <= 4096
func CheckHistoryDeep() { history(5) }

// CheckCumulative: adds to a cumulative distribution.
//
//sym:opt float=real
//sym:bound 4 Adds, reported after each; values k/16 with |k| <= 4096
func CheckCumulative() {
	m := &model{}
	var d *tricorder.CumulativeDistribution
	m.change(func() { d = tricorder.NewArbitraryBucketer(0).NewCumulativeDistribution() })
	hlp.Must("/d", d)
	verify(hlp.Read("/d"), m, false)
	for i := 0; i < 4; i++ {
		v := value("add" + hlp.Num(i))
		m.add(v)
		m.change(func() { d.Add(v) })
		verify(hlp.Read("/d"), m, false)
	}
	sym.Reach("cumulative")
}

// CheckRefill: a distribution emptied and filled again forgets the old extremes.
//
//sym:opt float=real
//sym:bound fill with 2 values, empty, fill with 2 values; values k/16 with |k| <= 4096
func CheckRefill() {
	m := &model{}
	var d *tricorder.NonCumulativeDistribution
	m.change(func() { d = tricorder.NewArbitraryBucketer(-1, 1).NewNonCumulativeDistribution() })
	hlp.Must("/d", d)
	for i := 0; i < 2; i++ {
		v := value("a" + hlp.Num(i))
		m.add(v)
		m.change(func() { d.Add(v) })
	}
	m.change(func() { d.Remove(m.remove(sym.Choose("first", 2))) })
	m.change(func() { d.Remove(m.remove(0)) })
	verify(hlp.Read("/d"), m, true)
	for i := 0; i < 2; i++ {
		v := value("b" + hlp.Num(i))
		m.add(v)
		m.change(func() { d.Add(v) })
		verify(hlp.Read("/d"), m, true)
	}
	sym.Reach("refilled")
}

// CheckMany: counters and sums stay exact over a long concrete-shaped history.
//
//sym:opt float=real
//sym:bound 40 operations of fixed shape (adds, updates of the oldest value, removals) over 3 arbitrary values k/16
func CheckMany() {
	m := &model{}
	var d *tricorder.NonCumulativeDistribution
	m.change(func() { d = tricorder.NewLinearBucketer(5, -8, 4).NewNonCumulativeDistribution() })
	hlp.Must("/d", d)
	in := []float64{value("a"), value("b"), value("c")}
	for i := 0; i < 40; i++ {
		v := in[i%3]
		switch {
		case len(m.vals) < 2 || i%4 < 2:
			m.add(v)
			m.change(func() { d.Add(v) })
		case i%4 == 2:
			m.change(func() { d.Update(m.update(0, v), v) })
		default:
			m.change(func() { d.Remove(m.remove(0)) })
		}
	}
	verify(hlp.Read("/d"), m, true)
	sym.Reach("many")
}

// CheckExtremes: min and max over every float64.
//
//sym:opt float=ieee
//sym:bound 2 arbitrary non-NaN float64 values (infinities included) added, a third added, put in the place of the first, or added after removing the first; cumulative or not
func CheckExtremes() {
	b := tricorder.NewArbitraryBucketer(-1, 1)
	v := make([]float64, 3)
	for i := range v {
		v[i] = sym.Float64("v" + hlp.Num(i))
		sym.Assume(v[i] == v[i])
	}
	op := sym.Choose("op", 4)
	if op == 3 {
		d := b.NewCumulativeDistribution()
		hlp.Must("/d", d)
		for i := range v {
			d.Add(v[i])
		}
	} else {
		d := b.NewNonCumulativeDistribution()
		hlp.Must("/d", d)
		d.Add(v[0])
		d.Add(v[1])
		switch op {
		case 0:
			d.Add(v[2])
		case 1:
			d.Update(v[0], v[2])
		default:
			d.Remove(v[0])
			d.Add(v[2])
		}
	}
	r := hlp.Dist("/d")
	sym.Assert(r.Min <= v[0] && r.Min <= v[1] && r.Min <= v[2] && (r.Min == v[0] || r.Min == v[1] || r.Min == v[2]), "min is the smallest value held")
	sym.Assert(r.Max >= v[0] && r.Max >= v[1] && r.Max >= v[2] && (r.Max == v[0] || r.Max == v[1] || r.Max == v[2]), "max is the largest value held")
	sym.Reach("extremes")
}

// CheckUpdateMinMax: UpdateMinMax may narrow min and max, but not past the values held.
//
//sym:opt float=real
//sym:bound 2 Adds, then a removal or update or neither, UpdateMinMax, one more Add; values k/16 with |k| <= 4096
func CheckUpdateMinMax() {
	m := &model{}
	var d *tricorder.NonCumulativeDistribution
	m.change(func() { d = tricorder.NewArbitraryBucketer(-10, 0, 10).NewNonCumulativeDistribution() })
	hlp.Must("/d", d)
	for i := 2; i > 0; i-- {
		v := value("add" + hlp.Num(i))
		m.add(v)
		m.change(func() { d.Add(v) })
	}
	switch sym.Choose("op", 3) {
	case 0:
		m.change(func() { d.Remove(m.remove(0)) })
	case 1:
		v := value("new")
		m.change(func() { d.Update(m.update(0, v), v) })
	}
	d.UpdateMinMax()
	r := hlp.Dist("/d")
	sym.Assert(r.Min >= m.min && r.Max <= m.max, "UpdateMinMax does not widen min and max")
	for _, v := range m.vals {
		sym.Assert(r.Min <= v && v <= r.Max, "UpdateMinMax does not narrow min and max past a value held")
	}
	sym.Assert(r.Count == uint64(len(m.vals)) && r.Sum == m.sum && r.Average == m.sum/float64(len(m.vals)), "UpdateMinMax changes no value")
	m.min, m.max = r.Min, r.Max
	v := value("last")
	m.add(v)
	m.change(func() { d.Add(v) })
	m.gen = hlp.Dist("/d").Generation
	verify(hlp.Read("/d"), m, true)
	sym.Reach("updated")
}
