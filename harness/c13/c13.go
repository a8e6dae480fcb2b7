// Package c13: metrics share a group id exactly when they share a group.
package c13

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

type owner struct {
	g *tricorder.Group
	s interface{} // a distribution or list
}

// spec is a new metric of the owner.
func (o *owner) register(p string, how int) {
	var err error
	x := int64(7)
	switch {
	case o.s != nil:
		err = tricorder.RegisterMetricInGroup(p, o.s, tricorder.DefaultGroup, units.None, "d")
	case o.g == nil && how == 0:
		err = tricorder.RegisterMetric(p, &x, units.None, "d")
	case o.g == nil:
		err = tricorder.DefaultGroup.RegisterMetric(p, func() int64 { return x }, units.None, "d")
	case how == 0:
		err = o.g.RegisterMetric(p, &x, units.None, "d")
	default:
		d, e := tricorder.RegisterDirectory("/")
		sym.Assert(e == nil, "the root is a directory")
		err = tricorder.DirectoryGroup{Group: o.g, Directory: d}.RegisterMetric(p, func() float64 { return 7 }, units.None, "d")
	}
	sym.Assert(err == nil, "registration succeeds")
}

func newOwner(kind int) *owner {
	switch kind {
	case 0:
		return &owner{}
	case 1, 2:
		return &owner{g: tricorder.NewGroup()}
	case 3:
		return &owner{s: tricorder.NewList([]int64{7}, true)}
	case 4:
		return &owner{s: tricorder.NewGeometricBucketer(1, 100).NewCumulativeDistribution()}
	case 5:
		return &owner{s: tricorder.NewGeometricBucketer(1, 100).NewNonCumulativeDistribution()}
	}
	return &owner{s: tricorder.NewList([]string{"7"}, false)}
}

// ids returns the group ids of a listing, and checks timestamps.
func ids(kind int, n int) []string {
	a := hlp.Ask(kind, "/q")
	sym.Assert(len(a.Metrics) == n, "the metrics are reported")
	var r []string
	for _, m := range a.Metrics {
		if m.Node != nil {
			g := m.Node.Get("groupId")
			sym.Assert(g != nil && g.Kind == "number", "a group id is reported")
			r = append(r, g.Text)
		} else {
			r = append(r, hlp.Num(m.Metric.GroupId))
		}
	}
	for i := range a.Metrics {
		for j := 0; j < i; j++ {
			if r[i] != r[j] {
				continue
			}
			x, y := a.Metrics[i], a.Metrics[j]
			if x.Node != nil {
				sym.Assert(x.Node.Get("timestamp").Text == y.Node.Get("timestamp").Text, "metrics of one group carry the same timestamp")
			} else {
				sym.Assert(x.Metric.TimeStamp.(time.Time).Equal(y.Metric.TimeStamp.(time.Time)), "metrics of one group carry the same timestamp")
			}
		}
	}
	return r
}

func check(n int, kinds int) {
	own := make([]int, n) // number of the owner of each metric
	var owners []*owner
	var def = -1
	for i := 0; i < n; i++ {
		// each metric belongs to an earlier metric's owner or to a new one
		k := sym.Choose("owner"+hlp.Num(i), len(owners)+kinds)
		if k < len(owners) {
			own[i] = k
		} else {
			k -= len(owners)
			if k == 0 && def >= 0 {
				own[i] = def
			} else {
				own[i] = len(owners)
				if k == 0 {
					def = len(owners)
				}
				owners = append(owners, newOwner(k))
			}
		}
		owners[own[i]].register("/q/"+hlp.Num(i/2)+"/"+hlp.Num(i), i%2)
	}
	first := ids(hlp.InProcess, n)
	for i := range first {
		for j := 0; j < i; j++ {
			sym.Assert((first[i] == first[j]) == (own[i] == own[j]), "metrics share a group id exactly when they share a group")
		}
	}
	for _, k := range []int{hlp.JSONList, hlp.RPCList, hlp.InProcess} {
		for i, id := range ids(k, n) {
			sym.Assert(id == first[i], "the group id never changes")
		}
	}
	for i := range first {
		var m messages.Metric
		p := "/q/" + hlp.Num(i/2) + "/" + hlp.Num(i)
		sym.Assert(sym.CallRPC("MetricsServer.GetMetric", p, &m) == nil, "the metric is there")
		sym.Assert(hlp.Num(m.GroupId) == first[i], "the group id never changes")
	}
	sym.Reach("ids")
}

// CheckIds: every way in which metrics can share groups.
//
//sym:bound 3 metrics (variables, callbacks, distributions, lists) in every assignment to new or shared owners (default group, own groups, distributions, lists), by all interfaces
func CheckIds() { check(3, 7) }

// CheckMore: more metrics.
//
//sym:bound 5 metrics in every assignment to groups, the default group and lists
//sym:opt tier=thorough
func CheckMore() { check(5, 4) }

// many makes n owners of one kind with a metric each.
func many(n int) {
	kind := 1 + sym.Choose("kind", 5)
	(&owner{}).register("/q/d", 0)
	for i := 0; i < n; i++ {
		newOwner(kind).register("/q/o"+hlp.Num(i), 0)
	}
	seen := map[int]bool{}
	for _, m := range tricorder.ReadMyMetrics("/q") {
		sym.Assert(!seen[m.GroupId], "metrics share a group id exactly when they share a group")
		seen[m.GroupId] = true
	}
	sym.Assert(len(seen) == n+1, "the metrics are reported")
	sym.Reach("many")
}

// CheckMany: many owners, so that ids are not reused.
//
//sym:bound 300 groups, lists or distributions with a metric each, and one of the default group
func CheckMany() { many(300) }

// CheckVeryMany: CheckMany with more owners.
//
//sym:bound 1100 groups, lists or distributions with a metric each, and one of the default group
//sym:opt tier=thorough
func CheckVeryMany() { many(1100) }

// CheckConcurrent: owners made at the same time.
//
//sym:bound three goroutines each making a group, a distribution or a list at the same time, every schedule
func CheckConcurrent() {
	var own [3]*owner
	mk := func(i int) func() {
		k := 1 + sym.Choose("kind"+hlp.Num(i), 4)
		return func() { own[i] = newOwner(k) }
	}
	sym.Concurrent(mk(0), mk(1), mk(2))
	for i, o := range own {
		o.register("/q/"+hlp.Num(i), 0)
		o.register("/q/"+hlp.Num(i)+"b", 1)
	}
	l := ids(hlp.InProcess, 6)
	for i := range l {
		for j := 0; j < i; j++ {
			sym.Assert((l[i] == l[j]) == (i/2 == j/2), "metrics share a group id exactly when they share a group")
		}
	}
	sym.Reach("concurrent")
}

// CheckTimes: the timestamps within a group, with arbitrary update times.
//
//sym:bound two groups with three metrics, arbitrary update times, two in-process requests
func CheckTimes() {
	a, b := tricorder.NewGroup(), tricorder.NewGroup()
	n := 0
	upd := func() time.Time {
		n++
		return time.Unix(sym.IntRange("sec"+hlp.Num(n), 0, 1<<40), sym.IntRange("nsec"+hlp.Num(n), 0, 999999999))
	}
	a.RegisterUpdateFunc(upd)
	b.RegisterUpdateFunc(upd)
	x := int64(1)
	for i, g := range []*tricorder.Group{a, b, a} {
		sym.Assert(g.RegisterMetric("/q/"+hlp.Num(i), &x, units.None, "d") == nil, "registration succeeds")
	}
	for i := 0; i < 2; i++ {
		l := tricorder.ReadMyMetrics("/q")
		sym.Assert(len(l) == 3, "the metrics are reported")
		sym.Assert(l[0].TimeStamp == l[2].TimeStamp && l[0].GroupId == l[2].GroupId && l[0].GroupId != l[1].GroupId, "metrics of one group carry the same id and timestamp")
	}
	sym.Reach("times")
}

// CheckChanging: the id of a distribution or list that changes.
//
//sym:bound a cumulative and a non-cumulative distribution and two lists, each changed 0, 1, 2, 5, 20 or 130 times between requests of every kind that reports ids
func CheckChanging() {
	b := tricorder.NewGeometricBucketer(1, 100)
	c, n := b.NewCumulativeDistribution(), b.NewNonCumulativeDistribution()
	l, m := tricorder.NewList([]int64{1}, true), tricorder.NewList([]string{"1"}, false)
	for i, s := range []interface{}{c, n, l, m} {
		sym.Assert(tricorder.RegisterMetric("/q/"+hlp.Num(i), s, units.None, "d") == nil, "registration succeeds")
	}
	first := ids(hlp.InProcess, 4)
	single := []int{hlp.RPCGet, hlp.JSONOne}[sym.Choose("single", 2)]
	for r := 0; r < 2; r++ {
		for k := []int{0, 1, 2, 5, 20, 130}[sym.Choose("changes"+hlp.Num(r), 6)]; k > 0; k-- {
			c.Add(float64(k))
			if k%3 == 0 {
				n.Sum()
				n.Count()
			}
			n.Add(float64(k % 7))
			l.Change([]int64{int64(k), 2}, true)
			m.Change([]string{}, k%2 == 0)
		}
		kind := []int{hlp.InProcess, hlp.RPCList, hlp.JSONList}[sym.Choose("kind"+hlp.Num(r), 3)]
		for i, id := range ids(kind, 4) {
			sym.Assert(id == first[i], "the group id never changes")
		}
		for i := range first {
			a := hlp.Ask(single, "/q/"+hlp.Num(i))
			sym.Assert(len(a.Metrics) == 1, "the metric is there")
			if x := a.Metrics[0]; x.Node != nil {
				sym.Assert(x.Node.Get("groupId").Text == first[i], "the group id never changes")
			} else {
				sym.Assert(hlp.Num(x.Metric.GroupId) == first[i], "the group id never changes")
			}
		}
	}
	sym.Reach("changing")
}

// CheckFarApart: ids of owners made with very many others in between.
//
//sym:bound a group, a list and a distribution made before and after 65533 other lists, ids compared across
func CheckFarApart() {
	before := []*owner{newOwner(1), newOwner(3), newOwner(5)}
	for i := 0; i < 65533; i++ {
		tricorder.NewList([]int64(nil), false)
	}
	k := 1 + sym.Choose("order", 3)
	all := before
	for i := 0; i < 4; i++ {
		all = append(all, newOwner([]int{0, 1, 3, 5}[(i+k)%4]))
	}
	for i, o := range all {
		o.register("/q/"+hlp.Num(i), 0)
	}
	l := ids(hlp.InProcess, len(all))
	for i := range l {
		for j := 0; j < i; j++ {
			sym.Assert(l[i] != l[j], "metrics share a group id exactly when they share a group")
		}
	}
	sym.Reach("far apart")
}

// CheckKinds: variables and callbacks of every type in one group.
//
//sym:bound a group with a variable of every supported type, a callback of 5 types and a time pointer (nil or not); zero values or not; by all interfaces, twice
func CheckKinds() {
	g := tricorder.NewGroup()
	n := 0
	g.RegisterUpdateFunc(func() time.Time { n++; return time.Unix(int64(1000+n), 5) })
	z := sym.Choose("zero", 2)
	var (
		b          = z == 1
		i, i8, i16 = z, int8(z), int16(z)
		i32, i64   = int32(z), int64(z)
		u, u8, u16 = uint(z), uint8(z), uint16(z)
		u32, u64   = uint32(z), uint64(z)
		f32, f64   = float32(z), float64(z)
		s          = "x"[:z]
		t          time.Time
		p          *time.Time
		d          = time.Duration(z)
	)
	if z == 1 {
		t = time.Unix(3, 4)
		p = &t
	}
	l := []interface{}{&b, &i, &i8, &i16, &i32, &i64, &u, &u8, &u16, &u32, &u64, &f32, &f64, &s, &t, &p, &d,
		func() int { return z }, func() string { return s }, func() time.Time { return t }, func() *time.Time { return p }, func() float64 { return f64 }}
	for k, x := range l {
		sym.Assert(g.RegisterMetric("/q/"+string([]byte{byte('a' + k)}), x, units.Second, "d") == nil, "registration succeeds")
	}
	first := ""
	for _, kind := range []int{hlp.JSONList, hlp.RPCList, hlp.InProcess} {
		for _, id := range ids(kind, len(l)) {
			if first == "" {
				first = id
			}
			sym.Assert(id == first, "metrics share a group id exactly when they share a group")
		}
	}
	sym.Reach("kinds")
}
