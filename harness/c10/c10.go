// Package c10: concurrent registration, removal and listing keep the tree consistent.
package c10

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// Lists serve as metrics here: reading them involves no group, so that only the
// registry's own synchronisation is explored (groups are C12's).
func metric(v int64) *tricorder.List { return tricorder.NewList([]int64{v}, true) }

// listed returns how often the path is in the listing, and checks the listing itself.
func listed(l messages.MetricList, path string, val int64) int {
	n := 0
	for i, m := range l {
		sym.Assert(i == 0 || hlp.Less(hlp.Split(l[i-1].Path), hlp.Split(m.Path)), "a listing is ordered and has no metric twice")
		if m.Path == path {
			v, ok := m.Value.([]int64)
			sym.Assert(ok && len(v) == 1 && v[0] == val, "a listed metric is one that was registered")
			n++
		}
	}
	return n
}

// CheckSamePath: registrations of arbitrary, possibly equal paths race with each other and a listing.
//
//sym:bound two goroutines each registering a metric of 1..2 components (directories in common or not, names arbitrary) and looking it up, one goroutine listing; every schedule
func CheckSamePath() {
	p := [2]string{}
	comps := [2][]string{}
	for i := range p {
		comps[i] = []string{"q"}
		for j := 0; j <= sym.Choose("depth"+hlp.Num(i), 2); j++ {
			comps[i] = append(comps[i], hlp.Name("n"+hlp.Num(i)+hlp.Num(j)))
		}
		p[i] = hlp.Join(comps[i])
	}
	v := [2]int64{10, 20}
	lv := [2]*tricorder.List{metric(10), metric(20)}
	var err [2]error
	var own [2]messages.MetricList
	reg := func(i int) func() {
		return func() {
			err[i] = tricorder.RegisterMetric(p[i], lv[i], units.None, "d")
			if err[i] == nil {
				own[i] = tricorder.ReadMyMetrics(p[i])
			}
		}
	}
	var seen messages.MetricList
	sym.Concurrent(reg(0), reg(1), func() { seen = tricorder.ReadMyMetrics("/q") })
	conflict := hlp.Prefix(comps[0], comps[1]) || hlp.Prefix(comps[1], comps[0])
	for i := range err {
		sym.Assert(err[i] == nil || err[i] == tricorder.ErrPathInUse, "a registration succeeds or finds its path in use")
		if err[i] == nil {
			sym.Assert(listed(own[i], p[i], v[i]) == 1, "a metric whose registration has returned is found")
		}
	}
	sym.Assert(err[0] == nil || err[1] == nil, "one registration succeeds")
	sym.Assert((err[0] == nil && err[1] == nil) == !conflict, "both succeed exactly when their paths do not conflict")
	for i := range err {
		if err[i] == nil {
			sym.Assert(listed(tricorder.ReadMyMetrics("/q"), p[i], v[i]) == 1, "a registered metric is listed in the end")
			sym.Assert(listed(seen, p[i], v[i]) <= 1, "a listing has no metric twice")
		}
	}
	n := 0
	for i := range err {
		if err[i] == nil {
			n++
		}
	}
	sym.Assert(len(tricorder.ReadMyMetrics("/q")) == n && len(seen) <= n, "nothing else is listed")
	if conflict {
		sym.Reach("conflict")
	} else {
		sym.Reach("no conflict")
	}
}

// CheckThree: three registrations of one path.
//
//sym:bound three goroutines registering the same arbitrary path of 2 components in different groups; every schedule
func CheckThree() {
	p := "/q/" + hlp.Name("a") + "/" + hlp.Name("b")
	v := [3]int64{1, 2, 3}
	lv := [3]*tricorder.List{metric(1), metric(2), metric(3)}
	var ok [3]bool
	reg := func(i int) func() {
		return func() { ok[i] = tricorder.RegisterMetric(p, lv[i], units.None, "d") == nil }
	}
	sym.Concurrent(reg(0), reg(1), reg(2))
	n, win := 0, 0
	for i := range ok {
		if ok[i] {
			n++
			win = i
		}
	}
	sym.Assert(n == 1, "exactly one registration of a path succeeds")
	sym.Assert(listed(tricorder.ReadMyMetrics(p), p, v[win]) == 1, "the winner is reported")
	sym.Reach("three")
}

// CheckUnregister: registering below a directory races with unregistering it.
//
//sym:bound one goroutine registering two metrics below an arbitrary directory, one unregistering the directory by path or handle and registering another metric there, one listing; every schedule
func CheckUnregister() {
	dn := hlp.Name("d")
	d, _ := tricorder.RegisterDirectory("/q/" + dn)
	how := sym.Choose("how", 3)
	a, b, c, keep := metric(1), metric(2), metric(3), metric(4)
	hlp.Must("/q/keep/er", keep)
	pre := "/q/" + dn + "/"
	var ea, eb, ec error
	var l messages.MetricList
	sym.Concurrent(
		func() {
			if how == 2 {
				ea = d.RegisterMetric("a", a, units.None, "d")
			} else {
				ea = tricorder.RegisterMetric(pre+"a", a, units.None, "d")
			}
			eb = tricorder.RegisterMetric(pre+"b", b, units.None, "d")
		},
		func() {
			if how == 0 {
				tricorder.UnregisterPath("/q/" + dn)
			} else {
				d.UnregisterDirectory()
			}
			ec = tricorder.RegisterMetric(pre+"c", c, units.None, "d")
			sym.Assert(len(tricorder.ReadMyMetrics(pre+"c")) == 1, "a metric whose registration has returned is found")
		},
		func() { l = tricorder.ReadMyMetrics("/q") })
	sym.Assert(ea == nil && eb == nil && ec == nil, "registering a free path succeeds")
	sym.Assert(listed(l, "/q/keep/er", 4) == 1, "an unrelated metric is in every listing")
	sym.Assert(listed(l, pre+"a", 1) <= 1 && listed(l, pre+"b", 2) <= 1 && listed(l, pre+"c", 3) <= 1 && len(l) <= 4, "a listing has no metric twice")
	end := tricorder.ReadMyMetrics("/q")
	sym.Assert(listed(end, "/q/keep/er", 4) == 1 && listed(end, pre+"c", 3) == 1, "metrics not unregistered stay")
	na, nb := listed(end, pre+"a", 1), listed(end, pre+"b", 2)
	sym.Assert(len(end) == 2+na+nb, "nothing else is listed")
	if na+nb == 2 {
		sym.Reach("both stay")
	}
	if na+nb == 0 {
		sym.Reach("both go")
	}
	sym.Reach("unregister")
}

// CheckDirectories: concurrent RegisterDirectory and GetDirectory.
//
//sym:bound two goroutines registering directories of 2 arbitrary components and a metric in each, one looking them up; every schedule
func CheckDirectories() {
	a1, a2 := hlp.Name("a1"), hlp.Name("a2")
	b1, b2 := hlp.Name("b1"), hlp.Name("b2")
	lv := [2]*tricorder.List{metric(5), metric(6)}
	var d [2]*tricorder.DirectorySpec
	var e [2]error
	mk := func(i int, p string) func() {
		return func() {
			var err error
			d[i], err = tricorder.RegisterDirectory(p)
			sym.Assert(err == nil && d[i] != nil, "a directory can be registered")
			e[i] = d[i].RegisterMetric("m"+hlp.Num(i), lv[i], units.None, "d")
		}
	}
	pa, pb := "/q/"+a1+"/"+a2, "/q/"+b1+"/"+b2
	var g *tricorder.DirectorySpec
	var ge error
	sym.Concurrent(mk(0, pa), mk(1, pb), func() { g, ge = tricorder.GetDirectory(pa) })
	sym.Assert(ge == nil && g == d[0] || ge == tricorder.ErrNotFound, "GetDirectory finds the directory or not yet")
	sym.Assert(e[0] == nil && e[1] == nil, "metrics register through the handles")
	sym.Assert((d[0] == d[1]) == (pa == pb), "one path is one directory")
	sym.Assert(listed(tricorder.ReadMyMetrics("/q"), pa+"/m0", 5) == 1 && listed(tricorder.ReadMyMetrics("/q"), pb+"/m1", 6) == 1, "what was registered through a handle is listed")
	if pa == pb {
		sym.Reach("same directory")
	} else {
		sym.Reach("different directories")
	}
}

// CheckKinds: distributions, lists and groups created and registered concurrently.
//
//sym:bound one goroutine creating a group and a list, one creating a distribution, each registering them, one listing; every schedule
func CheckKinds() {
	var l messages.MetricList
	x := int64(3)
	sym.Concurrent(
		func() {
			g := tricorder.NewGroup()
			sym.Assert(g.RegisterMetric("/q/x", &x, units.None, "d") == nil, "registration succeeds")
			sym.Assert(tricorder.RegisterMetric("/q/l", tricorder.NewList([]int{1}, true), units.None, "d") == nil, "registration succeeds")
		},
		func() {
			d := tricorder.PowersOfTen.NewCumulativeDistribution()
			sym.Assert(tricorder.RegisterMetric("/q/d", d, units.None, "d") == nil, "registration succeeds")
		},
		func() { l = tricorder.ReadMyMetrics("/q") })
	end := tricorder.ReadMyMetrics("/q")
	sym.Assert(len(end) == 3 && len(l) <= 3, "all three are listed")
	sym.Assert(end[0].GroupId != end[1].GroupId && end[1].GroupId != end[2].GroupId && end[0].GroupId != end[2].GroupId, "group ids differ")
	sym.Reach("kinds")
}

// CheckMetricInTheWay: a registration below a metric races with the removal of the metric.
//
//sym:bound a metric; one goroutine registering a metric or directory below it, one unregistering it and registering a directory, a metric below or a metric in its place (arbitrary names), one listing or looking up; every schedule
func CheckMetricInTheWay() {
	name := hlp.Name("n")
	hlp.Must("/q/a", metric(1))
	hlp.Must("/q/z", metric(9))
	what, then, look := sym.Choose("what", 2), sym.Choose("then", 3), sym.Choose("look", 2)
	x, y := metric(2), metric(3)
	var ex, ey error
	var l messages.MetricList
	sym.Concurrent(
		func() {
			if what == 0 {
				ex = tricorder.RegisterMetric("/q/a/b", x, units.None, "d")
			} else {
				_, ex = tricorder.RegisterDirectory("/q/a/b")
			}
		},
		func() {
			tricorder.UnregisterPath("/q/a")
			switch then {
			case 0:
				_, ey = tricorder.RegisterDirectory("/q/a/" + name)
			case 1:
				ey = tricorder.RegisterMetric("/q/a/"+name, y, units.None, "d")
			default:
				ey = tricorder.RegisterMetric("/q/a", y, units.None, "d")
			}
		},
		func() {
			if look == 0 {
				l = tricorder.ReadMyMetrics("/q")
			} else {
				tricorder.GetDirectory("/q/a/b")
				l = tricorder.ReadMyMetrics("/q/z")
			}
		})
	sym.Assert(ex == nil || ex == tricorder.ErrPathInUse, "a registration succeeds or finds its path in use")
	sym.Assert(ey == nil || ey == tricorder.ErrPathInUse, "a registration succeeds or finds its path in use")
	sym.Assert(ex != nil || ey != nil || then != 2, "one of two conflicting registrations fails")
	sym.Assert(ey == nil || ex == nil, "a registration fails only for one in its way")
	sym.Assert(listed(l, "/q/z", 9) == 1, "an unrelated metric is in every listing")
	want := 1
	if ex == nil && what == 0 {
		want++
	}
	if ey == nil && then != 0 {
		want++
	}
	sym.Assert(len(tricorder.ReadMyMetrics("/q")) == want, "exactly what was registered is listed in the end")
	if ex == nil {
		sym.Reach("registered below")
	} else {
		sym.Reach("in the way")
	}
}

// CheckStaleHandle: a directory is unregistered by two goroutines and registered anew by one.
//
//sym:bound a directory at an arbitrary path with a metric in it; one goroutine unregistering it through its handle, one unregistering it by path or handle and registering a metric, a directory or a metric below there, one listing; every schedule
func CheckStaleHandle() {
	dn := hlp.Name("d")
	dir := "/q/" + dn
	d, _ := tricorder.RegisterDirectory(dir)
	sym.Assert(d.RegisterMetric("old", metric(1), units.None, "d") == nil, "a free path can be registered")
	c := metric(3)
	byPath, what := sym.Choose("by", 2) == 0, sym.Choose("what", 3)
	where := []string{dir, dir + "/c", dir + "/old"}[what]
	var l messages.MetricList
	var err error
	sym.Concurrent(
		func() { d.UnregisterDirectory() },
		func() {
			if byPath {
				tricorder.UnregisterPath(dir)
			} else {
				d.UnregisterDirectory()
			}
			err = tricorder.RegisterMetric(where, c, units.None, "d")
			sym.Assert(listed(tricorder.ReadMyMetrics("/q"), where, 3) == 1, "a metric whose registration has returned is found by every later lookup")
		},
		func() { l = tricorder.ReadMyMetrics("/q") })
	sym.Assert(err == nil, "registering a free path succeeds")
	sym.Assert(len(l) <= 1, "a listing has no metric twice")
	end := tricorder.ReadMyMetrics("/q")
	sym.Assert(len(end) == 1 && listed(end, where, 3) == 1, "a metric whose registration has returned is found by every later lookup")
	sym.Reach("stale handle")
}
