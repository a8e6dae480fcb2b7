// Package c24: list changes are atomic for concurrent readers.
package c24

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// version is what one creation or Change call gave: version k has k+1 elements all starting with v.
type version struct {
	first         int64
	before, after time.Time
}

func slice(k int, first int64) []int64 {
	s := make([]int64, k+1)
	for i := range s {
		s[i] = first + int64(i)
	}
	return s
}

type report struct {
	vals []int64
	ts   time.Time
	ok   bool
}

func seen(m *messages.Metric) report {
	v, ok := m.Value.([]int64)
	ts, ok2 := m.TimeStamp.(time.Time)
	r := report{ts: ts, ok: ok && ok2}
	for _, x := range v {
		r.vals = append(r.vals, x)
	}
	return r
}

// matches checks a report against the versions and returns the one it shows.
func matches(vs []version, r report) int {
	sym.Assert(r.ok, "a list of int64 with a timestamp is reported")
	k := len(r.vals) - 1
	sym.Assert(k >= 0 && k < len(vs), "a report has the length of one of the contents given")
	for i, x := range r.vals {
		sym.Assert(x == vs[k].first+int64(i), "a report shows the complete contents of one call")
	}
	sym.Assert(!r.ts.Before(vs[k].before) && !r.ts.After(vs[k].after), "a report shows the timestamp of the call that gave its contents")
	return k
}

type world struct {
	l  *tricorder.List
	vs []version
}

func start(n int) *world {
	w := &world{vs: make([]version, n)}
	for i := range w.vs {
		w.vs[i].first = sym.Int64("v" + hlp.Num(i))
	}
	w.vs[0].before = time.Now()
	w.l = tricorder.NewList(slice(0, w.vs[0].first), tricorder.MutableSlice)
	w.vs[0].after = time.Now()
	hlp.MustUnit("/l", w.l, units.None, "a list")
	return w
}

// change gives version k, overwriting the caller's slice right after.
func (w *world) change(k int) {
	s := slice(k, w.vs[k].first)
	w.vs[k].before = time.Now()
	w.l.Change(s, tricorder.MutableSlice)
	w.vs[k].after = time.Now()
	s[0]++
}

// CheckReader: one goroutine changes twice, another reads twice.
//
//sym:bound 2 Change calls in one goroutine against 2 in-process reads in another; every element value; every schedule
func CheckReader() {
	w := start(3)
	var r1, r2 report
	sym.Concurrent(
		func() { w.change(1); w.change(2) },
		func() { r1 = seen(hlp.Read("/l")); r2 = seen(hlp.Read("/l")) },
	)
	k1, k2 := matches(w.vs, r1), matches(w.vs, r2)
	sym.Assert(k1 <= k2, "a later read does not go back")
	sym.Assert(matches(w.vs, seen(hlp.Read("/l"))) == 2, "the last contents stay")
	if k1 < k2 {
		sym.Reach("changed between")
	}
	sym.Reach("done")
}

// CheckWriters: two goroutines change, a third reads.
//
//sym:bound one Change call in each of 2 goroutines against a read in a third; every element value; every schedule
func CheckWriters() {
	w := start(3)
	var r report
	sym.Concurrent(
		func() { w.change(1) },
		func() { w.change(2) },
		func() { r = seen(hlp.Read("/l")) },
	)
	k := matches(w.vs, r)
	end := seen(hlp.Read("/l"))
	e := matches(w.vs, end)
	sym.Assert(e > 0, "a Change is never lost altogether")
	sym.Assert(k != e || r.ts.Equal(end.ts), "the same contents always have the same timestamp")
	if k == 1 && e == 2 {
		sym.Reach("1 then 2")
	}
	if k == 2 && e == 1 {
		sym.Reach("2 then 1")
	}
}

// CheckRefused: a Change that panics against a reader and another Change.
//
//sym:bound a refused Change in one goroutine, a Change in another, a read in a third; every schedule
func CheckRefused() {
	w := start(2)
	var r report
	sym.Concurrent(
		func() { sym.Panics(func() { w.l.Change([]string{"a"}, false) }) },
		func() { w.change(1) },
		func() { r = seen(hlp.Read("/l")) },
	)
	matches(w.vs, r)
	sym.Assert(matches(w.vs, seen(hlp.Read("/l"))) == 1, "the last contents stay")
	sym.Reach("done")
}

// CheckForms: the other requests against a Change.
//
//sym:bound a Change of arbitrary one-digit contents against one JSON, text, HTML or RPC request; every schedule
func CheckForms() {
	kind := []int{hlp.RPCList, hlp.RPCGet, hlp.JSONOne, hlp.Text, hlp.HTML}[sym.Choose("request", 5)]
	w := &world{vs: make([]version, 2)}
	w.vs[0].first = sym.IntRange("v0", 0, 8)
	w.vs[1].first = sym.IntRange("v1", 0, 8)
	w.vs[0].before = time.Now()
	w.l = tricorder.NewList(slice(0, w.vs[0].first), tricorder.MutableSlice)
	w.vs[0].after = time.Now()
	hlp.MustUnit("/l", w.l, units.None, "a list")
	var a *hlp.Answer
	sym.Concurrent(
		func() { w.change(1) },
		func() { a = hlp.Ask(kind, "/l") },
	)
	d := func(v int64) string { return string(rune('0' + v)) }
	old := []string{d(w.vs[0].first)}
	new := []string{d(w.vs[1].first), d(w.vs[1].first + 1)}
	var got []string
	switch kind {
	case hlp.RPCList, hlp.RPCGet:
		sym.Assert(len(a.Metrics) == 1, "the metric is found")
		matches(w.vs, seen(a.Metrics[0].Metric))
		sym.Reach("rpc")
		return
	case hlp.JSONOne:
		sym.Assert(len(a.Metrics) == 1, "the metric is found")
		for _, k := range a.Metrics[0].Node.Get("value").Kids {
			got = append(got, k.Text)
		}
	case hlp.Text:
		sym.Assert(len(a.Metrics) == 1, "the metric is found")
		t := a.Metrics[0].Text
		if len(t) == 1 {
			got = []string{t}
		} else {
			sym.Assert(len(t) == 3 && t[1] == '|', "elements are separated by |")
			got = []string{t[:1], t[2:]}
		}
	case hlp.HTML:
		got = hlp.Items(a.Body)
	}
	if len(got) == 1 {
		sym.Assert(got[0] == old[0], "a report shows the complete contents of one call")
		sym.Reach("old")
	} else {
		sym.Assert(len(got) == 2 && got[0] == new[0] && got[1] == new[1], "a report shows the complete contents of one call")
		sym.Reach("new")
	}
}

// CheckSameLength: contents of the same length, told apart by their elements.
//
//sym:bound a list of 1..3 elements, mutable or not; 2 Change calls of equal length in one or two goroutines against 2 reads in another; every element value; every schedule
func CheckSameLength() {
	n := 1 + sym.Choose("length", 3)
	mutable := sym.Choose("mutable", 2) == 0
	base := sym.IntRange("base", -1<<40, 1<<40)
	var vs [3]version
	mk := func(k int) []int64 {
		s := make([]int64, n)
		for i := range s {
			s[i] = base + int64(100*k+i)
		}
		return s
	}
	vs[0].before = time.Now()
	l := tricorder.NewList(mk(0), mutable)
	vs[0].after = time.Now()
	hlp.MustUnit("/l", l, units.None, "a list")
	change := func(k int) {
		s := mk(k)
		vs[k].before = time.Now()
		l.Change(s, mutable)
		vs[k].after = time.Now()
		if mutable {
			s[0]++
		}
	}
	match := func(r report) int {
		sym.Assert(r.ok && len(r.vals) == n, "a report has the length of the contents given")
		k := int(r.vals[0]-base) / 100
		sym.Assert(k >= 0 && k < 3, "a report shows the complete contents of one call")
		for i, x := range r.vals {
			sym.Assert(x == base+int64(100*k+i), "a report shows the complete contents of one call")
		}
		sym.Assert(!r.ts.Before(vs[k].before) && !r.ts.After(vs[k].after), "a report shows the timestamp of the call that gave its contents")
		return k
	}
	var r1, r2 report
	reader := func() { r1 = seen(hlp.Read("/l")); r2 = seen(hlp.Read("/l")) }
	if sym.Choose("writers", 2) == 0 {
		sym.Concurrent(func() { change(1); change(2) }, reader)
		k1, k2 := match(r1), match(r2)
		sym.Assert(k1 <= k2, "a later read does not go back")
		sym.Assert(match(seen(hlp.Read("/l"))) == 2, "the last contents stay")
	} else {
		sym.Concurrent(func() { change(1) }, func() { change(2) }, reader)
		k1, k2 := match(r1), match(r2)
		sym.Assert(k1 == 0 || k2 > 0, "a later read does not go back")
		sym.Assert(match(seen(hlp.Read("/l"))) > 0, "a Change is never lost altogether")
	}
	sym.Reach("same length")
}
