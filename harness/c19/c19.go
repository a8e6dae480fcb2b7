// Package c19: pretty-printed durations denote the duration they show.
package c19

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// suffix reports whether s[i:] starts with suf and what comes after is a space or the end.
func suffix(s string, i int, suf string) bool {
	return i+len(suf) <= len(s) && s[i:i+len(suf)] == suf && (i+len(suf) == len(s) || s[i+len(suf)] == ' ')
}

// denotes requires that s is the documented form of the given non-negative duration.
func denotes(s string, sec uint64, ns uint64) {
	if sec == 0 {
		v, i := hlp.Num64(s, 0)
		sym.Assert(i > 0 && (i == 1 || s[0] != '0'), "a plain number")
		switch {
		case s[i:] == "ns":
			sym.Assert(v == ns, "nanoseconds are exact")
			sym.Reach("ns")
		case s[i:] == "μs":
			sym.Assert(v == ns/1000, "microseconds are truncated")
			sym.Reach("us")
		case s[i:] == "ms":
			sym.Assert(v == ns/1000000, "milliseconds are truncated")
			sym.Reach("ms")
		default:
			sym.Assert(false, "below a second: ns, μs or ms")
		}
		return
	}
	var d, h, m, w uint64
	i, parts := 0, 0
	number := func(suf string) (uint64, bool) {
		v, j := hlp.Num64(s, i)
		if j > i && suffix(s, j, suf) {
			sym.Assert(j == i+1 || s[i] != '0', "a plain number")
			i = j + len(suf) + 1
			parts++
			return v, true
		}
		return 0, false
	}
	d, hasD := number("d")
	h, hasH := number("h")
	m, hasM := number("m")
	w, j := hlp.Num64(s, i)
	sym.Assert(j > i && (j == i+1 || s[i] != '0'), "the seconds come last")
	milli := s[j] == '.'
	if milli {
		f, k := hlp.Num64(s, j+1)
		sym.Assert(k == j+4 && s[k:] == "s", "three decimals")
		sym.Assert(f == ns/1000000, "the decimals are the milliseconds")
	} else {
		sym.Assert(s[j:] == "s", "whole seconds")
	}
	sym.Assert(w < 60 && m < 60 && h < 24, "the parts are within their ranges")
	sym.Assert(milli == (sec < 3600), "milliseconds are shown below an hour")
	sym.Assert(hasM == (sec >= 60) && hasH == (sec >= 3600) && hasD == (sec >= 86400), "exactly the parts needed are shown")
	sym.Assert(d*86400+h*3600+m*60+w == sec, "the parts add up to the whole seconds")
	sym.Reach("parts " + hlp.Num(parts))
}

// CheckBelowSecond: every duration below a second.
//
//sym:bound none: every nanosecond count below 10^9
func CheckBelowSecond() {
	ns := sym.Digits("ns", 9)
	s := duration.Duration{Nanoseconds: int32(ns)}.PrettyFormat()
	sym.Observe("text", s)
	denotes(s, 0, ns)
}

// CheckSeconds: durations from a second on.
//
//sym:bound every number of days below 10^14 (of the 1.07*10^14 an int64 of seconds can hold), every second of the day, every nanosecond
func CheckSeconds() {
	sec := sym.Digits("day", 14)*86400 + uint64(sym.IntRange("ofday", 0, 86399))
	sym.Assume(sec > 0)
	ns := sym.Digits("ns", 9)
	s := duration.Duration{Seconds: int64(sec), Nanoseconds: int32(ns)}.PrettyFormat()
	sym.Observe("text", s)
	denotes(s, sec, ns)
}

// CheckNew: the text of a Go duration.
//
//sym:bound every time.Duration up to 10^5 seconds given in digits
func CheckNew() {
	x := sym.Digits("ns", 14)
	s := duration.New(time.Duration(x)).PrettyFormat()
	sym.Observe("text", s)
	denotes(s, x/1000000000, x%1000000000)
}

var theUnits = []units.Unit{units.Second, units.Millisecond, units.None}

// CheckPage: a duration metric on the HTML page.
//
//sym:bound every non-negative time.Duration below 10^14 ns, variable or callback, in seconds, milliseconds and no unit
func CheckPage() {
	d := time.Duration(sym.Digits("ns", 14))
	register(&d)
	s := hlp.Shown("/d")
	sym.Observe("text", s)
	denotes(s, uint64(d)/1000000000, uint64(d)%1000000000)
}

func register(d *time.Duration) {
	u := theUnits[sym.Choose("unit", len(theUnits))]
	if sym.Choose("how", 2) == 0 {
		hlp.MustUnit("/d", d, u, "x")
	} else {
		hlp.MustUnit("/d", func() time.Duration { return *d }, u, "x")
	}
}

// CheckNegativePage: negative durations are shown as plain signed numbers.
//
//sym:bound every negative time.Duration, in seconds, milliseconds and no unit
func CheckNegativePage() {
	x := sym.Int64Digits("ns")
	sym.Assume(x < 0)
	d := time.Duration(x)
	u := theUnits[sym.Choose("unit", len(theUnits))]
	hlp.MustUnit("/d", &d, u, "x")
	s := hlp.Shown("/d")
	sym.Observe("text", s)
	per, scale := uint64(1000000000), uint64(1)
	if u == units.Millisecond {
		per, scale = 1000000, 1000
	}
	mag := -uint64(x)
	sym.Assert(s[0] == '-', "a minus sign")
	w, i := hlp.Num64(s, 1)
	sym.Assert(i > 1 && s[i] == '.', "a decimal point")
	f, j := hlp.Num64(s, i+1)
	sym.Assert(j == len(s) && j == i+10, "nine decimals")
	sym.Assert(w == mag/per && f == mag%per*scale, "a negative duration is shown as the signed decimal number")
	sym.Reach("negative")
}

// CheckList: durations in a list on the page.
//
//sym:bound lists of one or two durations of up to 10 digits of ns
func CheckList() {
	n := 1 + sym.Choose("n", 2)
	var l []time.Duration
	for i := 0; i < n; i++ {
		l = append(l, time.Duration(sym.Digits("d"+hlp.Num(i), 10)))
	}
	hlp.MustUnit("/l", tricorder.NewList(l, true), units.Second, "x")
	items := hlp.Items(hlp.Ask(hlp.HTML, "/l").Body)
	sym.Assert(len(items) == n, "one item for each element")
	for i, s := range items {
		denotes(s, uint64(l[i])/1000000000, uint64(l[i])%1000000000)
	}
	sym.Reach("list")
}
