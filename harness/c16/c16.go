// Package c16: malformed JSON metrics are rejected without panic and without partial change.
package c16

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

var kinds = []types.Type{types.Unknown, types.Bool, types.Int64, types.Float64, types.String, types.Dist, types.List, types.Time, types.Duration, types.GoTime, types.GoDuration, "nonsense"}

type odd struct{ a int }

// values: what may stand in the value or timestamp field.
func values() []interface{} {
	return []interface{}{nil, true, int8(1), int(2), int64(3), uint64(4), float32(1.5), 2.5, "1.500000000", "", "x", "1.x", "-3", "1e9",
		[]string{"1.0", "2.5"}, []string{"1.0", "y"}, []string(nil), []string{}, []interface{}{"1.0"}, []int64{1}, []time.Duration{1}, []time.Time{time.Unix(1, 0)},
		time.Unix(9, 9), time.Duration(5), &odd{1}, odd{2}, &messages.Distribution{Count: 1}}
}

// number reports whether s is an optionally signed decimal number.
func number(s string) bool {
	i := 0
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		i++
	}
	start := i
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
	}
	if i == start {
		return false
	}
	if i < len(s) && s[i] == '.' {
		for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		}
	}
	return i == len(s)
}

// fits reports whether value and kinds fit together in a metric from JSON.
func fits(v interface{}, kind, sub types.Type) bool {
	switch {
	case kind == types.Time || kind == types.Duration:
		s, ok := v.(string)
		return ok && number(s)
	case kind == types.List && (sub == types.Time || sub == types.Duration):
		l, ok := v.([]string)
		for _, s := range l {
			ok = ok && number(s)
		}
		return ok
	}
	return true
}

func stampFits(ts interface{}) bool {
	switch x := ts.(type) {
	case nil, time.Time:
		return true
	case string:
		return x == "" || number(x)
	}
	return false
}

// same is identity of what the two interfaces hold, also if it cannot be compared with ==.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case []string:
		y, ok := b.([]string)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case []interface{}:
		y, ok := b.([]interface{})
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case []int64:
		y, ok := b.([]int64)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case []time.Duration:
		y, ok := b.([]time.Duration)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case []time.Time:
		y, ok := b.([]time.Time)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	}
	return a == b
}

// convert converts the metric and checks the outcome.
func convert(m messages.Metric) {
	orig := m
	var err error
	sym.Assert(!sym.Panics(func() { err = m.ConvertToGoRPC() }), "conversion never panics")
	ok := fits(orig.Value, orig.Kind, orig.SubType) && stampFits(orig.TimeStamp)
	sym.Assert((err == nil) == ok, "an error is returned exactly when value, kinds and timestamp do not fit together")
	sym.Assert(m.Path == orig.Path && m.Description == orig.Description && m.Unit == orig.Unit && m.Bits == orig.Bits && m.GroupId == orig.GroupId, "the other fields never change")
	if err != nil {
		sym.Assert(m.Kind == orig.Kind && m.SubType == orig.SubType, "a rejected metric is left as it was: kind")
		sym.Assert(same(m.Value, orig.Value), "a rejected metric is left as it was: value")
		sym.Assert(same(m.TimeStamp, orig.TimeStamp), "a rejected metric is left as it was: timestamp")
		sym.Reach("rejected")
		return
	}
	switch {
	case orig.Kind == types.Time:
		_, is := m.Value.(time.Time)
		sym.Assert(is && m.Kind == types.GoTime, "a time is converted")
	case orig.Kind == types.Duration:
		_, is := m.Value.(time.Duration)
		sym.Assert(is && m.Kind == types.GoDuration, "a duration is converted")
	case orig.Kind == types.List && orig.SubType == types.Time:
		l, is := m.Value.([]time.Time)
		sym.Assert(is && len(l) == len(orig.Value.([]string)) && m.SubType == types.GoTime && m.Kind == types.List, "a list of times is converted")
	case orig.Kind == types.List && orig.SubType == types.Duration:
		l, is := m.Value.([]time.Duration)
		sym.Assert(is && len(l) == len(orig.Value.([]string)) && m.SubType == types.GoDuration && m.Kind == types.List, "a list of durations is converted")
	default:
		sym.Assert(m.Kind == orig.Kind && same(m.Value, orig.Value), "kinds that need no conversion pass through unchanged")
		sym.Assert(orig.Kind != types.List || m.SubType == orig.SubType, "kinds that need no conversion pass through unchanged")
	}
	switch x := orig.TimeStamp.(type) {
	case nil:
		sym.Assert(m.TimeStamp == nil, "no timestamp stays none")
	case string:
		_, is := m.TimeStamp.(time.Time)
		sym.Assert(is == (x != "") && (is || m.TimeStamp == nil), "a timestamp is converted")
	case time.Time:
		sym.Assert(m.TimeStamp == interface{}(x), "a converted timestamp stays")
	}
	sym.Reach("converted")
}

func metric(v, ts interface{}, kind, sub types.Type) messages.Metric {
	return messages.Metric{Path: "/p", Description: "d", Unit: []units.Unit{units.Second, units.Millisecond, units.None}[sym.Choose("unit", 3)], Kind: kind, SubType: sub, Bits: 7, GroupId: 9, Value: v, TimeStamp: ts}
}

// CheckValues: every kind with every type of value.
//
//sym:bound 12 kinds (known and unknown), lists with each as sub-type, 28 values of different Go types, good and bad timestamps
func CheckValues() {
	k := sym.Choose("kind", len(kinds))
	sub := types.Unknown
	if kinds[k] == types.List || sym.Choose("withsub", 2) == 1 {
		sub = kinds[sym.Choose("sub", len(kinds))]
	}
	v := values()
	ts := []interface{}{"1500000000.5", "1.2.3"}[sym.Choose("stamp", 2)]
	convert(metric(v[sym.Choose("value", len(v))], ts, kinds[k], sub))
}

// CheckStamps: every type of timestamp.
//
//sym:bound 28 timestamps of different Go types with convertible values
func CheckStamps() {
	v := values()
	ts := v[sym.Choose("stamp", len(v))]
	convert(metric([]interface{}{"1.5", int64(3), "zz"}[sym.Choose("value", 3)], ts, []types.Type{types.Time, types.Duration, types.Int64}[sym.Choose("kind", 3)], types.Unknown))
}

// CheckText: arbitrary text for a time or duration.
//
//sym:bound every ASCII text of up to 3 characters as value of times, durations and list elements
func CheckText() { text(3) }

// CheckLongerText is CheckText with longer text.
//
//sym:opt tier=thorough
//sym:bound every ASCII text of up to 5 characters as value of times, durations and list elements
func CheckLongerText() { text(5) }

func ascii(name string, max int) string {
	s := sym.Str(name, sym.Choose(name+"len", max+1))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func text(n int) { place(ascii("text", n)) }

// CheckTail: text after a number with many digits.
//
//sym:bound a sign or none, 1 or 16 digits, no point or a point and 0, 9 or 12 digits, then any ASCII text of up to 2 characters, as value of times, durations, list elements and timestamp
func CheckTail() {
	d := "12345678901234567890"
	s := []string{"", "-", "+"}[sym.Choose("sign", 3)] + d[:[]int{1, 16}[sym.Choose("whole", 2)]]
	if sym.Choose("point", 2) == 1 {
		s += "." + d[:[]int{0, 9, 12}[sym.Choose("frac", 3)]]
	}
	place(s + ascii("tail", 2))
}

func place(s string) {
	switch sym.Choose("where", 4) {
	case 0:
		convert(metric(s, "", types.Time, types.Unknown))
	case 1:
		convert(metric(s, nil, types.Duration, types.Unknown))
	case 2:
		l := []string{"1.5", s}
		if sym.Choose("order", 2) == 1 {
			l[0], l[1] = l[1], l[0]
		}
		convert(metric(l, nil, types.List, []types.Type{types.Time, types.Duration}[sym.Choose("sub", 2)]))
	case 3:
		convert(metric(int64(1), s, types.Int64, types.Unknown))
	}
}

// CheckKind: arbitrary kind names.
//
//sym:bound every kind and sub-type name of up to 4 bytes, including the known ones
func CheckKind() {
	k := types.Type(ascii("kind", 4))
	s := types.Type(ascii("sub", 4))
	v := values()
	convert(metric(v[sym.Choose("value", len(v))], nil, k, s))
}

// CheckLongLists: lists of many elements, one of them arbitrary.
//
//sym:bound lists of 3, 9, 17 or 65 times or durations, of which the first, second, middle or last is an arbitrary ASCII text of 0..2 characters
func CheckLongLists() {
	n := []int{3, 9, 17, 65}[sym.Choose("n", 4)]
	at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
	l := make([]string, n)
	for i := range l {
		l[i] = hlp.Num(i) + ".500000000"
	}
	l[at] = ascii("text", 2)
	before := append([]string(nil), l...)
	convert(metric(l, []interface{}{"12.25", "x"}[sym.Choose("stamp", 2)], types.List, []types.Type{types.Time, types.Duration}[sym.Choose("sub", 2)]))
	for i := range l {
		sym.Assert(l[i] == before[i], "the list given is left as it was")
	}
}
