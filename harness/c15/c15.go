// Package c15: converting a metric to JSON form and back loses nothing.
package c15

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

var timeUnits = []units.Unit{units.Second, units.Millisecond, units.None, units.Unknown}

// decimal requires an optional minus, a whole number, a point and nine digits.
func decimal(v interface{}) {
	s, ok := v.(string)
	sym.Assert(ok, "JSON times and durations are strings")
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	n := 0
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n++
	}
	sym.Assert(n > 0 && i < len(s) && s[i] == '.' && len(s) == i+10, "JSON times and durations are decimal numbers with nine fractional digits")
	for i++; i < len(s); i++ {
		sym.Assert(s[i] >= '0' && s[i] <= '9', "JSON times and durations are decimal numbers with nine fractional digits")
	}
}

// someTime is a time within 10^secDigits seconds of the epoch, other than the zero time.
func someTime(name string, secDigits int) time.Time {
	sec := int64(sym.Digits(name+"s", secDigits))
	switch sym.Choose(name+"sign", 3) {
	case 1:
		sym.Assume(sec != 62135596800)
		return time.Unix(-sec, 0)
	case 2:
		ns := int64(sym.Digits(name+"ns", 9))
		sym.Assume(ns > 0)
		return time.Unix(-sec, -ns)
	}
	return time.Unix(sec, int64(sym.Digits(name+"ns", 9)))
}

// roundTrip converts and checks all but the value; jsonKind/jsonSub are the kinds expected in JSON form.
func roundTrip(m messages.Metric, jsonKind, jsonSub types.Type, inJson func(v interface{})) messages.Metric {
	orig := m
	m.ConvertToJson()
	sym.Assert(m.Kind == jsonKind && m.SubType == jsonSub, "the JSON kinds are time and duration")
	sym.Assert(m.Path == orig.Path && m.Description == orig.Description && m.Unit == orig.Unit && m.Bits == orig.Bits && m.GroupId == orig.GroupId, "the other fields are unchanged")
	if orig.TimeStamp == nil {
		sym.Assert(m.TimeStamp == interface{}(""), "no timestamp becomes the empty string")
	} else {
		decimal(m.TimeStamp)
	}
	inJson(m.Value)
	again := m
	again.ConvertToJson()
	sym.Assert(again.Kind == m.Kind && again.SubType == m.SubType && again.Unit == m.Unit, "converting twice equals converting once")
	sym.Assert(again.TimeStamp == m.TimeStamp, "converting twice equals converting once")
	inJson(again.Value)
	v2, k2, s2 := messages.AsJsonWithSubType(orig.Value, orig.Kind, orig.SubType, orig.Unit)
	sym.Assert(k2 == jsonKind && s2 == jsonSub, "the JSON kinds are time and duration")
	inJson(v2)
	sym.Assert(m.ConvertToGoRPC() == nil, "what was converted converts back")
	sym.Assert(m.Kind == orig.Kind && m.SubType == orig.SubType, "the kind comes back")
	sym.Assert(m.Path == orig.Path && m.Description == orig.Description && m.Unit == orig.Unit && m.Bits == orig.Bits && m.GroupId == orig.GroupId, "the other fields come back")
	if orig.TimeStamp == nil {
		sym.Assert(m.TimeStamp == nil, "no timestamp comes back as none")
	} else {
		t, ok := m.TimeStamp.(time.Time)
		sym.Assert(ok && t.Equal(orig.TimeStamp.(time.Time)), "the timestamp comes back")
	}
	return m
}

func metric(v interface{}, kind, sub types.Type, unit units.Unit) messages.Metric {
	return messages.Metric{Path: "/" + sym.Str("path", 2), Description: sym.Str("desc", 2), Unit: unit, Kind: kind, SubType: sub,
		Bits: int(sym.Int8("bits")), GroupId: sym.Int("group"), Value: v, TimeStamp: time.Unix(1500000000, 123456789)}
}

func pickUnit() units.Unit { return timeUnits[sym.Choose("unit", len(timeUnits))] }

// CheckDuration: every duration.
//
//sym:bound none on the duration: every one of the 2^64, in seconds, milliseconds and no units
func CheckDuration() {
	d := time.Duration(sym.Int64Digits("d"))
	m := roundTrip(metric(d, types.GoDuration, types.Unknown, pickUnit()), types.Duration, types.Unknown, decimal)
	got, ok := m.Value.(time.Duration)
	sym.Assert(ok && got == d, "the duration comes back to the nanosecond")
	sym.Reach("duration")
}

// CheckTime: times around the epoch.
//
//sym:bound every time within 10^11 seconds (3000 years) of the epoch, to the nanosecond, in seconds, milliseconds and no units
func CheckTime() {
	t := someTime("t", 11)
	m := roundTrip(metric(t, types.GoTime, types.Unknown, pickUnit()), types.Time, types.Unknown, decimal)
	got, ok := m.Value.(time.Time)
	sym.Assert(ok && got.Equal(t), "the time comes back to the nanosecond")
	sym.Reach("time")
}

// CheckZeroTime: the zero time alone becomes the epoch.
func CheckZeroTime() {
	m := roundTrip(metric(time.Time{}, types.GoTime, types.Unknown, pickUnit()), types.Time, types.Unknown, func(v interface{}) {
		sym.Assert(v == interface{}("0.000000000"), "the zero time becomes the epoch")
	})
	got, ok := m.Value.(time.Time)
	sym.Assert(ok && got.Equal(time.Unix(0, 0)), "the zero time becomes the epoch")
	sym.Reach("zero")
}

// CheckTimeStamp: every timestamp.
//
//sym:bound every timestamp within 10^11 seconds of the epoch, the zero time and no timestamp
func CheckTimeStamp() {
	var ts interface{}
	switch sym.Choose("ts", 3) {
	case 0:
		ts = someTime("t", 11)
	case 1:
		ts = time.Time{}
	}
	m := metric(int64(5), types.Int64, types.Unknown, pickUnit())
	m.TimeStamp = ts
	m = roundTrip(m, types.Int64, types.Unknown, func(v interface{}) {
		sym.Assert(v == interface{}(int64(5)), "other values are unchanged")
	})
	sym.Assert(m.Value == interface{}(int64(5)), "other values are unchanged")
	sym.Reach("timestamp")
}

// CheckDurationList: lists of durations.
//
//sym:bound 0..2 arbitrary durations within 10^12 ns, or a nil list, in seconds, milliseconds and no units
func CheckDurationList() {
	n := sym.Choose("n", 4)
	var l []time.Duration
	if n > 0 {
		l = []time.Duration{}
	}
	for i := 1; i < n; i++ {
		d := time.Duration(sym.Digits("d"+hlp.Num(i), 12))
		if sym.Choose("neg"+hlp.Num(i), 2) == 1 {
			d = -d
		}
		l = append(l, d)
	}
	m := roundTrip(metric(l, types.List, types.GoDuration, pickUnit()), types.List, types.Duration, func(v interface{}) {
		s, ok := v.([]string)
		sym.Assert(ok && s != nil && len(s) == len(l), "lists convert element by element, nil lists to empty ones")
		for _, x := range s {
			decimal(x)
		}
	})
	got, ok := m.Value.([]time.Duration)
	sym.Assert(ok && len(got) == len(l), "the list comes back")
	for i := range l {
		sym.Assert(got[i] == l[i], "the list comes back element by element")
	}
	sym.Reach("durations " + hlp.Num(n))
}

// CheckTimeList: lists of times.
//
//sym:bound 0..2 arbitrary times within 10^6 s of the epoch, or a nil list, in seconds, milliseconds and no units
func CheckTimeList() {
	n := sym.Choose("n", 4)
	var l []time.Time
	if n > 0 {
		l = []time.Time{}
	}
	for i := 1; i < n; i++ {
		l = append(l, someTime("t"+hlp.Num(i), 6))
	}
	m := roundTrip(metric(l, types.List, types.GoTime, pickUnit()), types.List, types.Time, func(v interface{}) {
		s, ok := v.([]string)
		sym.Assert(ok && s != nil && len(s) == len(l), "lists convert element by element, nil lists to empty ones")
		for _, x := range s {
			decimal(x)
		}
	})
	got, ok := m.Value.([]time.Time)
	sym.Assert(ok && len(got) == len(l), "the list comes back")
	for i := range l {
		sym.Assert(got[i].Equal(l[i]), "the list comes back element by element")
	}
	sym.Reach("times " + hlp.Num(n))
}

// CheckScalars: kinds that need no conversion.
//
//sym:bound every other scalar kind with arbitrary value (floats: fixed values; strings: 2 bytes), distributions by identity
func CheckScalars() {
	d := &messages.Distribution{Count: 3, Sum: 1.5}
	vals := []interface{}{sym.Bool("b"), sym.Int8("i8"), sym.Int16("i16"), sym.Int32("i32"), sym.Int64("i64"), sym.Uint8("u8"), sym.Uint16("u16"), sym.Uint32("u32"), sym.Uint64("u64"),
		float32(1.5), -2.25, sym.Str("s", 2), d}
	kinds := []types.Type{types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64,
		types.Float32, types.Float64, types.String, types.Dist}
	i := sym.Choose("kind", len(kinds))
	m := roundTrip(metric(vals[i], kinds[i], types.Unknown, units.Celsius), kinds[i], types.Unknown, func(v interface{}) {
		sym.Assert(v == vals[i], "other values are unchanged")
	})
	sym.Assert(m.Value == vals[i], "other values are unchanged")
	sym.Reach("scalar")
}

// CheckLists: lists that need no conversion, nil and not.
//
//sym:bound lists of every other kind: nil, empty, and one element with arbitrary value
func CheckLists() {
	vals := [][]interface{}{
		{[]bool(nil), []bool{}, []bool{sym.Bool("b")}},
		{[]int8(nil), []int8{}, []int8{sym.Int8("i8")}},
		{[]int16(nil), []int16{}, []int16{sym.Int16("i16")}},
		{[]int32(nil), []int32{}, []int32{sym.Int32("i32")}},
		{[]int64(nil), []int64{}, []int64{sym.Int64("i64")}},
		{[]uint8(nil), []uint8{}, []uint8{sym.Uint8("u8")}},
		{[]uint16(nil), []uint16{}, []uint16{sym.Uint16("u16")}},
		{[]uint32(nil), []uint32{}, []uint32{sym.Uint32("u32")}},
		{[]uint64(nil), []uint64{}, []uint64{sym.Uint64("u64")}},
		{[]float32(nil), []float32{}, []float32{1.5}},
		{[]float64(nil), []float64{}, []float64{2.5}},
		{[]string(nil), []string{}, []string{sym.Str("s", 2)}},
	}
	kinds := []types.Type{types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String}
	i, j := sym.Choose("kind", len(kinds)), sym.Choose("len", 3)
	same := func(v interface{}, notNil bool) {
		k, s := types.FromGoValueWithSubType(v)
		sym.Assert(k == types.List && s == kinds[i], "a list keeps its element type")
		n, isNil := length(v)
		sym.Assert(n == j/2 && !(notNil && isNil), "nil lists become empty ones, others keep their length")
		if j == 2 {
			sym.Assert(first(v) == first(vals[i][j]), "a list keeps its elements")
		}
	}
	m := roundTrip(metric(vals[i][j], types.List, kinds[i], units.None), types.List, kinds[i], func(v interface{}) { same(v, true) })
	same(m.Value, false)
	sym.Reach("list " + hlp.Num(j))
}

func length(v interface{}) (int, bool) {
	switch x := v.(type) {
	case []bool:
		return len(x), x == nil
	case []int8:
		return len(x), x == nil
	case []int16:
		return len(x), x == nil
	case []int32:
		return len(x), x == nil
	case []int64:
		return len(x), x == nil
	case []uint8:
		return len(x), x == nil
	case []uint16:
		return len(x), x == nil
	case []uint32:
		return len(x), x == nil
	case []uint64:
		return len(x), x == nil
	case []float32:
		return len(x), x == nil
	case []float64:
		return len(x), x == nil
	case []string:
		return len(x), x == nil
	}
	return -1, true
}

func first(v interface{}) interface{} {
	switch x := v.(type) {
	case []bool:
		return x[0]
	case []int8:
		return x[0]
	case []int16:
		return x[0]
	case []int32:
		return x[0]
	case []int64:
		return x[0]
	case []uint8:
		return x[0]
	case []uint16:
		return x[0]
	case []uint32:
		return x[0]
	case []uint64:
		return x[0]
	case []float32:
		return x[0]
	case []float64:
		return x[0]
	case []string:
		return x[0]
	}
	return nil
}

// CheckWideLists: lists of one element over the full range.
//
//sym:bound one duration of up to 18 digits of ns, or one time within 10^11 seconds of the epoch, in seconds, milliseconds and no units
func CheckWideLists() {
	unit := pickUnit()
	if sym.Choose("kind", 2) == 0 {
		d := time.Duration(sym.Digits("d", 18))
		if sym.Choose("neg", 2) == 1 {
			d = -d
		}
		m := roundTrip(metric([]time.Duration{d}, types.List, types.GoDuration, unit), types.List, types.Duration, func(v interface{}) {
			s, ok := v.([]string)
			sym.Assert(ok && len(s) == 1, "lists convert element by element")
			decimal(s[0])
		})
		got, ok := m.Value.([]time.Duration)
		sym.Assert(ok && len(got) == 1 && got[0] == d, "the list comes back element by element")
		sym.Reach("wide durations")
		return
	}
	t := someTime("t", 11)
	m := roundTrip(metric([]time.Time{t}, types.List, types.GoTime, unit), types.List, types.Time, func(v interface{}) {
		s, ok := v.([]string)
		sym.Assert(ok && len(s) == 1, "lists convert element by element")
		decimal(s[0])
	})
	got, ok := m.Value.([]time.Time)
	sym.Assert(ok && len(got) == 1 && got[0].Equal(t), "the list comes back element by element")
	sym.Reach("wide times")
}

// CheckLongLists: lists of many elements.
//
//sym:bound 9, 17, 33, 65, 129 or 257 durations or times, fixed but for one of 3 digits at the start, in the middle or at the end
func CheckLongLists() {
	n := []int{9, 17, 33, 65, 129, 257}[sym.Choose("n", 6)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := int64(sym.Digits("x", 3))
	var ds []time.Duration
	var ts []time.Time
	for i := 0; i < n; i++ {
		v := int64(i*7919 - 500)
		if i == at {
			v = x
		}
		ds = append(ds, time.Duration(v))
		ts = append(ts, time.Unix(int64(i), v+500))
	}
	unit := pickUnit()
	if sym.Choose("kind", 2) == 0 {
		m := roundTrip(metric(ds, types.List, types.GoDuration, unit), types.List, types.Duration, func(v interface{}) {
			s, ok := v.([]string)
			sym.Assert(ok && len(s) == n, "lists convert element by element")
		})
		got, ok := m.Value.([]time.Duration)
		sym.Assert(ok && len(got) == n, "the list comes back")
		for i := range got {
			sym.Assert(got[i] == ds[i], "the list comes back element by element")
		}
		sym.Reach("many durations")
		return
	}
	m := roundTrip(metric(ts, types.List, types.GoTime, unit), types.List, types.Time, func(v interface{}) {
		s, ok := v.([]string)
		sym.Assert(ok && len(s) == n, "lists convert element by element")
	})
	got, ok := m.Value.([]time.Time)
	sym.Assert(ok && len(got) == n, "the list comes back")
	for i := range got {
		sym.Assert(got[i].Equal(ts[i]), "the list comes back element by element")
	}
	sym.Reach("many times")
}
