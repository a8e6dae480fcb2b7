// Package c21: float conversion of metric values is faithful and reversible.
package c21

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"vh/sym"
)

const exact = 1 << 53

// CheckInts: integers of every type.
//
//sym:opt float=ieee
//sym:bound every value of the types up to 32 bits, 64-bit values up to 2^53 in size
func CheckInts() {
	switch sym.Choose("type", 8) {
	case 0:
		x := sym.Int8("x")
		back(types.Int8, x, float64(x))
	case 1:
		x := sym.Int16("x")
		back(types.Int16, x, float64(x))
	case 2:
		x := sym.Int32("x")
		back(types.Int32, x, float64(x))
	case 3:
		x := sym.IntRange("x", -exact, exact)
		back(types.Int64, x, float64(x))
	case 4:
		x := sym.Uint8("x")
		back(types.Uint8, x, float64(x))
	case 5:
		x := sym.Uint16("x")
		back(types.Uint16, x, float64(x))
	case 6:
		x := sym.Uint32("x")
		back(types.Uint32, x, float64(x))
	case 7:
		x := uint64(sym.IntRange("x", 0, exact))
		back(types.Uint64, x, float64(x))
	}
}

func back(t types.Type, x interface{}, f float64) {
	sym.Assert(t.CanToFromFloat(), "the type reports conversion")
	got := t.ToFloat(x)
	sym.Assert(got == f, "the float64 of an integer is its value")
	sym.Assert(t.FromFloat(got) == x, "converting to float64 and back gives the value")
	sym.Reach("ints")
}

// CheckFloats: every float32 and float64, infinities and NaNs included.
//
//sym:opt float=ieee
//sym:bound none: all 2^32 float32 and 2^64 float64 values
func CheckFloats() {
	if sym.Choose("type", 2) == 0 {
		x := sym.Float32("x32")
		f := types.Float32.ToFloat(x)
		sym.Assert(f == float64(x) || f != f && x != x, "a float32 is its value as a float64")
		y, ok := types.Float32.FromFloat(f).(float32)
		sym.Assert(ok && (y == x || x != x && y != y), "a float32 comes back")
		sym.Reach("float32")
		return
	}
	x := sym.Float64("x64")
	f := types.Float64.ToFloat(x)
	sym.Assert(f == x || f != f && x != x, "a float64 is itself")
	y, ok := types.Float64.FromFloat(f).(float64)
	sym.Assert(ok && (y == x || x != x && y != y), "a float64 comes back")
	sym.Reach("float64")
}

// nearest requires that r (exactly representable) is f rounded to the nearest integer, halves away from zero.
func nearest(f, r float64) {
	d := f - r // exact
	sym.Assert(d >= -0.5 && d <= 0.5, "a float is rounded to the nearest integer")
	sym.Assert(d != 0.5 || f < 0, "halves are rounded away from zero")
	sym.Assert(d != -0.5 || f > 0, "halves are rounded away from zero")
}

// CheckRoundSmall: floats to integer types up to 32 bits.
//
//sym:opt float=ieee query=60
//sym:bound none: every float64 that rounds into the range of the type, int8 to int32 and uint8 to uint32
func CheckRoundSmall() {
	f := sym.Float64("f")
	switch sym.Choose("type", 6) {
	case 0:
		sym.Assume(f > -128.5 && f < 127.5)
		r, ok := types.Int8.FromFloat(f).(int8)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	case 1:
		sym.Assume(f > -32768.5 && f < 32767.5)
		r, ok := types.Int16.FromFloat(f).(int16)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	case 2:
		sym.Assume(f > -2147483648.5 && f < 2147483647.5)
		r, ok := types.Int32.FromFloat(f).(int32)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	case 3:
		sym.Assume(f > -0.5 && f < 255.5)
		r, ok := types.Uint8.FromFloat(f).(uint8)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	case 4:
		sym.Assume(f > -0.5 && f < 65535.5)
		r, ok := types.Uint16.FromFloat(f).(uint16)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	case 5:
		sym.Assume(f > -0.5 && f < 4294967295.5)
		r, ok := types.Uint32.FromFloat(f).(uint32)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	}
	sym.Reach("round small")
}

// CheckRoundLarge: floats to 64-bit integers.
//
//sym:opt float=ieee query=60
//sym:bound every float64 in the range of the type that is below 2^32 or from 2^52 on in size
func CheckRoundLarge() { large(1 << 32) }

// CheckRoundAll: floats to 64-bit integers.
//
//sym:opt float=ieee query=600 tier=thorough
//sym:bound none: every float64 in the range of the type
func CheckRoundAll() { large(1 << 52) }

func large(lim float64) {
	f := sym.Float64("f")
	if sym.Choose("type", 2) == 0 {
		if sym.Choose("large", 2) == 1 {
			sym.Assume(f >= 1<<52 && f < 9223372036854775808 || f <= -(1<<52) && f >= -9223372036854775808)
			r, ok := types.Int64.FromFloat(f).(int64)
			sym.Assert(ok && float64(r) == f, "a large float64 is the integer it is")
			sym.Reach("large")
			return
		}
		sym.Assume(f > -lim && f < lim)
		r, ok := types.Int64.FromFloat(f).(int64)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	} else {
		if sym.Choose("large", 2) == 1 {
			sym.Assume(f >= 1<<52 && f < 18446744073709551616)
			r, ok := types.Uint64.FromFloat(f).(uint64)
			sym.Assert(ok && float64(r) == f, "a large float64 is the integer it is")
			sym.Reach("large unsigned")
			return
		}
		sym.Assume(f > -0.5 && f < lim)
		r, ok := types.Uint64.FromFloat(f).(uint64)
		sym.Assert(ok, "the result has the type")
		nearest(f, float64(r))
	}
	sym.Reach("round large")
}

// CheckDurationBack: durations whose float64 is exact come back.
//
//sym:opt float=round
//sym:bound every duration up to 2^50 ns (13 days) of either sign
func CheckDurationBack() {
	x := sym.IntRange("ns", 0, 1<<50)
	if sym.Choose("neg", 2) == 1 {
		x = -x
	}
	d := time.Duration(x)
	f := types.GoDuration.ToFloat(d)
	sym.Assert(types.GoDuration.FromFloat(f) == interface{}(d), "a duration of up to 2^50 ns comes back from its float64")
	sym.Assert(duration.FromFloat(duration.ToFloat(d)) == d, "a duration of up to 2^50 ns comes back from its float64")
	sym.Reach("duration back")
}

// CheckDurationNear: any duration comes back within the rounding of float64.
//
//sym:opt float=round
//sym:bound every duration of either sign up to 2^62 ns (146 years)
func CheckDurationNear() {
	x := sym.IntRange("ns", 0, 1<<62)
	neg := sym.Choose("neg", 2) == 1
	if neg {
		x = -x
	}
	back, ok := types.GoDuration.FromFloat(types.GoDuration.ToFloat(time.Duration(x))).(time.Duration)
	sym.Assert(ok, "the result has the type")
	e := int64(back) - x
	mag := x
	if neg {
		mag = -x
	}
	// 4 ulps of float64 and half a nanosecond
	sym.Assert(float64(e) <= 1+float64(mag)/(1<<51) && -float64(e) <= 1+float64(mag)/(1<<51), "a duration comes back within the rounding of its float64")
	sym.Reach("duration near")
}

// CheckDurationValue: the float64 of a duration is its seconds.
//
//sym:opt float=round
//sym:bound every duration of either sign up to 2^62 ns, up to a relative error of 2^-50
func CheckDurationValue() {
	x := sym.IntRange("ns", 0, 1<<62)
	mag := float64(x)
	if sym.Choose("neg", 2) == 1 {
		x = -x
	}
	f := types.GoDuration.ToFloat(time.Duration(x))
	e := f*1000000000 - float64(x)
	sym.Assert(e <= mag/(1<<50) && -e <= mag/(1<<50), "the float64 of a duration is its seconds")
	sym.Reach("duration value")
}

// CheckSecondsToDuration: a float64 of seconds becomes the nearest duration.
//
//sym:opt float=round
//sym:bound every multiple of 2^-40 s up to 2^12 s in size
func CheckSecondsToDuration() {
	f := sym.Dyadic("f", -1<<52, 1<<52, 40)
	d, ok := types.GoDuration.FromFloat(f).(time.Duration)
	sym.Assert(ok, "the result has the type")
	e := f*1000000000 - float64(d)
	sym.Assert(e <= 0.501 && e >= -0.501, "seconds become the nearest nanosecond")
	sym.Reach("seconds")
}

// CheckTime: times come back within a microsecond.
//
//sym:opt float=round
//sym:bound every time within 2^33 s (272 years) of the epoch at nanosecond resolution
func CheckTime() {
	sec, ns := sym.IntRange("sec", 0, 1<<33-1), sym.IntRange("ns", 1, 999999999)
	switch sym.Choose("sign", 4) {
	case 1:
		sec, ns = -sec, -ns
	case 2:
		sec, ns = -sec, 0
	case 3:
		ns = 0
	}
	t := time.Unix(sec, ns)
	f := types.GoTime.ToFloat(t)
	sym.Assert(f == duration.TimeToFloat(t), "both ways of converting agree")
	back, ok := types.GoTime.FromFloat(f).(time.Time)
	sym.Assert(ok, "the result has the type")
	e := (back.Unix()-sec)*1000000000 + int64(back.Nanosecond()) - ns
	sym.Assert(e <= 1000 && e >= -1000, "a time comes back within a microsecond")
	sym.Reach("time")
}

// CheckTimeValue: the float64 of a time is its seconds since the epoch.
//
//sym:opt float=round
//sym:bound every time within 2^33 s of the epoch, up to a microsecond
func CheckTimeValue() {
	sec, ns := sym.IntRange("sec", 0, 1<<33-1), sym.IntRange("ns", 1, 999999999)
	var f, want float64
	switch sym.Choose("sign", 4) {
	case 0:
		f = types.GoTime.ToFloat(time.Unix(sec, ns))
		want = float64(sec) + float64(ns)/1000000000
	case 1:
		f = types.GoTime.ToFloat(time.Unix(-sec, -ns))
		want = -float64(sec) - float64(ns)/1000000000
	case 2:
		f = types.GoTime.ToFloat(time.Unix(-sec, 0))
		want = -float64(sec)
	case 3:
		f = types.GoTime.ToFloat(time.Unix(sec, 0))
		want = float64(sec)
	}
	sym.Assert(f-want <= 0.000001 && want-f <= 0.000001, "the float64 of a time is its seconds since the epoch")
	sym.Reach("time value")
}

// CheckFloatTime: a float64 becomes the time it denotes.
//
//sym:opt float=round
//sym:bound every multiple of 2^-20 s within 2^33 s of the epoch
func CheckFloatTime() {
	f := float64(sym.IntRange("sec", 0, 1<<33-1)) + float64(sym.IntRange("frac", 0, 1<<20-1))/(1<<20)
	if sym.Choose("neg", 2) == 1 {
		f = -f
	}
	t, ok := types.GoTime.FromFloat(f).(time.Time)
	sym.Assert(ok, "the result has the type")
	got := float64(t.Unix()) + float64(t.Nanosecond())/1000000000
	sym.Assert(got-f <= 0.00000101 && f-got <= 0.00000101, "a float64 becomes the time it denotes")
	sym.Reach("float time")
}

var all = []types.Type{types.Unknown, types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64,
	types.String, types.GoTime, types.GoDuration, types.Dist, types.List, types.Time, types.Duration}

// CheckSupport: conversion is supported for exactly the types that report it.
//
//sym:bound every documented type and every type name of up to 5 bytes
func CheckSupport() {
	var t types.Type
	known := false
	if i := sym.Choose("type", len(all)+6); i < len(all) {
		t = all[i]
		known = t.IsInt() || t.IsUint() || t.IsFloat() || t == types.GoTime || t == types.GoDuration
	} else {
		t = types.Type(sym.Str("name", i-len(all)))
		for _, a := range all {
			sym.Assume(t != a)
		}
	}
	sym.Assert(t.CanToFromFloat() == known, "exactly the numbers, times and durations are convertible")
	var v interface{}
	sym.Assert(sym.Panics(func() { v = t.FromFloat(1) }) == !known, "conversion from float64 is supported exactly if reported")
	if known {
		sym.Assert(types.FromGoValue(v) == t, "a converted value has the type")
		sym.Assert(t.ToFloat(v) == 1, "conversion to float64 is supported if reported")
		sym.Reach("supported")
	} else {
		z, err := t.SafeZeroValue()
		if err != nil {
			z = 0.0
		}
		sym.Assert(sym.Panics(func() { t.ToFloat(z) }), "conversion to float64 is supported exactly if reported")
		sym.Reach("not supported")
	}
}
