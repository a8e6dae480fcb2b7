// Package c20: human-readable integers are within half a percent and never fail.
package c20

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

var theUnits = []units.Unit{units.Byte, units.BytePerSecond, units.Celsius, units.Second, units.Millisecond, units.Unknown}

var (
	byteSuf  = []string{" KiB", " MiB", " GiB", " TiB", " PiB", " EiB"}
	speedSuf = []string{" KiB/s", " MiB/s", " GiB/s", " TiB/s", " PiB/s", " EiB/s"}
	otherSuf = []string{" thousand", " million", " billion", " trillion", "K trillion", "M trillion"}
)

// compact requires that s shows neg*mag.
func compact(s string, u units.Unit, neg bool, mag uint64) {
	radix, suf := uint64(1000), otherSuf
	switch u {
	case units.Byte:
		radix, suf = 1024, byteSuf
	case units.BytePerSecond:
		radix, suf = 1024, speedSuf
	}
	i := 0
	if neg {
		sym.Assert(s[0] == '-', "negative numbers have a minus sign")
		i = 1
	}
	start := i
	v, i := hlp.Num64(s, i)
	sym.Assert(i > start && (i == start+1 || s[start] != '0'), "a plain number")
	if mag < radix {
		sym.Assert(i == len(s) && v == mag, "numbers below the radix are shown exactly")
		sym.Reach("exact")
		return
	}
	den := uint64(1)
	if i < len(s) && s[i] == '.' {
		f, j := hlp.Num64(s, i+1)
		sym.Assert(j > i+1 && j <= i+3, "one or two decimals")
		for i++; i < j; i++ {
			den *= 10
		}
		v = v*den + f
	}
	k, scale := -1, uint64(1)
	for n, t := range suf {
		scale *= radix
		if s[i:] == t {
			k = n
			break
		}
	}
	sym.Assert(k >= 0, "the number is followed by a documented suffix")
	// |v*scale/den - mag| <= 0.0051 mag, over the reals
	sym.Assert(v <= 102400, "a compact number is short")
	shown, want := float64(v)*float64(scale)/float64(den), float64(mag)
	diff := shown - want
	if diff < 0 {
		diff = -diff
	}
	sym.Assert(diff*10000 <= want*51, "the product is within 0.51% of the value")
	sym.Reach("suffix " + hlp.Num(k))
}

// separated requires that s is mag exactly, with commas before every third digit from the right.
func separated(s string, neg bool, mag uint64) {
	i := 0
	if neg {
		sym.Assert(s[0] == '-', "negative numbers have a minus sign")
		i = 1
	}
	first := i
	sym.Assert((len(s)-first)%4 != 0, "a comma before every third digit from the right")
	sym.Assert(i < len(s) && s[i] != '0' || i+1 == len(s), "no leading zero")
	v := uint64(0)
	for ; i < len(s); i++ {
		fromRight := len(s) - i
		if fromRight%4 == 0 && i > first {
			sym.Assert(s[i] == ',', "a comma before every third digit from the right")
			continue
		}
		sym.Assert(s[i] >= '0' && s[i] <= '9', "digits")
		v = v*10 + uint64(s[i]-'0')
	}
	sym.Assert(v == mag, "unit-less integers are shown exactly")
	sym.Reach("separated")
}

// signed is any integer of the given number of bits, with its sign and magnitude.
func signed(name string, bits uint) (int64, bool, uint64) {
	max := int64(1)<<(bits-1) - 1
	switch sym.Choose(name+"sign", 3) {
	case 1:
		return -max - 1, true, uint64(max) + 1
	case 2:
		x := sym.IntRange(name, 1, max)
		return -x, true, uint64(x)
	}
	x := sym.IntRange(name, 0, max)
	return x, false, uint64(x)
}

// CheckInt: int64 under every unit.
//
//sym:opt float=real
//sym:bound none: every int64 value and every unit
//sym:assume float64 arithmetic is taken over the reals: the scaled number differs by less than 10^-15 of its value, far inside the slack between half a percent and 0.51%
func CheckInt() {
	x, neg, mag := signed("x", 64)
	u := theUnits[sym.Choose("unit", len(theUnits))]
	hlp.MustUnit("/x", &x, u, "d")
	compact(hlp.Shown("/x"), u, neg, mag)
}

// CheckUint: uint64 under every unit.
//
//sym:opt float=real
//sym:bound none: every uint64 value and every unit
//sym:assume float64 arithmetic is taken over the reals, as in CheckInt
func CheckUint() {
	x := sym.Uint64("x")
	u := theUnits[sym.Choose("unit", len(theUnits))]
	hlp.MustUnit("/x", &x, u, "d")
	compact(hlp.Shown("/x"), u, false, x)
}

// CheckSeparated: integers without unit.
//
//sym:bound none: every int64 and every uint64 value
func CheckSeparated() {
	if sym.Choose("signed", 2) == 1 {
		x := sym.Int64Digits("x")
		hlp.MustUnit("/x", &x, units.None, "d")
		neg, mag := x < 0, uint64(x)
		if neg {
			mag = -uint64(x)
		}
		separated(hlp.Shown("/x"), neg, mag)
	} else {
		x := sym.DigitsUpTo("u", 1<<64-1)
		hlp.MustUnit("/x", &x, units.None, "d")
		separated(hlp.Shown("/x"), false, x)
	}
}

// CheckSmall: the smaller integer types, variables and callbacks.
//
//sym:opt float=real
//sym:bound every value of int8, int16, int32, int, uint8, uint16, uint32 and uint, one unit of each kind
//sym:assume float64 arithmetic is taken over the reals, as in CheckInt
func CheckSmall() {
	var m interface{}
	var neg bool
	var mag uint64
	switch sym.Choose("type", 8) {
	case 0:
		v, ng, mg := signed("x", 8)
		x := int8(v)
		neg, mag = ng, mg
		m = &x
	case 1:
		v, ng, mg := signed("x", 16)
		x := int16(v)
		neg, mag = ng, mg
		m = func() int16 { return x }
	case 2:
		v, ng, mg := signed("x", 32)
		x := int32(v)
		neg, mag = ng, mg
		m = &x
	case 3:
		v, ng, mg := signed("x", 64)
		x := int(v)
		neg, mag = ng, mg
		m = func() int { return x }
	case 4:
		x := sym.Uint8("x")
		mag = uint64(x)
		m = func() uint8 { return x }
	case 5:
		x := sym.Uint16("x")
		mag = uint64(x)
		m = &x
	case 6:
		x := sym.Uint32("x")
		mag = uint64(x)
		m = &x
	case 7:
		x := sym.Uint("x")
		mag = uint64(x)
		m = func() uint { return x }
	}
	u := []units.Unit{units.Byte, units.Celsius}[sym.Choose("unit", 2)]
	hlp.MustUnit("/x", m, u, "d")
	compact(hlp.Shown("/x"), u, neg, mag)
}

// CheckListItems: integers in lists are rendered in the same way.
//
//sym:opt float=real
//sym:bound one or two elements: int32 or uint16 with any value, with and without unit
//sym:assume float64 arithmetic is taken over the reals, as in CheckInt
func CheckListItems() {
	u := []units.Unit{units.Byte, units.None}[sym.Choose("unit", 2)]
	n := 1 + sym.Choose("n", 2)
	var l interface{}
	var neg []bool
	var mag []uint64
	if sym.Choose("signed", 2) == 1 {
		var s []int32
		for i := 0; i < n; i++ {
			v, ng, mg := signed("x"+hlp.Num(i), 32)
			x := int32(v)
			s, neg, mag = append(s, x), append(neg, ng), append(mag, mg)
		}
		l = s
	} else {
		var s []uint16
		for i := 0; i < n; i++ {
			x := sym.Uint16("x" + hlp.Num(i))
			s, neg, mag = append(s, x), append(neg, false), append(mag, uint64(x))
		}
		l = s
	}
	hlp.MustUnit("/l", tricorder.NewList(l, true), u, "d")
	items := hlp.Items(hlp.Ask(hlp.HTML, "/l").Body)
	sym.Assert(len(items) == n, "one item for each element")
	for i, s := range items {
		if u == units.None {
			separated(s, neg[i], mag[i])
		} else {
			compact(s, u, neg[i], mag[i])
		}
	}
}
