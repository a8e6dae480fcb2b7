// Package c18: duration text is exact and parses back to the same duration.
package c18

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/sym"
)

// digits appends the n lowest decimal digits of v.
func digits(b []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		w := v
		for j := 0; j < i; j++ {
			w /= 10
		}
		b = append(b, byte('0'+w%10))
	}
	return b
}

// number is the plain decimal form of v.
func number(v uint64) []byte {
	n := 1
	for w := v; w >= 10; w /= 10 {
		n++
	}
	return digits(nil, v, n)
}

// text is the exact decimal form of ns * 10^-exp with nine fractional digits.
func text(neg bool, mag uint64, perUnit uint64) string {
	var b []byte
	if neg {
		b = append(b, '-')
	}
	b = append(b, number(mag/perUnit)...)
	b = append(b, '.')
	b = digits(b, mag%perUnit*(1000000000/perUnit), 9)
	return string(b)
}

func roundTrip(unit units.Unit, perUnit uint64) {
	x := sym.Int64Digits("ns")
	d := duration.New(time.Duration(x))
	neg := x < 0
	mag := uint64(x)
	if neg {
		mag = -uint64(x)
	}
	s := d.StringUsingUnits(unit)
	sym.Assert(s == text(neg, mag, perUnit), "text is sign, whole number, point and nine exact digits")
	back, err := duration.ParseWithUnit(s, unit)
	sym.Assert(err == nil, "printed text parses")
	sym.Assert(back.AsGoDuration() == time.Duration(x), "parsing the printed text gives the duration back")
	sym.Assert(back == d, "parsing the printed text gives the same seconds and nanoseconds")
	sym.Observe("text", s)
	sym.Reach("round trip " + string(unit))
}

// CheckSeconds prints and parses every duration in seconds.
//
//sym:bound none: every one of the 2^64 durations
func CheckSeconds() { roundTrip(units.Second, 1000000000) }

// CheckMilliseconds prints and parses every duration in milliseconds.
//
//sym:bound none: every one of the 2^64 durations
func CheckMilliseconds() { roundTrip(units.Millisecond, 1000000) }

// CheckString: String is the text in seconds.
func CheckString() {
	x := sym.Int64Digits("ns")
	neg := x < 0
	mag := uint64(x)
	if neg {
		mag = -uint64(x)
	}
	sym.Assert(duration.New(time.Duration(x)).String() == text(neg, mag, 1000000000), "String is the exact text in seconds")
	sym.Reach("string")
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// oracle reads an optionally signed decimal number: ok, its sign, the digits
// before the point and at most nine digits after it (padded).
func oracle(s string) (ok, lenient, neg bool, whole, frac uint64) {
	i := 0
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	start := i
	for ; i < len(s) && isDigit(s[i]); i++ {
		whole = whole*10 + uint64(s[i]-'0')
	}
	if i == start {
		return
	}
	n := 0
	if i < len(s) && s[i] == '.' {
		i++
		lenient = i == len(s) // "1.": either way
		for ; i < len(s) && isDigit(s[i]); i++ {
			if n < 9 {
				frac = frac*10 + uint64(s[i]-'0')
				n++
			}
		}
	}
	for ; n < 9; n++ {
		frac *= 10
	}
	ok = i == len(s)
	return
}

func parseAny(s string) {
	ok, lenient, neg, whole, frac := oracle(s)
	check := func(unit units.Unit, ns uint64, sec uint64) {
		d, err := duration.ParseWithUnit(s, unit)
		if err != nil {
			sym.Assert(!ok || lenient, "every optionally signed decimal number is accepted")
			sym.Reach("rejected")
			return
		}
		sym.Assert(ok, "only an optionally signed decimal number is accepted")
		ws, wn := int64(sec), int32(ns)
		if neg {
			ws, wn = -ws, -wn
		}
		sym.Assert(d.Seconds == ws, "parsed seconds")
		sym.Assert(d.Nanoseconds == wn, "parsed nanoseconds, truncated")
		sym.Reach("accepted")
	}
	check(units.Second, frac, whole)
	check(units.Millisecond, (whole%1000*1000000000+frac)/1000, whole/1000)
}

// CheckParse: arbitrary short text is accepted exactly if it is a number, with its value.
//
//sym:bound every text of at most 6 bytes (thorough: 9)
func CheckParse() { parseAny(sym.Str("text", sym.Choose("len", 7))) }

// CheckParseLonger is the same for longer text.
//
//sym:opt tier=thorough
//sym:bound every text of 7 to 9 bytes
func CheckParseLonger() { parseAny(sym.Str("text", 7+sym.Choose("len", 3))) }

// CheckParseTail: long fractions are truncated, and garbage after the ninth digit is refused.
//
//sym:bound up to 3 leading bytes from "-+0123456789.", nine digits, then 0..3 arbitrary bytes
func CheckParseTail() {
	s := sym.StrIn("head", 1+sym.Choose("headlen", 3), "-+.0123456789") + sym.StrIn("frac", 9, "0123456789") + sym.Str("tail", sym.Choose("taillen", 4))
	parseAny(s)
}
