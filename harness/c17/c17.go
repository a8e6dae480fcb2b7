// Package c17: durations and times convert to seconds/nanoseconds and back exactly.
package c17

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"vh/sym"
)

func norm(d duration.Duration) {
	sym.Assert(d.Nanoseconds > -1000000000 && d.Nanoseconds < 1000000000, "nanoseconds below one second in size")
	sym.Assert(!(d.Seconds > 0 && d.Nanoseconds < 0) && !(d.Seconds < 0 && d.Nanoseconds > 0), "both parts have the same sign")
}

// CheckDuration: New then AsGoDuration is the identity on every time.Duration.
//
//sym:bound none: every one of the 2^64 durations
func CheckDuration() {
	x := time.Duration(sym.Int64("ns"))
	d := duration.New(x)
	norm(d)
	back := d.AsGoDuration()
	sym.Assert(back == x, "AsGoDuration(New(d)) == d")
	sym.Assert(d.IsNegative() == (x < 0), "IsNegative exactly when below zero")
	sym.Observe("sec", d.Seconds)
	sym.Observe("ns", d.Nanoseconds)
	sym.Observe("back", int64(back))
	sym.Reach("duration round trip")
}

// CheckTime: SinceEpoch then AsGoTime is the identity on every instant.
//
//sym:bound every instant time.Unix(s, n) with any int64 s and 0 <= n < 10^9
func CheckTime() {
	s := sym.Int64("sec")
	n := sym.IntRange("nsec", 0, 999999999)
	t := time.Unix(s, n)
	d := duration.SinceEpoch(t)
	norm(d)
	back := d.AsGoTime()
	sym.Assert(back.Equal(t), "AsGoTime(SinceEpoch(t)) is the same instant")
	sym.Assert(back.Unix() == s && int64(back.Nanosecond()) == n, "AsGoTime(SinceEpoch(t)) has the same seconds and nanoseconds")
	sym.Assert(d.IsNegative() == (s < 0), "negative exactly for instants before the epoch")
	sym.Observe("sec", d.Seconds)
	sym.Observe("ns", d.Nanoseconds)
	sym.Reach("time round trip")
}

// CheckNormalised: every normalised Duration is the image of its own conversion.
//
//sym:bound every normalised Duration value below 2^62 seconds in size
func CheckNormalised() {
	var d duration.Duration
	d.Seconds = sym.Int64("sec")
	d.Nanoseconds = sym.Int32("nsec")
	sym.Assume(d.Nanoseconds > -1000000000 && d.Nanoseconds < 1000000000)
	sym.Assume(!(d.Seconds > 0 && d.Nanoseconds < 0) && !(d.Seconds < 0 && d.Nanoseconds > 0))
	sym.Assume(d.Seconds > -(1<<62) && d.Seconds < 1<<62) // instants beyond that have no time.Time
	back := duration.SinceEpoch(d.AsGoTime())
	sym.Assert(back == d, "SinceEpoch(AsGoTime(d)) == d")
	sym.Assert(d.IsNegative() == (d.Seconds < 0 || d.Nanoseconds < 0), "IsNegative exactly when below zero")
	if d.Seconds > -9223372036 && d.Seconds < 9223372036 {
		g := d.AsGoDuration()
		sym.Assert(duration.New(g) == d, "New(AsGoDuration(d)) == d")
		sym.Assert((g < 0) == d.IsNegative(), "sign of the Go duration")
		sym.Reach("fits a Go duration")
	}
	sym.Reach("normalised round trip")
}

// CheckLast: durations about a whole number of seconds, where only the part below a second varies.
//
//sym:bound every duration within a microsecond of 5, 2^24, 2^28, 2^32 and 9*10^9 seconds, of either sign
func CheckLast() {
	s := []int64{5, 1 << 24, 1 << 28, 1 << 32, 9000000000}[sym.Choose("seconds", 5)]
	x := time.Duration(s*1000000000 + sym.IntRange("about", -1000, 1000))
	if sym.Choose("sign", 2) == 1 {
		x = -x
	}
	d := duration.New(x)
	norm(d)
	sym.Assert(d.AsGoDuration() == x, "AsGoDuration(New(d)) == d")
	sym.Assert(d.IsNegative() == (x < 0), "IsNegative exactly when below zero")
	sym.Reach("near a second")
}
