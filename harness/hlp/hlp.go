// Package hlp holds what several harnesses share; it uses only the public API.
package hlp

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/sym"
)

// Num is the decimal form of a small non-negative number.
func Num(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return Num(i/10) + string(rune('0'+i%10))
}

// Must registers a metric and requires success.
func Must(path string, spec interface{}) {
	sym.Assert(tricorder.RegisterMetric(path, spec, units.None, "d") == nil, "registration succeeds: "+path)
}

// Read returns the only metric at path.
func Read(path string) *messages.Metric {
	l := tricorder.ReadMyMetrics(path)
	if len(l) != 1 {
		sym.Assert(false, "exactly one metric is listed at "+path)
	}
	return l[0]
}

// Dist returns the distribution reported at path.
func Dist(path string) *messages.Distribution {
	d, ok := Read(path).Value.(*messages.Distribution)
	sym.Assert(ok && d != nil, "a distribution is reported at "+path)
	return d
}
