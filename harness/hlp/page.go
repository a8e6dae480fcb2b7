package hlp

import (
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/sym"
)

// Shown is the value the HTML page shows for the single metric at path, exactly as on the page.
func Shown(path string) string {
	a := Ask(HTML, path)
	sym.Assert(a.Found, "the page of a metric exists")
	i := strings.Index(a.Body, path+" ")
	sym.Assert(i >= 0, "the page shows the path")
	rest := a.Body[i+len(path)+1:]
	j := strings.Index(rest, " <span")
	sym.Assert(j >= 0, "the type follows the value")
	return rest[:j]
}

// Num64 reads the decimal digits at s[i:] and returns the number and the index behind them.
func Num64(s string, i int) (uint64, int) {
	v := uint64(0)
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		v = v*10 + uint64(s[i]-'0')
	}
	return v, i
}

// Items are the list items on a page.
func Items(body string) (r []string) {
	for {
		i := strings.Index(body, "<li>")
		if i < 0 {
			return
		}
		body = body[i+4:]
		j := strings.Index(body, "</li>")
		sym.Assert(j >= 0, "list items end")
		r = append(r, body[:j])
		body = body[j:]
	}
}

// MustUnit registers and requires success.
func MustUnit(path string, m interface{}, u units.Unit, desc string) {
	sym.Assert(tricorder.RegisterMetric(path, m, u, desc) == nil, "registering a metric succeeds")
}
