// Package c31: every web response says what it is and carries the protective headers.
package c31

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

func protected(r *sym.Response) {
	sym.Assert(r.Header.Get("X-Frame-Options") == "DENY", "a page may not be framed")
	sym.Assert(r.Header.Get("X-XSS-Protection") == "1", "a page asks for XSS protection")
	policy := r.Header.Get("Content-Security-Policy")
	sym.Assert(len(policy) >= 18 && policy[:18] == "default-src 'self'", "a page may load from its own site only")
	sym.Assert(len(r.Header["X-Frame-Options"]) == 1 && len(r.Header["Content-Security-Policy"]) == 1, "each header occurs once")
}

// world registers a metric of each shape below /q.
func world() {
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return time.Unix(77, 8) })
	n, t := int64(sym.Digits("n", 2)), sym.StrIn("t", 1, "x<&%")
	d := tricorder.NewArbitraryBucketer(1, 10).NewCumulativeDistribution()
	sym.Assert(g.RegisterMetric("/q/a", &n, units.Second, "d") == nil && g.RegisterMetric("/q/b/c", func() string { return t }, units.None, t) == nil &&
		g.RegisterMetric("/q/b/d", d, units.None, "d") == nil &&
		g.RegisterMetric("/q/l", tricorder.NewList([]string{t}, true), units.None, "d") == nil, "registering a metric succeeds")
	if _, err := tricorder.RegisterDirectory("/q/e"); err != nil {
		sym.Assert(false, "registering a directory succeeds")
	}
}

// target is a path that is a directory, a metric or missing.
func target() string {
	k := sym.Choose("path", 9)
	if k < 8 {
		return []string{"/", "/q", "/q/", "/q/e", "/q/a", "/q/b/c", "/q/b/d", "/q/l"}[k]
	}
	c := hlp.Name("c")
	sym.Assume(c != ".")
	return "/q/" + c
}

// CheckPages: HTML and text pages.
//
//sym:bound a registry of metrics of 4 shapes; 8 paths (root, directories, empty directory, metrics of each shape) and an arbitrary name of one visible ASCII character; as HTML, as text and with 2 other formats
func CheckPages() {
	world()
	path := target()
	format := sym.Choose("format", 4)
	r := sym.Serve("/metrics"+path, []string{"", "format=text", "format=html", "x=1&format=text"}[format])
	sym.Assert(r.Code == 200, "a page is answered with status 200")
	protected(r)
	kind := r.Header.Get("Content-Type")
	if format == 1 || format == 3 {
		sym.Assert(kind == "text/plain" || len(kind) > 11 && kind[:11] == "text/plain;", "a text page says so")
		sym.Reach("text")
	} else {
		sym.Assert(kind == "" || len(kind) >= 9 && kind[:9] == "text/html", "an HTML page is no other kind of document")
		sym.Reach("HTML")
	}
}

// CheckBroken: also a page that breaks off.
//
//sym:bound HTML and text pages of a directory and a metric whose connection breaks after 1..4 writes
func CheckBroken() {
	world()
	r := sym.ServeFailing("/metrics"+[]string{"/q", "/q/b/c", "/q/b/d"}[sym.Choose("path", 3)], []string{"", "format=text"}[sym.Choose("format", 2)], 1+sym.Choose("writes", 4))
	protected(r)
	sym.Reach("broken")
}

// CheckJSON: JSON responses.
//
//sym:bound the same paths, as list and as single metric, with and without compression
func CheckJSON() {
	world()
	path := target()
	one := sym.Choose("singleton", 2)
	var hdr []string
	if sym.Choose("gzip", 2) == 1 {
		hdr = []string{"Accept-Encoding", "gzip"}
	}
	r := sym.Serve("/metricsapi"+path, []string{"", "singleton=true"}[one], hdr...)
	sym.Assert(r.Header.Get("X-Tricorder-Media-Type") == "tricorder.v1", "a response of the JSON interface names its version")
	if r.Code == 200 {
		sym.Assert(r.Header.Get("Content-Type") == "application/json", "a JSON response says so")
		sym.Reach("JSON")
		return
	}
	sym.Assert(one == 1 && r.Code == 404, "only a single metric can be missing")
	kind := r.Header.Get("Content-Type")
	sym.Assert(len(kind) >= 10 && kind[:10] == "text/plain", "an error is no JSON")
	sym.Reach("missing")
}

// CheckProbe: the probe for tricorder and the style sheet.
//
//sym:bound the probe with and without a query, first or after a page of the same paths
func CheckProbe() {
	world()
	if sym.Choose("before", 2) == 1 {
		sym.Serve("/metrics"+target(), "")
	}
	r := sym.Serve("/has-tricorder-metrics", []string{"", "format=text"}[sym.Choose("query", 2)])
	sym.Assert(r.Code == 200 && string(r.Body) == "true", "the probe answers true")
	protected(r)
	sym.Reach("probe")
}
