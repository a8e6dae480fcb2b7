// Package c29: the HTML metrics page shows and escapes every metric.
package c29

import (
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// token is a tag or a text on the page.
type token struct {
	tag  string // name, with a slash for end tags; empty: text
	attr string // of a tag, raw
	text string // decoded
}

// decode undoes HTML's character references.
func decode(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			r += s[i : i+1]
			continue
		}
		end := i
		for end < len(s) && s[end] != ';' && end < i+8 {
			end++
		}
		if end >= len(s) || s[end] != ';' {
			sym.Assert(false, "every & on the page starts a character reference")
			return r
		}
		switch name := s[i+1 : end]; name {
		case "lt":
			r += "<"
		case "gt":
			r += ">"
		case "amp":
			r += "&"
		case "quot":
			r += "\""
		case "apos":
			r += "'"
		default:
			if len(name) < 2 || name[0] != '#' {
				sym.Assert(false, "every & on the page starts a character reference")
				return r
			}
			n, last := hlp.Num64(name, 1)
			sym.Assert(last == len(name) && n < 128, "every & on the page starts a character reference")
			r += string(rune(n))
		}
		i = end
	}
	return r
}

// unescape undoes URL escaping.
func unescape(s string) string {
	r := ""
	hex := func(c byte) int {
		switch {
		case c >= '0' && c <= '9':
			return int(c - '0')
		case c >= 'a' && c <= 'f':
			return int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			return int(c-'A') + 10
		}
		return -1
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			r += s[i : i+1]
			continue
		}
		if i+2 >= len(s) || hex(s[i+1]) < 0 || hex(s[i+2]) < 0 {
			sym.Assert(false, "every % in a link starts an escape")
			return r
		}
		r += string([]byte{byte(16*hex(s[i+1]) + hex(s[i+2]))})
		i += 2
	}
	return r
}

// tokens parses the page.
func tokens(page string) (r []token) {
	for i := 0; i < len(page); {
		if page[i] == '<' {
			end := i
			for end < len(page) && page[end] != '>' {
				end++
			}
			if end == len(page) {
				sym.Assert(false, "tags are complete")
				return
			}
			t := page[i+1 : end]
			a := ""
			if j := strings.IndexByte(t, ' '); j >= 0 {
				t, a = t[:j], t[j+1:]
			}
			r = append(r, token{tag: t, attr: a})
			i = end + 1
			continue
		}
		end := i
		for end < len(page) && page[end] != '<' {
			sym.Assert(page[end] != '>', "no text on the page has an unescaped >")
			end++
		}
		r = append(r, token{text: decode(page[i:end])})
		i = end
	}
	return
}

func ask(path string) []token {
	r := sym.Serve("/metrics"+path, "")
	sym.Assert(r.Code == 200, "the page of a path answers 200")
	return tokens(string(r.Body))
}

// alltext is the text on the page.
func alltext(l []token) string {
	s := ""
	for _, t := range l {
		s += t.text
	}
	return s
}

// sameTags requires that two pages differ in their text only.
func sameTags(a, b []token) {
	var x, y []string
	for _, t := range a {
		if t.tag != "" {
			x = append(x, t.tag)
		}
	}
	for _, t := range b {
		if t.tag != "" {
			y = append(y, t.tag)
		}
	}
	if len(x) != len(y) {
		sym.Assert(false, "the tags on the page do not depend on the texts shown")
		return
	}
	for i := range x {
		sym.Assert(x[i] == y[i], "the tags on the page do not depend on the texts shown")
	}
}

// has requires that the texts occur in this order.
func has(s string, parts ...string) {
	for _, p := range parts {
		i := strings.Index(s, p)
		if i < 0 {
			sym.Assert(false, "the page shows the metric's path, value, type and description")
			return
		}
		s = s[i+len(p):]
	}
}

// links are the links on the page.
func links(l []token) (hrefs, texts []string) {
	for i, t := range l {
		if t.tag != "a" {
			continue
		}
		sym.Assert(len(t.attr) > 7 && t.attr[:6] == "href=\"" && t.attr[len(t.attr)-1] == '"', "a link has just its quoted target")
		target := t.attr[6 : len(t.attr)-1]
		for j := 0; j < len(target); j++ {
			sym.Assert(target[j] != '"', "a link's target has no unescaped quote")
		}
		target = decode(target)
		for j := 0; j < len(target); j++ {
			sym.Assert(target[j] != '?' && target[j] != '#', "a link's target is a path")
		}
		hrefs = append(hrefs, unescape(target))
		sym.Assert(i+2 < len(l) && l[i+1].tag == "" && l[i+2].tag == "/a", "a link has a text")
		texts = append(texts, l[i+1].text)
	}
	return
}

// name is an arbitrary path component of n visible ASCII characters.
func name(label string, n int) string {
	s := sym.Str(label, n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(c > ' ' && c < 0x7f && c != '/')
	}
	sym.Assume(s != "." && s != "..") // these have a meaning of their own in URLs
	return s
}

// ascii is an arbitrary text.
func ascii(label string, n int) string {
	s := sym.Str(label, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
		sym.Assume(s[i] != 0)
	}
	return s
}

// CheckValue: the value of a string metric.
//
//sym:bound string values of 0..2 arbitrary ASCII characters but NUL; the page of the metric and of its directory
func CheckValue() {
	v, w := ascii("v", sym.Choose("len", 3)), "ab"
	hlp.MustUnit("/x/m", &v, units.None, "desc")
	hlp.MustUnit("/y/m", &w, units.None, "desc")
	sub := []string{"", "/m"}[sym.Choose("page", 2)]
	p := ask("/x" + sub)
	sameTags(p, ask("/y"+sub))
	has(alltext(p), "/x/m", "\""+v+"\"", "string", "desc")
	sym.Reach("done")
}

// CheckDescription: the description of a metric of several kinds.
//
//sym:bound descriptions of 0..2 arbitrary ASCII characters but NUL, for an integer, a list and a distribution
func CheckDescription() {
	d := ascii("d", sym.Choose("len", 3))
	kind := sym.Choose("kind", 3)
	var show []string
	reg := func(path, desc string) {
		switch kind {
		case 0:
			x := int64(5)
			hlp.MustUnit(path, &x, units.Celsius, desc)
			show = []string{path, "5", "int64", desc, "Celsius"}
		case 1:
			hlp.MustUnit(path, tricorder.NewList([]int64{7}, true), units.Celsius, desc)
			show = []string{path, "list of int64", desc, "Celsius", "7"}
		default:
			dist := tricorder.NewArbitraryBucketer(1, 10).NewCumulativeDistribution()
			hlp.MustUnit(path, dist, units.Celsius, desc)
			dist.Add(2.5)
			show = []string{path, "distribution", desc, "Celsius", "2.5", "count: 1"}
		}
	}
	reg("/y/m", "ab")
	reg("/x/m", d)
	sub := []string{"", "/m"}[sym.Choose("page", 2)]
	p := ask("/x" + sub)
	sameTags(p, ask("/y"+sub))
	has(alltext(p), show...)
	sym.Reach("done")
}

// CheckNames: metrics and sub-directories with arbitrary names.
//
//sym:bound a metric or directory with an arbitrary name of 1..2 visible ASCII characters except "." and ".." beside another
func CheckNames() {
	n := name("n", 1+sym.Choose("len", 2))
	sym.Assume(n != "k")
	x := int64(5)
	hlp.MustUnit("/x/k", &x, units.None, "other")
	if sym.Choose("dir", 2) == 0 {
		hlp.MustUnit("/x/"+n, &x, units.None, "desc")
		hlp.MustUnit("/y/k", &x, units.None, "other")
		hlp.MustUnit("/y/m", &x, units.None, "desc")
		p := ask("/x")
		sameTags(p, ask("/y"))
		t := alltext(p)
		has(t, "/x/k ", "5", "int64", "other")
		has(t, "/x/"+n+" ", "5", "int64", "desc")
		h, _ := links(p)
		sym.Assert(len(h) == 0, "a directory without sub-directories has no links")
		has(alltext(ask("/x/"+n)), "/x/"+n+" ", "5", "int64", "desc")
		sym.Reach("metric")
		return
	}
	hlp.MustUnit("/x/"+n+"/m", &x, units.None, "desc")
	p := ask("/x")
	has(alltext(p), "/x/k ", "5", "int64", "other")
	h, t := links(p)
	sym.Assert(len(h) == 1, "every sub-directory is linked")
	sym.Assert(h[0] == "/metrics/x/"+n, "a link leads to the sub-directory's page")
	sym.Assert(t[0] == "/x/"+n, "a link shows the sub-directory's path")
	has(alltext(ask("/x/"+n)), "/x/"+n+"/m ", "5", "int64", "desc")
	sym.Reach("directory")
}

// CheckElements: strings in lists.
//
//sym:bound lists of 0..2 strings, the last of 1..2 arbitrary ASCII characters but NUL
func CheckElements() {
	n := sym.Choose("n", 3)
	s, w := []string{"one", "two"}[:n], []string{"one", "two"}[:n]
	if n > 0 {
		s[n-1] = ascii("e", 1+sym.Choose("len", 2))
	}
	hlp.MustUnit("/x/m", tricorder.NewList(s, true), units.None, "desc")
	hlp.MustUnit("/y/m", tricorder.NewList(w, true), units.None, "desc")
	p := ask("/x/m")
	sameTags(p, ask("/y/m"))
	show := []string{"/x/m ", "list of string", "desc"}
	items := 0
	for _, t := range p {
		if t.tag == "li" {
			items++
		}
	}
	sym.Assert(items == n, "each element is shown")
	for _, e := range s {
		show = append(show, "\""+e+"\"")
	}
	has(alltext(p), show...)
	sym.Reach("done")
}

// CheckKinds: every kind of metric with its type and unit.
//
//sym:bound a metric of each of 16 types or a list of them beside an integer, with each of the units
func CheckKinds() {
	b, i8, i16, i32, i64, u8, u16, u32, u64 := true, int8(-3), int16(4), int32(5), int64(6), uint8(7), uint16(8), uint32(9), uint64(10)
	f32, f64, s := float32(1.5), 2.5, "text"
	t, d := time.Unix(1234567890, 0), 5*time.Second
	i, u := 11, uint(12)
	type k struct {
		m     interface{}
		list  interface{}
		typ   string
		value string
	}
	x := []k{
		{&b, []bool{b}, "bool", "true"}, {&i8, []int8{i8}, "int8", "-3"}, {&i16, []int16{i16}, "int16", "4"}, {&i32, []int32{i32}, "int32", "5"},
		{&i64, []int64{i64}, "int64", "6"}, {&u8, []uint8{u8}, "uint8", "7"}, {&u16, []uint16{u16}, "uint16", "8"}, {&u32, []uint32{u32}, "uint32", "9"},
		{&u64, []uint64{u64}, "uint64", "10"}, {&f32, []float32{f32}, "float32", "1.5"}, {&f64, []float64{f64}, "float64", "2.5"}, {&s, []string{s}, "string", "\"text\""},
		{&t, []time.Time{t}, "time", "2009"}, {&d, []time.Duration{d}, "duration", "5"}, {&i, []int{i}, "int64", "11"}, {&u, []uint{u}, "uint64", "12"},
	}[sym.Choose("kind", 16)]
	m := x.m
	if list := sym.Choose("list", 2) == 1; list {
		m = tricorder.NewList(x.list, false)
		x.typ = "list of " + x.typ
	}
	unit := []units.Unit{units.None, units.Second, units.Celsius, units.Millisecond, units.Byte, units.BytePerSecond, units.Unknown}[sym.Choose("unit", 7)]
	hlp.MustUnit("/x/m", m, unit, "desc")
	hlp.MustUnit("/x/z", &i, units.None, "other")
	for _, path := range []string{"/x", "/x/m"} {
		p := ask(path)
		a := alltext(p)
		has(a, "/x/m ", "("+x.typ+": desc")
		if unit == units.None || unit == units.Celsius || unit == units.Second {
			has(a, "/x/m ", x.value)
		}
		if unit != units.None {
			has(a, "/x/m ", "("+x.typ+": desc; unit: "+unit.String()+")")
		}
		if path == "/x" {
			has(a, "/x/m ", "/x/z ", "11", "int64", "other")
		}
	}
	sym.Reach("done")
}

// CheckDistribution: the figures of a distribution.
//
//sym:bound a distribution of 0..3 of 3 values
func CheckDistribution() {
	dist := tricorder.NewArbitraryBucketer(1, 10).NewCumulativeDistribution()
	hlp.MustUnit("/x/m", dist, units.Second, "desc")
	n := sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		dist.Add([]float64{0.5, 4, 20}[i])
	}
	p := ask("/x")
	a := alltext(p)
	has(a, "/x/m ", "distribution", "desc", "Second")
	rows := 0
	for _, t := range p {
		if t.tag == "tr" {
			rows++
		}
	}
	sym.Assert(rows == n, "each range with values is shown")
	switch n {
	case 1:
		has(a, "<1:", "1", "min: 0.5 ", "max: 0.5 ", "avg: 0.5 ", "median: 0.5 ", "sum: 0.5 ", "count: 1")
	case 2:
		has(a, "<1:", "1", "1-10:", "1", "min: 0.5 ", "max: 4 ", "avg: 2.25 ", "median: 2.25 ", "sum: 4.5 ", "count: 2")
	case 3:
		has(a, "<1:", "1", "1-10:", "1", ">=10:", "1", "min: 0.5 ", "max: 20 ", "sum: 24.5 ", "count: 3")
	}
	sym.Reach("done")
}

// CheckMissing: the page of a path that does not exist.
//
//sym:bound arbitrary paths of 1..2 names of one character
func CheckMissing() {
	x := int64(5)
	hlp.MustUnit("/x/m", &x, units.None, "d")
	n := name("n", 1)
	path := "/x/" + n
	if sym.Choose("deep", 2) == 1 {
		path = "/x/m/" + n
	} else {
		sym.Assume(n != "m")
	}
	r := sym.Serve("/metrics"+path, "")
	sym.Assert(r.Code == 200 && string(r.Body) == "Path does not exist.", "a missing path is answered with the not-found text")
	sym.Reach("done")
}

// CheckLarge: directories of many metrics and sub-directories.
//
//sym:bound 13, 33, 70 or 130 metrics and as many sub-directories in a scattered order, one of either with an arbitrary name of one character
func CheckLarge() {
	n := []int{13, 33, 70, 130}[sym.Choose("n", 4)]
	x := make([]int64, n)
	for k := 0; k < n; k++ {
		i := k * 37 % n
		x[i] = int64(i)
		hlp.MustUnit("/x/m"+hlp.Num(1000+i), &x[i], units.None, "desc "+hlp.Num(i))
		hlp.MustUnit("/x/n"+hlp.Num(1000+i)+"/m", &x[i], units.None, "below")
	}
	c := name("c", 1)
	s := "<&>"
	hlp.MustUnit("/x/z"+c, &s, units.None, "last")
	hlp.MustUnit("/x/zz"+c+"/m", &s, units.None, "below")
	p := ask("/x")
	a := alltext(p)
	h, t := links(p)
	sym.Assert(len(h) == n+1 && len(t) == n+1, "every sub-directory is linked")
	for i := 0; i < n; i++ {
		sym.Assert(h[i] == "/metrics/x/n"+hlp.Num(1000+i) && t[i] == "/x/n"+hlp.Num(1000+i), "every sub-directory is linked")
	}
	sym.Assert(h[n] == "/metrics/x/zz"+c, "every sub-directory is linked")
	for i := 0; i < n; i++ {
		j := strings.Index(a, "/x/m"+hlp.Num(1000+i)+" ")
		if j < 0 {
			sym.Assert(false, "every metric is shown")
			return
		}
		a = a[j:]
		has(a, hlp.Num(i), "int64", "desc "+hlp.Num(i))
	}
	has(a, "/x/z"+c+" ", "\"<&>\"", "string", "last")
	sym.Reach("large")
}

// CheckLongTexts: long texts.
//
//sym:bound texts of 20, 64, 65, 128, 129, 255, 256, 257 or 300 characters with one arbitrary ASCII character at the start, in the middle or at the end, as value, description, name or list element
func CheckLongTexts() {
	n := []int{20, 64, 65, 128, 129, 255, 256, 257, 300}[sym.Choose("length", 9)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	mk := func(c byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		b[at] = c
		return string(b)
	}
	where := sym.Choose("where", 4)
	var c byte
	if where == 2 {
		c = name("c", 1)[0]
	} else {
		c = ascii("c", 1)[0]
	}
	t, w := mk(c), mk('x')
	v := int64(5)
	show := []string{"/x/m ", "5", "int64", "desc"}
	switch where {
	case 0:
		hlp.MustUnit("/x/m", &t, units.None, "desc")
		hlp.MustUnit("/y/m", &w, units.None, "desc")
		show = []string{"/x/m ", "\"" + t + "\"", "string", "desc"}
	case 1:
		hlp.MustUnit("/x/m", &v, units.None, t)
		hlp.MustUnit("/y/m", &v, units.None, w)
		show = []string{"/x/m ", "5", "int64", t}
	case 2:
		hlp.MustUnit("/x/"+t, &v, units.None, "desc")
		hlp.MustUnit("/y/"+w, &v, units.None, "desc")
		show = []string{"/x/" + t + " ", "5", "int64", "desc"}
	default:
		hlp.MustUnit("/x/m", tricorder.NewList([]string{"u", t}, true), units.None, "desc")
		hlp.MustUnit("/y/m", tricorder.NewList([]string{"u", w}, true), units.None, "desc")
		show = []string{"/x/m ", "list of string", "desc"}
		has(alltext(ask("/x/m")), "\"u\"", "\""+t+"\"")
	}
	p := ask("/x")
	sameTags(p, ask("/y"))
	has(alltext(p), show...)
	sym.Reach("done")
}

// CheckUnicode: names, descriptions and texts beyond ASCII.
//
//sym:bound 6 texts of 2, 3 and 4 byte characters, with and without ASCII ones, as name, description, value and list element
func CheckUnicode() {
	t := []string{"ü", "日本語", "a😀b", "żółć<ok", "x\u00a0&x", "e\u0301"}[sym.Choose("text", 6)]
	x, v := int64(5), t
	hlp.MustUnit("/x/"+t+"/m", &x, units.None, t)
	hlp.MustUnit("/x/v", &v, units.None, t)
	hlp.MustUnit("/x/w", tricorder.NewList([]string{t, "b"}, tricorder.MutableSlice), units.None, t)
	p := ask("/x")
	has(alltext(p), "/x/v ", "\""+t+"\"", "string", t, "/x/w ", "string", t, "\""+t+"\"", "\"b\"")
	h, s := links(p)
	sym.Assert(len(h) == 1 && h[0] == "/metrics/x/"+t, "a link leads to the sub-directory's page")
	sym.Assert(s[0] == "/x/"+t, "a link shows the sub-directory's path")
	has(alltext(ask("/x/"+t)), "/x/"+t+"/m ", "5", "int64", t)
	sym.Reach("unicode")
}

// CheckRanges: the ranges of a distribution, with bounds of either sign and zero.
//
//sym:bound bounds -5, 0, 5, 1000 and 0..2 values in each of the five ranges
func CheckRanges() {
	dist := tricorder.NewArbitraryBucketer(-5, 0, 5, 1000).NewNonCumulativeDistribution()
	hlp.MustUnit("/x/m", dist, units.None, "desc")
	label := []string{"<-5:", "-5-0:", "0-5:", "5-1000:", ">=1000:"}
	var want []string
	for i, v := range []float64{-7, -2, 2, 50, 2000} {
		n := sym.Choose("n"+hlp.Num(i), 3)
		for k := 0; k < n; k++ {
			dist.Add(v)
		}
		if n > 0 {
			want = append(want, label[i], hlp.Num(n))
		}
	}
	var got []string
	cell := false
	for _, t := range ask("/x/m") {
		switch {
		case t.tag == "td":
			cell = true
		case t.tag == "" && cell:
			got = append(got, strings.TrimSpace(t.text))
			cell = false
		}
	}
	sym.Assert(len(got) == len(want), "each range with values is shown")
	for i := range want {
		sym.Assert(got[i] == want[i], "a range is shown with its bounds and its count")
	}
	sym.Reach("ranges")
}

// CheckTimes: times are shown in UTC, to the nanosecond.
//
//sym:bound a time variable, pointer or list element; 6 instants (whole and fractional seconds, before 1970), in UTC or 2 other zones, and the time a callback gives
func CheckTimes() {
	x := []struct {
		sec, ns int64
		show    string
	}{
		{1234567890, 0, "2009-02-13T23:31:30Z"},
		{1234567890, 1, "2009-02-13T23:31:30.000000001Z"},
		{1234567890, 123456789, "2009-02-13T23:31:30.123456789Z"},
		{1234567890, 120000000, "2009-02-13T23:31:30.12Z"},
		{-1, 500000000, "1969-12-31T23:59:59.5Z"},
		{4102444800, 1000, "2100-01-01T00:00:00.000001Z"},
	}[sym.Choose("instant", 6)]
	zone := []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -9*3600)}[sym.Choose("zone", 3)]
	t := time.Unix(x.sec, x.ns).In(zone)
	var m interface{}
	switch sym.Choose("kind", 4) {
	case 0:
		m = &t
	case 1:
		q := &t
		m = &q
	case 2:
		m = func() time.Time { return t }
	default:
		m = tricorder.NewList([]time.Time{time.Unix(5, 0), t}, true)
	}
	hlp.MustUnit("/x/m", m, units.None, "desc")
	a := alltext(ask([]string{"/x", "/x/m"}[sym.Choose("page", 2)]))
	sym.Assert(strings.Contains(a, x.show), "a time is shown in UTC with its nanoseconds")
	sym.Reach("done")
}
