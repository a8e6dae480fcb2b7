// Package c23: a list reports exactly the last contents given to it.
package c23

import (
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

type (
	myInt    int16
	myString string
	myFloat  float64
)

// source is a slice of some type: the slice, what is to be reported for its
// elements, and a function overwriting it.
type source struct {
	slice interface{}
	sub   types.Type
	want  []interface{}
	wipe  func()
}

const kinds = 18

// makeSource returns a slice of the kind with n arbitrary elements and spare
// further capacity.
func makeSource(kind int, name string, n, spare int) source {
	el := func(i int) string { return name + hlp.Num(i) }
	r := source{want: make([]interface{}, n)}
	switch kind {
	case 0:
		s := make([]int, n, n+spare)
		for i := range s {
			s[i] = sym.Int(el(i))
			r.want[i] = int64(s[i])
		}
		r.slice, r.sub = s, types.Int64
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 1:
		s := make([]int8, n, n+spare)
		for i := range s {
			s[i] = sym.Int8(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Int8
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 2:
		s := make([]int16, n, n+spare)
		for i := range s {
			s[i] = sym.Int16(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Int16
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 3:
		s := make([]int32, n, n+spare)
		for i := range s {
			s[i] = sym.Int32(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Int32
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 4:
		s := make([]int64, n, n+spare)
		for i := range s {
			s[i] = sym.Int64(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Int64
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 5:
		s := make([]uint, n, n+spare)
		for i := range s {
			s[i] = sym.Uint(el(i))
			r.want[i] = uint64(s[i])
		}
		r.slice, r.sub = s, types.Uint64
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 6:
		s := make([]uint8, n, n+spare)
		for i := range s {
			s[i] = sym.Uint8(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Uint8
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 7:
		s := make([]uint16, n, n+spare)
		for i := range s {
			s[i] = sym.Uint16(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Uint16
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 8:
		s := make([]uint32, n, n+spare)
		for i := range s {
			s[i] = sym.Uint32(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Uint32
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 9:
		s := make([]uint64, n, n+spare)
		for i := range s {
			s[i] = sym.Uint64(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Uint64
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 10:
		s := make([]float32, n, n+spare)
		for i := range s {
			s[i] = sym.Float32(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Float32
		r.wipe = func() {
			zero(len(s), func(i int) { s[i] = 12345.5 })
			s = append(s, 7)
			zero(len(s), func(i int) { s[i] = 12345.5 })
		}
	case 11:
		s := make([]float64, n, n+spare)
		for i := range s {
			s[i] = sym.Float64(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Float64
		r.wipe = func() {
			zero(len(s), func(i int) { s[i] = 12345.5 })
			s = append(s, 7)
			zero(len(s), func(i int) { s[i] = 12345.5 })
		}
	case 12:
		s := make([]bool, n, n+spare)
		for i := range s {
			s[i] = sym.Bool(el(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.Bool
		r.wipe = func() {
			zero(len(s), func(i int) { s[i] = !s[i] })
			s = append(s, true)
			zero(len(s), func(i int) { s[i] = !s[i] })
		}
	case 13:
		s := make([]string, n, n+spare)
		for i := range s {
			s[i] = sym.Str(el(i), i%4)
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.String
		r.wipe = func() {
			zero(len(s), func(i int) { s[i] += "x" })
			s = append(s, "new")
			zero(len(s), func(i int) { s[i] += "x" })
		}
	case 14:
		s := make([]time.Duration, n, n+spare)
		for i := range s {
			s[i] = time.Duration(sym.Int64(el(i)))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.GoDuration
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	case 15:
		s := make([]time.Time, n, n+spare)
		for i := range s {
			s[i] = time.Unix(sym.IntRange(el(i), 0, 1<<32), int64(i))
			r.want[i] = s[i]
		}
		r.slice, r.sub = s, types.GoTime
		r.wipe = func() {
			zero(len(s), func(i int) { s[i] = time.Unix(99, 99) })
			s = append(s, time.Unix(5, 0))
			zero(len(s), func(i int) { s[i] = time.Unix(99, 99) })
		}
	case 16:
		s := make([]myInt, n, n+spare)
		for i := range s {
			x := sym.Int16(el(i))
			s[i] = myInt(x)
			r.want[i] = x
		}
		r.slice, r.sub = s, types.Int16
		r.wipe = func() { zero(len(s), func(i int) { s[i]++ }); s = append(s, 7); zero(len(s), func(i int) { s[i]++ }) }
	default:
		s := make([]myString, n, n+spare)
		for i := range s {
			x := sym.Str(el(i), 1)
			s[i] = myString(x)
			r.want[i] = x
		}
		r.slice, r.sub = s, types.String
		r.wipe = func() {
			zero(len(s), func(i int) { s[i] += "x" })
			s = append(s, "new")
			zero(len(s), func(i int) { s[i] += "x" })
		}
	}
	return r
}

func zero(n int, f func(int)) {
	for i := 0; i < n; i++ {
		f(i)
	}
}

// elems are the elements of a reported list, which has to be of the documented slice type.
func elems(t types.Type, v interface{}) (r []interface{}) {
	ok := false
	switch t {
	case types.Bool:
		var s []bool
		if s, ok = v.([]bool); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Int8:
		var s []int8
		if s, ok = v.([]int8); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Int16:
		var s []int16
		if s, ok = v.([]int16); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Int32:
		var s []int32
		if s, ok = v.([]int32); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Int64:
		var s []int64
		if s, ok = v.([]int64); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Uint8:
		var s []uint8
		if s, ok = v.([]uint8); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Uint16:
		var s []uint16
		if s, ok = v.([]uint16); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Uint32:
		var s []uint32
		if s, ok = v.([]uint32); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Uint64:
		var s []uint64
		if s, ok = v.([]uint64); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Float32:
		var s []float32
		if s, ok = v.([]float32); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.Float64:
		var s []float64
		if s, ok = v.([]float64); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.String:
		var s []string
		if s, ok = v.([]string); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.GoDuration:
		var s []time.Duration
		if s, ok = v.([]time.Duration); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	case types.GoTime:
		var s []time.Time
		if s, ok = v.([]time.Time); ok {
			for _, x := range s {
				r = append(r, x)
			}
		}
	}
	sym.Assert(ok, "a list is reported as a slice of the documented element type")
	return
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || x != x && y != y)
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return a == b
}

func contents(m *messages.Metric, src source) {
	sym.Assert(m.Kind == types.List && m.SubType == src.sub, "the metric is a list of the element type")
	got := elems(src.sub, m.Value)
	sym.Assert(len(got) == len(src.want), "as many elements are reported as were given")
	for i := range src.want {
		sym.Assert(same(src.want[i], got[i]), "the elements are reported in order, unchanged")
	}
}

// report reads the list in process and compares contents and timestamp.
func report(path string, src source, before, after time.Time) *messages.Metric {
	m := hlp.Read(path)
	contents(m, src)
	ts, ok := m.TimeStamp.(time.Time)
	sym.Assert(ok && !ts.Before(before) && !ts.After(after), "the timestamp is the moment the contents were given")
	return m
}

// CheckContents: creation, overwriting the caller's slice, Change, overwriting again.
//
//sym:opt float=ieee
//sym:bound 18 slice types (every documented element type, plain int and uint, derived types), 0..2 elements at creation and 0..2 after Change, every element value (strings up to 1 byte, times from the epoch to 2^32 s)
func CheckContents() { history(3, 3) }

// CheckContentsDeep is the same with longer slices.
//
//sym:opt float=ieee tier=thorough
//sym:bound as CheckContents with 0..4 elements
func CheckContentsDeep() { history(5, 5) }

func history(n1, n2 int) {
	kind := sym.Choose("kind", kinds)
	spare := sym.Choose("spare", 2)
	first := makeSource(kind, "a", sym.Choose("len", n1), spare)
	b1 := time.Now()
	l := tricorder.NewList(first.slice, tricorder.MutableSlice)
	a1 := time.Now()
	hlp.MustUnit("/l", l, units.None, "a list")
	first.wipe()
	report("/l", first, b1, a1)
	second := makeSource(kind, "b", sym.Choose("len2", n2), 1-spare)
	b2 := time.Now()
	l.Change(second.slice, tricorder.MutableSlice)
	a2 := time.Now()
	second.wipe()
	m := report("/l", second, b2, a2)
	r := hlp.Ask(hlp.RPCList, "/l")
	sym.Assert(len(r.Metrics) == 1, "the RPC list has the metric")
	contents(r.Metrics[0].Metric, second)
	sym.Observe("n", len(second.want))
	sym.Observe("kind", string(m.SubType))
	sym.Reach("changed")
}

// CheckShared: a slice passed as immutable is reported, and neither an in-process or RPC report nor a later Change writes to it.
//
//sym:opt float=ieee
//sym:bound 18 slice types, 0..2 elements, every element value, in-process reads and RPC, then a Change to 0..2 elements, mutable or not
func CheckShared() {
	kind := sym.Choose("kind", kinds)
	src := makeSource(kind, "a", sym.Choose("len", 3), 1)
	l := tricorder.NewList(src.slice, tricorder.ImmutableSlice)
	hlp.MustUnit("/l", l, units.None, "a list")
	hlp.Ask(sym.Choose("request", 3), "/l")
	earlier := hlp.Read("/l")
	contents(earlier, src)
	keeps(src)
	next := makeSource(kind, "b", sym.Choose("len2", 3), 0)
	l.Change(next.slice, sym.Choose("mutable", 2) == 1)
	contents(hlp.Read("/l"), next)
	keeps(src)
	keeps(next)
	contents(earlier, src)
	sym.Reach("shared")
}

func keeps(src source) {
	if at := reader(src.slice); at != nil {
		for i, w := range src.want {
			sym.Assert(same(at(i), w), "neither a report nor a Change modifies a slice the caller gave")
		}
	}
}

// CheckSharedForms: the same for the formatting requests, and these show the elements in order.
//
//sym:bound a list of 3 one-digit numbers, of 2 strings, or of a time and a duration; JSON, text and HTML requests
func CheckSharedForms() {
	req := []int{hlp.JSONList, hlp.JSONOne, hlp.Text, hlp.HTML}[sym.Choose("request", 4)]
	var src source
	var texts []string
	switch sym.Choose("kind", 4) {
	case 0:
		s := make([]int64, 3)
		for i := range s {
			s[i] = sym.IntRange("d"+hlp.Num(i), 0, 9)
			src.want = append(src.want, s[i])
			texts = append(texts, string(rune('0'+s[i])))
		}
		src.slice, src.sub = s, types.Int64
	case 1:
		s := make([]string, 2)
		for i := range s {
			s[i] = sym.StrIn("d"+hlp.Num(i), 2, "abc")
			src.want = append(src.want, s[i])
			t := s[i]
			if req == hlp.Text || req == hlp.HTML {
				t = "\"" + t + "\""
			}
			if req == hlp.HTML {
				t = "&#34;" + s[i] + "&#34;"
			}
			texts = append(texts, t)
		}
		src.slice, src.sub = s, types.String
	case 2:
		s := []time.Time{time.Unix(5, 0), time.Unix(3, 0)}
		src = source{slice: s, sub: types.GoTime, want: []interface{}{s[0], s[1]}}
	default:
		s := []time.Duration{5, 3}
		src = source{slice: s, sub: types.GoDuration, want: []interface{}{s[0], s[1]}}
	}
	l := tricorder.NewList(src.slice, tricorder.ImmutableSlice)
	hlp.MustUnit("/l", l, units.None, "a list")
	a := hlp.Ask(req, "/l")
	if texts != nil {
		var got []string
		switch req {
		case hlp.JSONList, hlp.JSONOne:
			for _, k := range a.Metrics[0].Node.Get("value").Kids {
				got = append(got, k.Text)
			}
		case hlp.Text:
			got = strings.Split(a.Metrics[0].Text, "|")
		default:
			got = hlp.Items(a.Body)
		}
		sym.Assert(len(got) == len(texts), "as many elements are shown as were given")
		for i := range got {
			sym.Assert(got[i] == texts[i], "the elements are shown in order")
		}
	}
	contents(hlp.Read("/l"), src)
	keeps(src)
	sym.Reach("shown")
}

// reader reads an element of the caller's slice.
func reader(s interface{}) func(int) interface{} {
	switch x := s.(type) {
	case []int:
		return func(i int) interface{} { return int64(x[i]) }
	case []int64:
		return func(i int) interface{} { return x[i] }
	case []uint8:
		return func(i int) interface{} { return x[i] }
	case []string:
		return func(i int) interface{} { return x[i] }
	case []time.Time:
		return func(i int) interface{} { return x[i] }
	case []time.Duration:
		return func(i int) interface{} { return x[i] }
	case []float64:
		return func(i int) interface{} { return x[i] }
	}
	return nil
}

// CheckRefused: a Change that is not possible panics and changes nothing.
//
//sym:bound lists of every element type with 0..2 elements; Change with a slice of 0 or 1 elements of every other element type, a scalar, a string, nil, an array, a map, slices of pointers, structs, slices, interfaces and complex numbers
func CheckRefused() {
	kind := sym.Choose("kind", kinds)
	src := makeSource(kind, "a", sym.Choose("len", 3), 1)
	b := time.Now()
	l := tricorder.NewList(src.slice, sym.Choose("mutable", 2) == 1)
	a := time.Now()
	hlp.MustUnit("/l", l, units.None, "a list")
	n := sym.Choose("bad", kinds+12)
	var bad interface{}
	if n < kinds {
		x := makeSource(n, "b", sym.Choose("len2", 2), 1)
		if x.sub == src.sub { // the same element type
			l.Change(x.slice, true)
			contents(hlp.Read("/l"), x)
			sym.Reach("accepted")
			return
		}
		bad = x.slice
	} else {
		i := int64(5)
		bad = []interface{}{
			int64(5), "text", nil, [2]int64{1, 2}, map[string]int64{"a": 1}, []*int64{&i},
			[]struct{ X int }{{1}}, [][]int64{{1}}, []interface{}{int64(1)}, []complex128{1}, &[]int64{5}, []*string{},
		}[n-kinds]
		sym.Assert(sym.Panics(func() { tricorder.NewList(bad, true) }), "NewList with anything but a slice of a supported type panics")
	}
	mutable := sym.Choose("mutable2", 2) == 1
	sym.Assert(sym.Panics(func() { l.Change(bad, mutable) }), "Change with another element type or no slice panics")
	report("/l", src, b, a)
	again := makeSource(kind, "c", 1, 0)
	b = time.Now()
	l.Change(again.slice, true)
	report("/l", again, b, time.Now())
	sym.Reach("refused")
}

// CheckLong: lists of many elements.
//
//sym:opt float=ieee
//sym:bound 16 slice types (all but floats); 9, 17, 33, 65, 129 or 257 arbitrary elements, changed to half or one more; mutable
func CheckLong() {
	kind := sym.Choose("kind", kinds)
	sym.Assume(kind != 10 && kind != 11)
	n := []int{9, 17, 33, 65, 129, 257}[sym.Choose("len", 6)]
	first := makeSource(kind, "a", n, 3)
	b1 := time.Now()
	l := tricorder.NewList(first.slice, tricorder.MutableSlice)
	a1 := time.Now()
	hlp.MustUnit("/l", l, units.None, "a list")
	first.wipe()
	report("/l", first, b1, a1)
	second := makeSource(kind, "b", []int{n / 2, n + 1}[sym.Choose("len2", 2)], 0)
	b2 := time.Now()
	l.Change(second.slice, tricorder.MutableSlice)
	a2 := time.Now()
	second.wipe()
	report("/l", second, b2, a2)
	r := hlp.Ask(hlp.RPCGet, "/l")
	sym.Assert(len(r.Metrics) == 1, "the metric is found")
	contents(r.Metrics[0].Metric, second)
	sym.Reach("long")
}

// CheckSameSlice: the same slice given again, or a part of it, counts as a Change like any other.
//
//sym:bound a slice of 3 numbers or strings of every value; creation with it, then two Changes with the whole slice, its first or its last two elements, mutable or not; the slice is written to before each Change once it has only been given as mutable
func CheckSameSlice() {
	nums := make([]int64, 3)
	texts := make([]string, 3)
	for i := range nums {
		nums[i] = sym.Int64("n" + hlp.Num(i))
		texts[i] = sym.Str("s"+hlp.Num(i), 1)
	}
	isText := sym.Choose("kind", 2) == 1
	part := func(which int) source {
		lo, hi := []int{0, 0, 1}[which], []int{3, 2, 3}[which]
		r := source{slice: nums[lo:hi], sub: types.Int64}
		if isText {
			r.slice, r.sub = texts[lo:hi], types.String
		}
		for i := lo; i < hi; i++ {
			if isText {
				r.want = append(r.want, texts[i])
			} else {
				r.want = append(r.want, nums[i])
			}
		}
		return r
	}
	mutable := sym.Choose("mutable", 2) == 1
	src := part(0)
	before := time.Now()
	l := tricorder.NewList(src.slice, mutable)
	after := time.Now()
	hlp.MustUnit("/l", l, units.None, "a list")
	if sym.Choose("read", 2) == 1 {
		report("/l", src, before, after)
	}
	for i := 0; i < 2; i++ {
		if mutable && sym.Choose("write"+hlp.Num(i), 2) == 1 {
			nums[1], nums[2] = nums[2]+1, nums[1]
			texts[1], texts[2] = texts[2]+"x", texts[1]
			report("/l", src, before, after)
		}
		again := sym.Choose("mutable"+hlp.Num(i), 2) == 1
		src = part(sym.Choose("part"+hlp.Num(i), 3))
		before = time.Now()
		l.Change(src.slice, again)
		after = time.Now()
		report("/l", src, before, after)
		mutable = mutable && again
	}
	sym.Reach("given again")
}

type (
	ints    []int64
	texts   []string
	stamps  []time.Time
	spans   []time.Duration
	bytes   []uint8
	flags   []bool
	derived []myInt
)

// CheckNamed: slices of named slice types.
//
//sym:bound 7 named slice types, 1..2 elements of every value at creation, 0..2 after Change, mutable; written to after each
func CheckNamed() {
	kind := sym.Choose("kind", 7)
	base := []int{4, 13, 15, 14, 6, 12, 16}[kind]
	named := func(src source) source {
		switch s := src.slice.(type) {
		case []int64:
			src.slice = ints(s)
		case []string:
			src.slice = texts(s)
		case []time.Time:
			src.slice = stamps(s)
		case []time.Duration:
			src.slice = spans(s)
		case []uint8:
			src.slice = bytes(s)
		case []bool:
			src.slice = flags(s)
		case []myInt:
			src.slice = derived(s)
		}
		return src
	}
	first := named(makeSource(base, "a", 1+sym.Choose("len", 2), 0))
	b1 := time.Now()
	l := tricorder.NewList(first.slice, tricorder.MutableSlice)
	a1 := time.Now()
	hlp.MustUnit("/l", l, units.None, "a list")
	first.wipe()
	report("/l", first, b1, a1)
	second := makeSource(base, "b", sym.Choose("len2", 3), 1)
	if sym.Choose("again", 2) == 1 {
		second = named(second)
	}
	b2 := time.Now()
	l.Change(second.slice, tricorder.MutableSlice)
	a2 := time.Now()
	second.wipe()
	report("/l", second, b2, a2)
	sym.Reach("named")
}
