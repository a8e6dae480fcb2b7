// Package c28: registered flags report their live value, type and unit.
package c28

import (
	"flag"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

// plain is a flag.Value that is no flag.Getter.
type plain struct{ s string }

func (p *plain) String() string     { return "<" + p.s + ">" }
func (p *plain) Set(s string) error { p.s = s; return nil }

// pair is a flag.Getter of an unsupported type.
type pair struct{ a, b int }
type pairFlag struct{ p pair }

func (p *pairFlag) String() string     { return hlp.Num(p.p.a) + "/" + hlp.Num(p.p.b) }
func (p *pairFlag) Set(s string) error { return nil }
func (p *pairFlag) Get() interface{}   { return p.p }

// timeFlag is a flag.Getter of a supported type that package flag does not have.
type timeFlag struct{ t time.Time }

func (t *timeFlag) String() string     { return "a time" }
func (t *timeFlag) Set(s string) error { return nil }
func (t *timeFlag) Get() interface{}   { return t.t }

// level is a derived type.
type level int16
type levelFlag struct{ l level }

func (l *levelFlag) String() string     { return "a level" }
func (l *levelFlag) Set(s string) error { return nil }
func (l *levelFlag) Get() interface{}   { return l.l }

// slice is a flag.Getter of a slice.
type sliceFlag struct{ s []string }

func (f *sliceFlag) String() string {
	r := ""
	for _, x := range f.s {
		r += x + ","
	}
	return r
}
func (f *sliceFlag) Set(s string) error { f.s = append(f.s, s); return nil }
func (f *sliceFlag) Get() interface{}   { return f.s }

// any is a flag.Getter that has no value until it is set.
type anyFlag struct{ v interface{} }

func (f *anyFlag) String() string {
	if f.v == nil {
		return "unset"
	}
	return "set"
}
func (f *anyFlag) Set(s string) error { f.v = []string{s}; return nil }
func (f *anyFlag) Get() interface{}   { return f.v }

// ptr is a flag.Getter of a pointer.
type ptrFlag struct{ v string }

func (f *ptrFlag) String() string     { return "&" + f.v }
func (f *ptrFlag) Set(s string) error { return nil }
func (f *ptrFlag) Get() interface{}   { return &f.v }

// timePtrFlag is a flag.Getter of a pointer to a time.
type timePtrFlag struct{ t *time.Time }

func (t *timePtrFlag) String() string     { return "a time" }
func (t *timePtrFlag) Set(s string) error { return nil }
func (t *timePtrFlag) Get() interface{}   { return t.t }

// aflag is a flag with an arbitrary value: change gives it another arbitrary
// one and returns what is to be reported.
type aflag struct {
	kind   types.Type
	bits   int
	unit   units.Unit
	change func(name string) interface{}
}

const kinds = 17

// define makes a flag of the kind.
func define(kind int, name, usage string) aflag {
	r := aflag{unit: units.None}
	switch kind {
	case 0:
		p := flag.Bool(name, true, usage)
		r.kind = types.Bool
		r.change = func(n string) interface{} { *p = sym.Bool(n); return *p }
	case 1:
		p := flag.Int(name, 5, usage)
		r.kind, r.bits = types.Int64, 64
		r.change = func(n string) interface{} { *p = sym.Int(n); return int64(*p) }
	case 2:
		p := flag.Int64(name, 5, usage)
		r.kind, r.bits = types.Int64, 64
		r.change = func(n string) interface{} { *p = sym.Int64(n); return *p }
	case 3:
		p := flag.Uint(name, 5, usage)
		r.kind, r.bits = types.Uint64, 64
		r.change = func(n string) interface{} { *p = sym.Uint(n); return uint64(*p) }
	case 4:
		p := flag.Uint64(name, 5, usage)
		r.kind, r.bits = types.Uint64, 64
		r.change = func(n string) interface{} { *p = sym.Uint64(n); return *p }
	case 5:
		p := flag.Float64(name, 0.5, usage)
		r.kind, r.bits = types.Float64, 64
		r.change = func(n string) interface{} {
			*p = sym.Float64(n)
			sym.Assume(*p-*p == 0)
			return *p
		}
	case 6:
		p := flag.String(name, "s", usage)
		r.kind = types.String
		r.change = func(n string) interface{} { *p = sym.Str(n, 2); return *p }
	case 7:
		p := flag.Duration(name, time.Minute, usage)
		r.kind, r.unit = types.GoDuration, units.Second
		r.change = func(n string) interface{} { *p = time.Duration(sym.Int64(n)); return *p }
	case 8:
		p := &plain{}
		flag.Var(p, name, usage)
		r.kind = types.String
		r.change = func(n string) interface{} { p.s = sym.Str(n, 2); return "<" + p.s + ">" }
	case 9:
		p := &pairFlag{}
		flag.Var(p, name, usage)
		r.kind = types.String
		r.change = func(n string) interface{} {
			x := sym.IntRange(n, 0, 9)
			p.p.a = int(x)
			return string(rune('0'+x)) + "/0"
		}
	case 10:
		p := &timeFlag{}
		flag.Var(p, name, usage)
		r.kind = types.GoTime
		r.change = func(n string) interface{} { p.t = time.Unix(sym.IntRange(n, 0, 1<<32), 5); return p.t }
	case 11:
		p := &levelFlag{}
		flag.Var(p, name, usage)
		r.kind, r.bits = types.Int16, 16
		r.change = func(n string) interface{} { x := sym.Int16(n); p.l = level(x); return x }
	case 12:
		p := &sliceFlag{}
		flag.Var(p, name, usage)
		r.kind = types.String
		r.change = func(n string) interface{} {
			sym.Assert(flag.Set(name, sym.Str(n, 1)) == nil, "a flag can be set")
			return p.String()
		}
	case 13:
		p := &anyFlag{}
		flag.Var(p, name, usage)
		r.kind = types.String
		r.change = func(n string) interface{} {
			if sym.Choose(n, 2) == 1 {
				flag.Set(name, "x")
			}
			return p.String()
		}
	case 14:
		p := &ptrFlag{}
		flag.Var(p, name, usage)
		r.kind = types.String
		r.change = func(n string) interface{} { p.v = sym.Str(n, 1); return "&" + p.v }
	case 15:
		p := &timePtrFlag{}
		flag.Var(p, name, usage)
		r.kind = types.GoTime
		r.change = func(n string) interface{} {
			if sym.Choose(n+"-unset", 2) == 1 {
				p.t = nil
				return time.Time{}
			}
			t := time.Unix(sym.IntRange(n, 0, 1<<32), 5)
			p.t = &t
			return t
		}
	default:
		flag.Func(name, usage, func(s string) error { return nil })
		r.kind = types.String
		r.change = func(n string) interface{} { flag.Set(name, "x"); return "" }
	}
	return r
}

func find(l messages.MetricList, path string) *messages.Metric {
	var r *messages.Metric
	for _, m := range l {
		if m.Path == path {
			sym.Assert(r == nil, "a flag is listed once")
			r = m
		}
	}
	sym.Assert(r != nil, "every flag is listed")
	return r
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return a == b
}

func verify(m *messages.Metric, f aflag, usage string, unit units.Unit, want interface{}) {
	sym.Assert(m.Description == usage, "a flag is described by its usage text")
	sym.Assert(m.Kind == f.kind && m.Bits == f.bits && m.SubType == "", "a flag is reported in its natural kind, else as text")
	sym.Assert(m.Unit == unit, "the unit is the one set, else seconds for durations, else none")
	sym.Assert(same(m.Value, want), "the value is the current one")
}

var someUnits = []units.Unit{units.Millisecond, units.Byte, units.Celsius, units.Unknown, units.None}

// CheckOne: a flag of every kind, an arbitrary value at registration and two later changes.
//
//sym:opt float=ieee
//sym:bound 17 kinds of flags (all of package flag's value types, custom values with and without Get, of unsupported, derived, pointer and absent types), every value (strings of 1..2 bytes), the unit unset or set to one of 5 (also twice), set before registration; 3 values in turn; requests for the flag or for /proc/flags
func CheckOne() {
	const usage = " the `value`, 100%d\tof it\n"
	f := define(sym.Choose("kind", kinds), "the-flag", usage)
	unit := f.unit
	if u := sym.Choose("unit", 7); u > 0 {
		if u == 6 {
			tricorder.SetFlagUnit("the-flag", units.Byte)
			u = 1
		}
		unit = someUnits[u-1]
		tricorder.SetFlagUnit("the-flag", unit)
		sym.Reach("unit set")
	}
	tricorder.SetFlagUnit("the-flagg", units.Celsius)
	want := f.change("v0")
	tricorder.RegisterFlags()
	whole := sym.Choose("whole", 2) == 1
	for i := 1; ; i++ {
		l := tricorder.ReadMyMetrics("/proc/flags/the-flag")
		if whole {
			l = tricorder.ReadMyMetrics("/proc/flags")
		}
		verify(find(l, "/proc/flags/the-flag"), f, usage, unit, want)
		if i == 3 {
			break
		}
		want = f.change("v" + hlp.Num(i))
	}
	sym.Reach("done")
}

// CheckTwo: two flags of any kinds are reported independently, the first changing; RegisterFlags again is harmless.
//
//sym:opt float=ieee
//sym:bound two flags of any of the 17 kinds, the unit of one of them set; RegisterFlags once or twice, with a third flag defined in between
func CheckTwo() {
	a := define(sym.Choose("kind-a", kinds), "a", "usage of a")
	b := define(sym.Choose("kind-b", kinds), "b", "usage of b")
	ua, ub := a.unit, b.unit
	if sym.Choose("unit", 2) == 1 {
		ub = units.Celsius
		tricorder.SetFlagUnit("b", ub)
	}
	wa, wb := a.change("a0"), b.change("b0")
	tricorder.RegisterFlags()
	if sym.Choose("again", 2) == 1 {
		c := flag.Int("c", 3, "usage of c")
		tricorder.RegisterFlags()
		m := hlp.Read("/proc/flags/c")
		sym.Assert(m.Value == int64(*c), "a flag defined later is reported after registering the flags again")
		sym.Reach("again")
	}
	l := tricorder.ReadMyMetrics("/proc/flags")
	verify(find(l, "/proc/flags/a"), a, "usage of a", ua, wa)
	verify(find(l, "/proc/flags/b"), b, "usage of b", ub, wb)
	wa = a.change("a1")
	l = tricorder.ReadMyMetrics("/proc/flags")
	verify(find(l, "/proc/flags/a"), a, "usage of a", ua, wa)
	verify(find(l, "/proc/flags/b"), b, "usage of b", ub, wb)
	sym.Reach("done")
}

// CheckSet: flags changed through flag.Set are reported, in the order of their names.
//
//sym:bound a string, a custom and a slice flag, each set to arbitrary texts of 0..2 bytes
func CheckSet() {
	flag.String("m-str", "", "s")
	flag.Var(&plain{}, "k-plain", "p")
	flag.Var(&sliceFlag{}, "z-slice", "l")
	tricorder.RegisterFlags()
	s := sym.Str("s", sym.Choose("len", 3))
	which := []string{"m-str", "k-plain", "z-slice"}[sym.Choose("which", 3)]
	sym.Assert(flag.Set(which, s) == nil, "a flag can be set")
	want := map[string]string{"m-str": "", "k-plain": "<>", "z-slice": ""}
	switch which {
	case "m-str":
		want[which] = s
	case "k-plain":
		want[which] = "<" + s + ">"
	default:
		want[which] = s + ","
	}
	l := tricorder.ReadMyMetrics("/proc/flags")
	last := ""
	for _, m := range l {
		sym.Assert(m.Path > last, "flags are listed in order")
		last = m.Path
	}
	for n, w := range want {
		m := find(l, "/proc/flags/"+n)
		sym.Assert(m.Kind == types.String && m.Value == w, "the value is the current one")
	}
	sym.Reach("done")
}

// CheckZero: flags whose default is the zero value of their type, with or without usage text.
//
//sym:bound a flag of each of package flag's 9 value types with the zero default, usage text present or not, the value left, set to an arbitrary one (texts of 1 byte) or set and set back
func CheckZero() {
	usage := []string{"", "u"}[sym.Choose("usage", 2)]
	which := sym.Choose("kind", 9)
	var set func(bool)
	var get func() interface{}
	f := aflag{unit: units.None}
	switch which {
	case 0:
		p := flag.Bool("x", false, usage)
		f.kind = types.Bool
		set = func(z bool) { *p = !z }
		get = func() interface{} { return *p }
	case 1:
		p := flag.Int("x", 0, usage)
		f.kind, f.bits = types.Int64, 64
		v := sym.Int("v")
		set = func(z bool) {
			*p = v
			if z {
				*p = 0
			}
		}
		get = func() interface{} { return int64(*p) }
	case 2:
		p := flag.Int64("x", 0, usage)
		f.kind, f.bits = types.Int64, 64
		v := sym.Int64("v")
		set = func(z bool) {
			*p = v
			if z {
				*p = 0
			}
		}
		get = func() interface{} { return *p }
	case 3:
		p := flag.Uint("x", 0, usage)
		f.kind, f.bits = types.Uint64, 64
		v := sym.Uint("v")
		set = func(z bool) {
			*p = v
			if z {
				*p = 0
			}
		}
		get = func() interface{} { return uint64(*p) }
	case 4:
		p := flag.Uint64("x", 0, usage)
		f.kind, f.bits = types.Uint64, 64
		v := sym.Uint64("v")
		set = func(z bool) {
			*p = v
			if z {
				*p = 0
			}
		}
		get = func() interface{} { return *p }
	case 5:
		p := flag.Float64("x", 0, usage)
		f.kind, f.bits = types.Float64, 64
		v := sym.Float64("v")
		sym.Assume(v-v == 0)
		set = func(z bool) {
			*p = v
			if z {
				*p = 0
			}
		}
		get = func() interface{} { return *p }
	case 6:
		p := flag.String("x", "", usage)
		f.kind = types.String
		v := sym.Str("v", 1)
		set = func(z bool) {
			*p = v
			if z {
				*p = ""
			}
		}
		get = func() interface{} { return *p }
	case 7:
		p := flag.Duration("x", 0, usage)
		f.kind, f.unit = types.GoDuration, units.Second
		v := time.Duration(sym.Int64("v"))
		set = func(z bool) {
			*p = v
			if z {
				*p = 0
			}
		}
		get = func() interface{} { return *p }
	default:
		p := &sliceFlag{}
		flag.Var(p, "x", usage)
		f.kind = types.String
		v := sym.Str("v", 1)
		set = func(z bool) {
			p.s = []string{v}
			if z {
				p.s = nil
			}
		}
		get = func() interface{} { return p.String() }
	}
	early := sym.Choose("early", 2) == 1
	if early {
		set(false)
	}
	tricorder.RegisterFlags()
	check := func() {
		verify(find(tricorder.ReadMyMetrics("/proc/flags"), "/proc/flags/x"), f, usage, f.unit, get())
	}
	check()
	set(false)
	check()
	set(true)
	check()
	sym.Reach("zero")
}

// CheckTexts: arbitrary usage texts.
//
//sym:bound a string flag with every usage text of up to 2 bytes
func CheckTexts() {
	usage := sym.Str("usage", sym.Choose("len", 3))
	flag.String("x", "v", usage)
	tricorder.RegisterFlags()
	m := hlp.Read("/proc/flags/x")
	sym.Assert(m.Description == usage, "a flag is described by its usage text")
	sym.Assert(m.Value == "v", "the value is the current one")
	sym.Reach("done")
}

// CheckNames: flags of unusual names.
//
//sym:bound 8 flag names
func CheckNames() {
	name := []string{"x", "X", "a.b", "with space", "ünï", "test.v", "a-", ".."}[sym.Choose("name", 8)]
	flag.Int(name, 7, "usage")
	tricorder.RegisterFlags()
	m := find(tricorder.ReadMyMetrics("/proc/flags"), "/proc/flags/"+name)
	sym.Assert(m.Value == int64(7) && m.Description == "usage", "every flag is listed")
	sym.Reach("done")
}

// CheckMany: many flags.
//
//sym:bound 40 flags of all kinds in a scattered order, the units of some set, two changes of each
func CheckMany() {
	const n = 40
	var fs [n]aflag
	var us [n]units.Unit
	nm := func(i int) string { return "f" + hlp.Num(100+i) }
	for k := 0; k < n; k++ {
		i := k * 17 % n
		fs[i] = define(i%kinds, nm(i), "usage "+nm(i))
		us[i] = fs[i].unit
		if i%3 == 1 {
			us[i] = someUnits[i%len(someUnits)]
			tricorder.SetFlagUnit(nm(i), us[i])
		}
	}
	tricorder.RegisterFlags()
	for round := 0; round < 2; round++ {
		var want [n]interface{}
		for i := range fs {
			want[i] = fs[i].change("v" + hlp.Num(round) + "." + hlp.Num(i))
		}
		l := tricorder.ReadMyMetrics("/proc/flags")
		for i := range fs {
			verify(find(l, "/proc/flags/"+nm(i)), fs[i], "usage "+nm(i), us[i], want[i])
		}
	}
	sym.Reach("many")
}

// CheckLongTexts: long names, usage texts and values.
//
//sym:bound usage texts and values of 15..300 arbitrary bytes, names of as many letters
func CheckLongTexts() {
	n := []int{15, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300}[sym.Choose("length", 13)]
	usage, v := sym.Str("usage", n), sym.Str("value", n)
	name := ""
	for i := 0; i < n; i++ {
		name += string(rune('a' + i%26))
	}
	flag.String(name, v, usage)
	tricorder.RegisterFlags()
	m := hlp.Read("/proc/flags/" + name)
	sym.Assert(m.Description == usage, "a flag is described by its usage text")
	sym.Assert(m.Value == v, "the value is the current one")
	sym.Reach("done")
}

type (
	shade  uint8
	place  string
	weight float32
	yes    bool
)

// CheckGetters: custom flags whose values are of any supported type.
//
//sym:bound custom flags with values of each of the 14 sized types, plain int and uint and 4 derived types; every value (texts of 1 byte), changed once
func CheckGetters() {
	kind := sym.Choose("kind", 20)
	next := func(n string) (v, want interface{}, t types.Type) {
		switch kind {
		case 0:
			x := sym.Bool(n)
			return x, x, types.Bool
		case 1:
			x := sym.Int8(n)
			return x, x, types.Int8
		case 2:
			x := sym.Int16(n)
			return x, x, types.Int16
		case 3:
			x := sym.Int32(n)
			return x, x, types.Int32
		case 4:
			x := sym.Int64(n)
			return x, x, types.Int64
		case 5:
			x := sym.Uint8(n)
			return x, x, types.Uint8
		case 6:
			x := sym.Uint16(n)
			return x, x, types.Uint16
		case 7:
			x := sym.Uint32(n)
			return x, x, types.Uint32
		case 8:
			x := sym.Uint64(n)
			return x, x, types.Uint64
		case 9:
			x := float32(sym.Int16(n)) / 4
			return x, x, types.Float32
		case 10:
			x := float64(sym.Int32(n)) / 4
			return x, x, types.Float64
		case 11:
			x := sym.Str(n, 1)
			return x, x, types.String
		case 12:
			x := time.Duration(sym.Int64(n))
			return x, x, types.GoDuration
		case 13:
			x := time.Unix(sym.IntRange(n, 0, 1<<32), 5)
			return x, x, types.GoTime
		case 14:
			x := sym.Int(n)
			return x, int64(x), types.Int64
		case 15:
			x := sym.Uint(n)
			return x, uint64(x), types.Uint64
		case 16:
			x := sym.Uint8(n)
			return shade(x), x, types.Uint8
		case 17:
			x := sym.Str(n, 1)
			return place(x), x, types.String
		case 18:
			x := float32(sym.Int16(n)) / 4
			return weight(x), x, types.Float32
		default:
			x := sym.Bool(n)
			return yes(x), x, types.Bool
		}
	}
	f := &anyFlag{}
	v, want, t := next("first")
	f.v = v
	flag.Var(f, "any", "usage")
	tricorder.RegisterFlags()
	for i := 0; i < 2; i++ {
		m := hlp.Read("/proc/flags/any")
		sym.Assert(m.Kind == t, "a flag is reported in its natural kind")
		sym.Assert(m.Value == want, "a flag's current value is reported")
		u := units.None
		if t == types.GoDuration {
			u = units.Second
		}
		sym.Assert(m.Unit == u, "the unit is seconds for durations and none otherwise")
		v, want, t = next("second")
		f.v = v
	}
	sym.Reach("getter")
}
