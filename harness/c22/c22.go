// Package c22: type metadata is mutually consistent for every type name.
package c22

import (
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"vh/sym"
)

// info is the Go side of a documented type.
type info struct {
	t           types.Type
	zero        interface{} // nil: none
	slice       interface{}
	bits        int
	i, u, f     bool
	convertible bool
}

func documented() []info {
	return []info{
		{t: types.Bool, zero: false, slice: []bool(nil)},
		{t: types.Int8, zero: int8(0), slice: []int8(nil), bits: 8, i: true, convertible: true},
		{t: types.Int16, zero: int16(0), slice: []int16(nil), bits: 16, i: true, convertible: true},
		{t: types.Int32, zero: int32(0), slice: []int32(nil), bits: 32, i: true, convertible: true},
		{t: types.Int64, zero: int64(0), slice: []int64(nil), bits: 64, i: true, convertible: true},
		{t: types.Uint8, zero: uint8(0), slice: []uint8(nil), bits: 8, u: true, convertible: true},
		{t: types.Uint16, zero: uint16(0), slice: []uint16(nil), bits: 16, u: true, convertible: true},
		{t: types.Uint32, zero: uint32(0), slice: []uint32(nil), bits: 32, u: true, convertible: true},
		{t: types.Uint64, zero: uint64(0), slice: []uint64(nil), bits: 64, u: true, convertible: true},
		{t: types.Float32, zero: float32(0), slice: []float32(nil), bits: 32, f: true, convertible: true},
		{t: types.Float64, zero: float64(0), slice: []float64(nil), bits: 64, f: true, convertible: true},
		{t: types.String, zero: "", slice: []string(nil)},
		{t: types.GoTime, zero: time.Time{}, slice: []time.Time(nil), convertible: true},
		{t: types.GoDuration, zero: time.Duration(0), slice: []time.Duration(nil), convertible: true},
		{t: types.Time, zero: "0.000000000", slice: []string(nil)},
		{t: types.Duration, zero: "0.000000000", slice: []string(nil)},
		{t: types.Dist},
		{t: types.List},
		{t: types.Unknown},
	}
}

var names = []types.Type{"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "goTime", "goDuration", "time", "duration", "distribution", "list", ""}

// sameSlice: a nil slice of the same Go type.
func sameSlice(a, b interface{}) bool {
	switch x := a.(type) {
	case []bool:
		y, ok := b.([]bool)
		return ok && x == nil && y == nil
	case []int8:
		y, ok := b.([]int8)
		return ok && x == nil && y == nil
	case []int16:
		y, ok := b.([]int16)
		return ok && x == nil && y == nil
	case []int32:
		y, ok := b.([]int32)
		return ok && x == nil && y == nil
	case []int64:
		y, ok := b.([]int64)
		return ok && x == nil && y == nil
	case []uint8:
		y, ok := b.([]uint8)
		return ok && x == nil && y == nil
	case []uint16:
		y, ok := b.([]uint16)
		return ok && x == nil && y == nil
	case []uint32:
		y, ok := b.([]uint32)
		return ok && x == nil && y == nil
	case []uint64:
		y, ok := b.([]uint64)
		return ok && x == nil && y == nil
	case []float32:
		y, ok := b.([]float32)
		return ok && x == nil && y == nil
	case []float64:
		y, ok := b.([]float64)
		return ok && x == nil && y == nil
	case []string:
		y, ok := b.([]string)
		return ok && x == nil && y == nil
	case []time.Time:
		y, ok := b.([]time.Time)
		return ok && x == nil && y == nil
	case []time.Duration:
		y, ok := b.([]time.Duration)
		return ok && x == nil && y == nil
	}
	return false
}

func agree(x info) {
	t := x.t
	sym.Assert(t.IsInt() == x.i && t.IsUint() == x.u && t.IsFloat() == x.f, "the classification is that of the Go type")
	sym.Assert(t.Bits() == x.bits, "the bit size is that of the Go type, else 0")
	sym.Assert(t.UsesSubType() == (t == types.List), "only lists use a sub-type")
	sym.Assert(t.SupportsEquality() == (t != types.List && t != types.Dist && t != types.Unknown), "all but lists, distributions and unknown support equality")
	sym.Assert(t.CanToFromFloat() == x.convertible, "float convertibility agrees with the Go type")
	z, err := t.SafeZeroValue()
	s, serr := t.SafeNilSlice()
	if x.zero == nil {
		sym.Assert(z == nil && err != nil && s == nil && serr != nil, "types without a zero value give an error")
		sym.Assert(sym.Panics(func() { t.ZeroValue() }) && sym.Panics(func() { t.NilSlice() }), "the panicking variants panic for types without a zero value")
		sym.Reach("none")
		return
	}
	sym.Assert(err == nil && z == x.zero, "the zero value is that of the Go type")
	sym.Assert(serr == nil && sameSlice(x.slice, s), "the nil slice is that of the Go type")
	sym.Assert(t.ZeroValue() == x.zero && sameSlice(x.slice, t.NilSlice()), "the panicking variants agree")
	want := t
	if t == types.Time || t == types.Duration {
		want = types.String
	}
	sym.Assert(types.FromGoValue(z) == want, "the zero value is recognised as the type")
	k, sub := types.FromGoValueWithSubType(z)
	sym.Assert(k == want && sub == types.Unknown, "the zero value is recognised as the type")
	k, sub = types.FromGoValueWithSubType(s)
	sym.Assert(k == types.List && sub == want, "the nil slice is recognised as a list of the type")
	sym.Assert(types.FromGoValue(s) == types.List, "the nil slice is recognised as a list")
	sym.Reach("some")
}

// CheckDocumented: the documented types, in every order.
//
//sym:bound all documented types
func CheckDocumented() {
	d := documented()
	i := sym.Choose("type", len(d))
	sym.Assert(d[i].t == names[i], "the type names are the documented ones")
	agree(d[i])
}

// CheckUnknown: every other name.
//
//sym:bound every type name of up to 12 bytes that is not a documented one
func CheckUnknown() {
	t := types.Type(sym.Str("name", 1+sym.Choose("len", 12)))
	for _, x := range documented() {
		sym.Assume(t != x.t)
	}
	sym.Assert(!t.IsInt() && !t.IsUint() && !t.IsFloat() && t.Bits() == 0 && !t.UsesSubType() && !t.CanToFromFloat(), "an unknown type has no properties")
	z, err := t.SafeZeroValue()
	s, serr := t.SafeNilSlice()
	sym.Assert(z == nil && err != nil && s == nil && serr != nil, "unknown types give an error")
	sym.Assert(sym.Panics(func() { t.ZeroValue() }) && sym.Panics(func() { t.NilSlice() }), "the panicking variants panic for unknown types")
	_, err = messages.ZeroValue(t)
	sym.Assert(err != nil, "unknown types give an error")
	sym.Reach("unknown name")
}

type mine int64
type mineS []int64
type valued struct{}

func (valued) Type() types.Type { return types.Dist }

// CheckGoValues: the type of any Go value.
//
//sym:bound every supported Go type with an arbitrary value, slices nil, empty and not, and a sample of every other shape of Go type
func CheckGoValues() {
	b, i8, i16, i32, i64 := sym.Bool("b"), sym.Int8("i8"), sym.Int16("i16"), sym.Int32("i32"), sym.Int64("i64")
	u8, u16, u32, u64 := sym.Uint8("u8"), sym.Uint16("u16"), sym.Uint32("u32"), sym.Uint64("u64")
	s := sym.Str("s", 2)
	f32, f64 := sym.Float32("f32"), sym.Float64("f64")
	tm, d := time.Unix(i64>>20, int64(u16)), time.Duration(i64)
	x := []struct {
		v      interface{}
		k, sub types.Type
	}{
		{b, "bool", ""}, {i8, "int8", ""}, {i16, "int16", ""}, {i32, "int32", ""}, {i64, "int64", ""},
		{u8, "uint8", ""}, {u16, "uint16", ""}, {u32, "uint32", ""}, {u64, "uint64", ""}, {f32, "float32", ""}, {f64, "float64", ""},
		{s, "string", ""}, {tm, "goTime", ""}, {d, "goDuration", ""},
		{[]bool{b}, "list", "bool"}, {[]int8{i8}, "list", "int8"}, {[]int16{i16}, "list", "int16"}, {[]int32{i32}, "list", "int32"}, {[]int64{i64}, "list", "int64"},
		{[]uint8{u8}, "list", "uint8"}, {[]uint16{u16}, "list", "uint16"}, {[]uint32{u32}, "list", "uint32"}, {[]uint64{u64}, "list", "uint64"},
		{[]float32{f32}, "list", "float32"}, {[]float64{f64}, "list", "float64"}, {[]string{s}, "list", "string"}, {[]time.Time{tm}, "list", "goTime"}, {[]time.Duration{d}, "list", "goDuration"},
		{[]int64{}, "list", "int64"}, {[]string{}, "list", "string"}, {[]time.Time{}, "list", "goTime"},
		{&messages.Distribution{Count: u64}, "distribution", ""}, {(*messages.Distribution)(nil), "distribution", ""},
		{nil, "", ""}, {int(i64), "", ""}, {uint(u64), "", ""}, {mine(i64), "", ""}, {mineS{i64}, "", ""}, {&i64, "", ""}, {[]int{1}, "", ""}, {[]uint{1}, "", ""}, {[2]int64{}, "", ""},
		{map[string]int{}, "", ""}, {struct{}{}, "", ""}, {complex(1, 2), "", ""}, {[]interface{}{i64}, "", ""}, {func() {}, "", ""}, {[][]int64{}, "", ""},
		{valued{}, "distribution", ""},
	}[sym.Choose("value", 49)]
	k, sub := types.FromGoValueWithSubType(x.v)
	sym.Assert(k == x.k && sub == x.sub, "the type of a Go value is the one whose values have that Go type, else unknown")
	sym.Assert(types.FromGoValue(x.v) == x.k, "the type of a Go value is the one whose values have that Go type, else unknown")
	sym.Reach("value")
}

// CheckMessages: messages.ZeroValue extends the zero values to distributions.
//
//sym:bound all documented types
func CheckMessages() {
	d := documented()
	x := d[sym.Choose("type", len(d))]
	z, err := messages.ZeroValue(x.t)
	switch {
	case x.t == types.Dist:
		p, ok := z.(*messages.Distribution)
		sym.Assert(ok && p == nil && err == nil, "the zero value of a distribution is a nil distribution")
		sym.Assert(types.FromGoValue(z) == types.Dist, "the zero value of a distribution is recognised as one")
	case x.zero == nil:
		sym.Assert(err != nil, "types without a zero value give an error")
	default:
		sym.Assert(err == nil && z == x.zero, "the zero value is that of the Go type")
	}
	sym.Reach("messages")
}
