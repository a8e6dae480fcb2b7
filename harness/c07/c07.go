// Package c07: a path names at most one thing and registration never displaces it.
package c07

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

var unitOf = []units.Unit{units.None, units.Byte, units.Second, units.Celsius}

type world struct {
	tree hlp.Tree
	vals []*int64
	n    int
}

// register performs a registration through the given way and compares the outcome with the model.
func (w *world) register(path string, via int, d *tricorder.DirectorySpec, base []string) {
	comps := append(append([]string(nil), base...), hlp.Split(path)...)
	v := new(int64)
	*v = int64(100 + w.n)
	e := &hlp.Entry{Path: comps, Val: *v, Desc: "metric " + hlp.Num(w.n), Unit: unitOf[w.n%len(unitOf)]}
	w.n++
	can := w.tree.CanAdd(comps, false)
	var err error
	switch via {
	case 0:
		err = tricorder.RegisterMetric(hlp.Join(base)+"/"+path, v, e.Unit, e.Desc)
	case 1:
		err = tricorder.RegisterMetricInGroup(hlp.Join(base)+"/"+path, v, tricorder.NewGroup(), e.Unit, e.Desc)
	case 2:
		err = tricorder.NewGroup().RegisterMetric(hlp.Join(base)+"/"+path, v, e.Unit, e.Desc)
	case 3:
		err = d.RegisterMetric(path, v, e.Unit, e.Desc)
	case 4:
		err = d.RegisterMetricInGroup(path, v, tricorder.DefaultGroup, e.Unit, e.Desc)
	default:
		err = tricorder.DirectoryGroup{Group: tricorder.DefaultGroup, Directory: d}.RegisterMetric(path, v, e.Unit, e.Desc)
	}
	if can {
		sym.Assert(err == nil, "a free path can be registered")
		w.tree.Add(e)
		sym.Reach("metric registered")
	} else {
		sym.Assert(err == tricorder.ErrPathInUse, "registering a metric in the way of something fails with ErrPathInUse")
		sym.Reach("metric refused")
	}
}

func (w *world) directory(path string, d *tricorder.DirectorySpec, base []string) {
	comps := append(append([]string(nil), base...), hlp.Split(path)...)
	had := w.tree.Find(comps)
	old, gerr := tricorder.GetDirectory(hlp.Join(base) + "/" + path)
	w.checkGet(comps, old, gerr)
	var r *tricorder.DirectorySpec
	var err error
	if d != nil {
		r, err = d.RegisterDirectory(path)
	} else {
		r, err = tricorder.RegisterDirectory(hlp.Join(base) + "/" + path)
	}
	if !w.tree.CanAdd(comps, true) {
		sym.Assert(err == tricorder.ErrPathInUse, "registering a directory in the way of a metric fails with ErrPathInUse")
		return
	}
	sym.Assert(err == nil && r != nil, "a directory can be registered")
	sym.Assert(r.AbsPath() == hlp.Join(comps), "a directory has its canonical absolute path")
	if had != nil {
		sym.Assert(old == r, "registering an existing directory returns it")
		sym.Reach("directory again")
	}
	w.tree.Add(&hlp.Entry{Path: comps, Dir: true})
	again, err := tricorder.GetDirectory(hlp.Join(comps))
	sym.Assert(err == nil && again == r, "GetDirectory returns the directory")
}

// checkGet compares a GetDirectory result with the model.
func (w *world) checkGet(comps []string, d *tricorder.DirectorySpec, err error) {
	for i := 1; i <= len(comps); i++ {
		e := w.tree.Find(comps[:i])
		if e == nil {
			sym.Assert(err == tricorder.ErrNotFound, "GetDirectory of a missing path fails with ErrNotFound")
			return
		}
		if !e.Dir {
			sym.Assert(err == tricorder.ErrPathInUse, "GetDirectory of a metric fails with ErrPathInUse")
			return
		}
	}
	sym.Assert(err == nil && d != nil && d.AbsPath() == hlp.Join(comps), "GetDirectory finds an existing directory")
}

func names(pre string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += "/" + hlp.Name(pre+hlp.Num(i))
	}
	return s
}

func sequence(ops, depth int, handle bool) {
	w := &world{}
	base := []string{"q"}
	d, err := tricorder.RegisterDirectory("q")
	sym.Assert(err == nil, "a directory can be registered")
	w.tree.Add(&hlp.Entry{Path: base, Dir: true})
	for i := 0; i < ops; i++ {
		p := names("n"+hlp.Num(i)+".", sym.Choose("depth"+hlp.Num(i), depth)+1)
		if sym.Choose("op"+hlp.Num(i), 2) == 0 {
			via := i % 3
			if handle {
				via += 3
			}
			w.register(p, via, d, base)
		} else if handle {
			w.directory(p, d, base)
		} else {
			w.directory(p, nil, base)
		}
		w.tree.Check("/q")
	}
	sym.Reach("sequence done")
}

// CheckSequence: registrations through the package functions.
//
//sym:bound sequences of 3 registrations of metrics or directories, of 1..2 components each an arbitrary visible ASCII character; the outcome and the whole listing are compared with a set model after each
func CheckSequence() { sequence(3, 2, false) }

// CheckHandles: the same through a directory handle.
//
//sym:bound sequences of 3 registrations through a DirectorySpec or DirectoryGroup, of 1..2 components
func CheckHandles() { sequence(3, 2, true) }

// CheckDeep: deeper paths.
//
//sym:bound sequences of 3 registrations of 1..3 components
func CheckDeep() { sequence(3, 3, false) }

// CheckLong: longer sequences.
//
//sym:bound sequences of 4 registrations of 1..2 components
func CheckLong() { sequence(4, 2, true) }

// CheckLongDeep: longer and deeper.
//
//sym:opt tier=thorough
//sym:bound sequences of 4 registrations of 1..3 components
func CheckLongDeep() { sequence(4, 3, false) }

// CheckSpelling: every spelling of a path, against a tree with metrics and directories in it.
//
//sym:bound path strings of 0..4 characters over {a, b, /, space, tab, newline} against a tree holding metrics a/b, b and a directory a/a; register, get and list by that spelling
func CheckSpelling() {
	w := &world{}
	w.register("q/a/b", 0, nil, nil)
	w.register("q/b", 1, nil, nil)
	w.directory("q/a/a", nil, nil)
	p := sym.StrIn("p", sym.Choose("len", 5), "ab/ \t\n")
	op := sym.Choose("op", 3)
	switch op {
	case 0:
		w.register(p, 0, nil, []string{"q"})
	case 1:
		w.directory(p, nil, []string{"q"})
	default:
		d, err := tricorder.GetDirectory("//q/" + p)
		w.checkGet(append([]string{"q"}, hlp.Split(p)...), d, err)
	}
	w.tree.Check("/q/" + p)
	w.tree.Check("q")
	sym.Reach("spelling done")
}

// CheckRoot: the root itself.
//
//sym:bound root paths of 0..3 characters over {/, space, tab}
func CheckRoot() {
	p := sym.StrIn("p", sym.Choose("len", 4), "/ \t")
	v := int64(1)
	sym.Assert(tricorder.RegisterMetric(p, &v, units.None, "x") == tricorder.ErrPathInUse, "a metric cannot be registered at the root")
	sym.Assert(tricorder.RegisterMetricInGroup(p, &v, tricorder.NewGroup(), units.None, "x") == tricorder.ErrPathInUse, "a metric cannot be registered at the root")
	r, err := tricorder.GetDirectory(p)
	sym.Assert(err == nil && r != nil && r.AbsPath() == "/", "the root is a directory")
	r2, err := tricorder.RegisterDirectory(p)
	sym.Assert(err == nil && r2 == r, "registering the root returns it")
	n := hlp.Name("n")
	sym.Assert(r.RegisterMetric(n, &v, units.Byte, "y") == nil, "a metric below the root can be registered")
	sym.Assert(r.RegisterMetric(p, &v, units.Byte, "y") == tricorder.ErrPathInUse, "a handle cannot be displaced by a metric")
	m := hlp.Read("/" + n)
	sym.Assert(m.Path == "/"+n && m.Description == "y" && m.Unit == units.Byte, "found under its canonical path")
	sym.Reach("root done")
}

// CheckVeryDeep: paths of many components.
//
//sym:bound a metric at a path of 5..12, 17 or 33 components (the last one arbitrary), then a metric or directory at that directory, beside it or below it (names arbitrary)
func CheckVeryDeep() {
	n := []int{5, 6, 7, 8, 9, 10, 11, 12, 17, 33}[sym.Choose("depth", 10)]
	w := &world{}
	var base []string
	for i := 0; i < n-1; i++ {
		base = append(base, "c"+hlp.Num(i))
	}
	p := names("m", 1)
	w.register(p, 0, nil, base)
	w.tree.Check(hlp.Join(base) + p)
	w.tree.Check(base[0])
	p2 := names("n", sym.Choose("more", 3))
	if sym.Choose("op", 2) == 0 {
		w.register(p2, 1, nil, base)
	} else {
		w.directory(p2, nil, base)
	}
	d, err := tricorder.GetDirectory(hlp.Join(base) + p)
	w.checkGet(append(append([]string(nil), base...), hlp.Split(p)...), d, err)
	w.tree.Check(base[0])
	w.tree.Check(hlp.Join(base))
	sym.Reach("very deep")
}

// CheckLongNames: long component names and ones beyond ASCII.
//
//sym:bound names of 8..300 bytes that differ in one arbitrary byte only, at the start, in the middle or at the end
func CheckLongNames() {
	n := []int{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300}[sym.Choose("length", 17)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	w := &world{}
	mk := func(s string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		c := sym.Uint8(s)
		sym.Assume(c > ' ' && c != '/' && c < 0x7f)
		b[at] = c
		return string(b)
	}
	w.register("/"+mk("c1"), 0, nil, []string{"q"})
	w.tree.Check("/q")
	if sym.Choose("op", 2) == 0 {
		w.register("/"+mk("c2"), 1, nil, []string{"q"})
	} else {
		w.register("/"+mk("c2")+"/x", 2, nil, []string{"q"})
	}
	w.tree.Check("/q")
	sym.Reach("long names")
}

// CheckBlanks: every kind of blank, alone and around a name.
//
//sym:bound components made of one of 24 blank characters (ASCII and Unicode) or one of 6 that look blank but are not, alone, before, after or on both sides of an arbitrary name; register, get and list by that spelling
func CheckBlanks() {
	blanks := []string{" ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2001", "\u2002", "\u2003", "\u2004",
		"\u2005", "\u2006", "\u2007", "\u2008", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000",
		"\u200b", "\ufeff", "\x00", "\x85", "\xa0", "\u180e"}
	k := sym.Choose("blank", len(blanks))
	isBlank := k < 25
	b := blanks[k]
	name := hlp.Name("n")
	where := sym.Choose("where", 4)
	comp := []string{b, b + name, name + b, b + name + b}[where]
	w := &world{}
	w.register("q/"+name, 0, nil, nil)
	if where == 0 && isBlank {
		// the same as no component
		v := int64(7)
		sym.Assert(tricorder.RegisterMetric("q/"+comp+"/"+name, &v, units.None, "") == tricorder.ErrPathInUse, "a blank component is none")
		sym.Assert(tricorder.RegisterMetric("q/"+comp, &v, units.None, "") == tricorder.ErrPathInUse, "a blank component is none")
		d, err := tricorder.GetDirectory(comp + "/q/" + comp)
		sym.Assert(err == nil && d.AbsPath() == "/q", "a blank component is none")
		l := tricorder.ReadMyMetrics("/q/" + comp + "/" + name + "/" + comp)
		sym.Assert(len(l) == 1 && l[0].Path == "/q/"+name, "a blank component is none")
		sym.Reach("blank component")
		return
	}
	v := int64(8)
	sym.Assert(tricorder.RegisterMetric("/q//"+comp+"/", &v, units.Byte, "x") == nil, "a component is kept as it is")
	l := tricorder.ReadMyMetrics("q/" + comp)
	sym.Assert(len(l) == 1 && l[0].Path == "/q/"+comp && l[0].Value == int64(8), "a component is kept as it is")
	l = tricorder.ReadMyMetrics("q/" + name)
	sym.Assert(len(l) == 1 && l[0].Path == "/q/"+name && l[0].Value == int64(100), "and other metrics stay")
	sym.Assert(len(tricorder.ReadMyMetrics("q")) == 2, "both are listed")
	sym.Reach("blank beside a name")
}

// CheckMixed: a directory used by its path and through a handle in turn.
//
//sym:bound a directory of 1..2 components, registered again or not; 3 registrations (or directories) of 1..2 components below it, by path and through the first handle in turn, starting with either
func CheckMixed() {
	w := &world{}
	base := []string{"q", "r"}[:1+sym.Choose("base", 2)]
	d, err := tricorder.RegisterDirectory(hlp.Join(base))
	sym.Assert(err == nil && d != nil, "a directory can be registered")
	w.tree.Add(&hlp.Entry{Path: base, Dir: true})
	if sym.Choose("again", 2) == 1 {
		w.directory("", nil, base)
	}
	turn := sym.Choose("turn", 2)
	for i := 0; i < 3; i++ {
		n := "n" + hlp.Num(i) + "."
		switch {
		case i == 1 && sym.Choose("op", 2) == 1:
			h := d
			if turn == 1 {
				h = nil
			}
			w.directory(names(n, 1), h, base)
		case (i+turn)%2 == 0:
			w.register(names(n, 1+i%2), i%3, nil, base)
		default:
			w.register(names(n, 1), 3+i%3, d, base)
		}
		w.tree.Check("/q")
	}
	g, err := tricorder.GetDirectory(hlp.Join(base))
	sym.Assert(err == nil && g == d, "GetDirectory returns the directory")
	sym.Reach("mixed")
}
