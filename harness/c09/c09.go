// Package c09: unregistering removes exactly the named subtree and nothing else.
package c09

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

type handle struct {
	d *tricorder.DirectorySpec
	e *hlp.Entry
}

type world struct {
	tree    hlp.Tree
	handles []handle
	n       int
}

func (w *world) metric(comps []string, reg func(v *int64, desc string) error, visible bool) {
	w.n++
	v := new(int64)
	*v = int64(w.n)
	desc := "m" + hlp.Num(w.n)
	can := visible && w.tree.CanAdd(comps, false)
	err := reg(v, desc)
	if !visible {
		return
	}
	if !can {
		sym.Assert(err == tricorder.ErrPathInUse, "a path in use cannot be registered")
		return
	}
	sym.Assert(err == nil, "a free path can be registered, also one freed by unregistering")
	w.tree.Add(&hlp.Entry{Path: comps, Val: *v, Desc: desc, Unit: units.None})
}

func (w *world) global(comps []string) {
	w.metric(comps, func(v *int64, desc string) error {
		return tricorder.RegisterMetric(hlp.Join(comps), v, units.None, desc)
	}, true)
}

func (w *world) dir(comps []string) {
	d, err := tricorder.RegisterDirectory(hlp.Join(comps))
	if !w.tree.CanAdd(comps, true) {
		sym.Assert(err == tricorder.ErrPathInUse, "a metric is in the way")
		return
	}
	sym.Assert(err == nil && d.AbsPath() == hlp.Join(comps), "a directory can be registered, also where one was unregistered")
	w.tree.Add(&hlp.Entry{Path: comps, Dir: true})
	w.handles = append(w.handles, handle{d, w.tree.Find(comps)})
}

func (w *world) live(h handle) bool { return w.tree.Find(h.e.Path) == h.e }

// check compares the listing with the model and every handle with the directory at its path.
func (w *world) check() {
	w.tree.Check("/q")
	for _, h := range w.handles {
		d, err := tricorder.GetDirectory(hlp.Join(h.e.Path))
		if w.live(h) {
			sym.Assert(err == nil && d == h.d, "a directory stays registered until it is unregistered")
		} else {
			sym.Assert(d == nil || d != h.d, "an unregistered directory is no longer found")
		}
	}
}

func path(pre string, n int) []string {
	c := []string{"q"}
	for i := 0; i < n; i++ {
		c = append(c, hlp.Name(pre+hlp.Num(i)))
	}
	return c
}

func (w *world) step(i int) {
	id := hlp.Num(i)
	h := w.handles[0]
	if len(w.handles) > 1 && sym.Choose("handle"+id, 2) == 1 {
		h = w.handles[len(w.handles)-1]
	}
	switch sym.Choose("op"+id, 6) {
	case 0:
		p := path("u"+id, 1+sym.Choose("depth"+id, 2))
		tricorder.UnregisterPath(hlp.Join(p))
		w.tree.Remove(p)
		sym.Reach("unregister path")
	case 1:
		live := w.live(h)
		h.d.UnregisterDirectory()
		if live {
			w.tree.Remove(h.e.Path)
			sym.Reach("unregister live handle")
		} else {
			sym.Reach("unregister stale handle")
		}
	case 2:
		w.global(path("r"+id, 1+sym.Choose("depth"+id, 2)))
	case 3:
		w.dir(path("d"+id, 1+sym.Choose("depth"+id, 2)))
	case 4:
		n := hlp.Name("h" + id)
		w.metric(append(append([]string(nil), h.e.Path...), n), func(v *int64, desc string) error {
			return h.d.RegisterMetric(n, v, units.None, desc)
		}, w.live(h))
	default:
		n := hlp.Name("x" + id)
		live := w.live(h)
		h.d.UnregisterPath(n)
		if live {
			w.tree.Remove(append(append([]string(nil), h.e.Path...), n))
		}
	}
}

func history(n int) {
	w := &world{}
	w.dir(path("base", 1))
	w.global(path("first", 1))
	w.global(append(append([]string(nil), w.handles[0].e.Path...), hlp.Name("inner")))
	for i := 0; i < n; i++ {
		w.step(i)
		w.check()
	}
	sym.Reach("history done")
}

// CheckHistory: mixed histories of registering and unregistering.
//
//sym:bound a directory with a metric in it and a metric beside it, then 2 operations of 6 kinds (unregister path, unregister through a live or stale handle, register metric, directory, metric through a handle, unregister below a handle) on paths of 1..2 components, each an arbitrary visible ASCII character; the whole listing is compared with a set model after each operation
func CheckHistory() { history(2) }

// CheckHistoryLong is the same with longer histories.
//
//sym:opt tier=thorough
//sym:bound the same with 3 operations
func CheckHistoryLong() { history(3) }

// CheckStaleHandle: a handle outlives its directory, which is registered anew.
//
//sym:bound one directory at the top or of 1..2 components below, unregistered by path, by handle or by its parent, and registered anew as directory or metric; names arbitrary
func CheckStaleHandle() {
	w := &world{}
	p := path("d", sym.Choose("depth", 3))
	w.dir(p)
	old := w.handles[0]
	w.global(append(append([]string(nil), p...), hlp.Name("m")))
	switch sym.Choose("how", 3) {
	case 0:
		tricorder.UnregisterPath(hlp.Join(p))
	case 1:
		old.d.UnregisterDirectory()
	default:
		up := len(p) - 1
		if up == 0 {
			up = 1
		}
		tricorder.UnregisterPath(hlp.Join(p[:up]))
		w.tree.Remove(p[:up])
	}
	w.tree.Remove(p)
	w.check()
	switch sym.Choose("anew", 3) {
	case 0:
		w.global(p)
	case 1:
		w.global(append(append([]string(nil), p...), hlp.Name("m2")))
	default:
		w.dir(p)
	}
	n := hlp.Name("late")
	v := int64(77)
	old.d.RegisterMetric(n, &v, units.None, "late")
	w.check()
	switch sym.Choose("then", 3) {
	case 0:
		old.d.UnregisterDirectory()
	case 1:
		old.d.UnregisterPath(n)
	default:
		if sub, err := old.d.RegisterDirectory(hlp.Name("sub")); err == nil {
			sub.RegisterMetric("k", &v, units.None, "late")
			sub.UnregisterDirectory()
		}
	}
	w.check()
	sym.Reach("stale handle done")
}

// CheckRootAndMissing: the root and missing paths.
//
//sym:bound root spellings of 0..3 characters over {/, space}, also as an empty path relative to a directory handle; missing paths of 1..3 arbitrary components
func CheckRootAndMissing() {
	w := &world{}
	w.dir(path("d", 1))
	w.global(path("m", 1))
	w.global(append(append([]string(nil), w.handles[0].e.Path...), "k"))
	n := len(tricorder.ReadMyMetrics("/"))
	switch sym.Choose("what", 4) {
	case 3:
		w.handles[0].d.UnregisterPath(sym.StrIn("root", sym.Choose("len", 4), "/ "))
	case 0:
		tricorder.UnregisterPath(sym.StrIn("root", sym.Choose("len", 4), "/ "))
	case 1:
		r, _ := tricorder.GetDirectory("/")
		r.UnregisterDirectory()
	default:
		p := path("x", 1+sym.Choose("depth", 3))
		sym.Assume(w.tree.Find(p) == nil)
		tricorder.UnregisterPath(hlp.Join(p))
	}
	w.check()
	sym.Assert(len(tricorder.ReadMyMetrics("/")) == n, "nothing is removed")
	sym.Reach("nothing removed")
}

// nodes of a tree of several levels: paths that end in a digit are metrics.
var nodes = [][]string{{"q", "a", "b", "c", "d", "1"}, {"q", "a", "b", "c", "d", "2"}, {"q", "a", "b", "c", "3"}, {"q", "a", "b", "e", "4"},
	{"q", "a", "b", "5"}, {"q", "a", "f", "6"}, {"q", "a", "f", "g"}, {"q", "a", "7"}, {"q", "h", "b", "8"}, {"q", "h", "i", "j", "k"}, {"q", "9"}}

func deepTree(steps int) {
	w := &world{}
	for _, n := range nodes {
		if l := n[len(n)-1]; l[0] <= '9' {
			w.global(n)
		} else {
			w.dir(n)
		}
	}
	w.check()
	var first []string
	for i := 0; i < steps; i++ {
		id := hlp.Num(i)
		p := nodes[sym.Choose("node"+id, len(nodes))]
		p = p[:2+sym.Choose("up"+id, len(p)-1)]
		e := w.tree.Find(p)
		above := sym.Choose("above"+id, len(p)+1)
		if above == len(p) && (e == nil || !e.Dir) {
			continue
		}
		if above == 0 {
			tricorder.UnregisterPath(hlp.Join(p))
		} else {
			d, err := tricorder.GetDirectory(hlp.Join(p[:above]))
			have := w.tree.Find(p[:above])
			sym.Assert((err == nil) == (have != nil && have.Dir), "a directory is found while it is registered")
			if err != nil {
				continue
			}
			if above == len(p) {
				d.UnregisterDirectory()
			} else {
				d.UnregisterPath(hlp.Join(p[above:]))
			}
		}
		w.tree.Remove(p)
		w.check()
		sym.Assert(tricorder.ReadMyMetrics(hlp.Join(p)) == nil || len(tricorder.ReadMyMetrics(hlp.Join(p))) == 0, "nothing is left there")
		if first == nil {
			first = p
		}
	}
	if first != nil {
		if sym.Choose("below", 2) == 1 {
			first = append(append([]string(nil), first...), "z")
		}
		w.global(first)
		w.check()
	}
	sym.Reach("deep tree")
}

// CheckDeepTree: any node of a tree of several levels is removed, in any of the ways there are.
//
//sym:bound a tree of 5 levels with 9 metrics and 2 empty directories; any of its nodes unregistered by path, by handle or by the path relative to any directory above; then a metric registered there or below
func CheckDeepTree() { deepTree(1) }

// CheckDeepTreeTwice: two nodes in turn.
//
//sym:opt tier=thorough
//sym:bound the same with any two nodes unregistered in turn
func CheckDeepTreeTwice() { deepTree(2) }
