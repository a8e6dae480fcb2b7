package hlp

import (
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/sym"
)

// Name is an arbitrary path component of one visible ASCII character.
func Name(name string) string {
	s := sym.Str(name, 1)
	c := s[0]
	sym.Assume(c > ' ' && c < 0x7f && c != '/')
	return s
}

func space(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }

// Split is the documented meaning of a path: its non-blank components.
func Split(path string) (r []string) {
	start, blank := 0, true
	for i := 0; i <= len(path); i++ {
		if i == len(path) || path[i] == '/' {
			if !blank {
				r = append(r, path[start:i])
			}
			start, blank = i+1, true
		} else if !space(path[i]) {
			blank = false
		}
	}
	return
}

// Join is the canonical absolute path of the components.
func Join(c []string) string {
	if len(c) == 0 {
		return "/"
	}
	s := ""
	for _, x := range c {
		s += "/" + x
	}
	return s
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Prefix reports whether a is at or above b.
func Prefix(a, b []string) bool { return len(a) <= len(b) && same(a, b[:len(a)]) }

// Less is the documented listing order: component by component, ascending bytes.
func Less(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Entry is one thing in the model of the registry.
type Entry struct {
	Path []string
	Dir  bool
	Val  int64
	Desc string
	Unit units.Unit
}

// Tree is a model of the registry: a plain set of entries.
type Tree struct{ E []*Entry }

// Find returns what is at the path.
func (t *Tree) Find(p []string) *Entry {
	for _, e := range t.E {
		if same(e.Path, p) {
			return e
		}
	}
	return nil
}

// CanAdd reports whether the path can be registered.
func (t *Tree) CanAdd(p []string, dir bool) bool {
	for i := 1; i < len(p); i++ {
		if e := t.Find(p[:i]); e != nil && !e.Dir {
			return false
		}
	}
	if len(p) == 0 {
		return dir
	}
	e := t.Find(p)
	return e == nil || e.Dir && dir
}

// Add registers e and the directories above it.
func (t *Tree) Add(e *Entry) {
	for i := 1; i < len(e.Path); i++ {
		if t.Find(e.Path[:i]) == nil {
			t.E = append(t.E, &Entry{Path: e.Path[:i], Dir: true})
		}
	}
	if len(e.Path) > 0 && t.Find(e.Path) == nil {
		t.E = append(t.E, e)
	}
}

// Remove removes the path and everything below it.
func (t *Tree) Remove(p []string) {
	if len(p) == 0 {
		return
	}
	var r []*Entry
	for _, e := range t.E {
		if !Prefix(p, e.Path) {
			r = append(r, e)
		}
	}
	t.E = r
}

// Metrics returns the metrics at or below p.
func (t *Tree) Metrics(p []string) (r []*Entry) {
	for _, e := range t.E {
		if !e.Dir && Prefix(p, e.Path) {
			r = append(r, e)
		}
	}
	return
}

// Check compares the listing of path with the model.
func (t *Tree) Check(path string) {
	want := t.Metrics(Split(path))
	got := tricorder.ReadMyMetrics(path)
	sym.Assert(len(got) == len(want), "exactly the registered metrics are listed")
	var last []string
	for i, m := range got {
		p := Split(m.Path)
		sym.Assert(i == 0 || Less(last, p), "listed in ascending order, once each")
		last = p
		var e *Entry
		for _, w := range want {
			if m.Path == Join(w.Path) {
				e = w
			}
		}
		sym.Assert(e != nil, "a listed metric is a registered one under its canonical path")
		same := MatchInt(m, e)
		sym.Assert(same, "a listed metric is as it was registered")
	}
}

// MatchInt reports whether the int64 metric is the entry's.
func MatchInt(m *messages.Metric, e *Entry) bool {
	v, ok := m.Value.(int64)
	return ok && v == e.Val && m.Description == e.Desc && m.Unit == e.Unit && m.Kind == types.Int64 && m.Bits == 64
}
