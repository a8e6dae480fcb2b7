package main

import (
	"go/types"
	"os"
	"path/filepath"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type

var implCache sync.Map

// cacheDir is the private Go build cache (inside the git-ignored build folder).
func cacheDir() string {
	if d := os.Getenv("SYMGO_GOCACHE"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), ".build", "gocache")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Packages whose package-level variables are constant tables: initialised once
// and shared read-only between paths.
func sharedPkg(path string) bool {
	switch path {
	case "time", "fmt", "unicode", "unicode/utf8", "unicode/utf16", "strconv", "internal/strconv", "math/bits", "math", "html", "internal/itoa",
		"internal/stringslite", "strings", "bytes", "sort", "slices", "cmp", "internal/bytealg", "net/textproto", "net/url",
		"golang.org/x/net/http/httpguts", "vendor/golang.org/x/net/http/httpguts", "errors", "io", "io/fs", "internal/oserror", "html/template":
		return true
	}
	return false
}

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "net/http": true, "crypto/tls": true, "net": true, "encoding/gob": true,
	"regexp": true, "text/template": true, "encoding/json": true, "net/rpc": true, "compress/flate": true,
	"internal/godebug": true, "internal/poll": true, "internal/testlog": true,
}

type sharedGlobals struct {
	mu sync.Mutex
	p  *Path
}

func newSharedGlobals() *sharedGlobals { return &sharedGlobals{} }

func (P *Program) sharedGlobal(p *Path, i int, pkg *ssa.Package) *value {
	s := P.shared
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.p == nil {
		s.p = &Path{P: P, E: &Explorer{P: P}, f: NewFactory(false), pcset: map[*Term]bool{}, pkgState: map[*ssa.Package]int{},
			maxSteps: 1 << 40, mutexes: map[*value]*mstate{}, syncObjs: map[any]*vclock{}, varIdx: map[string]int{}, ext: map[string]any{}, shared: true}
		s.p.setModel(Model{})
	}
	s.p.depth = 0
	return s.p.global(i)
}
