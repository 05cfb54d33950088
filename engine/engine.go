package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	initFns  []*ssa.Function
	stdInit  map[*ssa.Package]bool
	stdG     []*V
	workers  int
	z3       string
	queryMs  int
	maxSteps int64
	tier     int
	harness  map[string]*ssa.Function
	loadTime time.Duration
	isKnown  func(key string) bool
}

func (e *Engine) lookupFunc(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(pathEnd{"unsupported", "package not loaded: " + pkg})
	}
	return p.Func(name)
}

// The registered checks run on /repo; development runs may point at a scratch copy.
var repo = func() string {
	if d := os.Getenv("VERIF_DEV_REPO"); d != "" {
		return d
	}
	return "/repo"
}()
const rtPath = "github.com/gabivlj/candice/internals/verifrt"
const hPath = "github.com/gabivlj/candice/internals/verifh"

// overlay maps harness sources under /verif/harness into /repo's module.
func overlayFiles(hdir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(hdir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, path)
		m[filepath.Join(repo, "internals", rel)] = path
		return nil
	})
	return m
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOENV", "GOOS", "GOARCH", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOENV=off", "GO111MODULE=on")
	has := func(k string) bool {
		for _, kv := range env {
			if strings.HasPrefix(kv, k+"=") {
				return true
			}
		}
		return false
	}
	if !has("HOME") {
		env = append(env, "HOME=/root")
	}
	return env
}

// packages whose init runs once (their state is treated as immutable afterwards)
var stdInitTolerant = []string{"path/filepath", "internal/filepathlite", "errors", "maps", "iter", "bufio", "container/list", "container/heap", "unicode/utf16", "text/tabwriter", "encoding/hex", "encoding/binary", "hash/fnv", "internal/itoa", "math/rand"}

var stdInitPkgs = []string{"internal/bytealg", "unicode/utf8", "unicode", "math", "math/bits", "strconv", "strings", "bytes", "sort", "slices", "cmp", "math/big", "path", "internal/stringslite", "internal/strconv", "io"}

func Load(hdir string, groups []string) (*Engine, error) {
	t0 := time.Now()
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(hdir) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        goEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
	}
	var pats []string
	for _, g := range groups {
		pats = append(pats, hPath+"/"+g)
	}
	pats = append(pats, rtPath, "errors", "unicode/utf8")
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modulePrefix) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, stdInit: map[*ssa.Package]bool{}, workers: 8, z3: "z3-new", queryMs: 60000, maxSteps: 30_000_000, harness: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	for _, g := range groups {
		p := e.pkgs[hPath+"/"+g]
		if p == nil {
			return nil, fmt.Errorf("harness package %s missing", g)
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
				e.harness[n] = f
			}
		}
	}
	// per-path init: module packages and llir, in dependency order
	seen := map[*types.Package]bool{}
	var order []*types.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		order = append(order, p)
	}
	for _, p := range initial {
		visit(p.Types)
	}
	std := map[string]bool{}
	tol := map[string]bool{}
	for _, s := range stdInitTolerant {
		std[s], tol[s] = true, true
		stdInitSet[s] = true
	}
	for _, s := range stdInitPkgs {
		std[s] = true
		stdInitSet[s] = true
	}
	var stdOrder []*ssa.Package
	for _, tp := range order {
		sp := prog.Package(tp)
		if sp == nil {
			continue
		}
		path := tp.Path()
		switch {
		case std[path]:
			stdOrder = append(stdOrder, sp)
			e.stdInit[sp] = true
		case initAllowed(path):
			if f := sp.Func("init"); f != nil {
				e.initFns = append(e.initFns, f)
			}
		}
	}
	if err := e.runStdInit(stdOrder, tol); err != nil {
		return nil, err
	}
	e.loadTime = time.Since(t0)
	return e, nil
}

func (e *Engine) stdGlobal(i int32) *V {
	if int(i) < len(e.stdG) && e.stdG[i] != nil {
		return e.stdG[i]
	}
	// never touched during init: zero value, allocated per path
	v := new(V)
	*v = zero(TypeInfo(globalAt(i).Type()).elem)
	return v
}

// storedByInit reports whether package initialisation assigns g.
func storedByInit(g *ssa.Global) bool {
	f := g.Pkg.Func("init")
	if f == nil || strings.HasPrefix(g.Name(), "init$") {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				return true
			}
		}
	}
	return false
}

// initCallSkip: calls to other packages' init inside a package init are skipped,
// because we order inits ourselves.
func (e *Engine) runStdInit(order []*ssa.Package, tol map[string]bool) (err error) {
	ex := &Explore{eng: e, violSeen: map[string]int{}, unsup: map[string]int{}}
	w := &Worker{eng: e, ex: ex, fnSeen: make([]bool, 4096)}
	w.ctx = NewTermCtx()
	p := w.newPath(Item{nil, Model{}})
	p.maxSteps = 1 << 40
	for _, sp := range order {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case pathEnd:
						err = fmt.Errorf("init of %s: %s", sp.Pkg.Path(), x.msg)
					case *tPanic:
						err = fmt.Errorf("init of %s: panic %s%s", sp.Pkg.Path(), x.msg, x.tr)
					default:
						panic(r)
					}
				}
			}()
			p.callFn(getFn(f), nil, nil)
		}()
		if err != nil && tol[sp.Pkg.Path()] {
			delete(e.stdInit, sp)
			delete(stdInitSet, sp.Pkg.Path())
			getFn(f).intr = noop
			err = nil
		}
		if err != nil {
			return err
		}
	}
	e.stdG = append([]*V(nil), p.globals...)
	return nil
}

func (e *Engine) harnessNames(prefix string) []string {
	var out []string
	for n := range e.harness {
		if strings.HasPrefix(n, prefix) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// a run stops early once it has found plenty of violations that are not listed
func (e *Engine) maxViol() int {
	if e.isKnown == nil {
		return 400
	}
	return 12
}

func (e *Engine) maxViolPaths() int {
	if e.isKnown == nil {
		return 1 << 30
	}
	return 300
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
