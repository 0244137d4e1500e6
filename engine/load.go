package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/romshark/jscan-experimental-decoder"

type Loaded struct {
	repo    string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness []*ssa.Package
	fns     []*ssa.Function // harness entry points
	fset    *token.FileSet
	strconv *ssa.Package
	links   map[string]string // functions without bodies and what they are linked to
	files   map[string]string // overlay: path in /repo -> file of ours
	broken  []string          // harness packages that do not compile against the tree
	hpkgs   []string
}

// packages of the standard library whose bodies are executed symbolically.
var stdEncoded = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"errors": true, "math": true, "math/bits": true, "sort": true, "slices": true, "cmp": true, "maps": true,
	"encoding": true, "encoding/json": true, "internal/bytealg": true, "internal/reflectlite": false,
	"encoding/base64": true, "encoding/binary": false, "internal/stringslite": true, "internal/itoa": true,
	"sync": true, "sync/atomic": true,
}

// packages whose bodies may be executed but whose initialisers are skipped.
var stdNoInit = map[string]bool{"math": true, "errors": true, "encoding/json": true, "internal/bytealg": true, "encoding/base64": true, "sync": true, "sync/atomic": true}

func (l *Loaded) encoded(path string) bool {
	return stdEncoded[path] || strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/romshark/")
}
func (l *Loaded) noInit(path string) bool { return stdNoInit[path] }

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "GOWORK", "CGO_ENABLED", "GOSUMDB", "GOEXPERIMENT":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+goBinDir()+":"+os.Getenv("PATH"), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off",
		"GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")
}

func goBinDir() string {
	for _, d := range []string{"/usr/lib/go-1.21/bin", "/usr/local/go/bin"} {
		if _, err := os.Stat(d + "/go"); err == nil {
			return d
		}
	}
	return "/usr/bin"
}

// overlayFiles maps harness sources into the repository.
func overlayFiles(root, repo string, hpkgs []string) (map[string]string, error) {
	m := map[string]string{}
	add := func(src, dst string) error {
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				m[filepath.Join(repo, dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
		return nil
	}
	h := filepath.Join(root, "harness")
	if err := add(filepath.Join(h, "vsym"), "internal/vsym"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(h, "vref"), "internal/vref"); err != nil {
		return nil, err
	}
	for _, p := range hpkgs {
		if err := add(filepath.Join(h, p), "internal/vh/"+p); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func load(root, repo string, hpkgs []string, tier int) (*Loaded, error) {
	os.Setenv("PATH", goBinDir()+":"+os.Getenv("PATH"))
	os.Unsetenv("GOROOT")
	l := &Loaded{repo: repo, pkgs: map[string]*ssa.Package{}, links: map[string]string{}}
	files, err := overlayFiles(root, repo, hpkgs)
	if err != nil {
		return nil, err
	}
	l.files = files
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	l.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repo, Env: goEnv(), Fset: l.fset, Overlay: ov,
	}
	var pats []string
	for _, p := range hpkgs {
		pats = append(pats, modPath+"/internal/vh/"+p)
	}
	pats = append(pats, modPath)
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	bad := map[string]bool{}
	packages.Visit(initial, nil, func(p *packages.Package) {
		if !l.encoded(p.PkgPath) {
			return
		}
		if len(p.Errors) > 0 {
			bad[p.PkgPath] = true
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Fprintf(os.Stderr, "load: %s: %v\n", p.PkgPath, p.Errors[0])
			}
		}
	})
	if bad[modPath] || bad[vsymPath] || bad[modPath+"/internal/vref"] {
		return nil, fmt.Errorf("the repository does not type-check")
	}
	prog := ssa.NewProgram(l.fset, ssa.InstantiateGenerics|ssa.BareInits&0)
	l.prog = prog
	created := map[*packages.Package]bool{}
	packages.Visit(initial, nil, func(p *packages.Package) {
		if p.Types == nil || created[p] {
			return
		}
		created[p] = true
		if l.encoded(p.PkgPath) {
			for _, f := range p.Syntax {
				for _, g := range f.Comments {
					for _, c := range g.List {
						if w := strings.Fields(c.Text); len(w) == 3 && w[0] == "//go:linkname" {
							l.links[p.PkgPath+"."+w[1]] = w[2]
						}
					}
				}
			}
		}
		var files []*ast.File
		if l.encoded(p.PkgPath) && !p.IllTyped {
			files = p.Syntax
		}
		var sp *ssa.Package
		if files != nil {
			sp = prog.CreatePackage(p.Types, files, p.TypesInfo, true)
		} else {
			sp = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		}
		l.pkgs[p.PkgPath] = sp
	})
	var paths []string
	for p := range l.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if l.encoded(p) {
			l.pkgs[p].Build()
		}
	}
	l.strconv = l.pkgs["strconv"]
	for _, h := range hpkgs {
		path := modPath + "/internal/vh/" + h
		sp := l.pkgs[path]
		if sp == nil || bad[path] {
			l.broken = append(l.broken, h)
			continue
		}
		l.hpkgs = append(l.hpkgs, h)
		l.harness = append(l.harness, sp)
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, ok := sp.Members[n].(*ssa.Function)
			if !ok || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 {
				continue
			}
			if strings.HasPrefix(n, "H") || tier > 0 && strings.HasPrefix(n, "T") {
				l.fns = append(l.fns, f)
			}
		}
	}
	return l, nil
}

// lookupType finds a named type of a loaded package.
func (l *Loaded) lookupType(pkg, name string) types.Type {
	p := l.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
