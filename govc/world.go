package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mlnoga/nightlight/"

type World struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	funcs     map[string]*ssa.Function
	pkgs      map[string]*ssa.Package
	contracts map[string]*Contract
	defines   map[string]*Define
	logics    map[string]*Logic
	axioms    map[string][]string
	tags      map[string]int
	mu        sync.Mutex
	verbose   bool
	hintDir   string
	arch      string // GOARCH, if not that of this machine
	saveHints bool
	useHints  bool
	hintsOnly bool
	deadline  time.Time
}

func newWorld(repo string) *World {
	return &World{repo: repo, funcs: map[string]*ssa.Function{}, pkgs: map[string]*ssa.Package{}, contracts: map[string]*Contract{}, defines: map[string]*Define{}, logics: map[string]*Logic{}, axioms: map[string][]string{}, tags: map[string]int{}}
}

func (w *World) load(goarch string, patterns []string) error {
	env := os.Environ()
	w.arch = goarch
	if goarch != "" {
		env = append(env, "GOARCH="+goarch, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: w.repo, Env: env}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	// LoadSyntax type-checks only the listed packages; dependencies inside the module are
	// needed with bodies as well
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		w.fset = p.Fset
	}
	if len(errs) > 0 {
		return fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range sp {
		if p == nil {
			continue
		}
		p.Build()
		w.pkgs[p.Pkg.Path()] = p
		for f := range allFuncs(prog, p) {
			w.funcs[w.short(f)] = f
		}
	}
	return nil
}

func allFuncs(prog *ssa.Program, p *ssa.Package) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var addF func(f *ssa.Function)
	addF = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			addF(a)
		}
	}
	for _, m := range p.Members {
		switch t := m.(type) {
		case *ssa.Function:
			addF(t)
		case *ssa.Type:
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						addF(f)
					}
				}
			}
		}
	}
	return r
}

func (w *World) short(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath, "")
}
func (w *World) shortType(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), modPath, "")
}
func (w *World) inRepo(f *ssa.Function) bool {
	return strings.Contains(f.String(), modPath)
}
func (w *World) contractFor(f *ssa.Function) *Contract {
	if f == nil {
		return nil
	}
	return w.contracts[w.short(f)]
}
func (w *World) tagOf(s string) int {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int(h.Sum32()>>2) + 1
}

// constant resolves pkg-level constants mentioned in contracts.
func (w *World) constant(name string, c *Contract) constant.Value {
	if c == nil {
		return nil
	}
	pk := c.Name
	pk = strings.TrimLeft(pk, "(*")
	if i := strings.LastIndex(pk, "/"); i >= 0 {
		j := strings.Index(pk[i:], ".")
		if j > 0 {
			pk = pk[:i+j]
		}
	}
	if p := w.pkgs[modPath+pk]; p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return constant.ToInt(k.Val())
		}
	}
	return nil
}
