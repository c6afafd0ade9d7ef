package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bazelbuild/buildtools"

// Prog is the loaded program: every package of /repo, type-checked, in SSA form.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path relative to the module ("" excluded)
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	Fns   map[*ssa.Function]bool
	cg    *callgraph.Graph

	eff         *Effects
	mods        *ModSets
	flagCls     []string
	funcGlobals map[*ssa.Global]*ssa.Function
	reGroups    map[*T]int64 // calls of regular expressions' methods: the groups of the expression
	accessors   map[string]bool
	argIdx      map[*ssa.Function][]*ssa.CallCommon
}

// Required packages: a tree in which one of them does not type-check cannot be judged.
var required = []string{
	"build", "bzlenv", "differ", "edit", "edit/bzlmod", "file", "labels", "tables",
	"warn", "wspace", "buildifier", "buildifier/config", "buildifier/utils", "buildozer",
	"unused_deps",
}

// phase reports, with TIMES set, how long a phase of the analysis takes.
func phase(name string) func() {
	t := time.Now()
	return func() {
		if os.Getenv("TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%-12s %.1fs\n", name, time.Since(t).Seconds())
		}
	}
}

func load(dir string) (*Prog, error) {
	defer phase("load")()
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	var good []*packages.Package
	for _, pk := range ps {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		if len(pk.Errors) > 0 || pk.IllTyped {
			for _, r := range required {
				if r == rel {
					return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, pk.Errors)
				}
			}
			continue // generated proto bindings may be absent; not part of any property
		}
		p.Pkgs[rel] = pk
		p.Fset = pk.Fset
		good = append(good, pk)
	}
	for _, r := range required {
		if p.Pkgs[r] == nil {
			return nil, fmt.Errorf("required package %s not found", r)
		}
	}
	prog, spkgs := ssautil.AllPackages(good, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, pk := range good {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.SPkgs[strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")] = spkgs[i]
	}
	p.Fns = ssautil.AllFunctions(prog)
	return p, nil
}

// CallGraph is the variable-type-analysis call graph (sound for this program: no reflection
// reaches the repository's own functions).
func (p *Prog) CallGraph() *callgraph.Graph {
	if p.cg == nil {
		defer phase("callgraph")()
		p.cg = vta.CallGraph(p.Fns, cha.CallGraph(p.SSA))
	}
	return p.cg
}

// inRepo reports whether fn belongs to the repository (including its anonymous functions).
func inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
	}
	return nil
}

func relPkg(fn *ssa.Function) string {
	pk := fnPkg(fn)
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

// Func looks up a package-level function or method "T.m" of a repository package.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if sel := p.SSA.MethodSets.MethodSet(typ).Lookup(sp.Pkg, mn); sel != nil {
				fn := p.SSA.MethodValue(sel)
				if fn != nil && fn.Synthetic == "" {
					return fn
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) Type(pkg, name string) types.Type {
	sp := p.SPkgs[pkg]
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	return sp.Type(name).Type()
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.Dir+"/") + ":" + fmt.Sprint(q.Line)
}

// instrPos finds a usable position for an instruction.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	if b := in.Block(); b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.Pos(i.Pos())
			}
		}
	}
	if f := in.Parent(); f != nil {
		return p.Pos(f.Pos())
	}
	return "?"
}

// funcName is a stable, human-readable name: pkg.Func, (*pkg.T).m, with $n for closures.
func funcName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

// repoFuncs returns the repository's functions with bodies, sorted by name.
func (p *Prog) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range p.Fns {
		if inRepo(fn) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].String(), out[j].String(); a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// calleeName names a statically resolved callee: "os.WriteFile", "(*os.File).Close", or "".
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ""
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return v.String()
	case *ssa.Builtin:
		return v.Name()
	case *ssa.MakeClosure:
		return v.Fn.String()
	}
	return ""
}

// astFuncDecl returns the syntax of a declared function.
func astFuncDecl(fn *ssa.Function) *ast.FuncDecl {
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok {
		return d
	}
	return nil
}
