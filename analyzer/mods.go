package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
)

// ModSets gives, per function, the alias classes it may write, transitively.
type ModSets struct {
	p   *Prog
	fn  map[*ssa.Function]map[string]bool
	out map[ssa.CallInstruction][]*ssa.Function
}

func (p *Prog) ModSets() *ModSets {
	if p.mods != nil {
		return p.mods
	}
	defer phase("mods")()
	cg := p.CallGraph()
	m := &ModSets{p: p, fn: map[*ssa.Function]map[string]bool{}, out: map[ssa.CallInstruction][]*ssa.Function{}}
	callees := map[*ssa.Function]map[*ssa.Function]bool{}
	for fn, n := range cg.Nodes {
		if fn == nil || !inRepo(fn) {
			continue
		}
		m.fn[fn] = map[string]bool{}
		callees[fn] = map[*ssa.Function]bool{}
		for _, ed := range n.Out {
			if inRepo(ed.Callee.Func) {
				callees[fn][ed.Callee.Func] = true
			}
			if ed.Site != nil {
				m.out[ed.Site] = append(m.out[ed.Site], ed.Callee.Func)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if c := staticClass(in.Addr); c != "" {
						m.fn[fn][c] = true
					}
				case *ssa.MapUpdate:
					m.fn[fn]["M:"+typeKey(in.Map.Type())] = true
				case ssa.CallInstruction:
					c := in.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "copy":
							if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
								m.fn[fn]["E:"+typeKey(types.NewPointer(sl.Elem()))] = true
							}
						case "delete":
							m.fn[fn]["M:"+typeKey(c.Args[0].Type())] = true
						}
						continue
					}
					// callbacks passed to non-repository callees
					for _, a := range c.Args {
						if f := funcOf(a); f != nil && inRepo(f) {
							callees[fn][f] = true
						}
					}
					m.extWrites(m.fn[fn], in)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for fn, cs := range callees {
			dst := m.fn[fn]
			for c := range cs {
				for k := range m.fn[c] {
					if !dst[k] {
						dst[k] = true
						changed = true
					}
				}
			}
		}
	}
	p.mods = m
	return m
}

func funcOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(v.X)
	case *ssa.MakeInterface:
		return funcOf(v.X)
	}
	return nil
}

// extWrites: a non-repository callee may write through pointers it is handed.
func (m *ModSets) extWrites(set map[string]bool, in ssa.CallInstruction) {
	c := in.Common()
	fn := c.StaticCallee()
	if fn != nil && inRepo(fn) {
		return
	}
	if fn == nil && !c.IsInvoke() {
		return
	}
	for _, a := range c.Args {
		x := a
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		if cl := staticClass(x); cl != "" && isPtr(x.Type()) {
			switch x.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Alloc:
				set[cl] = true
				if p, ok := x.Type().Underlying().(*types.Pointer); ok {
					if st, ok := p.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							set["F:"+fieldKey(x.Type(), i)] = true
						}
					}
				}
			}
		}
	}
	// sort.* permutes elements
	if fn != nil && fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "sort" || fn.Pkg.Pkg.Path() == "slices") && len(c.Args) > 0 {
		x := c.Args[0]
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		if sl, ok := x.Type().Underlying().(*types.Slice); ok {
			set["E:"+typeKey(types.NewPointer(sl.Elem()))] = true
		}
	}
	if fn != nil && fn.String() == "(*flag.FlagSet).Parse" || fn != nil && fn.String() == "flag.Parse" {
		set["*flags*"] = true
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// staticClass is the alias class of an address expression.
func staticClass(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return "F:" + fieldKey(a.X.Type(), a.Field)
	case *ssa.IndexAddr:
		return "E:" + typeKey(a.Type())
	case *ssa.Global:
		return "G:" + a.String()
	case *ssa.Alloc:
		if !a.Heap {
			return ""
		}
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		return "D:" + typeKey(p.Elem())
	}
	return ""
}

// Call returns the classes a call may write.
func (m *ModSets) Call(in ssa.Instruction, c *ssa.CallCommon) map[string]bool {
	ci, ok := in.(ssa.CallInstruction)
	res := map[string]bool{}
	if !ok {
		return res
	}
	add := func(f *ssa.Function) {
		for k := range m.fn[f] {
			res[k] = true
		}
	}
	if f := c.StaticCallee(); f != nil {
		add(f)
	} else {
		for _, f := range m.out[ci] {
			add(f)
		}
	}
	for _, a := range c.Args {
		if f := funcOf(a); f != nil {
			add(f)
		}
	}
	m.extWrites(res, ci)
	if res["*flags*"] {
		delete(res, "*flags*")
		for _, cl := range m.p.flagTargets() {
			res[cl] = true
		}
	}
	return res
}

// flagTargets are the classes of the variables bound to command-line flags.
func (p *Prog) flagTargets() []string {
	if p.flagCls != nil {
		return p.flagCls
	}
	set := map[string]bool{}
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				f := c.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "flag" {
					continue
				}
				for _, a := range c.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					switch a.(type) {
					case *ssa.FieldAddr, *ssa.Global:
						set[staticClass(a)] = true
					}
				}
			}
		}
	}
	p.flagCls = []string{}
	for k := range set {
		p.flagCls = append(p.flagCls, k)
	}
	return p.flagCls
}

// constFuncGlobal: a package variable of function type that is stored exactly once in the program,
// by its initialiser, denotes that function.
func (p *Prog) constFuncGlobal(g *ssa.Global) *ssa.Function {
	if p.funcGlobals == nil {
		p.funcGlobals = map[*ssa.Global]*ssa.Function{}
		count := map[*ssa.Global]int{}
		for fn := range p.Fns {
			if !inRepo(fn) && fn.Name() != "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							count[g]++
							if f := funcOf(st.Val); f != nil && len(f.FreeVars) == 0 {
								p.funcGlobals[g] = f
							}
						}
					}
				}
			}
		}
		for g, n := range count {
			if n != 1 {
				delete(p.funcGlobals, g)
			}
		}
	}
	return p.funcGlobals[g]
}

// method finds the concrete method.
func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// pureAccessor: every possible callee only computes addresses or loads fields of its receiver.
func (p *Prog) pureAccessor(c *ssa.CallCommon, fn *ssa.Function) bool {
	var fns []*ssa.Function
	if fn != nil {
		fns = []*ssa.Function{fn}
	} else if c.IsInvoke() {
		key := c.Method.FullName()
		if v, ok := p.accessors[key]; ok {
			return v
		}
		if p.accessors == nil {
			p.accessors = map[string]bool{}
		}
		for f := range p.Fns {
			if f.Name() == c.Method.Name() && inRepo(f) && f.Signature.Recv() != nil {
				if types.Implements(f.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
					fns = append(fns, f)
				}
			}
		}
		r := len(fns) > 0
		for _, f := range fns {
			if !isAccessor(f) {
				r = false
			}
		}
		p.accessors[key] = r
		return r
	}
	for _, f := range fns {
		if !isAccessor(f) {
			return false
		}
	}
	return len(fns) > 0
}

func isAccessor(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || len(f.Params) == 0 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef, *ssa.Field:
		case *ssa.Call:
			g := in.Call.StaticCallee()
			if g == nil || g == f || !isAccessor(g) {
				return false
			}
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
			return false // loads depend on memory
		default:
			return false
		}
	}
	return true
}

// neverNil: a single-result function that always returns a fresh allocation.
func (p *Prog) neverNil(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || !inRepo(f) {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if len(r.Results) != 1 {
				return false
			}
			n++
			v := r.Results[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			switch v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
			default:
				return false
			}
		}
	}
	return n > 0
}

// reaching computes the functions that may (transitively) execute an instruction satisfying pred,
// following calls, function values handed to callees and closures created on the way.
func (p *Prog) reaching(pred func(fn *ssa.Function, in ssa.Instruction) bool) map[*ssa.Function]bool {
	cg := p.CallGraph()
	res := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	addEdge := func(from, to *ssa.Function) {
		if callers[to] == nil {
			callers[to] = map[*ssa.Function]bool{}
		}
		callers[to][from] = true
	}
	var work []*ssa.Function
	for fn, n := range cg.Nodes {
		if fn == nil || !inRepo(fn) {
			continue
		}
		for _, ed := range n.Out {
			if inRepo(ed.Callee.Func) {
				addEdge(fn, ed.Callee.Func)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					addEdge(fn, mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, a := range ci.Common().Args {
						if f := funcOf(a); f != nil {
							addEdge(fn, f)
						}
					}
				}
				if pred(fn, in) && !res[fn] {
					res[fn] = true
					work = append(work, fn)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for c := range callers[f] {
			if !res[c] {
				res[c] = true
				work = append(work, c)
			}
		}
	}
	return res
}

var _ = callgraph.Edge{}

// matchLen: the length of a non-nil result of a regular expression's method, or of an element of one.
func (p *Prog) matchLen(t *T) int64 {
	if t.op == "load" && t.args[0].op == "elem" {
		c := t.args[0].args[0]
		if c.op == "call" && strings.HasPrefix(c.aux, "(*regexp.Regexp).FindAll") {
			g := p.regexGroups(c)
			switch {
			case strings.HasSuffix(c.aux, "SubmatchIndex"):
				return 2 * (g + 1)
			case strings.HasSuffix(c.aux, "Submatch"):
				return g + 1
			case strings.HasSuffix(c.aux, "Index"):
				return 2
			}
		}
		return 0
	}
	if t.op != "call" || !strings.HasPrefix(t.aux, "(*regexp.Regexp).Find") {
		return 0
	}
	g := p.regexGroups(t)
	switch {
	case strings.Contains(t.aux, "FindAll"):
		return 1
	case strings.HasSuffix(t.aux, "SubmatchIndex"):
		return 2 * (g + 1)
	case strings.HasSuffix(t.aux, "Submatch"):
		return g + 1
	case strings.HasSuffix(t.aux, "Index"):
		return 2
	}
	return 0
}

// regexGroups: how many groups the regular expression of the call has at least.
func (p *Prog) regexGroups(call *T) int64 {
	return p.reGroups[call]
}

// groupsOf: how many groups the regular expression has at least, when it is compiled from constants.
func (p *Prog) groupsOf(v ssa.Value) int64 {
	best := int64(-1)
	var compiled func(v ssa.Value, d int) bool
	compiled = func(v ssa.Value, d int) bool {
		if d > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f == nil || f.String() != "regexp.MustCompile" {
				return false
			}
			srcs := constStrings(x.Call.Args[0], 0)
			for _, src := range srcs {
				re, err := syntax.Parse(src, syntax.Perl)
				if err != nil {
					return false
				}
				if n := int64(re.MaxCap()); best < 0 || n < best {
					best = n
				}
			}
			return len(srcs) > 0
		case *ssa.UnOp:
			var stores []ssa.Value
			switch a := x.X.(type) {
			case *ssa.Global:
				for fn := range p.Fns {
					if inRepo(fn) {
						stores = append(stores, storesTo(fn, a)...)
					}
				}
			case *ssa.Alloc:
				stores = storesTo(a.Parent(), a)
				for _, an := range a.Parent().AnonFuncs {
					for i, fv := range an.FreeVars {
						if len(storesTo(an, fv)) > 0 && i >= 0 {
							return false
						}
					}
				}
			case *ssa.FreeVar:
				b := binding(a)
				if al, ok := b.(*ssa.Alloc); ok {
					return compiled(&ssa.UnOp{X: al}, d+1)
				}
			}
			if len(stores) == 0 {
				return false
			}
			for _, st := range stores {
				if !compiled(st, d+1) {
					return false
				}
			}
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !compiled(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !compiled(v, 0) || best < 0 {
		return 0
	}
	return best
}

func storesTo(fn *ssa.Function, addr ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == addr {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

// binding: what the free variable of a closure stands for in the function that makes the closure.
func binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	i := -1
	for j, x := range fn.FreeVars {
		if x == fv {
			i = j
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && i >= 0 {
				return mc.Bindings[i]
			}
		}
	}
	return nil
}

// constStrings: the values the string may have, when it is put together from constants; a few at most.
func constStrings(v ssa.Value, d int) []string {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return []string{constStr(x)}
	case *ssa.BinOp:
		var out []string
		if x.Op == token.ADD {
			for _, a := range constStrings(x.X, d+1) {
				for _, b := range constStrings(x.Y, d+1) {
					out = append(out, a+b)
				}
			}
		}
		if len(out) > 16 {
			return nil
		}
		return out
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && d < 6 {
			var out []string
			for _, st := range storesTo(al.Parent(), al) {
				o := constStrings(st, d+1)
				if o == nil {
					return nil
				}
				out = append(out, o...)
			}
			for _, an := range al.Parent().AnonFuncs {
				for _, fv := range an.FreeVars {
					if len(storesTo(an, fv)) > 0 {
						return nil
					}
				}
			}
			return out
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			o := constStrings(e, d+1)
			if o == nil {
				return nil
			}
			out = append(out, o...)
		}
		return out
	}
	return nil
}
