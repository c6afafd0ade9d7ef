package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P03", lintReadOnly,
		"the standard library functions called by the checks do not modify their arguments beyond their documentation",
		"no reflection or unsafe modification of syntax trees")
	register("P04", workerIsolation,
		"memory handed over through a channel is not used by the sender afterwards unless the analysis shows it",
		"the standard library is safe for concurrent use as documented; os.File is safe for concurrent writes")
	register("P05", queriesReadOnly, "no reflection or unsafe modification of syntax trees")
	register("P06", historyIndependence, "configuration set once at start-up (tables, flags, registered formatter) is not history")
}

// astTypes is the set of types a syntax tree consists of.
func (e *Effects) astTypes() map[string]bool {
	out := map[string]bool{}
	ft := e.p.Type("build", "File")
	if ft == nil {
		panic("type build.File not found")
	}
	basics := map[string]bool{"string": true, "bool": true, "int": true, "[]byte": true, "[]uint8": true, "[]string": true, "rune": true}
	for k := range e.reachTypes(types.NewPointer(ft)) {
		if !basics[k] {
			out[k] = true
		}
	}
	return out
}

// rootType is the declared type of a root object's variable.
func rootType(fn *ssa.Function, o *eobj) types.Type {
	switch o.kind {
	case "param":
		if o.idx < len(fn.Params) {
			return fn.Params[o.idx].Type()
		}
	case "free":
		if o.idx < len(fn.FreeVars) {
			return fn.FreeVars[o.idx].Type()
		}
	case "global":
		return o.g.Type()
	}
	return nil
}

// isASTMut decides whether a modification may hit a syntax tree.
func (e *Effects) isASTMut(fn *ssa.Function, m *emut, ast map[string]bool) bool {
	if m.typ != nil && ast[typeKey(m.typ)] {
		return true
	}
	if m.typ == nil || m.typ.Underlying() == nil {
		return true
	}
	if _, basic := m.typ.Underlying().(*types.Basic); basic || basicName[typeKey(m.typ)] {
		rt := rootType(fn, m.obj)
		if rt == nil {
			return true
		}
		for k := range e.reachTypes(rt) {
			if ast[k] {
				return true
			}
		}
	}
	return false
}

func mentionsType(t types.Type, key string) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		return typeKey(t) == key
	}
}

func resultMentions(fn *ssa.Function, key string) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if mentionsType(r.At(i).Type(), key) {
			return true
		}
	}
	return false
}

// --- P03 ---

func lintReadOnly(c *Ctx) {
	p := c.P
	e := p.Effects()
	ast := e.astTypes()
	R, A, B := "analysis-read-only", "fix-only-on-request", "suggested-fix-undone"
	c.Rule(R, "no function that computes lint findings modifies syntax-tree memory it did not allocate, except for inserting a nil placeholder into the file's own statement list")
	c.Rule(A, "a replacement is written into the tree only where the lint mode is known to be fix, or in a function that undoes it on every return")
	c.Rule("fix-mode-only", "buildifier calls the fixing entry point only when its lint option is known to be fix")
	lf := modPath + "/warn.LinterFinding"
	var fns []*ssa.Function
	applier := map[*ssa.Function]bool{}
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "warn" {
			continue
		}
		if len(oldStores(fn)) > 0 {
			applier[fn] = true
			for f := fn.Parent(); f != nil; f = f.Parent() {
				applier[f] = true
			}
		}
		if resultMentions(fn, lf) || has([]string{"warn.DisabledWarning", "warn.HasDisablingComment", "warn.DetectTypes"}, funcName(fn)) ||
			fn.Parent() == nil && resultMentions(fn, modPath+"/warn.LinterReplacement") {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		if applier[fn] {
			continue
		}
		c.Inst(R, funcName(fn))
		for _, m := range e.Muts(fn) {
			if !e.isASTMut(fn, m, ast) {
				continue
			}
			if placeholderStore(e, m) {
				c.Inst("placeholder", funcName(m.site.Parent()))
				continue
			}
			c.Violate("mut:"+funcName(m.site.Parent())+":"+m.field, p.instrPos(m.site),
				"lint function %s may modify %s (%s) of %s in %s%s", funcName(fn), typStr(m.typ), m.field, m.obj.describe(fn), funcName(m.site.Parent()), viaStr(m.via))
		}
	}
	// the drivers: apart from applying replacements they modify nothing either
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "warn" || fn.Parent() != nil {
			continue
		}
		if !applier[fn] && !resultMentions(fn, modPath+"/warn.Finding") && !(fn.Object() != nil && fn.Object().Exported() && e.takesFile(fn)) {
			continue
		}
		c.Inst(R, "driver "+funcName(fn))
		for _, m := range e.Muts(fn) {
			if !e.isASTMut(fn, m, ast) || placeholderStore(e, m) {
				continue
			}
			if m.site != nil && (isOldStore(m.site) != nil || relPkg(m.site.Parent()) == "warn" && applier[m.site.Parent()]) {
				continue // decided below
			}
			c.Violate("mut:"+funcName(m.site.Parent())+":"+m.field, p.instrPos(m.site),
				"%s may modify %s (%s) of %s in %s%s", funcName(fn), typStr(m.typ), m.field, m.obj.describe(fn), funcName(m.site.Parent()), viaStr(m.via))
		}
	}
	c.Rule("placeholder", "the inserted placeholder list holds only the file's own statements and nil")
	c.Floor(R, 80)

	// replacements
	n := 0
	relevant := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool { return isOldStore(in) != nil })
	rel2 := map[*ssa.Function]bool{}
	for f := range relevant {
		if relPkg(f) == "warn" {
			rel2[f] = true
		}
	}
	c.Rule(B, "a function that applies a replacement temporarily saves the old node first and restores it on every return")
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "warn" {
			continue
		}
		for _, st := range oldStores(fn) {
			n++
			if fn.Parent() == nil && undone(fn, st) {
				c.Inst(B, funcName(fn))
			}
		}
	}
	if n == 0 {
		c.Violate("anchor:replacements", "", "no store through LinterReplacement.Old found")
	}
	modeT := modPath + "/warn.LintMode"
	fixVal := p.constInt("warn", "ModeFix")
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "warn" || fn.Object() == nil || !fn.Object().Exported() || !rel2[fn] {
			continue
		}
		c.Inst(A, "entry "+funcName(fn))
		var mode *T
		r := &Rule{Relevant: rel2}
		r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) {
			if relPkg(f) != "warn" || !rel2[f] {
				return false, true
			}
			return false, false
		}
		r.Protect = func(t *T) bool { return mode != nil && t.mentions(func(x *T) bool { return x == mode }) }
		r.OnStore = func(e2 *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
			if isOldStore(in) == nil || in.Parent().Parent() != nil {
				return
			}
			if undone(in.Parent(), in.(*ssa.Store)) {
				return
			}
			c.Inst(A, "replacement applied in "+funcName(in.Parent()))
			m := mode
			if m == nil {
				m = modeParam(fr, modeT, s)
			}
			if m == nil || e2.Eval(s.State, e2.tb.Eq(m, e2.tb.Int(fixVal))) != yes {
				c.Violate("apply:"+funcName(in.Parent()), p.instrPos(in), "a fix is written into the tree although the lint mode is not known to be fix (from %s)", funcName(fn))
			}
		}
		eng := newEngine(c, r)
		if _, err := eng.Run(fn, func(s *S, params []*T) {
			for i, prm := range fn.Params {
				if typeKey(prm.Type()) == modeT {
					mode = params[i]
				}
			}
		}); err != nil {
			c.Violate("budget", "", "%v", err)
		}
		c.flowStats(eng)
	}
	c.Floor(A, 3)

	// buildifier: fixes only with -lint=fix
	c.Inst("fix-mode-only", "start")
	mainFn := p.Func("buildifier", "main")
	isFix := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		if f == nil {
			return false
		}
		if funcName(f) == "warn.FixWarnings" {
			return true
		}
		if funcName(f) == "warn.FileWarnings" {
			for _, a := range ci.Common().Args {
				if typeKey(a.Type()) == modeT {
					if k, ok := a.(*ssa.Const); ok && k.Int64() != fixVal {
						return false
					}
					return true
				}
			}
		}
		return false
	}
	rel := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		return strings.HasPrefix(relPkg(fn), "buildifier") && isFix(in)
	})
	const cfgLint = "buildifier/config.Config.Lint"
	r := &Rule{Relevant: rel}
	r.Protect = func(t *T) bool {
		x := t
		if t.op == "==" {
			x = t.args[0]
		}
		return loadedField(x, cfgLint)
	}
	r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) {
		if !strings.HasPrefix(relPkg(f), "buildifier") {
			return false, true
		}
		return false, false
	}
	r.OnCall = func(e2 *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		if noReturn[name] || name == "os.Exit" {
			return nil, true
		}
		if isFix(in) {
			c.Inst("fix-mode-only", funcName(fr.fn)+" calls "+funcName(fn))
			if fieldIs(s.State, cfgLint, "fix") != yes {
				c.Violate("lintmode:"+funcName(fr.fn), p.instrPos(in), "fixes may be applied although the lint option is not known to be fix (path %s)", fr.Path())
			}
		}
		return nil, false
	}
	eng := newEngine(c, r)
	if _, err := eng.Run(mainFn, nil); err != nil {
		c.Violate("budget", "", "%v", err)
	}
	c.flowStats(eng)
	c.Floor("fix-mode-only", 2)
}

func modeParam(fr *Frame, modeT string, s *S) *T {
	for f := fr; f != nil; f = f.parent {
		for _, prm := range f.fn.Params {
			if typeKey(prm.Type()) == modeT {
				if f == fr {
					return s.env[prm]
				}
			}
		}
	}
	return nil
}

func viaStr(via string) string {
	if via == "" {
		return ""
	}
	return " via " + via
}

func (p *Prog) constInt(pkg, name string) int64 {
	o := p.Pkgs[pkg].Types.Scope().Lookup(name)
	k, ok := o.(*types.Const)
	if !ok {
		panic("constant " + pkg + "." + name + " not found")
	}
	var n int64
	fmt.Sscan(k.Val().ExactString(), &n)
	return n
}

// isOldStore: a store through the Old pointer of a LinterReplacement.
func isOldStore(in ssa.Instruction) *ssa.Store {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil
	}
	if isOldPtr(st.Addr, map[ssa.Value]bool{}) {
		return st
	}
	return nil
}

func isOldPtr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), "warn.LinterReplacement.Old")
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && isOldPtr(st.Val, seen) {
					return true
				}
			}
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			return freeVarAny(fv, func(b ssa.Value) bool {
				a, ok := b.(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a && isOldPtr(st.Val, seen) {
						return true
					}
				}
				return false
			})
		}
	case *ssa.Field:
		return strings.HasSuffix(fieldKey(v.X.Type(), v.Field), "warn.LinterReplacement.Old")
	case *ssa.Phi:
		for _, x := range v.Edges {
			if isOldPtr(x, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		// handed to a helper
		if typeKey(v.Type()) != "*"+modPath+"/build.Expr" {
			return false
		}
		fn := v.Parent()
		for i, prm := range fn.Params {
			if prm == v {
				for _, a := range theProg.argsFor(fn, i) {
					if isOldPtr(a, seen) {
						return true
					}
				}
			}
		}
	case *ssa.FreeVar:
		return freeVarAny(v, func(b ssa.Value) bool { return isOldPtr(b, seen) })
	}
	return false
}

func freeVarAny(fv *ssa.FreeVar, pred func(ssa.Value) bool) bool {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && pred(mc.Bindings[idx]) {
				return true
			}
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// argsFor lists the i-th arguments of the static calls of fn.
func (p *Prog) argsFor(fn *ssa.Function, i int) []ssa.Value {
	if p.argIdx == nil {
		p.argIdx = map[*ssa.Function][]*ssa.CallCommon{}
		for _, f := range p.repoFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil {
							p.argIdx[g] = append(p.argIdx[g], ci.Common())
						}
					}
				}
			}
		}
	}
	var out []ssa.Value
	for _, cc := range p.argIdx[fn] {
		if i < len(cc.Args) {
			out = append(out, cc.Args[i])
		}
	}
	return out
}

func oldStores(fn *ssa.Function) []*ssa.Store {
	var out []*ssa.Store
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st := isOldStore(in); st != nil {
				out = append(out, st)
			}
		}
	}
	return out
}

// undone: fn defers a closure that stores the previously loaded node back through Old, and the load
// and the defer are in the same block as the applying store (or dominate / are dominated without a
// return in between), so every return undoes the replacement, last applied first.
func undone(fn *ssa.Function, st *ssa.Store) bool {
	blk := st.Block()
	pos := map[ssa.Instruction]int{}
	for i, in := range blk.Instrs {
		pos[in] = i
	}
	for _, in := range blk.Instrs {
		d, ok := in.(*ssa.Defer)
		if !ok {
			continue
		}
		mc, ok := d.Call.Value.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		cl := mc.Fn.(*ssa.Function)
		if len(cl.Blocks) != 1 {
			continue
		}
		for _, rst := range oldStores(cl) {
			// the restored value: a captured variable assigned the old node before the store
			ld, ok := rst.Val.(*ssa.UnOp)
			if !ok {
				continue
			}
			fv, ok := ld.X.(*ssa.FreeVar)
			if !ok {
				continue
			}
			for i, f := range cl.FreeVars {
				if f != fv {
					continue
				}
				cell, ok := mc.Bindings[i].(*ssa.Alloc)
				if !ok || cell.Block() != blk {
					continue
				}
				nst, good := 0, false
				for _, r := range *cell.Referrers() {
					cs, ok := r.(*ssa.Store)
					if !ok || cs.Addr != cell {
						continue
					}
					nst++
					old, ok := cs.Val.(*ssa.UnOp)
					if ok && cs.Block() == blk && pos[cs] < len(blk.Instrs) && old.Block() == blk && pos[old] < pos[st] && isOldPtr(old.X, map[ssa.Value]bool{}) {
						good = true
					}
				}
				if good && nst == 1 {
					return true
				}
			}
		}
	}
	return false
}

// placeholderStore: the statement list of a file is replaced by a list of its own statements and nil.
func placeholderStore(e *Effects, m *emut) bool {
	st, ok := m.site.(*ssa.Store)
	if !ok || !strings.HasSuffix(m.field, "build.File.Stmt") {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fs := e.states[st.Parent()]
	if fs == nil {
		return false
	}
	base := fs.val(fa.X)
	okEl := &eset{}
	for o := range base.all() {
		if o.root() {
			okEl.put(e.deeper(o))
			okEl.put(e.deeper(e.deeper(o)))
		}
	}
	v := fs.val(st.Val)
	if v.len() == 0 {
		return false
	}
	for o := range v.all() {
		if o.root() {
			return false // the list itself must be new
		}
		for x := range fs.contents(o, "[]").all() {
			if !okEl.has(x) {
				return false
			}
		}
	}
	return true
}

// --- P04 ---

func workerIsolation(c *Ctx) {
	p := c.P
	e := p.Effects()
	G := "goroutine-effects"
	c.Rule(G, "the function started by a go statement modifies no memory reachable from its arguments, captured variables or package-level variables, unless under a mutex or at its own index")
	c.Rule("spawner", "variables captured by a started goroutine are not assigned afterwards by the function that started it")
	c.Rule("shared-writers", "writers that several goroutines use are wrapped in a type whose Write method holds a mutex before the first goroutine starts")
	ngo := 0
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				ngo++
				var callees []*ssa.Function
				if f := g.Call.StaticCallee(); f != nil {
					callees = []*ssa.Function{f}
				} else if n := p.CallGraph().Nodes[fn]; n != nil {
					for _, ed := range n.Out {
						if ed.Site == in {
							callees = append(callees, ed.Callee.Func)
						}
					}
				}
				if len(callees) == 0 {
					c.Violate("go:"+funcName(fn), p.instrPos(in), "the function started here cannot be resolved")
				}
				for _, cal := range callees {
					c.Inst(G, fmt.Sprintf("%s started in %s", funcName(cal), funcName(fn)))
					if len(cal.Blocks) == 0 {
						c.Violate("go:"+funcName(fn), p.instrPos(in), "the body of %s is not available", funcName(cal))
						continue
					}
					for _, m := range e.Muts(cal) {
						if syncMem(m.typ) || guardedByMutex(m.site) || ownIndex(m.site, cal) {
							continue
						}
						c.Violate("shared:"+funcName(m.site.Parent())+":"+globalOr(m, typStr(m.typ)+"."+m.field), p.instrPos(m.site),
							"%s, run by several goroutines, may modify shared memory: %s (%s.%s) in %s%s", funcName(cal), m.obj.describe(cal), typStr(m.typ), m.field, funcName(m.site.Parent()), viaStr(m.via))
					}
				}
				// variables captured by reference
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if ok {
					for _, bd := range mc.Bindings {
						a, ok := bd.(*ssa.Alloc)
						if !ok {
							continue
						}
						c.Inst("spawner", fmt.Sprintf("%s captured in %s", a.Comment, funcName(fn)))
						for _, r := range *a.Referrers() {
							st, ok := r.(*ssa.Store)
							if !ok || st.Addr != a {
								continue
							}
							if st.Block() == b && instrIndex(st) > i || afterBlock(b, st.Block(), a.Block()) {
								c.Violate("captured:"+funcName(fn)+":"+a.Comment, p.instrPos(st), "%s is assigned after a goroutine that captured it was started", a.Comment)
							}
						}
					}
				}
				sharedWriters(c, e, fn, g, callees)
			}
		}
	}
	c.Floor(G, 2)
	c.Floor("shared-writers", 2)
	// positive control: the analysis must see the effects of a function that is known to have some
	self := 0
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) == "edit" && len(e.Muts(fn)) > 0 {
			self++
		}
	}
	if self < 40 {
		c.Violate("self-test", "", "only %d functions of package edit were found to modify their arguments; the effect analysis is not working", self)
	}
	c.info["effect_functions"] = len(e.fns)
	c.info["effect_rounds"] = e.Rounds
}

func globalOr(m *emut, s string) string {
	if m.obj.kind == "global" {
		return m.obj.g.Name()
	}
	return s
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// afterBlock: t is reachable from the successors of b without passing the allocation's block again
// (a new iteration gets a new variable).
func afterBlock(b, t, alloc *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	work = append(work, b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] || x == alloc {
			continue
		}
		seen[x] = true
		if x == t {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func syncMem(t types.Type) bool {
	if t == nil {
		return false
	}
	k := typeKey(t)
	return strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "sync/atomic.") || strings.HasPrefix(k, "*sync.")
}

// guardedByMutex: every path to the instruction passes a Lock without a later Unlock.
func guardedByMutex(site ssa.Instruction) bool {
	if site == nil {
		return false
	}
	locked := func(b *ssa.BasicBlock, upto int, in bool) bool {
		for i := 0; i < upto; i++ {
			ci, ok := b.Instrs[i].(*ssa.Call)
			if !ok {
				continue
			}
			switch n := calleeName(ci.Common()); {
			case n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock":
				in = true
			case n == "(*sync.Mutex).Unlock" || n == "(*sync.RWMutex).Unlock":
				in = false
			}
		}
		return in
	}
	fn := site.Parent()
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		out[b] = true
	}
	inOf := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if !out[p] {
				return false
			}
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			n := locked(b, len(b.Instrs), inOf(b))
			if n != out[b] {
				out[b], ch = n, true
			}
		}
	}
	return locked(site.Block(), instrIndex(site), inOf(site.Block()))
}

// ownIndex: an element store at an index that is the goroutine's own parameter.
func ownIndex(site ssa.Instruction, g *ssa.Function) bool {
	st, ok := site.(*ssa.Store)
	if !ok || st.Parent() != g {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	switch x := ia.Index.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.FreeVar)
		return ok
	}
	return false
}

// sharedWriters: every field of an interface type with a Write method that the goroutine's code
// writes to through a shared struct must hold a synchronised writer.
func sharedWriters(c *Ctx, e *Effects, spawner *ssa.Function, g *ssa.Go, callees []*ssa.Function) {
	p := c.P
	fields := map[string]ssa.Instruction{}
	reach := p.reachableFrom(callees...)
	for fn := range reach {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				var cand []ssa.Value
				if cc.IsInvoke() && cc.Method.Name() == "Write" {
					cand = append(cand, cc.Value)
				}
				for _, a := range cc.Args {
					if typeKey(a.Type()) == "io.Writer" {
						cand = append(cand, a)
					}
				}
				for _, v := range cand {
					if u, ok := v.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if _, isAlloc := fa.X.(*ssa.Alloc); !isAlloc {
								fields[fieldKey(deref(fa.X.Type()), fa.Field)] = in
							}
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		in := fields[k]
		if lockedMethod(in.Parent()) {
			continue
		}
		c.Inst("shared-writers", k+" used by goroutines of "+funcName(spawner))
		good := false
		bad := ""
		for _, fn := range p.repoFuncs() {
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					st, ok := x.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fieldKey(deref(fa.X.Type()), fa.Field) != k {
						continue
					}
					if fn == spawner && syncedWriter(p, st.Val) && st.Block().Dominates(g.Block()) {
						good = true
					}
				}
			}
		}
		if !good {
			c.Violate("writer:"+k, p.instrPos(in), "%s is written to by several goroutines, but %s does not wrap it in a synchronised writer before starting them%s", k, funcName(spawner), bad)
		}
	}
}

// syncedWriter: the value's concrete type has a Write method that holds a mutex while writing.
func syncedWriter(p *Prog, v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !syncedWriter(p, r.Results[0]) {
						return false
					}
				}
				return true
			}
			if c.Call.StaticCallee() == nil {
				return false
			}
		}
		if ct, ok := v.(*ssa.ChangeInterface); ok {
			return syncedWriter(p, ct.X)
		}
		return false
	}
	ms := p.SSA.MethodSets.MethodSet(mi.X.Type())
	sel := ms.Lookup(nil, "Write")
	if sel == nil {
		return false
	}
	f := p.SSA.MethodValue(sel)
	return f != nil && lockedMethod(f)
}

// lockedMethod: every writing call in the method happens under a mutex.
func lockedMethod(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			nm := calleeName(ci.Common())
			w := ci.Common().IsInvoke() && ci.Common().Method.Name() == "Write" || strings.HasSuffix(nm, ").Write") || strings.HasPrefix(nm, "fmt.Fprint")
			if !w {
				continue
			}
			n++
			if !guardedByMutex(in) {
				return false
			}
		}
	}
	return n > 0
}

// --- P05 ---

// queriesReadOnly: printing, walking, copying and querying never modify a tree.
func queriesReadOnly(c *Ctx) {
	p := c.P
	e := p.Effects()
	ast := e.astTypes()
	R := "query-read-only"
	c.Rule(R, "the function modifies no syntax-tree memory reachable from its parameters or receiver")
	c.Rule("copy-fresh", "Copy returns newly allocated nodes only")
	c.Rule("buildozer-readonly", "the function of a command that buildozer treats as read-only modifies no syntax tree and returns no new file")
	check := func(fn *ssa.Function, rule string) {
		c.Inst(rule, funcName(fn))
		for _, m := range e.Muts(fn) {
			if m.obj.kind != "param" && m.obj.kind != "free" || !e.isASTMut(fn, m, ast) {
				continue
			}
			c.Violate("mut:"+funcName(fn)+":"+m.field, p.instrPos(m.site),
				"%s may modify %s (%s) of %s in %s%s", funcName(fn), typStr(m.typ), m.field, m.obj.describe(fn), funcName(m.site.Parent()), viaStr(m.via))
		}
	}
	names := []string{}
	iface := p.Type("build", "Expr").Underlying().(*types.Interface)
	for _, fn := range p.repoFuncs() {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil {
			continue
		}
		n := funcName(fn)
		switch relPkg(fn) {
		case "build":
			if fn.Signature.Recv() != nil && (fn.Name() == "Span" || fn.Name() == "Copy" || fn.Name() == "Comment" || fn.Name() == "String") {
				rt := fn.Signature.Recv().Type()
				if types.Implements(rt, iface) || fn.Name() != "Comment" {
					check(fn, R)
					if fn.Name() == "Copy" {
						c.Inst("copy-fresh", n)
						if sum := e.sums[fn]; sum != nil {
							for o := range sum.rets[0].all() {
								if o.root() {
									c.Violate("copy:"+n, p.Pos(fn.Pos()), "%s may return %s instead of a new node", n, o.describe(fn))
								}
							}
						}
					}
					continue
				}
			}
			if p.queryName(fn) {
				check(fn, R)
				names = append(names, n)
			}
		case "edit", "edit/bzlmod", "labels", "bzlenv":
			if p.queryName(fn) {
				check(fn, R)
				names = append(names, n)
			}
		}
	}
	c.info["queries"] = names
	c.Floor(R, 110)
	c.Floor("copy-fresh", 20)

	ro := p.mapKeys("edit", "readonlyCommands")
	cmds := p.commandTable()
	for _, k := range ro {
		f := cmds[k].fn
		if f == nil {
			c.Violate("cmd:"+k, "", "the function of command %q cannot be resolved", k)
			continue
		}
		check(f, "buildozer-readonly")
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if ok && !isNilConst(r.Results[0]) {
				c.Violate("cmd-result:"+k, p.instrPos(r), "the read-only command %q may return a changed file", k)
			}
		}
	}
	c.Floor("buildozer-readonly", 2)
	if !has(ro, "print") || !has(ro, "print_comment") {
		c.Violate("readonly-table", "", "print and print_comment must be read-only commands")
	}
}

// queryFuncs are the functions documented as queries.
var queryPrefixes = map[string][]string{
	"build": {"FormatString", "FormatWithoutRewriting", "Walk", "WalkOnce", "WalkStatements", "GetTypes", "Strings", "IsCorrectEscaping", "Unquote",
		"(*build.File).Rules", "(*build.File).RuleAt", "(*build.File).RuleNamed", "(*build.File).Rule", "(*build.File).CanonicalPath", "(*build.File).DisplayPath", "(*build.File).implicitRuleName",
		"(*build.Rule).Kind", "(*build.Rule).Name", "(*build.Rule).ExplicitName", "(*build.Rule).AttrKeys", "(*build.Rule).AttrDefn", "(*build.Rule).Attr", "(*build.Rule).AttrLiteral", "(*build.Rule).AttrString", "(*build.Rule).AttrStrings"},
	"edit": {"ParseLabel", "ShortenLabel", "LabelsEqual", "IsIdent", "ContainsComments", "ListFind", "ListAttributeDeleteDry", "AllLists", "AllSelects", "AllStrings",
		"FirstList", "FindExportedFile", "IndexOfRuleByName", "IndexOfLast", "IndexOfRule", "EOLCommentsOnly", "UsedSymbols", "UsedTypes", "ExprToString", "DictionaryGet", "GetGlobalVariables",
		"IsList", "attributeMustNotBeEmpty", "InterpretLabelForWorkspaceLocation", "PackageHasVisibility"},
	"edit/bzlmod": {"Proxies", "AllProxies", "UseRepos", "ExtractModuleToApparentNameMapping"},
	"labels":      {"Parse", "ParseRelative", "Shorten", "Equal", "(labels.Label).Format", "(labels.Label).FormatRelative"},
	"bzlenv":      {"CollectLValues"},
}

func (p *Prog) queryName(fn *ssa.Function) bool {
	n := funcName(fn)
	for _, q := range queryPrefixes[relPkg(fn)] {
		if strings.HasPrefix(q, "(") && n == q || n == relPkg(fn)+"."+q {
			return true
		}
	}
	return false
}

// mapKeys lists the constant keys a package-level map is initialised with.
func (p *Prog) mapKeys(pkg, name string) []string {
	var out []string
	for k := range p.mapInit(pkg, name) {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// mapInit finds the entries of a package-level map with string keys, initialised by a composite literal.
func (p *Prog) mapInit(pkg, name string) map[string]ssa.Value {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	if g == nil {
		return nil
	}
	init := sp.Func("init")
	out := map[string]ssa.Value{}
	var mv ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				mv = st.Val
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && mu.Map == mv {
				if k, ok := mu.Key.(*ssa.Const); ok {
					out[constStr(k)] = mu.Value
				}
			}
		}
	}
	return out
}

type cmdEntry struct {
	fn       *ssa.Function
	perRule  bool
	min, max int64
	known    bool
}

// commandTable reads buildozer's command table from the initialiser of AllCommands.
func (p *Prog) commandTable() map[string]cmdEntry {
	out := map[string]cmdEntry{}
	for k, v := range p.mapInit("edit", "AllCommands") {
		var ent cmdEntry
		u, ok := v.(*ssa.UnOp)
		if !ok {
			out[k] = ent
			continue
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			out[k] = ent
			continue
		}
		ent.known = true
		for _, r := range *a.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				fk := fieldKey(deref(fa.X.Type()), fa.Field)
				switch {
				case strings.HasSuffix(fk, ".Fn"):
					ent.fn = funcOf(st.Val)
				case strings.HasSuffix(fk, ".MinArg"):
					if k, ok := st.Val.(*ssa.Const); ok {
						ent.min = k.Int64()
					} else {
						ent.known = false
					}
				case strings.HasSuffix(fk, ".MaxArg"):
					if k, ok := st.Val.(*ssa.Const); ok {
						ent.max = k.Int64()
					} else {
						ent.known = false
					}
				case strings.HasSuffix(fk, ".PerRule"):
					if k, ok := st.Val.(*ssa.Const); ok {
						ent.perRule = k.Value.String() == "true"
					}
				}
			}
		}
		out[k] = ent
	}
	return out
}

// --- P06 ---

func historyIndependence(c *Ctx) {
	p := c.P
	e := p.Effects()
	R := "no-global-writes"
	c.Rule(R, "the function modifies no package-level variable (nor memory reachable from one) of the repository")
	cfg := map[string]bool{"edit.RegisterBuildifier": true}
	parses := p.reachParser()
	seen := 0
	for _, fn := range p.repoFuncs() {
		pk := relPkg(fn)
		switch pk {
		case "build", "warn", "edit", "edit/bzlmod", "bzlenv", "labels", "wspace", "differ", "file", "buildifier/utils":
			if fn.Parent() != nil || fn.Object() == nil || fn.Name() == "init" || cfg[funcName(fn)] {
				continue
			}
			if fn.Signature.Recv() == nil && !fn.Object().Exported() {
				continue
			}
		case "buildifier", "unused_deps":
			if fn.Name() == "main" || fn.Name() == "init" || fn.Parent() != nil || !parses[fn] {
				continue
			}
		default:
			continue
		}
		seen++
		c.Inst(R, funcName(fn))
		for _, m := range e.Muts(fn) {
			if m.obj.kind != "global" || m.obj.g.Pkg == nil || !strings.HasPrefix(m.obj.g.Pkg.Pkg.Path(), modPath) || syncMem(m.typ) {
				continue
			}
			gn := strings.ReplaceAll(m.obj.g.String(), modPath+"/", "")
			c.Violate("global:"+gn, p.instrPos(m.site), "%s may modify package-level variable %s in %s%s: later files see a different state", funcName(fn), gn, funcName(m.site.Parent()), viaStr(m.via))
		}
	}
	c.Floor(R, 250)
	// positive control
	f := p.Func("tables", "OverrideTables")
	n := 0
	if f != nil {
		for _, m := range e.Muts(f) {
			if m.obj.kind == "global" {
				n++
			}
		}
	}
	if n == 0 {
		c.Violate("self-test", "", "the effect analysis no longer sees that tables.OverrideTables replaces the tables")
	}
}

func (p *Prog) reachParser() map[*ssa.Function]bool {
	return p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := p.staticName(ci.Common())
		return strings.HasSuffix(n, "buildtools/build.Format") || !ci.Common().IsInvoke() && isParserSig(ci.Common().Signature())
	})
}

// takesFile: a parameter of the function is a parsed file.
func (e *Effects) takesFile(fn *ssa.Function) bool {
	for _, prm := range fn.Params {
		if typeKey(prm.Type()) == "*"+modPath+"/build.File" {
			return true
		}
	}
	return false
}
