package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P22", frameRules,
		"labels.Equal decides whether two labels are the same; the command fix, which applies the fixes of its own list, is not covered")
}

// frame: a command of buildozer changes only what it names.
type frame struct {
	c       *Ctx
	p       *Prog
	eff     *Effects
	in      *unused // call sites among the functions commands on rules run
	fns     []*ssa.Function
	inFns   map[*ssa.Function]bool
	cmds    map[string]cmdEntry
	tmpl    map[string]string
	der     map[ssa.Value]bool
	leaks   map[*ssa.Function]bool // returns a part of the file of its environment
	keyP    map[*ssa.Function]int  // methods of rules that change an attribute: the parameter with its name
	getP    map[*ssa.Function]int  // ... that return one
	results map[*ssa.Function]bool
}

func frameRules(c *Ctx) {
	c.Rule("file", "a command on a rule neither modifies what it reaches through its file nor puts a part of it elsewhere, and returns that file, or what is left of it without the rule")
	c.Rule("dropped", "when statements, list elements or dictionary entries are copied over, only those that equal what is to be deleted, or that are empty package or use_repo calls, are left out")
	c.Rule("same-file", "a file made from another keeps its path, package, label, workspace, type and comments")
	c.Rule("attribute", "the attributes a command on a rule gets hold of, sets or deletes are those its arguments name")
	c.Rule("selected", "an attribute, dictionary entry, variable or list element is replaced, renamed or deleted only after it was found to be the one looked for")
	c.Rule("emptied", "an attribute is deleted as a whole only if the command names nothing but the attribute, or its value is the one named, or nothing is left in it")
	c.Rule("absent", "a command that sets only what is absent does so only after it was found to be absent")
	c.Rule("kind", "the kind of a rule is changed only by a command whose attribute is kind")
	c.Rule("variables", "the variables of the file are handed to commands only if the option to edit them is set")
	f := &frame{c: c, p: c.P, eff: c.P.Effects(), cmds: c.P.commandTable(), der: map[ssa.Value]bool{},
		inFns: map[*ssa.Function]bool{}, leaks: map[*ssa.Function]bool{}, keyP: map[*ssa.Function]int{}, getP: map[*ssa.Function]int{}}
	var roots []*ssa.Function
	for k, e := range f.cmds {
		if !e.known || e.fn == nil {
			c.Violate("file:"+k, "", "the entry of the command %s in the command table cannot be read", k)
			continue
		}
		if e.perRule && k != "fix" {
			roots = append(roots, e.fn)
		}
	}
	f.tmpl = f.templates()
	for fn := range f.p.reachableFrom(roots...) {
		if inRepo(fn) && len(fn.Blocks) > 0 {
			f.inFns[fn] = true
			f.fns = append(f.fns, fn)
		}
	}
	sort.Slice(f.fns, func(i, j int) bool { return f.fns[i].String() < f.fns[j].String() })
	f.in = &unused{c: c, p: c.P, fns: f.fns}
	f.file(roots)
	f.dropped()
	f.sameFile()
	f.attributes()
	f.selected()
	f.emptied()
	f.absent()
	f.kind()
	f.variables()
	c.Floor("file", 20)
	c.Floor("dropped", 5)
	c.Floor("same-file", 2)
	c.Floor("attribute", 20)
	c.Floor("selected", 6)
	c.Floor("emptied", 5)
	c.Floor("absent", 3)
	c.Floor("kind", 1)
	c.Floor("variables", 1)
}

// templates: the text describing the arguments of each command.
func (f *frame) templates() map[string]string {
	out := map[string]string{}
	for k, v := range f.p.mapInit("edit", "AllCommands") {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			continue
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *a.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), ".Template") {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					if k2, ok := st.Val.(*ssa.Const); ok {
						out[k] = constStr(k2)
					}
				}
			}
		}
	}
	return out
}

func isEnvType(t types.Type) bool {
	return strings.HasSuffix(typeKey(deref(t)), "edit.CmdEnvironment")
}

func isFileType(t types.Type) bool {
	return strings.HasSuffix(typeKey(deref(t)), "build.File")
}

// envField: the address (or value) of the named field of a command's environment.
func envField(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return isEnvType(x.X.Type()) && strings.HasSuffix(fieldKey(deref(x.X.Type()), x.Field), "."+name)
	case *ssa.Field:
		return isEnvType(x.X.Type()) && strings.HasSuffix(fieldKey(x.X.Type(), x.Field), "."+name)
	case *ssa.UnOp:
		return x.Op == token.MUL && envField(x.X, name)
	}
	return false
}

func takesEnv(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isEnvType(p.Type()) {
			return true
		}
	}
	return false
}

// --- the file ---

func (f *frame) file(roots []*ssa.Function) {
	// a fixed point over the helpers that return a part of the file
	for n := -1; n != len(f.leaks); {
		n = len(f.leaks)
		for _, fn := range f.fns {
			f.taint(fn, false)
		}
	}
	for _, fn := range f.fns {
		f.taint(fn, true)
	}
	for _, fn := range roots {
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			f.c.Inst("file", f.p.instrPos(ret))
			if !f.ofFile(ret.Results[0], map[ssa.Value]bool{}) {
				f.c.Violate("file:returned:"+fn.Name(), f.p.instrPos(ret), "%s returns a file that is not the one it was given", fn.Name())
			}
		}
		for _, m := range f.eff.Muts(fn) {
			if m.obj.kind == "param" && m.obj.idx < len(fn.Params) && strings.HasSuffix(typeKey(deref(fn.Params[m.obj.idx].Type())), "edit.Options") {
				f.c.Violate("file:options:"+fn.Name(), f.p.instrPos(m.site), "%s modifies the options of the run (%s)", fn.Name(), m.via)
			}
		}
	}
}

func (f *frame) ofFile(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || isNilConst(v) || f.der[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.ofFile(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return f.ofFile(x.Tuple, seen)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !f.inFns[g] || !takesEnv(g) {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, r := range ret.Results {
					if isFileType(r.Type()) && !f.ofFile(r, seen) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// taint follows the file of the environment, and what is reached through it, in a function.
func (f *frame) taint(fn *ssa.Function, report bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			switch x := v.(type) {
			case *ssa.UnOp, *ssa.Field:
				if envField(v, "File") {
					if report {
						f.c.Inst("file", f.p.instrPos(in))
					}
					f.flow(fn, v, report, map[ssa.Value]bool{})
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && f.leaks[g] {
					f.flow(fn, v, report, map[ssa.Value]bool{})
				}
			}
		}
	}
}

func (f *frame) flow(fn *ssa.Function, v ssa.Value, report bool, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	f.der[v] = true
	bad := func(in ssa.Instruction, format string, a ...interface{}) {
		if report {
			f.c.Violate("file:"+fn.Name(), f.p.instrPos(in), "in %s: "+format, append([]interface{}{fn.Name()}, a...)...)
		}
	}
	next := func(x ssa.Value) {
		if hasPtr(x.Type()) && !isStringish(x.Type()) && typeKey(x.Type()) != "error" {
			f.flow(fn, x, report, seen)
		}
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				if _, ok := v.(*ssa.Alloc); !ok {
					bad(x, "a part of the file other than the rule is modified")
				}
				continue
			}
			base := x.Addr
			for {
				if fa, ok := base.(*ssa.FieldAddr); ok {
					base = fa.X
				} else if ia, ok := base.(*ssa.IndexAddr); ok {
					base = ia.X
				} else {
					break
				}
			}
			al, ok := base.(*ssa.Alloc)
			if !ok {
				bad(x, "a part of the file is put into another structure")
				continue
			}
			if isEnvType(al.Type()) {
				continue
			}
			f.flow(fn, al, report, seen)
		case *ssa.MapUpdate:
			bad(x, "a map is modified with a part of the file")
		case *ssa.Send:
			bad(x, "a part of the file is sent away")
		case *ssa.Return:
			for _, res := range x.Results {
				if res == v && !isFileType(v.Type()) {
					f.leaks[fn] = true
				}
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, bd := range x.Bindings {
				if bd == v {
					f.flow(g, g.FreeVars[i], report, seen)
				}
			}
		case ssa.CallInstruction:
			f.passed(fn, v, x, bad, next)
		case ssa.Value:
			next(x)
		}
	}
}

// passed: a part of the file is an argument of a call.
func (f *frame) passed(fn *ssa.Function, v ssa.Value, x ssa.CallInstruction, bad func(ssa.Instruction, string, ...interface{}), next func(ssa.Value)) {
	cc := x.Common()
	res, _ := x.(ssa.Value)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "print", "println", "panic":
		case "append":
			if cc.Args[0] == v {
				bad(x, "the list of a part of the file is appended to")
			} else if res != nil {
				next(res)
			}
		case "copy":
			if cc.Args[0] == v {
				bad(x, "a list of the file is overwritten")
			} else {
				bad(x, "a part of the file is put into another list")
			}
		default:
			bad(x, "a part of the file is modified by %s", b.Name())
		}
		return
	}
	g := cc.StaticCallee()
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		g = mc.Fn.(*ssa.Function)
	}
	if g == nil || !inRepo(g) {
		if g != nil && fnPkg(g) != nil && fnPkg(g).Path() == "sort" {
			bad(x, "a part of the file is reordered by %s", g.Name())
		}
		if res != nil {
			next(res)
		}
		return
	}
	idx := map[int]bool{}
	for i, a := range cc.Args {
		if a == v {
			idx[i] = true
		}
	}
	for _, m := range f.eff.Muts(g) {
		if m.obj.kind == "free" {
			continue
		}
		if m.obj.kind == "param" && idx[m.obj.idx] {
			if f.declares(g, m) {
				continue
			}
			bad(x, "%s modifies a part of the file other than the rule (%s)", g.Name(), m.via)
			return
		}
		if m.obj.kind == "param" && hasPtr(v.Type()) && m.obj.idx < len(g.Params) && !isOutput(g.Params[m.obj.idx].Type()) && f.mayKeep(m, v) {
			bad(x, "%s puts a part of the file into another structure", g.Name())
			return
		}
	}
	if sum := f.eff.sums[g]; sum != nil {
		alias := false
		for _, r := range sum.rets {
			for o := range r.all() {
				if o.kind == "param" && idx[o.idx] || o.kind == "unknown" || o.kind == "call" || o.kind == "alloc" && f.holds(sum, o, idx) {
					alias = alias || o.kind != "call" || f.holds(sum, o, idx)
				}
			}
		}
		if !alias {
			return
		}
	}
	if res != nil {
		if tup, ok := res.Type().(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				if hasPtr(tup.At(i).Type()) {
					next(res)
					break
				}
			}
			return
		}
		next(res)
	}
}

// holds: a fresh object the callee returns may hold a part of the argument.
func (f *frame) holds(sum *esum, o *eobj, idx map[int]bool) bool {
	seen := map[*eobj]bool{}
	var rec func(o *eobj) bool
	rec = func(o *eobj) bool {
		if seen[o] {
			return false
		}
		seen[o] = true
		for _, set := range sum.heap[o] {
			for e := range set.all() {
				if e.kind == "param" && idx[e.idx] || e.kind == "unknown" || rec(e) {
					return true
				}
			}
		}
		return false
	}
	return rec(o)
}

func isOutput(t types.Type) bool {
	k := typeKey(deref(t))
	return strings.HasSuffix(k, "Writer") || strings.HasPrefix(k, "os.") || strings.HasPrefix(k, "bytes.") || strings.HasPrefix(k, "strings.")
}

// mayKeep: what the callee modifies can hold nodes of the tree.
func (f *frame) mayKeep(m *emut, v ssa.Value) bool {
	if m.typ == nil {
		return true
	}
	return strings.Contains(typStr(m.typ), "build.") || types.IsInterface(deref(m.typ)) || m.typ == nil
}

// declares: the file is modified only to declare the package, for the name that stands for the declaration.
func (f *frame) declares(g *ssa.Function, m *emut) bool {
	isPkgName := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return false
		}
		return fromConst([]ssa.Value{b.X, b.Y}, "__pkg__")
	}
	ok, any := true, false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			hit := in == m.site
			if ci, isCall := in.(ssa.CallInstruction); isCall {
				if h := ci.Common().StaticCallee(); h != nil && inRepo(h) && len(h.Blocks) > 0 {
					for _, m2 := range f.eff.Muts(h) {
						if m2.obj.kind == "param" {
							hit = true
						}
					}
				}
			}
			if !hit {
				continue
			}
			any = true
			never := func(*ssa.BasicBlock) bool { return false }
			if b == g.Blocks[0] || !pathsPass(g.Blocks[0], func(t *ssa.BasicBlock) bool { return t == b }, never, condEdge(isPkgName, true)) {
				ok = false
			}
		}
	}
	return any && ok
}

// --- what is left out ---

// kept: the loops in which a list of nodes is copied over.
func (f *frame) dropped() {
	for _, fn := range f.p.repoFuncs() {
		if pk := relPkg(fn); pk != "edit" && pk != "edit/bzlmod" && !f.inFns[fn] || len(fn.Blocks) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			l := loopAt(b)
			if l == nil {
				continue
			}
			ld, ok := l.over.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok || !isNodeList(l.over.Type()) {
				continue
			}
			hits := map[*ssa.BasicBlock]bool{}
			var app *ssa.Call
			for bb := range l.body {
				for _, in := range bb.Instrs {
					if cl, ok := in.(*ssa.Call); ok && isAppend(cl) {
						for _, e := range appendedElems(cl.Call.Args[1]) {
							if elemOfSame(e, l.over) && f.replaces(fn, cl, fa) {
								hits[bb] = true
								app = cl
							}
						}
					}
				}
			}
			if app == nil {
				continue
			}
			f.c.Inst("dropped", f.p.instrPos(app))
			if !f.inFns[fn] && relPkg(fn) == "edit" && !f.namedDrop(fn) {
				continue
			}
			head := l.head
			if !pathsPass(l.start, func(t *ssa.BasicBlock) bool { return t == head || isReturn(t) },
				func(t *ssa.BasicBlock) bool { return hits[t] }, func(b, t *ssa.BasicBlock) bool {
					if f.inFns[fn] && strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), "build.File.Stmt") {
						return f.sameCallEdge(b, t)
					}
					return f.equalEdge(b, t) || emptyCallEdge(b, t)
				}) {
				f.c.Violate("dropped:"+fn.Name(), f.p.instrPos(app), "%s leaves out an element of the list it copies that is not the one to be deleted", fn.Name())
			}
			for bb := range l.body {
				if bb == head {
					continue
				}
				for _, t := range bb.Succs {
					if !l.body[t] && !onlyPanics(t) {
						f.c.Violate("dropped:"+fn.Name(), f.p.instrPos(app), "%s stops copying the list before its end", fn.Name())
					}
				}
			}
		}
	}
}

func elemOfSame(v, list ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	return ok && sameAddr(ia.X, list)
}

// namedDrop: the function is one of the editing functions that return what is left of a file.
func (f *frame) namedDrop(fn *ssa.Function) bool {
	sig := fn.Signature
	return sig.Results().Len() > 0 && isFileType(sig.Results().At(0).Type())
}

func isNodeList(t types.Type) bool {
	e := sliceElem(t)
	if e == nil {
		return false
	}
	k := typeKey(deref(e))
	return strings.HasSuffix(k, "build.Expr") || strings.HasSuffix(k, "build.KeyValueExpr")
}

// replaces: the list built replaces the list it is built from, in the same node or in a copy of it.
func (f *frame) replaces(fn *ssa.Function, app *ssa.Call, fa *ssa.FieldAddr) bool {
	web := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if web[v] || v.Referrers() == nil {
			return false
		}
		web[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				if rec(x) {
					return true
				}
			case *ssa.Call:
				if isAppend(x) && x.Call.Args[0] == v && rec(x) {
					return true
				}
				if g := x.Call.StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 {
					for i, a := range x.Call.Args {
						if a == v && i < len(g.Params) && rec(g.Params[i]) {
							return true
						}
					}
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if d, ok := x.Addr.(*ssa.FieldAddr); ok && d.Field == fa.Field && types.Identical(deref(d.X.Type()), deref(fa.X.Type())) {
					return true
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && rec(u) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(app)
}

// nodeText: the value is text of a node, or the name or kind of a rule.
func (f *frame) nodeText(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return false
		}
		k := fieldKey(deref(fa.X.Type()), fa.Field)
		return strings.Contains(k, "build.") && isStringish(x.Type())
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && relPkg(g) == "build" && (g.Name() == "Name" || g.Name() == "Kind" || g.Name() == "ExplicitName") && len(x.Call.Args) == 1
	}
	return false
}

// sought: a text to look for, given by the caller.
func (f *frame) sought(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	ok := false
	for x := range f.p.sliceOf(v).vals {
		switch p := x.(type) {
		case *ssa.Parameter:
			ok = true
		case *ssa.FreeVar:
			ok = true
		case *ssa.UnOp:
			if envField(p, "Args") {
				ok = true
			}
		}
	}
	return ok
}

// equalEdge: the edge is taken only if a node is the one sought.
func (f *frame) equalEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	return f.equal(br.Cond, t == b.Succs[0], 0)
}

func (f *frame) equal(v ssa.Value, want bool, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return f.equal(x.X, !want, depth+1)
		}
	case *ssa.Phi:
		// the value of a short-circuit expression
		if len(x.Edges) == 0 {
			return false
		}
		all := true
		for _, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != want {
				continue
			}
			if !f.equal(e, want, depth+1) {
				all = false
			}
		}
		return all
	case *ssa.BinOp:
		if x.Op == token.EQL && want || x.Op == token.NEQ && !want {
			if f.nodeText(x.X) && f.sought(x.Y) || f.nodeText(x.Y) && f.sought(x.X) {
				return true
			}
			for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if readsCallOf(s[1]) && !readsCallOf(s[0]) {
					return true
				}
				n := s[1]
				if mi, ok := n.(*ssa.MakeInterface); ok {
					n = mi.X
				}
				if c, ok := n.(*ssa.Call); ok && f.found(c, 1) {
					return true
				}
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !want {
			return false
		}
		text, sought := false, false
		for _, a := range x.Call.Args {
			if f.nodeText(a) {
				text = true
			} else if f.sought(a) {
				sought = true
			}
		}
		if relPkg(g) == "labels" && g.Name() == "Equal" {
			return text && sought
		}
		return f.predicate(g, x.Call.Args, depth)
	case *ssa.Extract:
		// the second result of a function that tells whether a text matches an expression
		cl, ok := x.Tuple.(*ssa.Call)
		if !ok || !want || cl.Call.StaticCallee() == nil {
			return false
		}
		text, re := false, false
		for _, a := range cl.Call.Args {
			if f.nodeText(a) {
				text = true
			}
			if strings.HasSuffix(typeKey(deref(a.Type())), "regexp.Regexp") {
				re = true
			}
		}
		return text && re && f.matches(cl.Call.StaticCallee(), x.Index)
	}
	return false
}

// predicate: a function of the repository that returns true only for the node sought.
func (f *frame) predicate(g *ssa.Function, args []ssa.Value, depth int) bool {
	if !inRepo(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
		return false
	}
	return f.resultOnly(g, 0, func(v ssa.Value) bool { return f.equal(v, true, depth+1) }, f.equalEdge)
}

// matches: the result is true only after a regular expression matched.
func (f *frame) matches(g *ssa.Function, i int) bool {
	isMatch := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().Name(), "Match")
	}
	noMatch := func(v ssa.Value) bool {
		// an index list that is nil when nothing matches
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL || !isNilConst(b.Y) && !isNilConst(b.X) {
			return false
		}
		return f.p.sliceOf(b.X, b.Y).hasCall("Find")
	}
	return f.resultOnly(g, i, isMatch, func(b, t *ssa.BasicBlock) bool {
		return condEdge(isMatch, true)(b, t) || condEdge(noMatch, false)(b, t)
	})
}

func (s *slicer) hasCall(prefix string) bool {
	for v := range s.vals {
		if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().Name(), prefix) {
			return true
		}
	}
	return false
}

// implies: a condition has the value only if one of its parts is accepted: through
// negations, short-circuit expressions and functions of the repository.
func implies(v ssa.Value, want bool, atom func(v ssa.Value, want bool) bool, depth int) bool {
	if depth > 6 {
		return false
	}
	if atom(v, want) {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && implies(x.X, !want, atom, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != want {
				continue
			}
			if impliesEdge(atom, depth+1)(x.Block().Preds[i], x.Block()) || implies(e, want, atom, depth+1) {
				continue
			}
			return false
		}
		return len(x.Edges) > 0
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 || !isBoolType(g.Signature.Results().At(0).Type()) {
			return false
		}
		never := func(*ssa.BasicBlock) bool { return false }
		any := false
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			any = true
			r := ret.Results[0]
			if k, ok := r.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != want {
				continue
			}
			if implies(r, want, atom, depth+1) {
				continue
			}
			if b == g.Blocks[0] || !pathsPass(g.Blocks[0], func(t *ssa.BasicBlock) bool { return t == b }, never, impliesEdge(atom, depth+1)) {
				return false
			}
		}
		return any
	}
	return false
}

// impliesEdge: the edge is taken only if a part of its condition is accepted.
func impliesEdge(atom func(v ssa.Value, want bool) bool, depth int) func(b, t *ssa.BasicBlock) bool {
	return func(b, t *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return false
		}
		return implies(br.Cond, t == b.Succs[0], atom, depth)
	}
}

// resultOnly: a result of a function may be true only if a value is accepted or a return is reached over an edge.
func (f *frame) resultOnly(g *ssa.Function, i int, val func(v ssa.Value) bool, edge func(b, t *ssa.BasicBlock) bool) bool {
	never := func(*ssa.BasicBlock) bool { return false }
	var good func(v ssa.Value, b *ssa.BasicBlock, n int) bool
	good = func(v ssa.Value, b *ssa.BasicBlock, n int) bool {
		if k, ok := v.(*ssa.Const); ok && (k.Value == nil || k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)) {
			return true
		}
		if val(v) {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok && n < 8 {
			all := true
			for j, e := range p.Edges {
				if edge(p.Block().Preds[j], p.Block()) {
					continue
				}
				if !good(e, p.Block().Preds[j], n+1) {
					all = false
				}
			}
			if all {
				return true
			}
		}
		if b == g.Blocks[0] {
			return false
		}
		return pathsPass(g.Blocks[0], func(t *ssa.BasicBlock) bool { return t == b }, never, edge)
	}
	any := false
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			any = true
			if !good(ret.Results[i], b, 0) {
				return false
			}
		}
	}
	return any
}

// sameCallEdge: the edge is taken only for the statement of the rule.
func (f *frame) sameCallEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || !(cmp.Op == token.EQL && t == b.Succs[0] || cmp.Op == token.NEQ && t == b.Succs[1]) {
		return false
	}
	return readsCallOf(cmp.X) != readsCallOf(cmp.Y)
}

// readsCallOf: the value is the call of a rule.
func readsCallOf(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	return loadsField(v, "build.Rule.Call")
}

// emptyCallEdge: the edge is taken only for a call of package without arguments or of use_repo with one.
func emptyCallEdge(b, t *ssa.BasicBlock) bool {
	is := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Call.StaticCallee()
		return g != nil && inRepo(g) && len(c.Call.Args) == 1 && emptyCall(g)
	}
	return condEdge(is, true)(b, t)
}

func emptyCall(g *ssa.Function) bool {
	never := func(*ssa.BasicBlock) bool { return false }
	name := ""
	named := func(v ssa.Value) bool {
		bo, ok := v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL {
			return false
		}
		for _, s := range []string{"package", "use_repo"} {
			if fromConst([]ssa.Value{bo.X, bo.Y}, s) {
				name = s
				return true
			}
		}
		return false
	}
	short := func(v ssa.Value) bool {
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false
		}
		max := int64(0)
		if name == "use_repo" {
			max = 1
		}
		n, _ := constant.Int64Val(k.Value)
		if _, isLen := lengthOf(bo.X); !isLen {
			return false
		}
		switch bo.Op {
		case token.EQL, token.LEQ:
			return n <= max
		case token.LSS:
			return n <= max+1
		}
		return false
	}
	// every return that may be true is behind both
	for _, pred := range []func(v ssa.Value) bool{named, short} {
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			if !emptyRet(g, ret.Results[0], b, pred, never, 0) {
				return false
			}
		}
	}
	return true
}

func emptyRet(g *ssa.Function, v ssa.Value, b *ssa.BasicBlock, pred func(v ssa.Value) bool, never func(*ssa.BasicBlock) bool, n int) bool {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && !constant.BoolVal(k.Value) {
		return true
	}
	if pred(v) {
		return true
	}
	if p, ok := v.(*ssa.Phi); ok && n < 8 {
		for j, e := range p.Edges {
			if !emptyRet(g, e, p.Block().Preds[j], pred, never, n+1) {
				return false
			}
		}
		return true
	}
	if b == g.Blocks[0] {
		return false
	}
	return pathsPass(g.Blocks[0], func(t *ssa.BasicBlock) bool { return t == b }, never, condEdge(pred, true))
}

func lengthOf(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return c.Call.Args[0], true
}

// --- the file stays the same file ---

func (f *frame) sameFile() {
	for _, fn := range f.p.repoFuncs() {
		if pk := relPkg(fn); pk != "edit" && pk != "edit/bzlmod" && pk != "build" {
			continue
		}
		var from *ssa.Parameter
		for _, p := range fn.Params {
			if isFileType(p.Type()) {
				from = p
			}
		}
		if from == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !isFileType(al.Type()) || typeKey(deref(al.Type())) != typeKey(deref(from.Type())) {
					continue
				}
				if _, isPtr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
					continue
				}
				f.c.Inst("same-file", f.p.instrPos(al))
				whole := false
				set := map[int]ssa.Value{}
				for _, r := range *al.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						if u, ok := x.Val.(*ssa.UnOp); ok && x.Addr == al && u.Op == token.MUL && f.isFileOf(u.X, from) {
							whole = true
						}
					case *ssa.FieldAddr:
						for _, r2 := range *x.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
								set[x.Field] = st.Val
							}
						}
					}
				}
				st := deref(al.Type()).Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					if n == "Stmt" {
						continue
					}
					v, ok := set[i]
					if !ok && whole {
						continue
					}
					if ok {
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == i && f.isFileOf(fa.X, from) {
								continue
							}
						}
					}
					f.c.Violate("same-file:"+fn.Name()+":"+n, f.p.instrPos(al), "the file %s makes from the one it is given does not keep its %s", fn.Name(), n)
				}
			}
		}
	}
}

func (f *frame) isFileOf(v ssa.Value, from *ssa.Parameter) bool {
	if v == ssa.Value(from) {
		return true
	}
	// the parameter's variable, when it is addressed
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Val != ssa.Value(from) {
			return false
		}
	}
	return true
}

// --- attributes ---

type korig struct {
	kind string // "arg", "rest", "keys", "const", "other"
	fn   *ssa.Function
	idx  int64
	s    string
}

// keyOrigins: where the name of an attribute comes from.
func (f *frame) keyOrigins(v ssa.Value) []korig {
	var out []korig
	seen := map[ssa.Value]bool{}
	var val func(v ssa.Value)
	var list func(v ssa.Value, idx ssa.Value, off int64)
	add := func(k korig) { out = append(out, k) }
	param := func(p *ssa.Parameter, rec func(v ssa.Value)) {
		calls := f.in.callsOf(p.Parent())
		n := 0
		for _, ci := range calls {
			for i, q := range p.Parent().Params {
				if q == p && i < len(ci.Common().Args) {
					rec(ci.Common().Args[i])
					n++
				}
			}
		}
		if n == 0 {
			add(korig{kind: "other"})
		}
	}
	val = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			add(korig{kind: "const", s: constStr(x)})
		case *ssa.Phi:
			for _, e := range x.Edges {
				val(e)
			}
		case *ssa.Parameter:
			param(x, val)
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				list(a.X, a.Index, 0)
			case *ssa.Alloc, *ssa.FreeVar:
				n := 0
				for _, s := range f.storedAt(a) {
					val(s)
					n++
				}
				if n == 0 {
					add(korig{kind: "other"})
				}
			default:
				add(korig{kind: "other"})
			}
		default:
			add(korig{kind: "other"})
		}
	}
	type lkey struct {
		v   ssa.Value
		off int64
	}
	lseen := map[lkey]bool{}
	list = func(v ssa.Value, idx ssa.Value, off int64) {
		if lseen[lkey{v, off}] {
			return
		}
		lseen[lkey{v, off}] = true
		if envField(v, "Args") {
			k := korig{kind: "rest", idx: off}
			if in, ok := v.(ssa.Instruction); ok {
				k.fn = in.Parent()
			}
			if c, ok := idx.(*ssa.Const); ok && c.Value != nil {
				n, _ := constant.Int64Val(c.Value)
				k.kind, k.idx = "arg", off+n
			}
			add(k)
			return
		}
		switch x := v.(type) {
		case *ssa.Slice:
			lo := int64(0)
			if x.Low != nil {
				c, ok := x.Low.(*ssa.Const)
				if !ok || c.Value == nil {
					add(korig{kind: "other"})
					return
				}
				lo, _ = constant.Int64Val(c.Value)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, e := range arrayStores(al) {
					val(e)
				}
				return
			}
			list(x.X, idx, off+lo)
		case *ssa.Phi:
			for _, e := range x.Edges {
				list(e, idx, off)
			}
		case *ssa.Const:
		case *ssa.Parameter:
			param(x, func(a ssa.Value) { list(a, idx, off) })
		case *ssa.Call:
			g := x.Call.StaticCallee()
			switch {
			case isAppend(x):
				list(x.Call.Args[0], idx, off)
				for _, e := range appendedElems(x.Call.Args[1]) {
					val(e)
				}
			case g != nil && f.listsKeys(g):
				add(korig{kind: "keys", fn: x.Parent()})
			case g != nil && inRepo(g) && len(g.Blocks) > 0:
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
						list(ret.Results[0], idx, off)
					}
				}
			default:
				add(korig{kind: "other"})
			}
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				add(korig{kind: "other"})
				return
			}
			for _, s := range f.storedAt(al) {
				list(s, idx, off)
			}
		default:
			add(korig{kind: "other"})
		}
	}
	val(v)
	return out
}

// storedAt: what is stored in a variable, in its function and the closures that capture it.
func (f *frame) storedAt(a ssa.Value) []ssa.Value {
	if fv, ok := a.(*ssa.FreeVar); ok {
		g := fv.Parent()
		for i, v := range g.FreeVars {
			if v != fv || g.Parent() == nil {
				continue
			}
			for _, b := range g.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
						return f.storedAt(mc.Bindings[i])
					}
				}
			}
		}
		return nil
	}
	var out []ssa.Value
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			out = append(out, st.Val)
		}
	}
	return out
}

func arrayStores(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func isRuleMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && strings.HasSuffix(typeKey(deref(r.Type())), "build.Rule")
}

// listsKeys: the method that lists the names of the attributes of a rule.
func (f *frame) listsKeys(g *ssa.Function) bool {
	return isRuleMethod(g) && g.Signature.Params().Len() == 0 && g.Signature.Results().Len() == 1 &&
		types.Identical(g.Signature.Results().At(0).Type(), types.NewSlice(types.Typ[types.String]))
}

// changes: the field of a call that a method of rules modifies.
func (f *frame) changes(g *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, fresh := fa.X.(*ssa.Alloc); !fresh {
						out[fieldKey(deref(fa.X.Type()), fa.Field)] = true
					}
				}
			}
		}
	}
	return out
}

func hasSuffixIn(m map[string]bool, suffix string) bool {
	for k := range m {
		if strings.HasSuffix(k, suffix) {
			return true
		}
	}
	return false
}

func (f *frame) attributes() {
	for _, fn := range f.fns {
		if relPkg(fn) == "build" || relPkg(fn) == "labels" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !isRuleMethod(g) || len(g.Params) < 2 || !isStringish(g.Params[1].Type()) {
					continue
				}
				ch := f.changes(g)
				if hasSuffixIn(ch, "CallExpr.X") {
					continue
				}
				res := g.Signature.Results()
				if !hasSuffixIn(ch, "CallExpr.List") && (res.Len() == 0 || !hasPtr(res.At(0).Type()) || isStringish(res.At(0).Type()) || sliceElem(res.At(0).Type()) != nil) {
					continue // only reads a text
				}
				f.c.Inst("attribute", f.p.instrPos(ci))
				f.named(fn, ci, g, ci.Common().Args[1], hasSuffixIn(ch, "CallExpr.List"))
			}
		}
	}
}

// named: the name of the attribute is given by the arguments of every command that comes here.
func (f *frame) named(fn *ssa.Function, ci ssa.CallInstruction, g *ssa.Function, key ssa.Value, changes bool) {
	for _, o := range f.keyOrigins(key) {
		switch o.kind {
		case "arg", "rest":
			for _, k := range f.commandsOf(o.fn) {
				if !f.placeholder(k, o.idx) {
					f.c.Violate("attribute:"+fn.Name()+":"+g.Name(), f.p.instrPos(ci), "%s uses %s with argument %d of the command %s, which is not the name of an attribute (%s)", fn.Name(), g.Name(), o.idx, k, f.tmpl[k])
				}
			}
		case "keys":
			if changes && res0(g) && !f.notName(ci, key) {
				f.c.Violate("attribute:"+fn.Name()+":"+g.Name()+":name", f.p.instrPos(ci), "%s may delete the name of a rule when it deletes all attributes", fn.Name())
			}
		case "const":
			if !changes && !f.altered(ci) {
				continue
			}
			f.c.Violate("attribute:"+fn.Name()+":"+g.Name(), f.p.instrPos(ci), "%s uses %s with the attribute %q, which the command does not name", fn.Name(), g.Name(), o.s)
		default:
			f.c.Violate("attribute:"+fn.Name()+":"+g.Name(), f.p.instrPos(ci), "%s uses %s with an attribute that is not found to be named by the command's arguments", fn.Name(), g.Name())
		}
	}
}

func res0(g *ssa.Function) bool { return g.Signature.Results().Len() > 0 }

// altered: what the call returns may be modified.
func (f *frame) altered(ci ssa.CallInstruction) bool {
	v, ok := ci.(ssa.Value)
	if !ok {
		return true
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store, *ssa.Return, *ssa.MapUpdate, *ssa.MakeClosure:
				return true
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g != nil && inRepo(g) {
					if len(f.eff.Muts(g)) > 0 {
						return true
					}
				} else if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				if rv, ok := x.(ssa.Value); ok && hasPtr(rv.Type()) && !isStringish(rv.Type()) && rec(rv) {
					return true
				}
			case ssa.Value:
				if hasPtr(x.Type()) && rec(x) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

// notName: the block is reached only if the attribute is not the name, or if its value is a list.
func (f *frame) notName(ci ssa.CallInstruction, key ssa.Value) bool {
	is := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.EQL && fromConst([]ssa.Value{b.X, b.Y}, "name")
	}
	isnt := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.NEQ && fromConst([]ssa.Value{b.X, b.Y}, "name")
	}
	isList := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return false
		}
		ta, ok := e.Tuple.(*ssa.TypeAssert)
		return ok && strings.HasSuffix(typeKey(deref(ta.AssertedType)), "build.ListExpr")
	}
	edge := func(b, t *ssa.BasicBlock) bool {
		return condEdge(is, false)(b, t) || condEdge(isnt, true)(b, t) || condEdge(isList, true)(b, t)
	}
	return f.in.onlyAfter(ci.Block(), edge, 4)
}

// commandsOf: the commands on rules whose function reaches this one.
func (f *frame) commandsOf(fn *ssa.Function) []string {
	var out []string
	for k, e := range f.cmds {
		if !e.perRule || k == "fix" || e.fn == nil {
			continue
		}
		if e.fn == fn || f.callsTo(e.fn, fn, map[*ssa.Function]bool{}) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (f *frame) callsTo(from, to *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[from] || !f.inFns[from] {
		return false
	}
	seen[from] = true
	for _, b := range from.Blocks {
		for _, in := range b.Instrs {
			var g *ssa.Function
			switch x := in.(type) {
			case ssa.CallInstruction:
				g = x.Common().StaticCallee()
			case *ssa.MakeClosure:
				g = x.Fn.(*ssa.Function)
			}
			if g != nil && (g == to || f.callsTo(g, to, seen)) {
				return true
			}
		}
	}
	return false
}

// placeholder: the argument of the command is described as an attribute.
func (f *frame) placeholder(cmd string, i int64) bool {
	words := strings.Fields(f.tmpl[cmd])
	if len(words) == 0 {
		return false
	}
	if i >= int64(len(words)) {
		i = int64(len(words)) - 1
		if !strings.Contains(words[i], "(s)") {
			return false
		}
	}
	return strings.Contains(words[i], "attr")
}

// --- what is replaced ---

func (f *frame) selected() {
	for _, fn := range f.fns {
		pk := relPkg(fn)
		if pk != "edit" && !(pk == "build" && isRuleMethod(fn)) {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				what := ""
				var base ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					what, base = f.replaced(x)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
						if k, _ := listField(x.Call.Args[0]); k != "" {
							what = "an element of " + k
						}
					}
				}
				if what == "" {
					continue
				}
				n++
				f.c.Inst("selected", f.p.instrPos(in))
				if st, ok := in.(*ssa.Store); ok {
					if msg := cutMore(st); msg != "" {
						f.c.Violate("selected:"+fn.Name()+":cut:"+strconv.Itoa(n), f.p.instrPos(in), "%s %s", fn.Name(), msg)
					}
				}
				if f.in.onlyAfter(b, f.equalEdge, 4) || base != nil && f.found(base, 0) {
					continue
				}
				f.c.Violate("selected:"+fn.Name()+":"+strconv.Itoa(n), f.p.instrPos(in), "%s changes %s without having found that it is the one to change", fn.Name(), what)
			}
		}
	}
}

// cutMore: the store replaces the list of a node by one that lacks more than one element of it.
func cutMore(st *ssa.Store) string {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !isNodeList(deref(fa.Type())) {
		return ""
	}
	plusOne := func(a, b ssa.Value) bool {
		bo, ok := b.(*ssa.BinOp)
		return ok && bo.Op == token.ADD && bo.X == a && constInt(bo.Y) == 1
	}
	same := func(v ssa.Value) bool { k, base := listField(v); return k != "" && sameAddr(base, fa.X) }
	switch x := st.Val.(type) {
	case *ssa.Slice:
		if !same(x.X) {
			return ""
		}
		if x.Low != nil && x.High == nil && constInt(x.Low) == 1 {
			return ""
		}
		hb, ok := x.High.(*ssa.BinOp)
		if !ok || hb.Op != token.SUB || constInt(hb.Y) != 1 || x.Low != nil {
			return "may delete more than the one element found"
		}
		for _, in := range st.Block().Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "copy" {
				continue
			}
			d, ok1 := c.Call.Args[0].(*ssa.Slice)
			s, ok2 := c.Call.Args[1].(*ssa.Slice)
			if ok1 && ok2 && same(d.X) && same(s.X) && plusOne(d.Low, s.Low) && d.High == nil && s.High == nil {
				return ""
			}
		}
		return "deletes the last element, which may not be the one found"
	case *ssa.Call:
		if !isAppend(x) {
			return ""
		}
		d, ok1 := x.Call.Args[0].(*ssa.Slice)
		s, ok2 := x.Call.Args[1].(*ssa.Slice)
		if ok1 && ok2 && same(d.X) && same(s.X) && !(d.Low == nil && plusOne(d.High, s.Low) && s.High == nil) {
			return "may delete more than the one element found"
		}
	}
	return ""
}

func constInt(v ssa.Value) int64 {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n, _ := constant.Int64Val(c.Value)
		return n
	}
	return -1 << 40
}

// listField: the list of a node a value is (a part of).
func listField(v ssa.Value) (string, ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				k := fieldKey(deref(fa.X.Type()), fa.Field)
				if strings.Contains(k, "build.") && isNodeList(x.Type()) {
					if _, fresh := fa.X.(*ssa.Alloc); !fresh {
						return k[strings.LastIndex(k, "build."):], fa.X
					}
				}
			}
		}
		return "", nil
	}
}

// replaced: the store replaces a part of a node found in the tree.
func (f *frame) replaced(st *ssa.Store) (string, ssa.Value) {
	switch a := st.Addr.(type) {
	case *ssa.IndexAddr:
		if k, _ := listField(a.X); k != "" {
			return "an element of " + k, nil
		}
	case *ssa.FieldAddr:
		if _, fresh := a.X.(*ssa.Alloc); fresh {
			return "", nil
		}
		k := fieldKey(deref(a.X.Type()), a.Field)
		switch {
		case strings.HasSuffix(k, "build.CallExpr.List"):
			if cl, ok := st.Val.(*ssa.Call); ok && isAppend(cl) {
				if ak, _ := listField(cl.Call.Args[0]); ak != "" && cl.Call.Args[0] != nil {
					if _, cut := cl.Call.Args[0].(*ssa.Slice); !cut {
						return "", nil // something is added
					}
				}
			}
			if f.rebuilt(st.Val, a) {
				return "", nil // see the rule for what is left out
			}
			return "the arguments of a rule", nil
		case strings.HasSuffix(k, "build.KeyValueExpr.Value"), strings.HasSuffix(k, "build.KeyValueExpr.Key"):
			return "a dictionary entry", a.X
		case strings.HasSuffix(k, "build.AssignExpr.RHS"), strings.HasSuffix(k, "build.AssignExpr.LHS"):
			return "an attribute", a.X
		case strings.HasSuffix(k, "build.Ident.Name"):
			return "a name", a.X
		case strings.HasSuffix(k, "build.StringExpr.Value"):
			return "a string", a.X
		}
	}
	return "", nil
}

// rebuilt: the list was made by copying elements of the list it replaces.
func (f *frame) rebuilt(v ssa.Value, fa *ssa.FieldAddr) bool {
	seen := map[ssa.Value]bool{}
	any := false
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.MakeSlice:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if !isAppend(x) {
				return false
			}
			for _, e := range appendedElems(x.Call.Args[1]) {
				ld, ok := e.(*ssa.UnOp)
				if !ok {
					return false
				}
				ia, ok := ld.X.(*ssa.IndexAddr)
				if !ok {
					return false
				}
				if k, base := listField(ia.X); k == "" || !sameAddr(base, fa.X) {
					return false
				}
				any = true
			}
			return rec(x.Call.Args[0])
		}
		return false
	}
	return rec(v) && any
}

// found: the node is the result of a function that returns only the one looked for.
func (f *frame) found(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.found(e, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Const:
		return x.Value == nil
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			vs := f.storedAt(al)
			for _, s := range vs {
				if !f.found(s, depth+1) {
					return false
				}
			}
			return len(vs) > 0
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return f.byName(lk)
		}
	case *ssa.Lookup:
		return f.byName(x)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			if isNilConst(ret.Results[0]) || f.found(ret.Results[0], depth+1) {
				continue
			}
			if !f.in.onlyAfter(b, f.equalEdge, 5) {
				return false
			}
		}
		return true
	}
	return false
}

// byName: a variable looked up by the name in the expression.
func (f *frame) byName(lk *ssa.Lookup) bool { return f.nodeText(lk.Index) }

// emptied: see the rule.
func (f *frame) emptied() {
	empty := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		x, ok := lengthOf(b.X)
		if !ok || !isNodeList(x.Type()) {
			return false
		}
		n := constInt(b.Y)
		return b.Op == token.EQL && n == 0 || b.Op == token.LSS && n == 1 || b.Op == token.LEQ && n == 0
	}
	// what is left of the arguments after the attribute
	rest := func(x ssa.Value) bool {
		sl, ok := x.(*ssa.Slice)
		return ok && sl.High == nil && sl.Low != nil && constInt(sl.Low) == 1 && envField(sl.X, "Args")
	}
	some := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		x, ok := lengthOf(b.X)
		if !ok || !isNodeList(x.Type()) {
			return false
		}
		n := constInt(b.Y)
		return b.Op == token.NEQ && n == 0 || b.Op == token.GTR && n == 0 || b.Op == token.GEQ && n == 1
	}
	alone := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return false
		}
		x, ok := lengthOf(b.X)
		return ok && (constInt(b.Y) == 1 && envField(x, "Args") || constInt(b.Y) == 0 && rest(x))
	}
	notAlone := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || !(b.Op == token.NEQ || b.Op == token.GTR) {
			return false
		}
		x, ok := lengthOf(b.X)
		return ok && (constInt(b.Y) == 1 && envField(x, "Args") || constInt(b.Y) == 0 && rest(x))
	}
	edge := func(b, t *ssa.BasicBlock) bool {
		// a missing dictionary has no entries, either
		noDict := func(v ssa.Value, op token.Token) bool {
			bo, ok := v.(*ssa.BinOp)
			return ok && bo.Op == op && isNilConst(bo.Y) && strings.HasSuffix(typeKey(deref(bo.X.Type())), "Expr")
		}
		return f.equalEdge(b, t) || impliesEdge(func(v ssa.Value, want bool) bool {
			if want {
				return empty(v) || alone(v) || noDict(v, token.EQL)
			}
			return some(v) || notAlone(v) || noDict(v, token.NEQ)
		}, 0)(b, t)
	}
	for _, fn := range f.fns {
		if relPkg(fn) != "edit" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !isRuleMethod(g) || !res0(g) || !hasSuffixIn(f.changes(g), "CallExpr.List") {
					continue
				}
				f.c.Inst("emptied", f.p.instrPos(in))
				if f.movedAll(ci) || f.in.onlyAfter(b, edge, 0) {
					continue
				}
				f.c.Violate("emptied:"+fn.Name(), f.p.instrPos(in), "%s deletes an attribute that may still hold something the command does not name", fn.Name())
			}
		}
	}
}

// movedAll: the attribute is deleted after each of the elements of its list was handed on.
func (f *frame) movedAll(ci ssa.CallInstruction) bool {
	fn := ci.Parent()
	for _, b := range fn.Blocks {
		l := loopAt(b)
		if l == nil || !isNodeList(l.over.Type()) || exitsEarly(l.head, l.body) != nil || l.body[ci.Block()] {
			continue
		}
		hits := map[*ssa.BasicBlock]bool{}
		for bb := range l.body {
			for _, in := range bb.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if elemOfSame(a, l.over) {
							hits[bb] = true
						}
					}
				}
			}
		}
		head := l.head
		if !pathsPass(l.start, func(t *ssa.BasicBlock) bool { return t == head }, func(t *ssa.BasicBlock) bool { return hits[t] }, nil) {
			continue
		}
		if pathsPass(fn.Blocks[0], func(t *ssa.BasicBlock) bool { return t == ci.Block() }, func(t *ssa.BasicBlock) bool { return t == head }, nil) {
			return true
		}
	}
	return false
}

// absent: see the rule.
func (f *frame) absent() {
	isNil := func(v ssa.Value) ssa.Value {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil
		}
		if isNilConst(b.Y) {
			return b.X
		}
		if isNilConst(b.X) {
			return b.Y
		}
		return nil
	}
	for _, name := range []string{"set_if_absent", "copy_no_overwrite", "dict_add"} {
		e, ok := f.cmds[name]
		if !ok || e.fn == nil {
			f.c.Violate("absent:"+name, "", "there is no command %s", name)
			continue
		}
		// what is set, and what reads it
		edge := impliesEdge(func(v ssa.Value, want bool) bool {
			x := isNil(v)
			if x == nil || (v.(*ssa.BinOp).Op == token.EQL) != want {
				return false
			}
			c, ok := x.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || !inRepo(c.Call.StaticCallee()) {
				return false
			}
			g := c.Call.StaticCallee()
			if name == "dict_add" {
				return !isRuleMethod(g) && strings.HasSuffix(typeKey(deref(g.Params[0].Type())), "build.DictExpr") && f.getter(g)
			}
			return isRuleMethod(g) && len(g.Params) == 2 && f.getter(g)
		}, 0)
		seen := map[*ssa.Function]bool{}
		var visit func(fn *ssa.Function, guarded bool)
		visit = func(fn *ssa.Function, guarded bool) {
			if seen[fn] || !f.inFns[fn] || relPkg(fn) != "edit" {
				return
			}
			seen[fn] = true
			never := func(*ssa.BasicBlock) bool { return false }
			for _, b := range fn.Blocks {
				behind := guarded
				if !behind && b != fn.Blocks[0] {
					starts := []*ssa.BasicBlock{fn.Blocks[0]}
					for _, h := range fn.Blocks {
						if l := loopAt(h); l != nil && l.body[b] && l.start != b {
							starts = append(starts, l.start)
						}
					}
					for _, s := range starts {
						if pathsPass(s, func(t *ssa.BasicBlock) bool { return t == b }, never, edge) {
							behind = true
						}
					}
				}
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := ci.Common().StaticCallee()
					if g == nil || !inRepo(g) {
						continue
					}
					ch := f.changes(g)
					sets := isRuleMethod(g) && hasSuffixIn(ch, "CallExpr.List") && !res0(g)
					if name == "dict_add" {
						sets = hasSuffixIn(ch, "KeyValueExpr.Value")
					}
					if sets {
						f.c.Inst("absent", name+" "+f.p.instrPos(in))
						if !behind {
							f.c.Violate("absent:"+name, f.p.instrPos(in), "%s may replace what is already there for the command %s", fn.Name(), name)
						}
						continue
					}
					visit(g, behind)
				}
			}
		}
		visit(e.fn, false)
	}
}

// getter: the function returns what it finds under a name, and nil only if there is nothing.
func (f *frame) getter(g *ssa.Function) bool {
	for _, m := range f.eff.Muts(g) {
		if m.obj.kind == "param" {
			return false
		}
	}
	if g.Signature.Results().Len() != 1 {
		return false
	}
	// a slice, a string or a value of a particular kind of expression is also
	// empty if what is there is something else
	t := g.Signature.Results().At(0).Type()
	return types.IsInterface(t) || strings.HasSuffix(typeKey(deref(t)), "build.AssignExpr")
}

// --- the kind ---

func (f *frame) kind() {
	isKind := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL || !fromConst([]ssa.Value{b.X, b.Y}, "kind") {
			return false
		}
		for _, s := range []ssa.Value{b.X, b.Y} {
			if _, ok := s.(*ssa.Const); ok {
				continue
			}
			for _, o := range f.keyOrigins(s) {
				if o.kind != "arg" {
					return false
				}
				for _, k := range f.commandsOf(o.fn) {
					if !f.placeholder(k, o.idx) {
						return false
					}
				}
			}
		}
		return true
	}
	isntKind := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.NEQ && fromConst([]ssa.Value{b.X, b.Y}, "kind")
	}
	edge := func(b, t *ssa.BasicBlock) bool {
		return condEdge(isKind, true)(b, t) || condEdge(isntKind, false)(b, t)
	}
	for _, fn := range f.fns {
		if relPkg(fn) != "edit" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil || !isRuleMethod(g) || !hasSuffixIn(f.changes(g), "CallExpr.X") {
						continue
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), "build.CallExpr.X") {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
				default:
					continue
				}
				f.c.Inst("kind", f.p.instrPos(in))
				if !f.in.onlyAfter(b, edge, 0) {
					f.c.Violate("kind:"+fn.Name(), f.p.instrPos(in), "%s changes the kind of a rule though the attribute to change may be another", fn.Name())
				}
			}
		}
	}
}

// --- the variables ---

func (f *frame) variables() {
	option := func(v ssa.Value) bool { return loadsField(v, "Options.EditVariables") }
	isVars := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && strings.HasSuffix(typeKey(deref(m.Elem())), "build.AssignExpr")
	}
	for _, fn := range f.p.repoFuncs() {
		if relPkg(fn) != "edit" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := ci.Call.StaticCallee()
				if g == nil || !inRepo(g) || g.Signature.Results().Len() != 1 || !isVars(g.Signature.Results().At(0).Type()) {
					continue
				}
				f.c.Inst("variables", f.p.instrPos(ci))
				never := func(*ssa.BasicBlock) bool { return false }
				if b == fn.Blocks[0] || !pathsPass(fn.Blocks[0], func(t *ssa.BasicBlock) bool { return t == b }, never, condEdge(option, true)) {
					f.c.Violate("variables:"+fn.Name(), f.p.instrPos(ci), "%s collects the variables of the file though they are not to be edited", fn.Name())
				}
			}
		}
	}
}
