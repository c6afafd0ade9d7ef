package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P10", rewriteConfinement, "build.Walk and its variants pass a node and the stack of its ancestors to their callback")
}

type rewriteEntry struct {
	name  string
	fn    *ssa.Function
	scope int64
	known bool
}

// rewriteTable reads the table of rewrites: a package-level slice of structs with a name, a
// function over (file, rewriter) and a file-type scope.
func (p *Prog) rewriteTable() (*ssa.Global, []rewriteEntry) {
	sp := p.SPkgs["build"]
	if sp == nil {
		return nil, nil
	}
	var g *ssa.Global
	for _, m := range sp.Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		sl, ok := deref(gl.Type()).Underlying().(*types.Slice)
		if !ok {
			continue
		}
		st, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if sg, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && isRewriteSig(sg) {
				g = gl
			}
		}
	}
	if g == nil {
		return nil, nil
	}
	var out []rewriteEntry
	for _, b := range sp.Func("init").Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			sl, ok := st.Val.(*ssa.Slice)
			if !ok {
				return g, nil
			}
			arr, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return g, nil
			}
			ents := map[int64]*rewriteEntry{}
			for _, r := range *arr.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				k, ok := ia.Index.(*ssa.Const)
				if !ok {
					return g, nil
				}
				ent := ents[k.Int64()]
				if ent == nil {
					ent = &rewriteEntry{}
					ents[k.Int64()] = ent
				}
				refs := append([]ssa.Instruction{}, *ia.Referrers()...)
				for _, r2 := range *ia.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
						if u, ok := s.Val.(*ssa.UnOp); ok {
							if a, ok := u.X.(*ssa.Alloc); ok {
								refs = append(refs, *a.Referrers()...)
							}
						}
					}
				}
				for _, r2 := range refs {
					fa, ok := r2.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, r3 := range *fa.Referrers() {
						s, ok := r3.(*ssa.Store)
						if !ok {
							continue
						}
						switch v := s.Val.(type) {
						case *ssa.Const:
							if v.Value == nil {
								continue
							}
							if v.Value.Kind() == constant.String {
								ent.name = constant.StringVal(v.Value)
							} else {
								ent.scope, ent.known = v.Int64(), true
							}
						default:
							if f := funcOf(v); f != nil {
								ent.fn = f
							}
						}
					}
				}
			}
			for i := int64(0); i < int64(len(ents)); i++ {
				if ents[i] != nil {
					out = append(out, *ents[i])
				}
			}
		}
	}
	return g, out
}

func isRewriteSig(sg *types.Signature) bool {
	return sg.Params().Len() == 2 && sg.Results().Len() == 0 && sg.Recv() == nil &&
		typeKey(sg.Params().At(0).Type()) == "*"+modPath+"/build.File" && typeKey(sg.Params().At(1).Type()) == "*"+modPath+"/build.Rewriter"
}

// frames: what each rewrite may change in a tree it is given.
var rewriteFrames = map[string]string{
	"removeParens":           "Expr.*",
	"callsort":               "[]Expr",
	"label":                  "StringExpr.Value Comments Expr.*",
	"listsort":               "[]Expr ListExpr.List Comments Expr.*",
	"multiplus":              "BinaryExpr.LineBreak ListExpr.ForceMultiLine",
	"loadTop":                "[]Expr",
	"sameOriginLoad":         "[]Expr LoadStmt.From LoadStmt.To File.Stmt Comments",
	"sortLoadStatements":     "[]Expr",
	"loadsort":               "LoadStmt.From LoadStmt.To []*Ident",
	"useRepoPositionalsSort": "CallExpr.List []Expr Comments",
	"formatdocstrings":       "StringExpr.Token StringExpr.Value",
	"reorderarguments":       "[]Expr",
	"editoctal":              "LiteralExpr.Token",
	"editfloat":              "LiteralExpr.Token",
	"collapseEmpty":          "CallExpr.ForceMultiLine",
}

// readsGlobal: the function reads this package-level variable itself.
func readsGlobal(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == name {
					return true
				}
			}
		}
	}
	return false
}

func mutKind(m *emut) string {
	t := strings.ReplaceAll(typStr(m.typ), "build.", "")
	f := m.field
	if i := strings.LastIndexByte(f, '.'); i >= 0 {
		f = f[i+1:]
	}
	switch {
	case strings.HasPrefix(t, "[]"):
		return t
	case t == "Comments" || t == "Comment":
		return "Comments"
	case f == "" || f == "*":
		return t + ".*"
	}
	return t + "." + f
}

func rewriteConfinement(c *Ctx) {
	p := c.P
	eff := p.Effects()
	ast := eff.astTypes()
	g, table := p.rewriteTable()
	if g == nil || len(table) == 0 {
		c.Violate("anchor:rewrites", "", "the table of rewrites (a list of name, function and scope) was not found")
		return
	}
	c.Rule("dispatch", "a rewrite from the table is called only if it is not disabled, its scope includes the file's type and no explicit set is given, or if the explicit set contains its name")
	c.Rule("scope", "argument sorting, label fixing, removal of parentheses and joining of multi-line + are limited to BUILD-like files, sorting of use_repo to MODULE files")
	c.Rule("frame", "a rewrite changes nothing in the tree but the kinds of fields it is for")
	c.Rule("leave-alone", "argument order, labels and attribute lists of a call are changed only after the call, all its ancestors and the argument were found not to be marked \"buildifier: leave-alone\" (lists also if marked \"keep sorted\")")
	c.Rule("elements", "label fixing changes an element of a list only after it was found not to be marked \"buildifier: leave-alone\"")
	c.Rule("do-not-sort", "a list of strings is reordered only after the list, its first element or its attribute was found not to be marked \"do not sort\"")
	c.Rule("marks", "a mark is looked for in the comments before, after and in the suffix of a node")

	bzl, _ := p.constOf("build", "TypeBzl")
	def, _ := p.constOf("build", "TypeDefault")
	mod, _ := p.constOf("build", "TypeModule")
	byName := map[string]rewriteEntry{}
	union := map[string]bool{}
	for _, fs := range rewriteFrames {
		for _, f := range strings.Fields(fs) {
			union[f] = true
		}
	}
	for _, ent := range table {
		if ent.fn == nil || ent.name == "" || !ent.known {
			c.Violate("table:"+ent.name, p.Pos(g.Pos()), "an entry of the table of rewrites cannot be resolved (%s)", ent.name)
			continue
		}
		byName[ent.name] = ent
		allowed := union
		if fs, ok := rewriteFrames[ent.name]; ok {
			allowed = map[string]bool{}
			for _, f := range strings.Fields(fs) {
				allowed[f] = true
			}
		}
		var kinds []string
		for _, m := range eff.Muts(ent.fn) {
			if !eff.isASTMut(ent.fn, m, ast) || m.obj.kind != "param" && m.obj.kind != "global" {
				continue
			}
			k := mutKind(m)
			if !has(kinds, k) {
				kinds = append(kinds, k)
			}
			if !allowed[k] {
				c.Violate("frame:"+ent.name+":"+k, p.instrPos(m.site), "the rewrite %q may change %s in %s%s", ent.name, k, funcName(m.site.Parent()), viaStr(m.via))
			}
		}
		sort.Strings(kinds)
		c.Inst("frame", ent.name+" ("+funcName(ent.fn)+"): "+strings.Join(kinds, ", "))
		if eff.sums[ent.fn] != nil {
			for range eff.sums[ent.fn].calls {
				c.Violate("frame-call:"+ent.name, p.Pos(ent.fn.Pos()), "the rewrite %q calls a function it is given", ent.name)
				break
			}
		}
	}
	for _, n := range []string{"removeParens", "callsort", "label", "multiplus"} {
		ent, ok := byName[n]
		if !ok {
			c.Violate("scope:"+n, p.Pos(g.Pos()), "there is no rewrite %q", n)
			continue
		}
		c.Inst("scope", n)
		if ent.scope&(bzl|def) != 0 {
			c.Violate("scope:"+n, p.Pos(g.Pos()), "the rewrite %q also runs on .bzl or other Starlark files", n)
		}
	}
	if ent, ok := byName["useRepoPositionalsSort"]; ok {
		c.Inst("scope", ent.name)
		if ent.scope&^mod != 0 {
			c.Violate("scope:"+ent.name, p.Pos(g.Pos()), "the rewrite %q also runs on files other than MODULE.bazel", ent.name)
		}
	}
	c.Floor("frame", 12)
	c.Floor("scope", 4)
	rewriteDispatch(c, g)
	markGuards(c, byName, eff, ast)
}

// rewriteDispatch: the conditions under which the table's functions are called.
func rewriteDispatch(c *Ctx, g *ssa.Global) {
	p := c.P
	isDyn := func(cc *ssa.CallCommon) bool {
		return !cc.IsInvoke() && cc.StaticCallee() == nil && isRewriteSig(cc.Signature())
	}
	reach := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isDyn(ci.Common())
	})
	var roots []*ssa.Function
	for fn := range reach {
		if relPkg(fn) == "build" && fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return funcName(roots[i]) < funcName(roots[j]) })
	if len(roots) == 0 {
		c.Violate("anchor:dispatch", "", "no exported function calls the rewrites of the table")
	}
	for _, root := range roots {
		r := &Rule{Relevant: reach}
		isField := func(t *T, typ, name string) bool {
			return loadedField(t, typ+"."+name) || t.op == "field" && strings.HasSuffix(t.aux, typ+"."+name)
		}
		r.Protect = func(t *T) bool {
			return t.mentions(func(x *T) bool { return isField(x, "Rewriter", "RewriteSet") || isField(x, "File", "Type") })
		}
		r.NoPeel = func(fn *ssa.Function) bool { return true }
		// the element of the table a value belongs to
		elem := func(t *T) *T {
			var res *T
			t.mentions(func(x *T) bool {
				if res == nil && x.op == "elem" {
					res = x
				}
				return false
			})
			return res
		}
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
			if fn != nil && relPkg(fn) == "build" && len(fn.Blocks) > 0 && resultIs(fn.Signature, "bool") && len(args) > 0 {
				tag := ""
				if readsGlobal(fn, "DisableRewrites") {
					tag = "disabled"
				} else if typeKey(fn.Params[len(fn.Params)-1].Type()) == "string" && p.readsField(fn, "Rewriter.RewriteSet") {
					tag = "listed"
				}
				if tag != "" {
					n := s.fork()
					s.ev[tag], n.ev[tag] = "yes", "no"
					s.note[tag], n.note[tag] = args[len(args)-1], args[len(args)-1]
					c.Inst("dispatch", tag+" asked in "+funcName(fr.fn))
					return []Out{{s, e.tb.Bool(true)}, {n, e.tb.Bool(false)}}, true
				}
			}
			if !isDyn(cc) {
				return nil, false
			}
			c.Inst("dispatch", "call in "+fr.Path())
			ft := e.val(fr, s, cc.Value)
			el := stripEpoch(e, ft)
			want := elem(el)
			same := func(tag string) bool {
				n := s.note[tag]
				return n != nil && want != nil && elem(stripEpoch(e, n)) == want && want.mentions(func(x *T) bool { return x.op == "global" && x.aux == g.String() })
			}
			// the set is known to be given or not
			set := unknown
			scope := false
			if len(args) == 2 {
				rt := deref(cc.Args[1].Type())
				str := rt.Underlying().(*types.Struct)
				for i := 0; i < str.NumFields(); i++ {
					if str.Field(i).Name() == "RewriteSet" {
						v := e.Load(s.State, e.Field(args[1], rt, i), str.Field(i).Type())
						if r := e.Eval(s.State, e.tb.Eq(v, e.tb.Nil())); r != unknown {
							set = toTri(r == no)
						}
					}
				}
			}
			for at, v := range s.atoms {
				if at.op == "==" && len(at.args) == 2 && !v && want != nil && at.mentions(func(x *T) bool { return isField(x, "File", "Type") }) && at.mentions(func(x *T) bool { return x == want }) {
					scope = true
				}
			}
			ok := set == no && s.ev["disabled"] == "no" && same("disabled") && scope ||
				set == yes && s.ev["listed"] == "yes" && same("listed")
			if !ok {
				e.why(s, "dispatch")
				c.Violate("dispatch:"+funcName(fr.fn), p.instrPos(in), "a rewrite may be called although it is disabled, out of scope or not in the explicit set (explicit set: %s, disabled: %s, listed: %s, scope checked: %v)",
					set, s.ev["disabled"], s.ev["listed"], scope)
			}
			for _, k := range []string{"disabled", "listed"} {
				delete(s.ev, k)
				delete(s.note, k)
			}
			return []Out{{s, e.tb.Nil()}}, true
		}
		r.OnIndex = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, base, idx *T) {
			if base.mentions(func(x *T) bool { return x.op == "global" && x.aux == g.String() }) {
				for _, k := range []string{"disabled", "listed"} {
					delete(s.ev, k)
					delete(s.note, k)
				}
			}
		}
		e := newEngine(c, r)
		if _, err := e.Run(root, func(s *S, params []*T) {}); err != nil {
			c.Violate("budget:"+funcName(root), "", "%v", err)
			continue
		}
		c.flowStats(e)
	}
	c.Floor("dispatch", 3)
}

// readsField: the function reads this field.
func (p *Prog) readsField(fn *ssa.Function, suffix string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), suffix) {
				return true
			}
		}
	}
	return false
}

// markPred: a function that looks for a text in a node's comments.
func markPred(fn *ssa.Function) bool {
	if fn == nil || relPkg(fn) != "build" || !resultIs(fn.Signature, "bool") || fn.Signature.Params().Len() != 2 {
		return false
	}
	return typeKey(fn.Signature.Params().At(0).Type()) == modPath+"/build.Expr" && typeKey(fn.Signature.Params().At(1).Type()) == "string"
}

const (
	markLeave = "buildifier: leave-alone"
	markDNS   = "do not sort"
	markKeep  = "keep sorted"
)

// markGuards: the marks are asked for before a marked construct is changed.
func markGuards(c *Ctx, byName map[string]rewriteEntry, eff *Effects, ast map[string]bool) {
	p := c.P
	exprT := modPath + "/build.Expr"
	asks := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && markPred(ci.Common().StaticCallee())
	})
	// functions that reorder a list of strings
	reorders := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || relPkg(fn) != "build" {
			return false
		}
		n := p.staticName(ci.Common())
		if !sortName(n) {
			return false
		}
		return sortsStrings(fn, ci.Common())
	})
	direct := map[*ssa.Function]bool{}
	for fn := range reorders {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && sortName(p.staticName(ci.Common())) && sortsStrings(fn, ci.Common()) {
					direct[fn] = true
				}
			}
		}
	}
	if len(direct) == 0 {
		c.Violate("anchor:sort", "", "no function that sorts the strings of a list was found")
	}
	mutates := func(fn *ssa.Function) bool {
		sum := eff.sums[fn]
		if sum == nil {
			return false
		}
		if len(sum.calls) > 0 {
			return true
		}
		for _, m := range sum.muts {
			if m.obj.kind == "param" && eff.isASTMut(fn, m, ast) {
				return true
			}
		}
		return false
	}
	seenMarks := map[*ssa.Function]bool{}
	run := func(root *ssa.Function, rw string, guard, perArg bool) {
		var nodeT, stkT *T
		ruleSites := map[ssa.Instruction]bool{}
		r := &Rule{}
		r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
			if markPred(fn) || direct[fn] || takesFunc(fn) {
				return false, true
			}
			if asks[fn] && relPkg(fn) == "build" {
				return true, true
			}
			return false, false
		}
		r.NoPeel = func(fn *ssa.Function) bool { return true }
		var eng *Engine
		fromNode := func(t *T) bool { return stripType(eng, t) == nodeT }
		changed := func(e *Engine, fr *Frame, s *S, in ssa.Instruction, what string, reorder bool, lists []*T) {
			if guard {
				if s.ev["keep"] == "yes" && rw == "listsort" {
					c.Inst("leave-alone", rw+": "+what+" (keep sorted)")
				} else {
					c.Inst("leave-alone", rw+": "+what)
					stk := s.ev["stk"] == "asked" || func() bool { hi, ok := e.upper(s.State, e.tb.Len(stkT)); return ok && hi <= 0 }()
					switch {
					case s.ev["node"] != "no" || !stk || s.ev["anc"] == "yes":
						e.why(s, "leave")
						c.Violate("leave-alone:"+rw+":"+funcName(root), p.instrPos(in), "the rewrite %q may change a call that is marked \"%s\" or inside one that is (%s)", rw, markLeave, what)
					case rw == "label" && s.ev["rhs"] != "no":
						c.Violate("leave-alone-value:"+rw+":"+funcName(root), p.instrPos(in), "the rewrite %q may change a value that is marked \"%s\" (%s)", rw, markLeave, what)
					case perArg && s.ev["arg"] != "no":
						c.Violate("leave-alone-arg:"+rw+":"+funcName(root), p.instrPos(in), "the rewrite %q may change an argument that is marked \"%s\" (%s)", rw, markLeave, what)
					}
				}
			}
			if rw == "listsort" && s.ev["keep"] != "yes" && in.Parent() == root {
				ruleSites[in] = true
			}
			if reorder && !(rw == "listsort" && s.ev["keep"] == "yes") {
				c.Inst("do-not-sort", rw+": "+what)
				if n := 0; rw == "useRepoPositionalsSort" && s.ev["dns"] == "no" {
					for k, v := range s.ev {
						if strings.HasPrefix(k, "dns:") && v == "no" {
							n++
						}
					}
					if n < 3 {
						c.Violate("do-not-sort-first:"+rw+":"+funcName(root), p.instrPos(in), "the mark \"%s\" is not looked for on the call, its first argument and the first name (%s)", markDNS, what)
					}
				}
				if s.ev["dns"] != "no" {
					e.why(s, "dns")
					c.Violate("do-not-sort:"+rw+":"+funcName(root), p.instrPos(in), "a list may be sorted although it is marked \"%s\" (%s)", markDNS, what)
				}
			}
		}
		r.OnIndex = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, base, idx *T) {
			if base == stkT {
				s.ev["stk"] = "asked"
			}
			if ia, ok := in.(*ssa.IndexAddr); ok && loadedField(base, "CallExpr.List") && typeKey(deref(ia.Type())) == exprT && fr.fn == root && rw != "useRepoPositionalsSort" {
				if s.note["elem"] != base || s.note["idx"] != idx {
					delete(s.ev, "arg")
					delete(s.ev, "rhs")
					if rw == "listsort" {
						delete(s.ev, "dns")
					}
					s.note["elem"], s.note["idx"] = base, idx
				}
			}
		}
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
			if markPred(fn) && len(args) == 2 {
				seenMarks[fn] = true
				text, ok := isStr(args[1])
				if !ok {
					return nil, false
				}
				n := s.fork()
				ans := func(k string) {
					s.ev[k] = "yes"
					if n.ev[k] != "yes" {
						n.ev[k] = "no"
					}
				}
				switch text {
				case markLeave:
					switch {
					case fromNode(args[0]):
						ans("node")
					case args[0].mentions(func(x *T) bool { return x == stkT }):
						ans("anc")
					case args[0].mentions(func(x *T) bool { return loadedField(x, "AssignExpr.RHS") }):
						ans("rhs")
					default:
						ans("arg")
					}
				case markDNS:
					ans("dns")
					if rw == "useRepoPositionalsSort" {
						ans(fmt.Sprintf("dns:%d", stripType(e, args[0]).id))
					}
				case markKeep:
					ans("keep")
				default:
					return nil, false
				}
				return []Out{{s, e.tb.Bool(true)}, {n, e.tb.Bool(false)}}, true
			}
			for _, a := range args {
				if a == stkT && asks[fn] {
					s.ev["stk"] = "asked"
				}
			}
			switch {
			case fn != nil && direct[fn]:
				changed(e, fr, s, in, "call of "+funcName(fn), true, args)
			case fn != nil && inRepo(fn) && asks[fn] && !takesFunc(fn):
			case fn != nil && inRepo(fn) && mutates(fn):
				re := false
				for _, a := range cc.Args {
					if _, ok := a.Type().Underlying().(*types.Signature); ok {
						for _, f := range p.funcsOf(a) {
							re = re || reorders[f]
						}
					}
				}
				changed(e, fr, s, in, "call of "+funcName(fn), re, args)
			case sortName(name) && root.Parent() != nil:
				changed(e, fr, s, in, "call of "+name, false, args)
			case fn == nil && !cc.IsInvoke() && cc.StaticCallee() == nil:
				if _, ok := cc.Value.(*ssa.Builtin); !ok {
					changed(e, fr, s, in, "call of a function value", false, args)
				}
			}
			return nil, false
		}
		r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
			st, ok := in.(*ssa.Store)
			if !ok || root.Parent() == nil {
				return
			}
			var bt types.Type
			switch a := st.Addr.(type) {
			case *ssa.FieldAddr:
				bt = deref(a.X.Type())
			case *ssa.IndexAddr:
				bt = deref(a.X.Type())
			}
			rt := addr
			for rt.op != "alloc" && len(rt.args) > 0 {
				rt = rt.args[0]
			}
			if bt != nil && ast[typeKey(bt)] && rt.op != "alloc" {
				changed(e, fr, s, in, "assignment to "+typStr(bt), false, nil)
			}
		}
		defer func() {
			for in := range ruleSites {
				for _, k := range []string{"TypeDefault", "TypeBzl"} {
					v, ok := p.constOf("build", k)
					c.Inst("scope", "lists of arguments in "+funcName(root)+" "+k)
					if !ok || !typeExcluded(root, in.Block(), v) {
						c.Violate("scope:listsort:"+funcName(root)+":"+k, p.instrPos(in), "lists in arguments may be sorted in files of type %s", k)
					}
				}
			}
		}()
		e := newEngine(c, r)
		eng = e
		if _, err := e.Run(root, func(s *S, params []*T) {
			for i, pr := range root.Params {
				switch typeKey(pr.Type()) {
				case exprT, "*" + exprT:
					if nodeT == nil {
						nodeT = params[i]
					}
				case "[]" + exprT:
					if stkT == nil {
						stkT = params[i]
					}
				}
			}
			if stkT == nil {
				stkT = e.tb.mk("none", "")
			}
			if nodeT == nil {
				nodeT = e.tb.mk("none", "")
			}
		}); err != nil {
			c.Violate("budget:"+funcName(root), "", "%v", err)
			return
		}
		c.flowStats(e)
	}
	for _, rw := range []string{"callsort", "label", "listsort", "useRepoPositionalsSort"} {
		ent := byName[rw]
		if ent.fn == nil {
			continue
		}
		n := 0
		for _, cb := range p.walkCallbacks(ent.fn) {
			n++
			run(cb, rw, rw != "useRepoPositionalsSort", rw == "label" || rw == "listsort")
		}
		if n == 0 {
			c.Violate("anchor:"+rw, p.Pos(ent.fn.Pos()), "the rewrite %q does not walk the tree with a function literal", rw)
		}
	}
	// functions that decide about a single list
	for fn := range reorders {
		if relPkg(fn) == "build" && asks[fn] && fn.Parent() == nil && !direct[fn] && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 0 && typeKey(fn.Signature.Params().At(0).Type()) == exprT {
			run(fn, "list", false, false)
		}
	}
	// the elements of a list of labels
	if ent := byName["label"]; ent.fn != nil {
		for fn := range p.reachableFrom(ent.fn) {
			if relPkg(fn) == "build" && (fn.Parent() == ent.fn || fn == ent.fn) {
				elementMarks(c, fn, asks)
			}
		}
		c.Floor("elements", 1)
	}
	var ms []*ssa.Function
	for fn := range seenMarks {
		ms = append(ms, fn)
	}
	for _, fn := range ms {
		c.Inst("marks", funcName(fn))
		for _, f := range []string{"Before", "After", "Suffix"} {
			found := false
			for g := range p.reachableFrom(fn) {
				if inRepo(g) && p.readsField(g, "Comments."+f) {
					found = true
				}
			}
			if !found {
				c.Violate("marks:"+funcName(fn)+":"+f, p.Pos(fn.Pos()), "%s does not look at the %s comments of a node", funcName(fn), f)
			}
		}
	}
	ancestors(c)
	c.Floor("leave-alone", 4)
	c.Floor("do-not-sort", 2)
	c.Floor("marks", 1)
}

// ancestors: a function that looks for the mark on nodes of a list looks at all of them.
func ancestors(c *Ctx) {
	p := c.P
	leave := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !markPred(ci.Common().StaticCallee()) {
			return false
		}
		k, ok := ci.Common().Args[1].(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == markLeave
	})
	// a question about one of the nodes of the list
	about := func(x ssa.Instruction, q ssa.Value) bool {
		cc, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		f := cc.Call.StaticCallee()
		if f == nil || !leave[f] && !markPred(f) {
			return false
		}
		for _, a := range cc.Call.Args {
			if u, ok := a.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.X == q {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "build" || !leave[fn] {
			continue
		}
		for _, q := range fn.Params {
			if el := sliceElem(q.Type()); el == nil || typeKey(el) != modPath+"/build.Expr" {
				continue
			}
			asked, complete := false, false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					asked = asked || about(in, q)
				}
				l := loopAt(b)
				if l == nil || l.over != ssa.Value(q) {
					continue
				}
				hit := func(t *ssa.BasicBlock) bool {
					for _, in := range t.Instrs {
						if about(in, q) && l.body[t] {
							return true
						}
					}
					return false
				}
				early := false
				for x := range l.body {
					for i, t := range x.Succs {
						if x == l.head || l.body[t] || onlyPanics(t) {
							continue
						}
						early = early || !answered(x, i, func(in ssa.Instruction) bool { return about(in, q) })
					}
				}
				if !early && pathsPass(l.start, func(t *ssa.BasicBlock) bool { return t == l.head }, hit, func(x, t *ssa.BasicBlock) bool {
					return len(x.Succs) == 2 && answered(x, map[bool]int{true: 0, false: 1}[t == x.Succs[0]], func(in ssa.Instruction) bool { return about(in, q) })
				}) {
					complete = true
				}
			}
			if !asked {
				continue
			}
			c.Inst("leave-alone", "the nodes "+funcName(fn)+" looks at")
			if !complete {
				c.Violate("leave-alone:ancestors:"+funcName(fn), p.Pos(fn.Pos()), "%s does not look for the mark \"%s\" on all nodes of the list", funcName(fn), markLeave)
			}
		}
	}
}

// answered: an edge is taken only once a question was answered with yes; the answer may be kept in a variable.
func answered(b *ssa.BasicBlock, succ int, about func(in ssa.Instruction) bool) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, yes := br.Cond, succ == 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, yes = u.X, !yes
	}
	if !yes {
		return false
	}
	seen := map[ssa.Value]bool{}
	found := false
	var rec func(x ssa.Value) bool
	rec = func(x ssa.Value) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		switch y := x.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for i, e := range y.Edges {
				if !rec(e) {
					return false
				}
				// set to true where the answer was yes
				for t := y.Block().Preds[i]; len(t.Preds) == 1; t = t.Preds[0] {
					if br, ok := t.Preds[0].Instrs[len(t.Preds[0].Instrs)-1].(*ssa.If); ok {
						if in, ok := br.Cond.(ssa.Instruction); ok && about(in) && t == t.Preds[0].Succs[0] {
							found = true
						}
					}
				}
			}
			return true
		case *ssa.Call:
			if about(y) {
				found = true
				return true
			}
			if y.Block() != nil && y.Type().Underlying() == types.Typ[types.Bool] {
				return true // another question, asked before
			}
		case *ssa.BinOp:
			return true
		}
		return false
	}
	return rec(cond) && found
}

func sortName(n string) bool {
	return strings.HasPrefix(n, "sort.S") && !strings.Contains(n, "IsSorted") && !strings.Contains(n, "Search") || strings.HasPrefix(n, "slices.Sort")
}

func takesFunc(fn *ssa.Function) bool {
	for _, pr := range fn.Params {
		if _, ok := pr.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// sortsStrings: the sorted collection holds (keys of) string expressions.
func sortsStrings(fn *ssa.Function, cc *ssa.CallCommon) bool {
	if len(cc.Args) == 0 {
		return false
	}
	t := cc.Args[0].Type()
	if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
		t = mi.X.Type()
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	strT, exprT := "*"+modPath+"/build.StringExpr", modPath+"/build.Expr"
	holds := func(t types.Type) bool { return typeKey(t) == strT || typeKey(t) == exprT }
	ok = holds(sl.Elem())
	if st, isS := sl.Elem().Underlying().(*types.Struct); isS {
		for i := 0; i < st.NumFields(); i++ {
			ok = ok || holds(st.Field(i).Type())
		}
	}
	if !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ta, ok := in.(*ssa.TypeAssert); ok && typeKey(ta.AssertedType) == strT {
				return true
			}
		}
	}
	return false
}

// walkCallbacks: the function literals a rewrite passes to a tree walk, in the function itself or its literals.
func (p *Prog) walkCallbacks(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || relPkg(callee) != "build" {
					continue
				}
				for _, a := range ci.Common().Args {
					sg, ok := a.Type().Underlying().(*types.Signature)
					if !ok || sg.Params().Len() != 2 || typeKey(sg.Params().At(1).Type()) != "[]"+modPath+"/build.Expr" {
						continue
					}
					for _, g := range p.funcsOf(a) {
						out = append(out, g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	visit(fn)
	return out
}

// funcsOf resolves a function value: a function, a literal, or a captured variable that holds one.
func (p *Prog) funcsOf(v ssa.Value) []*ssa.Function {
	if f := funcOf(v); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	switch v := v.(type) {
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == v {
				idx = i
			}
		}
		if fn.Parent() == nil || idx < 0 {
			return nil
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					out = append(out, p.funcsOf(mc.Bindings[idx])...)
				}
			}
		}
	case *ssa.UnOp:
		return p.funcsOf(v.X)
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == v {
				out = append(out, p.funcsOf(st.Val)...)
			}
		}
	case *ssa.ChangeType:
		return p.funcsOf(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			out = append(out, p.funcsOf(e)...)
		}
	}
	return out
}

// stripType looks through type assertions and interface conversions.
func stripType(e *Engine, t *T) *T {
	for i := 0; i < 10; i++ {
		if (t.op == "mkiface" || t.op == "assert" || t.op == "iface") && len(t.args) > 0 {
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

// typeExcluded: on every path to the block the file's type is known not to be the given one.
func typeExcluded(fn *ssa.Function, target *ssa.BasicBlock, k int64) bool {
	excl := func(b, t *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return false
		}
		return excludes(br.Cond, t == b.Succs[0], k)
	}
	return pathsPass(fn.Blocks[0], func(b *ssa.BasicBlock) bool { return b == target }, func(b *ssa.BasicBlock) bool { return false }, excl)
}

func excludes(cond ssa.Value, yes bool, k int64) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return excludes(u.X, !yes, k)
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return false
	}
	x, y := cmp.X, cmp.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	cy, ok := y.(*ssa.Const)
	if !ok || cy.Value == nil || cy.Value.Kind() != constant.Int {
		return false
	}
	equal := (cmp.Op == token.EQL) == yes
	if loadsField(x, "File.Type") {
		return equal != (cy.Int64() == k)
	}
	// a mask of types
	if m, ok := x.(*ssa.BinOp); ok && m.Op == token.AND && cy.Int64() == 0 {
		a, b := m.X, m.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		if mk, ok := b.(*ssa.Const); ok && loadsField(a, "File.Type") {
			return equal == (mk.Int64()&k != 0)
		}
	}
	return false
}

// elementMarks: an element of a list is handed to another function only on paths on which it is known not to be marked.
func elementMarks(c *Ctx, fn *ssa.Function, asks map[*ssa.Function]bool) {
	p := c.P
	exprT := modPath + "/build.Expr"
	asked := func(cond ssa.Value, yes bool) bool {
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, yes = u.X, !yes
		}
		cc, ok := cond.(*ssa.Call)
		return ok && !yes && cc.Call.StaticCallee() != nil && (asks[cc.Call.StaticCallee()] || markPred(cc.Call.StaticCallee()))
	}
	for _, b := range fn.Blocks {
		l := loopAt(b)
		if l == nil || sliceElem(l.over.Type()) == nil || typeKey(sliceElem(l.over.Type())) != exprT {
			continue
		}
		for x := range l.body {
			for _, in := range x.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || asks[cc.Call.StaticCallee()] || markPred(cc.Call.StaticCallee()) {
					continue
				}
				elem := false
				for _, a := range cc.Call.Args {
					if typeKey(deref(a.Type())) == exprT {
						elem = true
					}
				}
				if _, ok := cc.Call.Value.(*ssa.Builtin); ok || !elem {
					continue
				}
				c.Inst("elements", "elements in "+funcName(fn))
				target := in.Block()
				ok = pathsPass(l.start, func(t *ssa.BasicBlock) bool { return t == target && t != l.start }, func(t *ssa.BasicBlock) bool { return t == l.head }, func(from, t *ssa.BasicBlock) bool {
					br, isIf := from.Instrs[len(from.Instrs)-1].(*ssa.If)
					return isIf && from.Succs[0] != from.Succs[1] && asked(br.Cond, t == from.Succs[0])
				})
				if !ok || target == l.start {
					c.Violate("elements:"+funcName(fn), p.instrPos(in), "an element of a list may be changed although it is marked \"%s\"", markLeave)
				}
			}
		}
	}
}
