package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// traversal: every function that walks the syntax tree reaches all of it.
func traversal(c *Ctx) {
	p := c.P
	c.Rule("children", "WalkOnce passes every child of every kind of node to its callback on every path, except children known to be absent")
	c.Rule("statements", "WalkStatements calls its callback with every node it is given and goes into every block of statements, unless the callback stops it")
	c.Rule("comment-order", "the walk that decides which code a comment belongs to lists every node before and after its parts, and goes into every part and closing bracket")
	c.Rule("recursion", "Walk and its variants call the callback once with each node, with the stack of its ancestors, and go into its children unless the callback stops them")
	exprT, _ := p.astNodes()
	if exprT == nil {
		c.Violate("anchor:Expr", "", "build.Expr not found")
		return
	}
	isExpr := func(t types.Type) bool { return typeKey(t) == typeKey(exprT) }
	inBuild := func(g *ssa.Function) bool { return relPkg(g) == "build" }

	// WalkOnce
	if once := p.Func("build", "WalkOnce"); once == nil || len(once.Params) != 2 {
		c.Violate("anchor:WalkOnce", "", "build.WalkOnce not found")
	} else {
		f := newVisitFam(c, "walk", "children", once, 0, false, false)
		f.inline = inBuild
		f.base = func(v *visitRun, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, args []*T) ([]Out, bool) {
			if g == nil && !cc.IsInvoke() && v.e.val(fr, s, cc.Value) == v.args[1] && len(args) == 1 {
				v.coverValue(s, args[0], cc.Args[0].Type())
				return nil, true
			}
			return nil, false
		}
		// annotated names and the result type of a function are leaves, read with GetTypes
		for _, k := range []string{"TypedIdent.Ident", "TypedIdent.Type", "DefStmt.Type"} {
			f.guards[k] = func(v *visitRun, s *S, node *T, n *types.Named) bool { return true }
		}
		f.solve()
		f.report()
		writtenBack(c, once)
		c.Floor("children", 40)
	}

	// WalkStatements
	ws := p.Func("build", "WalkStatements")
	if ws == nil {
		c.Violate("anchor:WalkStatements", "", "build.WalkStatements not found")
	} else {
		var cands []*ssa.Function
		for g := range staticReach(ws) {
			if inBuild(g) && g.Parent() == nil && takesFunc(g) {
				cands = append(cands, g)
			}
		}
		sort.Slice(cands, func(i, j int) bool { return cands[i].String() < cands[j].String() })
		root, arg := p.dispatcher(cands, isExpr)
		if root == nil {
			c.Violate("anchor:walkStatements", p.Pos(ws.Pos()), "no function reachable from WalkStatements tells node types apart")
		} else {
			f := newVisitFam(c, "statements", "statements", root, arg, false, false)
			f.inline = inBuild
			for _, n := range f.nodes {
				var keep []part
				for _, pt := range f.parts[n] {
					base := pt.name[strings.Index(pt.name, ".")+1:]
					if pt.kind == 'l' && n.Obj().Name() != "LambdaExpr" && (base == "Stmt" || base == "Body" || base == "True" || base == "False") {
						keep = append(keep, pt)
						f.guards[pt.name] = func(v *visitRun, s *S, node *T, n *types.Named) bool { return stopped(s) }
					}
				}
				f.parts[n] = keep
			}
			f.base = func(v *visitRun, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, args []*T) ([]Out, bool) {
				if g == nil && !cc.IsInvoke() && len(args) > 0 && cc.Signature().Results().Len() == 1 {
					if args[0] == v.args[arg] {
						s.ev["called"] = "1"
					}
					return nil, true
				}
				return nil, false
			}
			f.also = func(v *visitRun, s *S, node *T) []string {
				if s.ev["called"] == "" && v.e.Eval(s.State, v.e.tb.Eq(node, v.e.tb.Nil())) != yes {
					return []string{"the node itself"}
				}
				return nil
			}
			if ws != root {
				f.claims[ws] = map[int]bool{0: true}
			}
			f.solve()
			f.report()
			if ws != root && !f.claims[ws][0] {
				c.Violate("statements:entry", p.Pos(ws.Pos()), "WalkStatements does not walk its argument on every path")
			}
			c.Floor("statements", 4)
		}
	}

	// comment order
	var cands []*ssa.Function
	for _, g := range p.repoFuncs() {
		if inBuild(g) && g.Parent() == nil && g.Signature.Recv() != nil && typeKey(g.Signature.Recv().Type()) == "*"+modPath+"/build.input" {
			cands = append(cands, g)
		}
	}
	root, arg := p.dispatcher(cands, isExpr)
	if root == nil {
		c.Violate("anchor:order", "", "no method of the parser's input tells node types apart")
	} else {
		f := newVisitFam(c, "order", "comment-order", root, arg, false, true)
		for _, g := range cands {
			if g != root {
				for i, pa := range g.Params {
					if f.exprish(pa.Type()) {
						if f.claims[g] == nil {
							f.claims[g] = map[int]bool{}
						}
						f.claims[g][i] = true
					}
				}
			}
		}
		f.inline = func(g *ssa.Function) bool { return false }
		f.guards["IfStmt.ElsePos"] = func(v *visitRun, s *S, node *T, n *types.Named) bool {
			for _, pt := range v.parts[n] {
				if pt.name == "IfStmt.False" {
					return v.empty(s, v.load(s, node, n, pt))
				}
			}
			return false
		}
		f.guards["TupleExpr.End"] = func(v *visitRun, s *S, node *T, n *types.Named) bool {
			return v.flag(s, node, n, "NoBrackets") == yes
		}
		// the node is added to two lists
		add := func(e *Engine, s *S, list, tail *T, node *T) {
			if list.op == "load" && list.args[0].op == "field" && tail.op == "slice" {
				for a, val := range s.mem {
					if a.op == "elem" && a.args[0] == tail.args[0] && unbox(val) == node {
						s.ev["listed|"+list.args[0].aux] = "1"
					}
				}
			}
		}
		f.onAppend = func(v *visitRun, s *S, list, tail *T) { add(v.e, s, list, tail, v.args[arg]) }
		f.also = func(v *visitRun, s *S, node *T) []string {
			n := 0
			for k := range s.ev {
				if strings.HasPrefix(k, "listed|") {
					n++
				}
			}
			if n < 2 && v.e.Eval(s.State, v.e.tb.Eq(node, v.e.tb.Nil())) != yes {
				return []string{"listing the node in both orders"}
			}
			return nil
		}
		f.solve()
		f.report()
		c.Floor("comment-order", 50)
	}
	recursion(c)
}

// stopped: the callback returned the error that stops the walk.
func stopped(s *S) bool {
	for k, val := range s.atoms {
		if val && k.op == "is" && k.aux == "*"+modPath+"/build.StopTraversalError" {
			return true
		}
	}
	return false
}

func (v *visitRun) flag(s *S, node *T, n *types.Named, name string) tri {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.e.Eval(s.State, v.e.Load(s.State, v.e.Field(node, n, i), st.Field(i).Type()))
		}
	}
	return unknown
}

// recursion checks Walk, WalkPointers, WalkInterruptable, Edit and EditChildren.
func recursion(c *Ctx) {
	p := c.P
	rule := "recursion"
	once := p.Func("build", "WalkOnce")
	if once == nil {
		return
	}
	ptrExpr := "*" + modPath + "/build.Expr"
	// helpers: functions over (*Expr, ...) that call WalkOnce
	helper := map[*ssa.Function]bool{}
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "build" || fn.Parent() != nil || fn == once {
			continue
		}
		hasP := false
		for _, pa := range fn.Params {
			hasP = hasP || typeKey(pa.Type()) == ptrExpr
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == once && hasP {
					helper[fn] = true
				}
			}
		}
	}
	// goesDown: the closure passes its argument to a helper on every path
	goesDown := func(g *ssa.Function) bool {
		if g == nil || len(g.Params) != 1 {
			return false
		}
		if helper[g] {
			return true
		}
		ok, n := true, 0
		r := &Rule{}
		var arg *T
		r.Inline = func(fr *Frame, h *ssa.Function) (bool, bool) { return !helper[h] && relPkg(h) == "build", true }
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, h *ssa.Function, args []*T) ([]Out, bool) {
			if helper[h] {
				for _, a := range args {
					if a == arg {
						s.ev["down"] = "1"
					}
				}
				return []Out{{s, e.tb.mk("opaque", "down")}}, true
			}
			return nil, false
		}
		r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
			if fr.parent == nil {
				n++
				ok = ok && s.ev["down"] != ""
			}
		}
		e := newEngine(c, r)
		_, err := e.Run(g, func(s *S, params []*T) { arg = params[0] })
		return err == nil && ok && n > 0
	}
	closureOf := func(t *T) *ssa.Function {
		if (t.op == "closure" || t.op == "func") && t.fn != nil {
			return t.fn
		}
		return nil
	}
	// forwards: the callback a helper is given calls the user's function on every path
	forwards := func(g *ssa.Function) bool {
		ok, n := true, 0
		r := &Rule{}
		var ps []*T
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, h *ssa.Function, args []*T) ([]Out, bool) {
			if h == nil && !cc.IsInvoke() && len(args) == 2 && len(ps) == 2 {
				v := e.val(fr, s, cc.Value)
				if v.mentions(func(x *T) bool { return x.op == "param" && strings.HasPrefix(x.aux, "&") }) {
					val := e.Load(s.State, ps[0], deref(g.Params[0].Type()))
					if (args[0] == ps[0] || args[0] == val) && args[1] == ps[1] {
						s.ev["fwd"] += "1"
					} else {
						s.ev["fwd"] = "bad"
					}
				}
			}
			return nil, false
		}
		r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
			if fr.parent == nil {
				n++
				ok = ok && s.ev["fwd"] == "1"
			}
		}
		e := newEngine(c, r)
		_, err := e.Run(g, func(s *S, params []*T) { ps = params })
		return err == nil && ok && n > 0
	}
	// helpers themselves
	var hs []*ssa.Function
	for h := range helper {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].String() < hs[j].String() })
	var exprTyp types.Type
	for _, h := range hs {
		c.Inst(rule, funcName(h))
		var vp, sp, fp int = -1, -1, -1
		for i, pa := range h.Params {
			switch t := pa.Type().(type) {
			case *types.Pointer:
				if typeKey(t) == ptrExpr {
					vp = i
					exprTyp = t.Elem()
				} else if _, ok := t.Elem().Underlying().(*types.Slice); ok {
					sp = i
				}
			case *types.Signature:
				fp = i
			}
		}
		if vp < 0 || sp < 0 || fp < 0 {
			c.Violate("recursion:shape:"+funcName(h), p.Pos(h.Pos()), "%s calls WalkOnce but does not take a node, a stack and a callback", funcName(h))
			continue
		}
		r := &Rule{}
		var ps []*T
		var stk0 *T
		res := map[string]bool{}
		stkT := deref(h.Params[sp].Type())
		r.Protect = func(t *T) bool {
			return t.op == "==" || t.op == "is"
		}
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, args []*T) ([]Out, bool) {
			cur := e.Load(s.State, ps[vp], exprTyp)
			if g == nil && !cc.IsInvoke() && e.val(fr, s, cc.Value) == ps[fp] {
				if (args[0] == ps[vp] || args[0] == cur) && (len(args) < 2 || args[1] == stk0) && s.ev["down"] == "" {
					s.ev["call"] += "1"
				} else {
					s.ev["call"] = "bad"
				}
				x := in.(ssa.Value)
				var ts []*T
				if tu, ok := x.Type().(*types.Tuple); ok {
					for i := 0; i < tu.Len(); i++ {
						t := e.tb.mk("opaque", "cb."+string(rune('0'+i)))
						t.typ = tu.At(i).Type()
						ts = append(ts, t)
						if i == 0 && typeKey(t.typ) == typeKey(exprTyp) {
							s.note["res"] = t
						}
					}
					return []Out{{s, e.tb.mk("tuple", "", ts...)}}, true
				}
				t := e.tb.mk("opaque", "cb")
				t.typ = x.Type()
				return []Out{{s, t}}, true
			}
			if g == once {
				ok := args[0] == cur && s.ev["call"] == "1" && goesDown(closureOf(args[1]))
				st := e.Load(s.State, ps[sp], stkT)
				pushed := st.op == "append" && st.args[0] == stk0 && st.args[1].op == "slice"
				if pushed {
					pushed = false
					for a, val := range s.mem {
						if a.op == "elem" && a.args[0] == st.args[1].args[0] && unbox(val) == unbox(cur) {
							pushed = true
						}
					}
				}
				if ok && pushed {
					s.ev["down"] += "1"
				} else {
					s.ev["down"] = "bad"
				}
				return []Out{{s, e.tb.mk("none", "")}}, true
			}
			return nil, false
		}
		r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
			if fr.parent != nil {
				return
			}
			cur := e.Load(s.State, ps[vp], exprTyp)
			st := e.Load(s.State, ps[sp], stkT)
			none := e.Eval(s.State, e.tb.Eq(ps[vp], e.tb.Nil())) == yes || e.Eval(s.State, e.tb.Eq(cur, e.tb.Nil())) == yes
			if s.ev["call"] != "1" {
				if !(none && s.ev["call"] == "") {
					res["a node may be left out, or the callback called again or with another stack"] = true
				}
				return
			}
			if t := s.note["res"]; t != nil && e.Eval(s.State, e.tb.Eq(t, e.tb.Nil())) != yes && cur != t {
				res["the replacement returned by the callback may be dropped"] = true
			}
			if s.ev["down"] == "1" {
				if !(st == stk0 || st.op == "slice" && st.args[0].op == "append" && st.args[0].args[0] == stk0 && len(st.args) > 2 && st.args[1] == e.tb.Int(0) && st.args[2] == e.tb.Add(e.tb.Len(st.args[0]), e.tb.Int(-1))) {
					e.why(s, "stack "+st.String())
					res["the stack of ancestors is not restored"] = true
				}
				return
			}
			if s.ev["down"] == "" && stopped(s) && st == stk0 {
				return
			}
			e.why(s, "walk1")
			res["the children may be left out, or walked with a wrong stack"] = true
		}
		e := newEngine(c, r)
		_, err := e.Run(h, func(s *S, params []*T) {
			ps = params
			stk0 = e.Load(s.State, ps[sp], stkT)
		})
		if err != nil {
			res["undecided: "+err.Error()] = true
		}
		for m := range res {
			c.Violate("recursion:"+funcName(h)+":"+m, p.Pos(h.Pos()), "%s: %s", funcName(h), m)
		}
	}
	// the exported variants
	for _, name := range []string{"Walk", "WalkPointers", "WalkInterruptable", "Edit", "EditChildren"} {
		fn := p.Func("build", name)
		if fn == nil || len(fn.Params) != 2 {
			c.Violate("anchor:"+name, "", "build.%s not found", name)
			continue
		}
		c.Inst(rule, funcName(fn))
		var ps []*T
		bad := map[string]bool{}
		r := &Rule{}
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, nm string, g *ssa.Function, args []*T) ([]Out, bool) {
			isFwd := func(t *T) bool {
				if t == ps[1] {
					return true
				}
				return closureOf(t) != nil && forwards(closureOf(t))
			}
			if helper[g] {
				ok := false
				for i, a := range args {
					switch {
					case isSlicePtr(g.Params[i].Type()):
						if e.Eval(s.State, e.tb.Eq(e.tb.Len(e.Load(s.State, a, deref(g.Params[i].Type()))), e.tb.Int(0))) != yes {
							s.ev["down"] = "bad"
						}
					case typeKey(g.Params[i].Type()) == ptrExpr:
						ok = a == ps[0] || unbox(e.Load(s.State, a, deref(g.Params[i].Type()))) == ps[0]
					case isFuncType(g.Params[i].Type()):
						if !isFwd(a) {
							s.ev["down"] = "bad"
						}
					}
				}
				if !ok {
					s.ev["down"] = "bad"
				}
				s.ev["down"] += "1"
				return []Out{{s, e.tb.mk("opaque", "walked")}}, true
			}
			if g == once {
				cl := closureOf(args[1])
				if args[0] == ps[0] && goesDown(cl) && cl != nil {
					// the callback handed to the helper inside
					for _, b := range cl.Blocks {
						for _, in := range b.Instrs {
							if ci, ok := in.(ssa.CallInstruction); ok && helper[ci.Common().StaticCallee()] {
								for i, a := range ci.Common().Args {
									if isSlicePtr(a.Type()) {
										// the stack starts with the node whose children are walked
										ok := false
										for j, fv := range cl.FreeVars {
											if fv == a && j < len(args[1].args) {
												ok = rootOnly(e, s, e.Load(s.State, args[1].args[j], deref(ci.Common().StaticCallee().Params[i].Type())), ps[0])
											}
										}
										if !ok {
											s.ev["down"] = "bad"
										}
									}
									if mc, ok := a.(*ssa.MakeClosure); ok && !forwards(mc.Fn.(*ssa.Function)) {
										s.ev["down"] = "bad"
									}
								}
							}
						}
					}
				} else {
					s.ev["down"] = "bad"
				}
				s.ev["down"] += "1"
				return []Out{{s, e.tb.mk("none", "")}}, true
			}
			return nil, false
		}
		r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
			if fr.parent == nil && s.ev["down"] != "1" {
				bad["x"] = true
			}
		}
		e := newEngine(c, r)
		if _, err := e.Run(fn, func(s *S, params []*T) { ps = params }); err != nil {
			bad["x"] = true
		}
		if len(bad) > 0 {
			c.Violate("recursion:"+name, p.Pos(fn.Pos()), "%s does not walk its argument with the given callback exactly once on every path", name)
		}
	}
	c.Floor(rule, 6)
}

func isSlicePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Slice)
	return ok
}

// rootOnly: the list holds just the node.
func rootOnly(e *Engine, s *S, st, root *T) bool {
	first := func(t *T) bool {
		if t.op == "slice" {
			t = t.args[0]
		}
		for a, val := range s.mem {
			if a.op == "elem" && a.args[0] == t && a.args[1] == e.tb.Int(0) && unbox(val) == unbox(root) {
				return true
			}
		}
		return false
	}
	if st.op == "append" {
		return e.Eval(s.State, e.tb.Eq(e.tb.Len(st.args[0]), e.tb.Int(0))) == yes && st.args[1].op == "slice" &&
			e.Eval(s.State, e.tb.Eq(e.tb.Len(st.args[1]), e.tb.Int(1))) == yes && first(st.args[1])
	}
	return e.Eval(s.State, e.tb.Eq(e.tb.Len(st), e.tb.Int(1))) == yes && first(st)
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// printing: the printer writes every part of the tree.
func printing(c *Ctx) {
	p := c.P
	c.Rule("parts", "for every kind of node, every child, list of children and piece of text is written on every path of the printer, except children known to be absent")
	c.Rule("entries", "every exported formatting function prints the tree it is given")
	exprT, _ := p.astNodes()
	if exprT == nil {
		c.Violate("anchor:Expr", "", "build.Expr not found")
		return
	}
	isExpr := func(t types.Type) bool { return typeKey(t) == typeKey(exprT) }
	const pr = "*" + modPath + "/build.printer"
	isPr := func(t types.Type) bool { return typeKey(t) == pr }
	var members []*ssa.Function
	for _, g := range p.repoFuncs() {
		if relPkg(g) != "build" || g.Parent() != nil {
			continue
		}
		for _, pa := range g.Params {
			if isPr(pa.Type()) {
				members = append(members, g)
				break
			}
		}
	}
	root, arg := p.dispatcher(members, isExpr)
	if root == nil {
		c.Violate("anchor:expr", "", "no function of the printer tells node types apart")
		return
	}
	f := newVisitFam(c, "print", "parts", root, arg, true, true)
	if tn, ok := p.SPkgs["build"].Pkg.Scope().Lookup("Comments").(*types.TypeName); ok {
		f.comments, _ = tn.Type().(*types.Named)
	}
	if f.comments == nil {
		c.Violate("anchor:Comments", "", "build.Comments not found")
		return
	}
	f.also = func(v *visitRun, s *S, node *T) []string {
		var out []string
		for _, w := range []string{"Before", "Suffix"} {
			if !v.commentDone(s, node, nil, w) {
				out = append(out, w+" comments")
			}
		}
		return out
	}
	// the functions that print the comments after a statement
	f.after = map[*ssa.Function]bool{}
	for _, g := range members {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "/build.Comments.After") {
					if _, isCall := fa.X.(*ssa.Call); isCall && callsStatic(g, root) {
						f.after[g] = true
						c.Inst("comments", "after statements: "+funcName(g))
					}
				}
			}
		}
	}
	c.Rule("comments", "the comments before, after and at the end of the line of every node, before every closing bracket and around the file are written or queued, and the queue is only cleared after it has been written")
	if len(f.after) == 0 {
		c.Violate("anchor:after", p.Pos(root.Pos()), "no function of the printer prints the comments after a statement")
	}
	f.guards["IfStmt.ElsePos"] = func(v *visitRun, s *S, node *T, n *types.Named) bool {
		for _, pt := range v.parts[n] {
			if pt.name == "IfStmt.False" && v.empty(s, v.load(s, node, n, pt)) {
				return true
			}
		}
		for _, pt := range v.parts[n] {
			if pt.name == "IfStmt.ElsePos" {
				return v.commentDone(s, v.addr(node, n, pt), pt.typ.(*types.Named), "Suffix")
			}
		}
		return false
	}
	for _, g := range members {
		for i, pa := range g.Params {
			if f.exprish(pa.Type()) {
				if f.claims[g] == nil {
					f.claims[g] = map[int]bool{}
				}
				f.claims[g][i] = true
			}
		}
	}
	// functions that copy lists
	f.copies = map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for _, m := range members {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					called[ci.Common().StaticCallee()] = true
				}
			}
		}
	}
	for _, g := range p.repoFuncs() {
		if !called[g] || relPkg(g) != "build" || g.Parent() != nil || f.claims[g] != nil || g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 {
			continue
		}
		res := g.Signature.Results().At(0).Type()
		if pt, ok := res.(*types.Pointer); ok {
			res = pt.Elem()
		}
		at, n := 0, 0
		for i, pa := range g.Params {
			if el, ok := f.isList(pa.Type()); ok && types.Identical(pa.Type(), res) && f.exprish(el) {
				at = i
				n++
			}
		}
		if n == 1 {
			f.copies[g] = true
			f.claims[g] = map[int]bool{at: true}
		}
	}
	entries := []string{"FormatWithoutRewriting", "Format", "FormatWithRewriter", "FormatString"}
	for _, name := range entries {
		fn := p.Func("build", name)
		if fn == nil {
			c.Violate("anchor:"+name, "", "build.%s not found", name)
			continue
		}
		for i, pa := range fn.Params {
			if f.exprish(pa.Type()) {
				f.claims[fn] = map[int]bool{i: true}
			}
		}
		c.Inst("entries", name)
	}
	isMember := map[*ssa.Function]bool{}
	for _, m := range members {
		isMember[m] = true
	}
	f.inline = func(g *ssa.Function) bool {
		if !isMember[g] || len(f.claims[g]) > 0 {
			return false
		}
		res := g.Signature.Results()
		return !hasLoop(g) || res.Len() == 1 && isBoolType(res.At(0).Type())
	}
	variadic := func(sg *types.Signature) bool {
		if !sg.Variadic() {
			return false
		}
		sl, ok := sg.Params().At(sg.Params().Len() - 1).Type().(*types.Slice)
		return ok && types.IsInterface(sl.Elem())
	}
	f.base = func(v *visitRun, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, args []*T) ([]Out, bool) {
		if g == nil {
			return nil, false
		}
		sink := isMember[g] && variadic(g.Signature)
		if !sink && !inRepo(g) {
			for _, a := range cc.Args {
				if isPr(a.Type()) {
					sink = true
				}
				if mi, ok := a.(*ssa.MakeInterface); ok && isPr(mi.X.Type()) {
					sink = true
				}
				if fa, ok := a.(*ssa.FieldAddr); ok && isPr(fa.X.Type()) && strings.HasPrefix(name, "(*bytes.Buffer).Write") {
					sink = true
				}
			}
		}
		if !sink {
			return nil, false
		}
		for _, a := range args {
			if a.op == "slice" && a.args[0].op == "alloc" {
				for ad, val := range s.mem {
					if ad.op == "elem" && ad.args[0] == a.args[0] {
						v.print(s, val)
					}
				}
				continue
			}
			v.print(s, a)
		}
		return nil, true
	}
	// the text of a string literal is its token or its value
	either := func(other string) func(v *visitRun, s *S, node *T, n *types.Named) bool {
		return func(v *visitRun, s *S, node *T, n *types.Named) bool {
			for _, pt := range v.parts[n] {
				if pt.name == other {
					return v.printed(s, v.addr(node, n, pt), v.load(s, node, n, pt))
				}
			}
			return false
		}
	}
	// the token only if it is known to stand for the value
	token := either("StringExpr.Token")
	f.guards["StringExpr.Value"] = func(v *visitRun, s *S, node *T, n *types.Named) bool {
		if !token(v, s, node, n) {
			return false
		}
		var value *T
		for _, pt := range v.parts[n] {
			if pt.name == "StringExpr.Value" {
				value = v.load(s, node, n, pt)
			}
		}
		for k, val := range s.atoms {
			if !val || k.op != "==" || len(k.args) != 2 {
				continue
			}
			for i := range k.args {
				if k.args[i] == value && k.args[1-i].mentions(func(x *T) bool {
					return strings.Contains(x.String(), "Unquote")
				}) {
					return true
				}
			}
		}
		return false
	}
	f.guards["StringExpr.Token"] = either("StringExpr.Value")
	f.guards["LambdaExpr.Body"] = func(v *visitRun, s *S, node *T, n *types.Named) bool {
		for _, pt := range v.parts[n] {
			if pt.name == "LambdaExpr.Body" {
				el, _ := v.isList(pt.typ)
				return len(v.missing(s, v.elem(s, v.load(s, node, n, pt), el, v.e.tb.Int(0)), el, 1)) == 0
			}
		}
		return false
	}
	f.guards["SliceExpr.Step"] = func(v *visitRun, s *S, node *T, n *types.Named) bool {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != "SecondColon" {
				continue
			}
			ps, ok := st.Field(i).Type().Underlying().(*types.Struct)
			for j := 0; ok && j < ps.NumFields(); j++ {
				if ps.Field(j).Name() == "Byte" {
					b := v.e.Load(s.State, v.e.Field(v.e.Field(node, n, i), st.Field(i).Type(), j), ps.Field(j).Type())
					return v.e.Eval(s.State, v.e.tb.Eq(b, v.e.tb.Int(0))) == yes
				}
			}
		}
		return false
	}
	// the queue of comments for the end of the line
	f.lostQueue = map[*ssa.Function]bool{}
	isQueue := func(key string, t types.Type) bool {
		el, ok := f.isList(t)
		return ok && typeKey(el) == modPath+"/build.Comment" && strings.Contains(key, "/build.printer.")
	}
	f.queued = func(addr *T) bool {
		return addr.op == "field" && addr.typ != nil && isQueue(addr.aux, deref(addr.typ))
	}
	f.solve()
	nq := 0
	for _, g := range members {
		clears := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isQueue(fieldKey(fa.X.Type(), fa.Field), st.Val.Type()) {
						if cl, ok := st.Val.(*ssa.Call); ok {
							if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
								continue
							}
						}
						clears = true
					}
				}
			}
		}
		if clears {
			nq++
			c.Inst("comments", "queue cleared in "+funcName(g))
			if len(f.claims[g]) == 0 {
				f.run(g)
			}
		}
		if f.lostQueue[g] {
			c.Violate("queue:"+funcName(g), p.Pos(g.Pos()), "%s clears queued comments that have not been written", funcName(g))
		}
	}
	if nq == 0 {
		c.Violate("anchor:queue", p.Pos(root.Pos()), "no function of the printer clears the queue of comments")
	}
	f.report()
	for _, name := range entries {
		fn := p.Func("build", name)
		if fn == nil {
			continue
		}
		if len(f.claims[fn]) == 0 {
			c.Violate("entry:"+name, p.Pos(fn.Pos()), "%s does not print all of its argument on every path", name)
		}
	}
	c.Floor("parts", 50)
	c.Floor("entries", 4)
}

// staticReach is the set of functions called statically from fn, directly or not.
func staticReach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					rec(ci.Common().StaticCallee())
				}
			}
		}
	}
	rec(fn)
	return seen
}

func callsStatic(fn, callee *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == callee {
				return true
			}
		}
	}
	return false
}
