package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: a buildozer command that changes the tree says so.

func init() {
	register("P17", changesReported)
}

func isFixSig(sig *types.Signature) bool {
	if sig == nil || sig.Results().Len() != 1 || sig.Recv() != nil || typeKey(sig.Results().At(0).Type()) != "bool" {
		return false
	}
	n := sig.Params().Len()
	if n == 0 || typeKey(sig.Params().At(0).Type()) != "*"+modPath+"/build.File" {
		return false
	}
	return n == 1 || n == 3 && typeKey(sig.Params().At(1).Type()) == "*"+modPath+"/build.Rule"
}

func changesReported(c *Ctx) {
	p := c.P
	e := p.Effects()
	ast := e.astTypes()
	c.Rule("reported", "on every path of a command on which a statement that modifies the file's tree was executed, the command returns the file (or an error)")
	tab := p.commandTable()
	var names []string
	for n := range tab {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[*ssa.Function]bool{}
	for _, n := range names {
		fn := tab[n].fn
		if fn == nil {
			c.Violate("anchor:"+n, "", "the function of command %s is not found", n)
			continue
		}
		if done[fn] {
			continue
		}
		done[fn] = true
		c.Inst("reported", n+" "+funcName(fn))
		reportFunc(c, e, ast, fn, tab[n])
	}
	c.Floor("reported", 25)
}

func reportFunc(c *Ctx, e *Effects, ast map[string]bool, root *ssa.Function, ent cmdEntry) {
	p := c.P
	sites := map[ssa.Instruction]bool{}
	webs := map[ssa.Instruction]map[*ssa.Phi]bool{}
	inWeb := map[*ssa.Phi]ssa.Instruction{}
	for _, m := range e.Muts(root) {
		if !e.isASTMut(root, m, ast) || m.site == nil {
			continue
		}
		sites[m.site] = true
		if web := rebuilt(m.site); web != nil {
			webs[m.site] = web
			for ph := range web {
				inWeb[ph] = m.site
			}
		}
	}
	if len(sites) == 0 {
		return
	}
	inFns := map[*ssa.Function]bool{}
	for s := range sites {
		inFns[s.Parent()] = true
	}
	rel := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool { return sites[in] })
	bad := map[string]string{}
	pos := map[string]string{}
	r := &Rule{Relevant: rel}
	r.EnvKey = func(e2 *Engine, s *S, v ssa.Value, t *T) int {
		if isBoolType(v.Type()) && t.op == "const" {
			return t.id + 1
		}
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			for ph := range inWeb {
				if v != ssa.Value(ph) && ph.Parent() == v.Parent() && s.env[ph] == t {
					return 1
				}
			}
		}
		return 0
	}
	r.Reset = func() { bad = map[string]string{} }
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
		if !rel[fn] {
			return false, false
		}
		if isFixSig(fn.Signature) {
			return false, true
		}
		return true, true
	}
	mark := func(s *S, in ssa.Instruction) {
		if s.ev["mut"] == "" {
			s.ev["mut"] = funcName(in.Parent())
		}
	}
	r.OnStore = func(e2 *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
		if webs[in] != nil {
			// a list built anew: changed if an element was left out
			if s.ev["drop:"+p.instrPos(in)] != "" {
				mark(s, in)
			}
			return
		}
		if sites[in] {
			mark(s, in)
		}
	}
	r.OnEdge = func(e2 *Engine, fr *Frame, s *S, from, to *ssa.BasicBlock, phis bool) {
		if phis {
			return
		}
		back := to.Dominates(from)
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			st := inWeb[ph]
			if st == nil {
				continue
			}
			if !back {
				delete(s.ev, "drop:"+p.instrPos(st))
				continue
			}
			for k, pr := range to.Preds {
				if pr == from && e2.val(fr, s, ph.Edges[k]) == s.env[ph] {
					s.ev["drop:"+p.instrPos(st)] = "1"
				}
			}
		}
	}
	r.OnCall = func(e2 *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		if noReturn[name] || name == "os.Exit" {
			return nil, true
		}
		if !cc.IsInvoke() && isFixSig(cc.Signature()) {
			// a fix: judged by itself
			e2.havocCall(fr, s, in, cc, e2.val(fr, s, cc.Value), args)
			no := s.fork()
			mark(s, in)
			return []Out{{s, e2.tb.Bool(true)}, {no, e2.tb.Bool(false)}}, true
		}
		if sites[in] {
			mark(s, in)
		}
		return nil, false
	}
	r.OnReturn = func(e2 *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn != root {
			// the value of an attribute that is present is not nil
			for i, v := range vals {
				if i < len(in.Results) && loadsField(in.Results[i], "AssignExpr.RHS") {
					e2.Assume(s.State, e2.tb.mk("==", "", v, e2.tb.Nil()), false)
				}
			}
			return
		}
		if s.ev["mut"] == "" {
			return
		}
		if len(vals) != 2 || e2.nonNil(s.State, vals[1]) || e2.Eval(s.State, e2.tb.mk("==", "", vals[0], e2.tb.Nil())) != yes && !mayBeNilResult(vals[0]) {
			return
		}
		k := s.ev["mut"]
		e2.why(s, "report "+funcName(root))
		bad[k], pos[k] = p.instrPos(in), fr.Path()
	}
	eng := newEngine(c, r)
	eng.Cap = 400
	_, err := eng.Run(root, func(s *S, ps []*T) {
		for i, pa := range root.Params {
			st, ok := pa.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for j := 0; j < st.NumFields(); j++ {
				f := eng.fieldVal(s.State, ps[i], fieldKey(pa.Type(), j), st.Field(j).Type())
				if typeKey(st.Field(j).Type()) == "*"+modPath+"/build.File" {
					eng.Assume(s.State, eng.tb.mk("==", "", f, eng.tb.Nil()), false)
				}
				if st.Field(j).Name() == "Args" {
					s.lo[eng.tb.Len(f)] = ent.min
				}
			}
		}
	})
	if err != nil {
		c.Violate("undecided:"+funcName(root), p.Pos(root.Pos()), "%v", err)
		return
	}
	c.flowStats(eng)
	for k, at := range bad {
		c.Violate("reported:"+funcName(root)+":"+k, at, "%s may return as if nothing had changed after %s has modified the tree", funcName(root), k)
	}
}

// rebuilt returns, for an assignment of a list that was built anew, the values of the list in the
// loops that build it.
func rebuilt(in ssa.Instruction) map[*ssa.Phi]bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil
	}
	if _, ok := st.Val.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	web := map[*ssa.Phi]bool{}
	seen := map[ssa.Value]bool{}
	var fresh func(v ssa.Value) bool
	fresh = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.Phi:
			web[x] = true
			for _, ed := range x.Edges {
				if !fresh(ed) {
					return false
				}
			}
			return true
		case *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			_, ok := x.X.(*ssa.Alloc)
			return ok
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return fresh(x.Call.Args[0])
			}
		}
		return false
	}
	if !fresh(st.Val) || len(web) == 0 {
		return nil
	}
	// it is made of the elements of a list of the same type
	for v := range seen {
		c, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		for _, el := range appendedElems(c.Call.Args[1]) {
			if u, ok := el.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type(), st.Val.Type()) {
					return web
				}
			}
		}
	}
	return nil
}

func loadsField(v ssa.Value, field string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), field)
}

// mayBeNilResult: the result of a call that was not looked into.
func mayBeNilResult(t *T) bool {
	return t.op == "nil" || strings.HasPrefix(t.op, "call") || t.op == "unknown" || t.op == "phi"
}
