package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// writtenBack: what the callback of the walk puts in the place of a child ends up in the tree: the
// callback gets the address of the place itself, or that of a variable that is copied back.
func writtenBack(c *Ctx, once *ssa.Function) {
	p := c.P
	c.Rule("written-back", "the pointer the callback of the walk gets is that of the child's place in the tree, or of a variable whose value is stored there afterwards")
	fns := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || fns[fn] || relPkg(fn) != "build" || len(fn.Blocks) == 0 {
			return
		}
		fns[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for i, a := range ci.Common().Args {
						if isPtrCallback(a.Type()) && ci.Common().StaticCallee() != nil && i < len(ci.Common().StaticCallee().Params) {
							add(ci.Common().StaticCallee())
						}
					}
				}
			}
		}
	}
	add(once)
	var place func(v ssa.Value, at ssa.Instruction, depth int) bool
	place = func(v ssa.Value, at ssa.Instruction, depth int) bool {
		if depth > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return true
		case *ssa.IndexAddr:
			return inTree(x.X, 0)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !place(e, at, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			// a helper that hands the pointer on
			i, n := 0, 0
			for j, pa := range x.Parent().Params {
				if pa == x {
					i = j
				}
			}
			for fn := range fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						ci, ok := in.(ssa.CallInstruction)
						if !ok || ci.Common().StaticCallee() != x.Parent() {
							continue
						}
						n++
						if !place(ci.Common().Args[i], in, depth+1) {
							return false
						}
					}
				}
			}
			return n > 0
		case *ssa.Alloc:
			return copiedBack(x, at)
		}
		return false
	}
	n := 0
	for _, fn := range p.repoFuncs() {
		if !fns[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil || len(ci.Common().Args) != 1 || !isPtrCallback(ci.Common().Value.Type()) {
					continue
				}
				n++
				c.Inst("written-back", p.instrPos(in))
				if !place(ci.Common().Args[0], in, 0) {
					c.Violate("written-back:"+fn.Name()+":"+whatAt(ci.Common().Args[0]), p.instrPos(in), "%s gives its callback a pointer to a copy of a child: a replacement is lost", fn.Name())
				}
			}
		}
	}
	c.Floor("written-back", 10)
}

// isPtrCallback: func(*Expr)
func isPtrCallback(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return false
	}
	pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(typeKey(pt.Elem()), "build.Expr")
}

// inTree: a list that is stored in the tree, not a copy of one.
func inTree(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.Parameter:
		return true
	case *ssa.Slice:
		return inTree(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !inTree(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// whatAt names what a variable was loaded from.
func whatAt(v ssa.Value) string {
	if al, ok := v.(*ssa.Alloc); ok {
		for _, a := range originOf(al) {
			if k := placeKey(a); k != "" {
				return k
			}
		}
		return al.Comment
	}
	return ""
}

func placeKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(deref(x.X.Type()), x.Field)
	case *ssa.IndexAddr:
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			return placeKey(u.X) + "[]"
		}
	}
	return ""
}

// originOf: the places in memory a variable is set from.
func originOf(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != al {
			continue
		}
		v := st.Val
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			break
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			out = append(out, u.X)
		}
	}
	return out
}

// samePlace: two addresses of the same field, or of the same element of the same list.
func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && (x.X == y.X || samePlaceLoad(x.X, y.X))
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && x.Index == y.Index && (x.X == y.X || samePlaceLoad(x.X, y.X))
	}
	return false
}

func samePlaceLoad(a, b ssa.Value) bool {
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && samePlace(x.X, y.X)
}

// copiedBack: after the call, the variable's value is stored in the place it came from on every path,
// unless it is not of the kind of node the place is for.
func copiedBack(al *ssa.Alloc, call ssa.Instruction) bool {
	orig := originOf(al)
	if len(orig) == 0 {
		return false
	}
	from := map[ssa.Value]bool{}
	var derive func(v ssa.Value)
	derive = func(v ssa.Value) {
		if from[v] || v.Referrers() == nil {
			return
		}
		from[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.TypeAssert, *ssa.Extract, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Phi:
				derive(x.(ssa.Value))
			}
		}
	}
	for _, r := range *al.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && after(u, call) {
			derive(u)
		}
	}
	hits := map[*ssa.BasicBlock]bool{}
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !from[st.Val] {
				continue
			}
			for _, a := range orig {
				if samePlace(a, st.Addr) {
					if b == call.Block() && after(st, call) {
						return true
					}
					hits[b] = true
				}
			}
		}
	}
	if len(hits) == 0 {
		return false
	}
	// the edge on which the value is of another kind
	other := func(b, t *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] || t != b.Succs[1] {
			return false
		}
		e, ok := br.Cond.(*ssa.Extract)
		return ok && e.Index == 1 && from[e]
	}
	start := call.Block()
	end := func(t *ssa.BasicBlock) bool {
		_, ret := t.Instrs[len(t.Instrs)-1].(*ssa.Return)
		return ret || t.Dominates(start) && t != start
	}
	for _, s := range start.Succs {
		if hits[s] || other(start, s) {
			continue
		}
		if s == start || end(s) || !pathsPass(s, func(t *ssa.BasicBlock) bool { return end(t) || t == start }, func(t *ssa.BasicBlock) bool { return hits[t] }, other) {
			return false
		}
	}
	return true
}

func after(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return true
	}
	seen := false
	for _, in := range x.Block().Instrs {
		if in == y {
			seen = true
		} else if in == x {
			return seen
		}
	}
	return false
}
