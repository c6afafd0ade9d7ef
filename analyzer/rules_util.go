package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// errField finds the error-typed field of a struct type.
func errField(t types.Type) (string, types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == "error" {
			return fieldKey(t, i), st.Field(i).Type()
		}
	}
	return "", nil
}

// tempField: the struct field only ever receives lists of names of temporary files.
func tempField(field string) bool {
	for _, fn := range theProg.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X.Type(), fa.Field) != field {
					continue
				}
				if !tempList(st.Val, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return true
}

// tempElems: the slice is such a field, or a local list of temporary-file names.
func tempElems(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return tempField(fieldKey(fa.X.Type(), fa.Field))
		}
	}
	if _, ok := v.(*ssa.Parameter); ok {
		return paramAll(v.(*ssa.Parameter), tempElems)
	}
	return tempList(v, map[ssa.Value]bool{})
}

// tempList: v is nil/empty, the field itself, or an append of temporary-file names to it.
func tempList(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !tempList(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // load of the field or of a local copy
		if _, ok := v.X.(*ssa.FieldAddr); ok {
			return true
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && !tempList(st.Val, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok { // array literal: check its elements
			for _, r := range *a.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && !isTempFileName(st.Val, map[ssa.Value]bool{}) {
						return false
					}
				}
			}
			return true
		}
		return tempList(v.X, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range v.Call.Args {
				if !tempList(a, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func isTempFileName(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.String() != "(*os.File).Name" {
			return false
		}
		return isTempFile(v.Call.Args[0], map[ssa.Value]bool{})
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !isTempFileName(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			return tempElems(ia.X)
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && !isTempFileName(st.Val, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Parameter:
		// every caller passes a temporary file's name
		return paramAll(v, func(a ssa.Value) bool { return isTempFileName(a, seen) })
	}
	return false
}

func isTempFile(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			return f != nil && fsTemp[f.String()]
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && !isTempFile(st.Val, seen) {
					return false
				}
			}
			return true
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			_ = fv
			return false
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !isTempFile(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return paramAll(v, func(a ssa.Value) bool { return isTempFile(a, seen) })
	}
	return false
}

func paramAll(v *ssa.Parameter, ok func(ssa.Value) bool) bool {
	fn := v.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == v {
			idx = i
		}
	}
	refs := fn.Referrers()
	_ = refs
	n := 0
	for _, caller := range theProg.repoFuncs() {
		for _, b := range caller.Blocks {
			for _, in := range b.Instrs {
				ci, isC := in.(ssa.CallInstruction)
				if !isC || ci.Common().StaticCallee() != fn {
					continue
				}
				n++
				if idx >= len(ci.Common().Args) || !ok(ci.Common().Args[idx]) {
					return false
				}
			}
		}
	}
	return n > 0
}

var theProg *Prog

// whoMayWrite checks that no function outside allowed, reachable from root, modifies the file system.
func whoMayWrite(c *Ctx, rootFn *ssa.Function, rule string, allowed func(*ssa.Function) bool) {
	p := c.P
	reach := p.reachableFrom(rootFn)
	var fns []*ssa.Function
	for f := range reach {
		if inRepo(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		if allowed(fn) {
			continue
		}
		c.Inst(rule, funcName(fn))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := p.staticName(ci.Common())
				if _, bad := fsWrites[n]; bad || fsTemp[n] || n == "os/exec.Command" {
					c.Violate("writes:"+funcName(fn)+":"+n, p.instrPos(in), "%s, reachable from %s, calls %s", funcName(fn), funcName(rootFn), n)
				}
			}
		}
	}
}

// reachableFrom is the set of functions reachable in the call graph.
func (p *Prog) reachableFrom(roots ...*ssa.Function) map[*ssa.Function]bool {
	cg := p.CallGraph()
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, roots...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if f == nil || seen[f] {
			continue
		}
		seen[f] = true
		if n := cg.Nodes[f]; n != nil {
			for _, ed := range n.Out {
				work = append(work, ed.Callee.Func)
			}
		}
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					work = append(work, mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, a := range ci.Common().Args {
						if g := funcOf(a); g != nil {
							work = append(work, g)
						}
					}
				}
			}
		}
	}
	return seen
}

// constStr renders a string constant's value ("" for other constants).
func constStr(k *ssa.Const) string {
	if k.Value == nil || k.Value.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(k.Value)
}

// innerLoop is the smallest natural loop containing b: its header and blocks.
func innerLoop(b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var head *ssa.BasicBlock
	var best map[*ssa.BasicBlock]bool
	for _, h := range b.Parent().Blocks {
		body := map[*ssa.BasicBlock]bool{}
		for _, t := range h.Preds {
			if !h.Dominates(t) {
				continue
			}
			body[h] = true
			work := []*ssa.BasicBlock{t}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
		if body[b] && (best == nil || len(body) < len(best)) {
			head, best = h, body
		}
	}
	return head, best
}

// everyIteration: the loop around b runs b in every iteration and ends only at its header.
func everyIteration(b *ssa.BasicBlock) bool {
	h, body := innerLoop(b)
	if h == nil {
		return false
	}
	for x := range body {
		for _, s := range x.Succs {
			if s == h && !b.Dominates(x) {
				return false
			}
			if !body[s] && x != h {
				return false
			}
		}
	}
	return true
}
