package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// verbatim: what the tree holds of the source's text is the text that was read, not something made from it.
func verbatim(c *Ctx, p *Prog, parse *ssa.Function) {
	c.Rule("verbatim", "the text of a token is the part of the input that was read for it, the value of a string literal what unquoting it gives, and the names, numbers, operators, strings and comments of the tree are set to these texts (or to constants, or to them joined) and to nothing computed from them, but for white space cut off their ends")
	fns := map[*ssa.Function]bool{}
	for g := range staticReach(parse) {
		fns[g] = true
	}
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "build" || fn.Signature.Recv() == nil {
			continue
		}
		if typeKey(fn.Signature.Recv().Type()) == "*"+modPath+"/build.input" {
			for g := range staticReach(fn) {
				fns[g] = true
			}
		}
	}
	_, nodes := p.astNodes()
	isNode := map[string]bool{modPath + "/build.Comment": true}
	for _, n := range nodes {
		isNode[typeKey(n)] = true
	}
	field := func(v ssa.Value) (string, string, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return "", "", false
		}
		st := deref(fa.X.Type())
		k := fieldKey(st, fa.Field)
		s, ok := st.Underlying().(*types.Struct)
		if !ok {
			return "", "", false
		}
		b, ok := s.Field(fa.Field).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			return "", "", false
		}
		return typeKey(st), k, true
	}
	const sym = modPath + "/build.yySymType"
	type key struct {
		v    ssa.Value
		kind string
	}
	var ok func(v ssa.Value, kind string, depth int, seen map[key]bool) bool
	ok = func(v ssa.Value, kind string, depth int, seen map[key]bool) bool {
		if depth > 12 {
			return false
		}
		if seen[key{v, kind}] {
			return true
		}
		seen[key{v, kind}] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ok(e, kind, depth+1, seen) {
					return false
				}
			}
			return true
		case *ssa.Convert:
			return kind != "str" && ok(x.X, kind, depth+1, seen)
		case *ssa.Slice:
			// a part of the input
			if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
				return false
			}
			return kind != "str" && ok(x.X, kind, depth+1, seen)
		case *ssa.ChangeType:
			return ok(x.X, kind, depth+1, seen)
		case *ssa.BinOp:
			// pieces of a number
			return kind == "node" && x.Op == token.ADD && ok(x.X, kind, depth+1, seen) && ok(x.Y, kind, depth+1, seen)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			t, k, isText := field(x.X)
			if isText && t == sym {
				return kind != "str" || strings.HasSuffix(k, ".str")
			}
			if isText && isNode[t] {
				return kind == "node"
			}
			if fa, is := x.X.(*ssa.FieldAddr); is && typeKey(deref(fa.X.Type())) == modPath+"/build.input" {
				return kind != "str" // the input
			}
			if al, is := x.X.(*ssa.Alloc); is {
				n := 0
				for _, r := range *al.Referrers() {
					if st, is := r.(*ssa.Store); is && st.Addr == al {
						n++
						if !ok(st.Val, kind, depth+1, seen) {
							return false
						}
					}
				}
				return n > 0
			}
			return false
		case *ssa.Field:
			t := typeKey(x.X.Type())
			return t == sym || isNode[t] && kind == "node"
		case *ssa.Extract:
			cl, is := x.Tuple.(*ssa.Call)
			if !is {
				return false
			}
			g := cl.Call.StaticCallee()
			if g != nil && g.Name() == "Unquote" && relPkg(g) == "build" && x.Index == 0 {
				return kind != "tok" && ok(cl.Call.Args[0], "tok", depth+1, seen)
			}
			return result(g, x.Index, func(r ssa.Value) bool { return ok(r, kind, depth+1, seen) })
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return false
			}
			if g.Pkg != nil && (g.Pkg.Pkg.Path() == "strings" || g.Pkg.Pkg.Path() == "bytes") {
				switch g.Name() {
				case "TrimSpace", "Clone":
					return ok(x.Call.Args[0], kind, depth+1, seen)
				case "TrimRight", "TrimSuffix", "TrimLeft", "Trim", "TrimPrefix":
					cut, is := x.Call.Args[1].(*ssa.Const)
					return is && strings.TrimSpace(constStr(cut)) == "" && ok(x.Call.Args[0], kind, depth+1, seen)
				}
				return false
			}
			return result(g, 0, func(r ssa.Value) bool { return ok(r, kind, depth+1, seen) })
		case *ssa.Parameter:
			fn := x.Parent()
			i, n := -1, 0
			for j, pa := range fn.Params {
				if pa == x {
					i = j
				}
			}
			for g := range fns {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						cl, is := in.(ssa.CallInstruction)
						if !is || cl.Common().StaticCallee() != fn {
							continue
						}
						n++
						if !ok(cl.Common().Args[i], kind, depth+1, seen) {
							return false
						}
					}
				}
			}
			return n > 0
		}
		return false
	}
	for _, fn := range p.repoFuncs() {
		if !fns[fn] || relPkg(fn) != "build" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, is := in.(*ssa.Store)
				if !is {
					continue
				}
				t, k, isText := field(st.Addr)
				if !isText {
					continue
				}
				short := k[strings.LastIndex(k, "/")+1:]
				kind := ""
				switch {
				case t == sym && strings.HasSuffix(k, ".tok"):
					kind = "tok"
				case t == sym && strings.HasSuffix(k, ".str"):
					kind = "str"
				case isNode[t] && t != modPath+"/build.File":
					kind = "node"
				default:
					continue
				}
				c.Inst("verbatim", short+" "+p.instrPos(in))
				if !ok(st.Val, kind, 0, map[key]bool{}) {
					c.Violate("verbatim:"+funcName(fn)+":"+short, p.instrPos(in), "%s is not set to the text that was read (%s)", short, funcName(fn))
				}
			}
		}
	}
	c.Floor("verbatim", 20)
}

// result: the function returns only values that are accepted.
func result(g *ssa.Function, i int, ok func(v ssa.Value) bool) bool {
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && i < len(ret.Results) {
			n++
			if !ok(ret.Results[i]) {
				return false
			}
		}
	}
	return n > 0
}
