package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which findings a comment suppresses.

// suppressionScope: a finding is suppressed by a comment that names its check in full, on a node whose lines
// (comments included) contain the finding's line; every node is asked.
func suppressionScope(c *Ctx) {
	p := c.P
	R := "suppressed-by"
	c.Rule(R, "a finding is suppressed exactly if a node whose lines contain the finding's line has a comment that names the check in full")
	root := p.Func("warn", "DisabledWarning")
	if root == nil || len(root.Params) != 3 {
		c.Violate("anchor:DisabledWarning", "", "warn.DisabledWarning not found")
		return
	}
	fam := []*ssa.Function{root}
	for i := 0; i < len(fam); i++ {
		fam = append(fam, fam[i].AnonFuncs...)
	}
	// the parameters, also where they are captured
	isParam := func(v ssa.Value, i int) bool { return capturedParam(v, root, i, 0) }
	// calls that ask a node
	isAsk := func(in ssa.Instruction) *ssa.Call {
		cc, ok := in.(*ssa.Call)
		if !ok || cc.Call.StaticCallee() == nil || !inRepo(cc.Call.StaticCallee()) || typeKey(cc.Type()) != "bool" || len(cc.Call.Args) != 2 {
			return nil
		}
		if typeKey(cc.Call.Args[0].Type()) != modPath+"/build.Expr" || !isStringType(cc.Call.Args[1].Type()) {
			return nil
		}
		return cc
	}
	n := 0
	for _, fn := range fam {
		hit := map[*ssa.BasicBlock]bool{}
		var asks []*ssa.Call
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc := isAsk(in); cc != nil {
					hit[b] = true
					asks = append(asks, cc)
				}
			}
		}
		if len(asks) == 0 {
			continue
		}
		n++
		c.Inst(R, "every node in "+funcName(fn))
		outermost(c, R, fn)
		for _, cc := range asks {
			if !isParam(cc.Call.Args[1], 2) {
				c.Violate(R+":name:"+funcName(fn), p.instrPos(cc), "a node's comments are not asked for the name of the check")
			}
			suppressionText(c, R, cc.Call.StaticCallee())
		}
		outside := func(b, t *ssa.BasicBlock) bool {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b.Succs[0] == b.Succs[1] {
				return false
			}
			return outsideEdge(p, br.Cond, t == b.Succs[0], func(v ssa.Value) bool { return isParam(v, 1) })
		}
		skip := func(b, t *ssa.BasicBlock) bool {
			if outside(b, t) {
				return true
			}
			// no node
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b.Succs[0] == b.Succs[1] {
				return false
			}
			cmp, ok := br.Cond.(*ssa.BinOp)
			if !ok || !isNilConst(cmp.Y) && !isNilConst(cmp.X) {
				return false
			}
			x := cmp.X
			if isNilConst(x) {
				x = cmp.Y
			}
			return typeKey(x.Type()) == modPath+"/build.Expr" && (cmp.Op == token.EQL) == (t == b.Succs[0])
		}
		start := fn.Blocks[0]
		end := isReturn
		if fn == root {
			// a loop over the nodes
			if h, _ := innerLoop(asks[0].Block()); h != nil {
				start = h
				if l := loopAt(h); l != nil {
					start = l.start
				}
				end = func(b *ssa.BasicBlock) bool { return b == h || isReturn(b) }
			}
		}
		known := func(b, t *ssa.BasicBlock) bool {
			// a node was found before
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b.Succs[0] == b.Succs[1] {
				return false
			}
			ld, ok := br.Cond.(*ssa.UnOp)
			return ok && ld.Op == token.MUL && typeKey(ld.Type()) == "bool" && t == b.Succs[0] && isCell(ld.X)
		}
		if !hit[start] && !pathsPass(start, end, func(b *ssa.BasicBlock) bool { return hit[b] }, func(b, t *ssa.BasicBlock) bool { return skip(b, t) || known(b, t) }) {
			c.Violate(R+":every:"+funcName(fn), p.Pos(fn.Pos()), "a node whose lines contain the finding's may not be asked")
		}
		// only nodes that contain the line
		for _, k := range []string{"start", "end"} {
			for _, cc := range asks {
				target := cc.Block()
				ok := pathsPass(fn.Blocks[0], func(b *ssa.BasicBlock) bool { return b == target }, func(b *ssa.BasicBlock) bool { return false }, func(b, t *ssa.BasicBlock) bool {
					br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok || b.Succs[0] == b.Succs[1] {
						return false
					}
					return insideEdge(p, br.Cond, t == b.Succs[0], k, func(v ssa.Value) bool { return isParam(v, 1) })
				})
				if !ok {
					c.Violate(R+":"+k+":"+funcName(fn), p.instrPos(cc), "a comment of a node may suppress a finding outside of the node's lines (%s)", k)
				}
			}
		}
		// the answer counts
		for _, cc := range asks {
			for _, ref := range *cc.Referrers() {
				br, ok := ref.(*ssa.If)
				if !ok {
					continue
				}
				b := br.Block()
				set := func(t *ssa.BasicBlock) bool {
					for _, in := range t.Instrs {
						if st, ok := in.(*ssa.Store); ok && isTrue(st.Val) {
							return true
						}
						if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 && isTrue(r.Results[0]) {
							return true
						}
					}
					return false
				}
				c.Inst(R, "answer in "+funcName(fn))
				if !set(b.Succs[0]) && !pathsPass(b.Succs[0], end, set, nil) {
					c.Violate(R+":answer:"+funcName(fn), p.instrPos(cc), "a suppressing comment may be ignored")
				}
			}
		}
		// nothing else suppresses, and nothing takes the answer back
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || typeKey(st.Val.Type()) != "bool" || !isCell(st.Addr) {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); ok && !isTrue(k) {
					if fn != root {
						c.Violate(R+":back:"+funcName(fn), p.instrPos(in), "an answer may be taken back")
					}
					continue
				}
				good := false
				for _, cc := range asks {
					if st.Val == ssa.Value(cc) {
						c.Violate(R+":back:"+funcName(fn), p.instrPos(in), "a later node's answer may replace an earlier one's")
					}
					for _, ref := range *cc.Referrers() {
						if br, ok := ref.(*ssa.If); ok {
							s := br.Block().Succs[0]
							if len(s.Preds) == 1 && s.Dominates(b) {
								good = true
							}
						}
					}
				}
				if ph, ok := st.Val.(*ssa.Phi); ok {
					good = good || orOf(ph, asks)
				}
				if !good {
					c.Violate(R+":other:"+funcName(fn), p.instrPos(in), "a finding may be suppressed without a comment")
				}
			}
		}
	}
	if n == 0 {
		c.Violate("anchor:"+R, p.Pos(root.Pos()), "the place where nodes are asked for suppressing comments was not found")
	}
	c.Floor(R, 3)
}

// orOf: found || ask(node).
func orOf(ph *ssa.Phi, asks []*ssa.Call) bool {
	ok := false
	for _, e := range ph.Edges {
		if isTrue(e) {
			continue
		}
		is := false
		for _, a := range asks {
			is = is || e == ssa.Value(a)
		}
		if !is {
			return false
		}
		ok = true
	}
	return ok
}

func isTrue(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.String() == "true"
}

// isCell: the address of a local variable, here or in the function around it.
func isCell(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FreeVar, *ssa.Alloc:
		return true
	}
	return false
}

// capturedParam: v is the i-th parameter of root, as it is, maybe captured by a function literal.
func capturedParam(v ssa.Value, root *ssa.Function, i, depth int) bool {
	if depth > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent() == root && root.Params[i] == x
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		return capturedParam(x.X, root, i, depth+1)
	case *ssa.Alloc:
		n := 0
		ok := false
		for _, ref := range *x.Referrers() {
			if st, is := ref.(*ssa.Store); is && st.Addr == x {
				n++
				ok = capturedParam(st.Val, root, i, depth+1)
			}
		}
		return n == 1 && ok
	case *ssa.FreeVar:
		fn := x.Parent()
		for k, fv := range fn.FreeVars {
			if fv != x || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						return capturedParam(mc.Bindings[k], root, i, depth+1)
					}
				}
			}
		}
	}
	return false
}

// spanLine: v is the line a node's span (or that of one of its comments) starts or ends in, as it is.
func spanLine(p *Prog, v ssa.Value) (start, end bool) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !visit(e) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			return x.Op == token.MUL && visit(x.X)
		case *ssa.FieldAddr:
			return visit(x.X)
		case *ssa.Field:
			return visit(x.X)
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == x && !visit(st.Val) {
					return false
				}
				if fa, ok := ref.(*ssa.FieldAddr); ok {
					for _, r := range *fa.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == fa {
							return false
						}
					}
				}
			}
			return true
		case *ssa.Extract:
			cc, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			if f := cc.Call.StaticCallee(); f != nil && f.Name() != "Span" && inRepo(f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !visit(r.Results[x.Index]) {
						return false
					}
				}
				return true
			}
			if calledName(cc) != "Span" {
				return false
			}
			if list, ia := commentOf(cc); ia != nil {
				// of the comments, the outermost one
				first := constIs(ia.Index, 0)
				last := false
				if b, ok := ia.Index.(*ssa.BinOp); ok && b.Op == token.SUB && constIs(b.Y, 1) {
					last = lenArg(b.X) != nil
				}
				if list == "Before" && !(first && x.Index == 0) || list == "After" && !(last && x.Index == 1) {
					return false
				}
			}
			start = start || x.Index == 0
			end = end || x.Index == 1
			return true
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || !inRepo(f) {
				return false
			}
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(r.Results) != 1 || !visit(r.Results[0])) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !visit(v) || start == end {
		return false, false
	}
	return
}

// outermost: the lines of a node begin with its first comment before it, if it has one, and end with its last one
// after it.
func outermost(c *Ctx, R string, fn *ssa.Function) {
	p := c.P
	found := map[string]bool{}
	for g := range p.reachableFrom(fn) {
		if g != fn && relPkg(g) != "warn" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || calledName(cc) != "Span" {
					continue
				}
				list, _ := commentOf(cc)
				if list != "Before" && list != "After" {
					continue
				}
				found[list] = true
				if len(b.Preds) != 1 {
					continue
				}
				br, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				if cmp, ok := br.Cond.(*ssa.BinOp); ok && lenArg(cmp.X) != nil {
					yes := b == b.Preds[0].Succs[0]
					some := constIs(cmp.Y, 0) && (yes && (cmp.Op == token.GTR || cmp.Op == token.NEQ) || !yes && (cmp.Op == token.EQL || cmp.Op == token.LEQ)) ||
						constIs(cmp.Y, 1) && (yes && cmp.Op == token.GEQ || !yes && cmp.Op == token.LSS)
					if !some {
						c.Violate(R+":"+list+":"+funcName(g), p.instrPos(cc), "the lines of a node do not always include its %s comments", list)
					}
				}
			}
		}
	}
	for _, l := range []string{"Before", "After"} {
		c.Inst(R, l+" comments in "+funcName(fn))
		if !found[l] {
			c.Violate(R+":"+l+":"+funcName(fn), p.Pos(fn.Pos()), "the lines of a node do not include its %s comments", l)
		}
	}
}

// commentOf: the call asks a comment of a node, an element of one of its lists.
func commentOf(cc *ssa.Call) (string, *ssa.IndexAddr) {
	if cc.Call.IsInvoke() || len(cc.Call.Args) == 0 {
		return "", nil
	}
	x := cc.Call.Args[0]
	if u, ok := x.(*ssa.UnOp); ok {
		x = u.X
	}
	ia, ok := x.(*ssa.IndexAddr)
	if !ok {
		return "", nil
	}
	u, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return "", nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	_, f, _ := strings.Cut(fieldKey(deref(fa.X.Type()), fa.Field), "Comments.")
	return f, ia
}

func calledName(cc *ssa.Call) string {
	if cc.Call.IsInvoke() {
		return cc.Call.Method.Name()
	}
	if f := cc.Call.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// lineCmp: the condition, having that outcome, relates the finding's line to a line: the relation as line OP bound.
func lineCmp(cond ssa.Value, yes bool, isLine func(ssa.Value) bool) (token.Token, ssa.Value) {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return lineCmp(u.X, !yes, isLine)
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return token.ILLEGAL, nil
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	swap := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
	if neg[op] == 0 {
		return token.ILLEGAL, nil
	}
	if isLine(y) {
		x, y, op = y, x, swap[op]
	}
	if !isLine(x) {
		return token.ILLEGAL, nil
	}
	if !yes {
		op = neg[op]
	}
	return op, y
}

func outsideEdge(p *Prog, cond ssa.Value, yes bool, isLine func(ssa.Value) bool) bool {
	op, bound := lineCmp(cond, yes, isLine)
	if bound == nil {
		return false
	}
	s, e := spanLine(p, bound)
	return op == token.LSS && s || op == token.GTR && e
}

func insideEdge(p *Prog, cond ssa.Value, yes bool, k string, isLine func(ssa.Value) bool) bool {
	op, bound := lineCmp(cond, yes, isLine)
	if bound == nil {
		return false
	}
	s, e := spanLine(p, bound)
	return k == "start" && op == token.GEQ && s || k == "end" && op == token.LEQ && e
}

const theParam = "\x00"

// stringSet: the strings a value built from constants and the given parameter may be (the parameter as theParam);
// nil if unknown.
func stringSet(v ssa.Value, param *ssa.Parameter, depth int) []string {
	if depth > 8 {
		return nil
	}
	if v == ssa.Value(param) {
		return []string{theParam}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}
		}
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return nil
		}
		var out []string
		for _, l := range stringSet(x.X, param, depth+1) {
			for _, r := range stringSet(x.Y, param, depth+1) {
				out = append(out, l+r)
			}
		}
		return out
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			s := stringSet(e, param, depth+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok || x.Op != token.MUL {
			return nil
		}
		base := ia.X
		if sl, ok := base.(*ssa.Slice); ok {
			base = sl.X
		}
		al, ok := base.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var out []string
		for _, ref := range *al.Referrers() {
			ea, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r := range *ea.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ea {
					s := stringSet(st.Val, param, depth+1)
					if s == nil {
						return nil
					}
					out = append(out, s...)
				}
			}
		}
		return out
	}
	return nil
}

// suppressionText: what is looked for in the comments.
func suppressionText(c *Ctx, R string, ask *ssa.Function) {
	p := c.P
	c.Inst(R, "text looked for by "+funcName(ask))
	key := R + ":text:" + funcName(ask)
	if len(ask.Params) != 2 {
		c.Violate(key, p.Pos(ask.Pos()), "the function that looks at a node's comments takes something else than a node and a name")
		return
	}
	marks := map[string]bool{}
	for _, b := range ask.Blocks {
		for _, in := range b.Instrs {
			cc, ok := in.(*ssa.Call)
			if !ok || cc.Call.StaticCallee() == nil || !inRepo(cc.Call.StaticCallee()) || typeKey(cc.Type()) != "bool" {
				continue
			}
			for _, a := range cc.Call.Args {
				if !isStringType(a.Type()) {
					continue
				}
				texts := stringSet(a, ask.Params[1], 0)
				if len(texts) == 0 {
					c.Violate(key, p.instrPos(in), "the text looked for is not the name of the check after \"disable=\"")
					continue
				}
				for _, t := range texts {
					pre := strings.TrimSuffix(t, theParam)
					if pre == t || !strings.HasSuffix(pre, "disable=") {
						c.Violate(key, p.instrPos(in), "the text looked for is not the name of the check after \"disable=\"")
					}
					marks[pre] = true
				}
				wholeName(c, R, cc.Call.StaticCallee())
			}
			node := false
			for _, a := range cc.Call.Args {
				node = node || a == ssa.Value(ask.Params[0])
			}
			if !node {
				c.Violate(key+":node", p.instrPos(in), "the comments looked at are not the node's")
			}
		}
	}
	for _, m := range []string{"buildifier: disable=", "buildozer: disable="} {
		if !marks[m] {
			c.Violate(key+":"+m, p.Pos(ask.Pos()), "comments with %q are not looked for", m)
		}
	}
}

// wholeName: the function that looks for the text finds it only if no longer name follows, and looks at all comments.
func wholeName(c *Ctx, R string, fn *ssa.Function) {
	p := c.P
	key := R + ":whole:" + funcName(fn)
	c.Inst(R, "match in "+funcName(fn))
	for _, f := range []string{"Before", "After", "Suffix"} {
		found := false
		for g := range p.reachableFrom(fn) {
			if inRepo(g) && p.readsField(g, "Comments."+f) {
				found = true
			}
		}
		if !found {
			c.Violate(key+":"+f, p.Pos(fn.Pos()), "the %s comments of a node are not looked at", f)
		}
	}
	// what follows the text is looked at
	follows := func(v ssa.Value) bool {
		for x := range p.sliceOf(v).vals {
			switch y := x.(type) {
			case *ssa.Lookup:
				if isStringType(y.X.Type()) {
					return true
				}
			case *ssa.Index:
				return true
			case *ssa.Slice:
				if isStringType(y.X.Type()) {
					return true
				}
			case *ssa.Call:
				n := p.staticName(&y.Call)
				if n == "strings.Cut" || n == "strings.HasPrefix" || n == "strings.FieldsFunc" || n == "strings.Fields" || strings.HasPrefix(n, "(*regexp.Regexp).") {
					return true
				}
			}
		}
		return false
	}
	any := false
	seen := map[*ssa.Function]bool{}
	var check func(fn *ssa.Function)
	delegate := func(v ssa.Value) bool {
		cc, ok := v.(*ssa.Call)
		if !ok || typeKey(cc.Type()) != "bool" {
			return false
		}
		g := cc.Call.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		str := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok && strings.HasPrefix(p.staticName(&cc.Call), "strings.") {
					str = true
				}
			}
		}
		if str {
			check(g)
		}
		return str
	}
	check = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		cond := func(b *ssa.BasicBlock) bool {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			if delegate(br.Cond) {
				return true
			}
			if ex, ok := br.Cond.(*ssa.Extract); ok && typeKey(ex.Type()) == "bool" {
				// just whether the text was found
				return false
			}
			return follows(br.Cond)
		}
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			if k, ok := r.Results[0].(*ssa.Const); ok && !isTrue(k) {
				continue
			}
			any = true
			if delegate(r.Results[0]) {
				continue
			}
			if ph, ok := r.Results[0].(*ssa.Phi); ok && typeKey(ph.Type()) == "bool" {
				all := true
				for _, e := range ph.Edges {
					if _, ok := e.(*ssa.Const); !ok && !delegate(e) && !follows(e) {
						all = false
					}
				}
				if !all {
					c.Violate(key, p.instrPos(r), "the name of another check that begins with this one's name is taken for it")
				}
				if ph.Block() == b {
					// the edges that say yes
					for i, e := range ph.Edges {
						pre := b.Preds[i]
						if isTrue(e) && !pathsPass(fn.Blocks[0], func(x *ssa.BasicBlock) bool { return x == pre && !cond(x) }, cond, nil) {
							c.Violate(key, p.instrPos(r), "the name of another check that begins with this one's name is taken for it")
						}
					}
					continue
				}
			}
			target := b
			ok = pathsPass(fn.Blocks[0], func(x *ssa.BasicBlock) bool { return x == target }, cond, nil)
			if !ok && !follows(r.Results[0]) {
				c.Violate(key, p.instrPos(r), "the name of another check that begins with this one's name is taken for it")
			}
		}
	}
	check(fn)
	if !any {
		c.Violate(key, p.Pos(fn.Pos()), "the text is never found")
	}
	// names of checks have dashes in them
	dash, words := false, false
	for g := range p.reachableFrom(fn) {
		if !inRepo(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok {
					n := p.staticName(&cc.Call)
					words = words || n == "strings.Fields" || n == "strings.Split" || strings.HasPrefix(n, "(*regexp.Regexp).")
				}
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					if k.Value.Kind() == constant.Int {
						if i, ok := constant.Int64Val(k.Value); ok && i == '-' {
							dash = true
						}
					} else if k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "-") {
						dash = true
					}
				}
			}
		}
	}
	if !dash && !words {
		c.Violate(key+":dash", p.Pos(fn.Pos()), "a dash ends the name of a check")
	}
}

// ruleChecks: a check for single rules is called for the statements of the file up to the last one, and what it finds
// is kept.
func ruleChecks(c *Ctx) {
	p := c.P
	R := "each-rule"
	c.Rule(R, "the loop that runs a check for single rules over the statements of a file does not end early, and keeps each finding")
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "warn" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || cc.Call.IsInvoke() || cc.Call.StaticCallee() != nil || typeKey(cc.Type()) != "*"+modPath+"/warn.LinterFinding" {
					continue
				}
				c.Inst(R, "call of a check in "+funcName(fn))
				key := R + ":" + funcName(fn)
				h, body := innerLoop(b)
				var kept func(t *ssa.BasicBlock) bool
				kept = func(t *ssa.BasicBlock) bool {
					for _, x := range t.Instrs {
						if a, ok := x.(*ssa.Call); ok && isAppend(a) {
							for _, el := range appendedElems(a.Call.Args[1]) {
								if madeOf(el, cc) {
									return true
								}
							}
						}
						if r, ok := x.(*ssa.Return); ok {
							for _, res := range r.Results {
								if res == ssa.Value(cc) {
									return true
								}
							}
						}
					}
					return false
				}
				none := func(x, t *ssa.BasicBlock) bool {
					br, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
					if !ok {
						return false
					}
					cmp, ok := br.Cond.(*ssa.BinOp)
					if !ok || !(madeOf(cmp.X, cc) && isNilConst(cmp.Y) || madeOf(cmp.Y, cc) && isNilConst(cmp.X)) {
						return false
					}
					return cmp.Op == token.EQL && t == x.Succs[0] || cmp.Op == token.NEQ && t == x.Succs[1]
				}
				if !kept(b) && !pathsPass(b, func(t *ssa.BasicBlock) bool { return t == h || isReturn(t) }, kept, none) {
					c.Violate(key+":kept", p.instrPos(cc), "what a check for single rules finds may be dropped")
				}
				if h == nil {
					continue // called for each statement elsewhere
				}
				if l := loopAt(h); l == nil {
					c.Violate(key+":all", p.instrPos(cc), "it cannot be seen that the check is called for all statements")
				} else if sl, ok := l.over.(*ssa.Slice); ok && !trivialSlice(sl) {
					c.Violate(key+":all", p.instrPos(cc), "the check is not called for all statements")
				}
				if x := exitsEarly(h, body); x != nil {
					c.Violate(key+":exit", p.instrPos(x.Instrs[len(x.Instrs)-1]), "the loop over the statements can end before the last one")
				}
			}
		}
	}
	c.Floor(R, 1)
}

// madeOf: a value, or a choice of values one of which it is.
func madeOf(v ssa.Value, want ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == want {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if rec(e) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}
