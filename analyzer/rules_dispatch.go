package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", dispatchRules,
		"which rules a target name stands for is decided by the lookup functions of the library; bufio and strings behave as documented")
}

// dispatch: every command given to buildozer is executed on every target it is given for.
type dispatch struct {
	c    *Ctx
	p    *Prog
	fns  []*ssa.Function
	hits map[string]map[*ssa.Function]map[*ssa.BasicBlock]bool
}

// hitBlocks: the blocks of fn that run an instruction pred accepts, or call a function of the package that does on
// every path on which no error occurs.
func (d *dispatch) hitBlocks(name string, fn *ssa.Function, pred func(in ssa.Instruction) bool) map[*ssa.BasicBlock]bool {
	if d.hits[name] == nil {
		d.hits[name] = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	}
	if h, ok := d.hits[name][fn]; ok {
		return h
	}
	out := map[*ssa.BasicBlock]bool{}
	d.hits[name][fn] = out
	res := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				res[b] = true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
				g = mc.Fn.(*ssa.Function)
			}
			if g == nil || g == fn || relPkg(g) != "edit" || len(g.Blocks) == 0 {
				continue
			}
			sub := d.hitBlocks(name, g, pred)
			if len(sub) > 0 && pathsPass(g.Blocks[0], isReturn, func(t *ssa.BasicBlock) bool { return sub[t] }, errEdge) {
				res[b] = true
			}
		}
	}
	d.hits[name][fn] = res
	return res
}

// errEdge: the edge is taken when some error is not nil.
func errEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := cmp.X, cmp.Y
	if k, ok := x.(*ssa.Const); ok && k.IsNil() {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || !k.IsNil() || typeKey(x.Type()) != "error" {
		return false
	}
	return cmp.Op == token.NEQ && t == b.Succs[0] || cmp.Op == token.EQL && t == b.Succs[1]
}

// failing: everything that follows the block ends in a return that carries an error, or ends the process.
func failing(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] || onlyPanics(b) {
			return true
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if carriesError(r, 0) {
					return true
				}
			}
			return false
		}
		for _, t := range b.Succs {
			if !rec(t) {
				return false
			}
		}
		return true
	}
	return rec(b)
}

func carriesError(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	if typeKey(v.Type()) == "error" {
		switch x := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !carriesError(e, depth+1) {
					return false
				}
			}
			return true
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			k := typeKey(deref(fa.Type()))
			if k != "[]error" && k != "error" {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					if k == "error" && carriesError(st.Val, depth+1) || k == "[]error" && someErrors(st.Val, depth+1) {
						return true
					}
				}
			}
		}
	case *ssa.Call:
		// a helper that makes the result from an error
		for _, a := range x.Call.Args {
			if k := typeKey(a.Type()); k == "error" && carriesError(a, depth+1) || k == "[]error" && someErrors(a, depth+1) {
				return true
			}
		}
	}
	return false
}

// someErrors: the list is known not to be empty.
func someErrors(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			if ar, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return ar.Len() > 0
			}
		}
	case *ssa.Call:
		if isAppend(x) {
			return someErrors(x.Call.Args[0], depth+1) || someErrors(x.Call.Args[1], depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || !someErrors(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// complete: the loop does something on every iteration and does not end early, unless there is an error.
func (d *dispatch) complete(rule, what string, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, hit map[*ssa.BasicBlock]bool, skip func(b, t *ssa.BasicBlock) bool) {
	fn := h.Parent()
	d.c.Inst(rule, what+" in "+funcName(fn))
	key := rule + ":" + funcName(fn)
	if d.boundedEarly(h, body) {
		d.c.Violate(key+":exit", d.p.instrPos(h.Instrs[len(h.Instrs)-1]), "the loop can end before the last one: %s", what)
	}
	end := func(t *ssa.BasicBlock) bool { return t == h || !body[t] && !failing(t) }
	ok := pathsPass(start, end, func(t *ssa.BasicBlock) bool { return body[t] && hit[t] }, func(b, t *ssa.BasicBlock) bool {
		return errEdge(b, t) || skip != nil && skip(b, t)
	})
	if !ok {
		d.c.Violate(key, d.p.instrPos(start.Instrs[0]), "one may be left out: %s", what)
	}
}

// boundedEarly: an edge leaves the loop from its body without an error.
func (d *dispatch) boundedEarly(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		if b == h {
			continue
		}
		for _, t := range b.Succs {
			if !body[t] && !failing(t) {
				return true
			}
		}
	}
	return false
}

// anyLoop: the loop a block heads that runs over all of a list or a map: the element type, and where an iteration starts.
type anyLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	start *ssa.BasicBlock
	over  ssa.Value
}

func loopAt(b *ssa.BasicBlock) *anyLoop {
	if rg := findRange(b); rg != nil {
		return &anyLoop{b, rg.body, b.Succs[0], rg.list}
	}
	// a loop over a map or a channel
	h, body := innerLoop(b)
	if h != b {
		return nil
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Next:
			if r, ok := x.Iter.(*ssa.Range); ok {
				if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && body[b.Succs[0]] {
					_ = br
					return &anyLoop{b, body, b.Succs[0], r.X}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && x.CommaOk && body[b.Succs[0]] {
				return &anyLoop{b, body, b.Succs[0], x.X}
			}
		}
	}
	return nil
}

func (d *dispatch) loops(fn *ssa.Function, over func(t types.Type) bool) []*anyLoop {
	var out []*anyLoop
	for _, b := range fn.Blocks {
		if l := loopAt(b); l != nil && over(l.over.Type()) {
			out = append(out, l)
		}
	}
	return out
}

func structWith(t types.Type, pkg string, fields func(f *types.Var) bool) bool {
	n := namedStruct(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), pkg) {
		return false
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if fields(st.Field(i)) {
			return true
		}
	}
	return false
}

func dispatchRules(c *Ctx) {
	p := c.P
	d := &dispatch{c: c, p: p, hits: map[string]map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
	c.Rule("executed", "for every target of a file and every command, the command's function is called for every rule the target stands for (or once for the file)")
	c.Rule("environment", "a command gets the rule of the loop, its own arguments and the tree the previous command left")
	c.Rule("filtered", "the rule filter leaves out only rules of other kinds")
	c.Rule("parsed", "every argument is kept, as a command or as a target")
	c.Rule("assigned", "the commands are assigned to every file of every target, after those assigned before")
	c.Rule("one", "the commands for a file are listed under its absolute name, so that one worker executes all of them")
	c.Rule("lines", "every line of a command file that is not blank or a comment is a command line")
	c.Rule("sources", "every command file is read")
	c.Rule("tree", "the search for the files of a package pattern looks at every entry of every directory that can be read")
	c.Rule("files", "every file with commands is handed to a worker, every worker's result is received")
	c.Rule("records", "every record of a command is part of the output")
	eg := p.SPkgs["edit"]
	if eg == nil {
		c.Violate("anchor:edit", "", "package edit not found")
		return
	}
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) == "edit" {
			d.fns = append(d.fns, fn)
		}
	}
	sort.Slice(d.fns, func(i, j int) bool { return d.fns[i].String() < d.fns[j].String() })
	root := p.Func("edit", "Buildozer")
	if root == nil {
		c.Violate("anchor:Buildozer", "", "edit.Buildozer not found")
		return
	}
	reach := p.reachableFrom(root)
	var fns []*ssa.Function
	for _, fn := range d.fns {
		if reach[fn] {
			fns = append(fns, fn)
		}
	}
	d.fns = fns
	// types by role: a command is a struct with a list of words, commands for a target a struct with a list of commands,
	// commands for a file a struct with a list of those
	isCommand := func(t types.Type) bool {
		n := namedStruct(t)
		return n != nil && n.Underlying().(*types.Struct).NumFields() == 1 && structWith(t, "/edit", func(f *types.Var) bool { return typeKey(f.Type()) == "[]string" })
	}
	listOf := func(is func(types.Type) bool) func(types.Type) bool {
		return func(t types.Type) bool {
			el := sliceElem(t)
			return el != nil && is(el)
		}
	}
	isForTarget := func(t types.Type) bool {
		return structWith(t, "/edit", func(f *types.Var) bool { return listOf(isCommand)(f.Type()) })
	}
	isForFile := func(t types.Type) bool {
		return structWith(t, "/edit", func(f *types.Var) bool { return listOf(isForTarget)(f.Type()) })
	}
	isRule := func(t types.Type) bool { return typeKey(t) == "*"+modPath+"/build.Rule" }
	isRules := listOf(isRule)
	envT := p.Type("edit", "CmdEnvironment")
	infoT := p.Type("edit", "CommandInfo")
	if envT == nil || infoT == nil {
		c.Violate("anchor:types", "", "the types of the command table were not found")
		return
	}
	// the call of a command's function
	isRun := func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		if !ok || ci.Call.IsInvoke() || ci.Call.StaticCallee() != nil {
			return false
		}
		for _, a := range ci.Call.Args {
			if types.Identical(a.Type(), envT) {
				return true
			}
		}
		return false
	}

	// executed
	level := func(name string, over func(types.Type) bool, within func(fn *ssa.Function) bool, hitName string, pred func(in ssa.Instruction) bool, what string) map[*ssa.BasicBlock]*anyLoop {
		out := map[*ssa.BasicBlock]*anyLoop{}
		for _, fn := range d.fns {
			hit := d.hitBlocks(hitName, fn, pred)
			if len(hit) == 0 {
				continue
			}
			for _, l := range d.loops(fn, over) {
				any := false
				for b := range l.body {
					any = any || hit[b]
				}
				if !any {
					continue
				}
				out[l.head] = l
				d.complete(name, what, l.head, l.body, l.start, hit, nil)
			}
		}
		return out
	}
	heads := func(m map[*ssa.BasicBlock]*anyLoop) func(in ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			b := in.Block()
			return m[b] != nil && in == b.Instrs[len(b.Instrs)-1]
		}
	}
	l3 := level("executed", isRules, nil, "run", isRun, "a command runs on each rule")
	onRules := heads(l3)
	l2 := level("executed", listOf(isCommand), nil, "rules", func(in ssa.Instruction) bool {
		if onRules(in) {
			return true
		}
		// a command on the file
		if !isRun(in) {
			return false
		}
		b := in.Block()
		return b.Idom() != nil && perRule(b.Idom(), b, false, false)
	}, "each command runs")
	l1 := level("executed", listOf(isForTarget), nil, "commands", heads(l2), "each target is handled")
	if len(l1) == 0 || len(l2) == 0 || len(l3) == 0 {
		c.Violate("anchor:loops", "", "the loops over targets, commands and rules were not found")
	}
	// all calls of command functions are in such a loop
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if isRun(in) {
					c.Inst("executed", "call of a command in "+funcName(fn))
					d.environment(in.(*ssa.Call), envT, isRules)
				}
			}
		}
	}
	// the file's commands are handled in every worker: every way through the function that gets them
	runFile := map[*ssa.Function]bool{}
	for _, fn := range d.fns {
		for _, pa := range fn.Params {
			if isForFile(pa.Type()) {
				hit := d.hitBlocks("targets", fn, heads(l1))
				if len(hit) == 0 {
					continue
				}
				runFile[fn] = true
				c.Inst("executed", "the file's targets in "+funcName(fn))
				if !pathsPass(fn.Blocks[0], func(b *ssa.BasicBlock) bool { return isReturn(b) && !failing(b) }, func(t *ssa.BasicBlock) bool { return hit[t] }, errEdge) {
					c.Violate("executed:file:"+funcName(fn), p.Pos(fn.Pos()), "a file's commands may not be executed without an error")
				}
			}
		}
	}
	d.once(l3, isRules)
	d.filtered(isRules)
	d.parsed(isCommand)
	d.assigned(isForTarget)
	d.lines()
	d.sources()
	d.tree()
	d.files(root, runFile, isForFile, isForTarget)
	d.records(root)
	c.Floor("executed", 5)
	c.Floor("environment", 4)
	c.Floor("filtered", 1)
	c.Floor("parsed", 1)
	c.Floor("assigned", 2)
	c.Floor("lines", 1)
	c.Floor("sources", 1)
	c.Floor("tree", 3)
	c.Floor("one", 1)
	c.Floor("files", 3)
	c.Floor("records", 3)
}

// environment: what a command gets.
func (d *dispatch) environment(call *ssa.Call, envT types.Type, isRules func(types.Type) bool) {
	R := "environment"
	p, c := d.p, d.c
	fn := call.Parent()
	key := R + ":" + funcName(fn)
	st := envT.Underlying().(*types.Struct)
	var env ssa.Value
	for _, a := range call.Call.Args {
		if types.Identical(a.Type(), envT) {
			env = a
		}
	}
	field := map[string]ssa.Value{}
	if ld, ok := env.(*ssa.UnOp); ok {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, r2 := range *fa.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
							field[st.Field(fa.Field).Name()] = s.Val
						}
					}
				}
			}
		}
	}
	if len(field) == 0 {
		if _, ok := env.(*ssa.Parameter); !ok {
			c.Violate(key+":undecided", p.instrPos(call), "what the command gets is not visible here")
		}
		return
	}
	// the rule is the element of the loop over the target's rules
	c.Inst(R, "rule")
	_, body := innerLoop(call.Block())
	rule := field["Rule"]
	okRule := false
	if ld, ok := rule.(*ssa.UnOp); ok {
		if ia, ok := ld.X.(*ssa.IndexAddr); ok && isRules(ia.X.Type()) && body[ia.Block()] {
			_, isC := ia.Index.(*ssa.Const)
			okRule = !isC
		}
	}
	if _, ok := rule.(*ssa.Parameter); ok {
		okRule = true
	}
	if !okRule {
		c.Violate(key+":rule", p.instrPos(call), "the command does not get the rule of the loop")
	}
	// the arguments are the words of the command after its name, the function is looked up by the first one
	c.Inst(R, "arguments")
	words := func(v ssa.Value) ssa.Value { // the list of words v is taken from
		switch x := v.(type) {
		case *ssa.Slice:
			if constIs(x.Low, 1) && x.High == nil {
				return x.X
			}
		}
		return nil
	}
	w := words(field["Args"])
	if w == nil {
		if _, ok := field["Args"].(*ssa.Parameter); !ok {
			c.Violate(key+":args", p.instrPos(call), "the command does not get all words after its name as arguments")
		}
	} else {
		c.Inst(R, "function")
		sl := p.sliceOf(call.Call.Value)
		found, first := false, false
		for v := range sl.vals {
			if l, ok := v.(*ssa.Lookup); ok {
				if ld, ok := l.Index.(*ssa.UnOp); ok {
					if ia, ok := ld.X.(*ssa.IndexAddr); ok {
						found = true
						if constIs(ia.Index, 0) && sameOperandAddr(ia.X, w) {
							first = true
						}
					}
				} else {
					found = true // a named word: compare what it is read from
					for x := range p.sliceOf(l.Index).vals {
						if ia, ok := x.(*ssa.IndexAddr); ok && constIs(ia.Index, 0) && sameOperandAddr(ia.X, w) {
							first = true
						}
					}
				}
			}
		}
		if found && !first {
			c.Violate(key+":function", p.instrPos(call), "the function called is not the one of the command whose arguments it gets")
		}
	}
	// the tree is what the previous command left
	c.Inst(R, "tree")
	var res ssa.Value
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
			res = ex
		}
	}
	file := field["File"]
	if _, ok := file.(*ssa.Parameter); ok {
		return
	}
	ok := false
	if ph, isPhi := file.(*ssa.Phi); isPhi && res != nil {
		ok = phiReaches(ph, res, map[ssa.Value]bool{})
	}
	if ld, isLd := file.(*ssa.UnOp); isLd && res != nil {
		// a variable in memory: the result is stored to it
		for _, r := range *res.Referrers() {
			if s, is := r.(*ssa.Store); is && sameOperandAddr(s.Addr, ld.X) {
				ok = true
			}
		}
	}
	if !ok {
		c.Violate(key+":tree", p.instrPos(call), "a command does not work on the tree the previous one left")
	}
}

func phiReaches(v ssa.Value, want ssa.Value, seen map[ssa.Value]bool) bool {
	if v == want {
		return true
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || seen[v] {
		return false
	}
	seen[v] = true
	for _, e := range ph.Edges {
		if phiReaches(e, want, seen) {
			return true
		}
	}
	return false
}

// once: the list a command loops over is the target's list, or a single placeholder for commands on the file.
func (d *dispatch) once(l3 map[*ssa.BasicBlock]*anyLoop, isRules func(types.Type) bool) {
	p, c := d.p, d.c
	for h, l := range l3 {
		key := "executed:list:" + funcName(h.Parent())
		var chk func(v ssa.Value, seen map[ssa.Value]bool)
		chk = func(v ssa.Value, seen map[ssa.Value]bool) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for i, e := range x.Edges {
					if els := appendedElems(e); len(els) > 0 {
						// a literal list: only for commands that are not per rule
						if !perRuleEdge(x.Block().Preds[i], x.Block(), false) {
							c.Violate(key, p.instrPos(x), "a command on rules may not run on the rules of its target")
						}
						for k, e2 := range x.Edges {
							if k != i && len(appendedElems(e2)) == 0 && !perRuleEdge(x.Block().Preds[k], x.Block(), true) {
								c.Violate(key+":file", p.instrPos(x), "a command on the file may not run when its target stands for no rule")
							}
						}
						continue
					}
					chk(e, seen)
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || relPkg(g) != "edit" || !takesInfo(g) {
					return
				}
				for _, b := range g.Blocks {
					ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok || b.Idom() == nil {
						continue
					}
					lit := len(appendedElems(ret.Results[0])) > 0
					if _, ok := ret.Results[0].(*ssa.Phi); ok {
						chk(ret.Results[0], seen)
					} else if !perRule(b.Idom(), b, !lit, false) {
						c.Violate(key, p.instrPos(ret), "a command may not run on the rules of its target, or not on the file")
					}
				}
			case *ssa.Slice:
				c.Violate(key, p.instrPos(h.Instrs[0]), "a command does not run on all rules of its target")
			case *ssa.Const:
				c.Violate(key, p.instrPos(h.Instrs[0]), "a command may run on no rule although its target stands for one")
			}
		}
		chk(l.over, map[ssa.Value]bool{})
	}
}

// perRuleEdge: control comes over an edge on which the command is known to be per rule, or known not to be.
func perRuleEdge(b, to *ssa.BasicBlock, want bool) bool {
	return perRule(b, to, want, true)
}

// perRule: the same for a block, when it is not known from where control comes.
func perRule(b, to *ssa.BasicBlock, want, first bool) bool {
	for t := to; b != nil; t, b, first = b, b.Idom(), false {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok && b.Succs[0] != b.Succs[1] {
			cond, neg := br.Cond, false
			for {
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, neg = u.X, !neg
					continue
				}
				break
			}
			isField := false
			if f, ok := cond.(*ssa.Field); ok {
				isField = f.X.Type().Underlying().(*types.Struct).Field(f.Field).Name() == "PerRule"
			}
			if loadsField(cond, "CommandInfo.PerRule") {
				isField = true
			}
			if isField {
				i := 0
				if want == neg {
					i = 1
				}
				s := b.Succs[i]
				return s == t && (first || len(t.Preds) == 1) || s != t && len(s.Preds) == 1 && s.Dominates(t)
			}
		}
	}
	return false
}

// filtered: see the rule.
func (d *dispatch) filtered(isRules func(types.Type) bool) {
	R := "filtered"
	p, c := d.p, d.c
	for _, fn := range d.fns {
		rs := fn.Signature.Results()
		if rs.Len() != 1 || !isRules(rs.At(0).Type()) || fn.Signature.Recv() != nil {
			continue
		}
		var in *ssa.Parameter
		for _, pa := range fn.Params {
			if isRules(pa.Type()) {
				in = pa
			}
		}
		if in == nil {
			continue
		}
		c.Inst(R, funcName(fn))
		key := R + ":" + funcName(fn)
		for _, l := range d.loops(fn, isRules) {
			if l.over != ssa.Value(in) {
				c.Violate(key+":list", p.instrPos(l.head.Instrs[0]), "the filter does not look at all rules")
			}
			hit := map[*ssa.BasicBlock]bool{}
			for b := range l.body {
				for _, x := range b.Instrs {
					if cc, ok := x.(*ssa.Call); ok && isAppend(cc) && isRules(cc.Type()) {
						hit[b] = true
						if !grows(cc) {
							c.Violate(key+":grow", p.instrPos(cc), "the list of rules is replaced instead of extended")
						}
					}
				}
			}
			if d.boundedEarly(l.head, l.body) {
				c.Violate(key+":exit", p.instrPos(l.head.Instrs[0]), "the filter can end before the last rule")
			}
			// where the kind is the wanted one, the rule is kept
			n := 0
			for b := range l.body {
				br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				to := kindMatch(br.Cond)
				if to < 0 {
					continue
				}
				n++
				if !pathsPass(b.Succs[to], func(t *ssa.BasicBlock) bool { return t == l.head || !l.body[t] }, func(t *ssa.BasicBlock) bool { return hit[t] }, nil) {
					c.Violate(key, p.instrPos(br), "a rule of a wanted kind may be left out")
				}
			}
			if n == 0 {
				c.Violate(key+":kind", p.instrPos(l.head.Instrs[0]), "the filter does not compare a rule's kind with the wanted ones")
			}
			// the loop over the wanted kinds is complete: it ends early only with the rule kept
			for _, l2 := range d.loops(fn, func(t types.Type) bool { return typeKey(t) == "[]string" }) {
				for b := range l2.body {
					for _, t := range b.Succs {
						if b != l2.head && !l2.body[t] && !hit[b] && !hit[t] {
							c.Violate(key+":kinds", p.instrPos(b.Instrs[len(b.Instrs)-1]), "not all wanted kinds are compared")
						}
					}
				}
				if _, cut := l2.over.(*ssa.Slice); cut {
					c.Violate(key+":kinds", p.instrPos(l2.head.Instrs[0]), "not all wanted kinds are compared")
				}
			}
		}
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if k, ok := ret.Results[0].(*ssa.Const); ok && k.IsNil() {
				if lp := d.loops(fn, isRules); len(lp) == 0 || !lp[0].head.Dominates(b) {
					c.Violate(key+":none", p.instrPos(ret), "no rule is kept")
				}
			}
		}
	}
}

// kindMatch: the successor taken when a rule's kind is a given word, or -1.
func kindMatch(cond ssa.Value) int {
	neg := false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		break
	}
	isKind := func(v ssa.Value) bool {
		cc, ok := v.(*ssa.Call)
		return ok && cc.Call.StaticCallee() != nil && cc.Call.StaticCallee().Name() == "Kind"
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		if (x.Op == token.EQL || x.Op == token.NEQ) && (isKind(x.X) || isKind(x.Y)) {
			if (x.Op == token.EQL) != neg {
				return 0
			}
			return 1
		}
	case *ssa.Lookup, *ssa.Extract:
		l, ok := x.(*ssa.Lookup)
		if ex, is := x.(*ssa.Extract); is {
			l, ok = ex.Tuple.(*ssa.Lookup)
		}
		if ok && isKind(l.Index) {
			if neg {
				return 1
			}
			return 0
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if isKind(a) {
				if neg {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

// parsed: see the rule.
func (d *dispatch) parsed(isCommand func(types.Type) bool) {
	R := "parsed"
	p, c := d.p, d.c
	for _, fn := range d.fns {
		rs := fn.Signature.Results()
		cmds, words := false, false
		for i := 0; i < rs.Len(); i++ {
			if el := sliceElem(rs.At(i).Type()); el != nil && isCommand(el) {
				cmds = true
			}
			if typeKey(rs.At(i).Type()) == "[]string" {
				words = true
			}
		}
		if !cmds || !words {
			continue
		}
		for _, l := range d.loops(fn, func(t types.Type) bool { return typeKey(t) == "[]string" }) {
			if _, ok := l.over.(*ssa.Parameter); !ok {
				c.Violate(R+":list:"+funcName(fn), p.instrPos(l.head.Instrs[0]), "not all arguments are looked at")
			}
			hit := map[*ssa.BasicBlock]bool{}
			for b := range l.body {
				for _, x := range b.Instrs {
					cc, ok := x.(*ssa.Call)
					if !ok || !isAppend(cc) {
						continue
					}
					el := sliceElem(cc.Type())
					if isCommand(el) || typeKey(el) == "string" && d.returned(fn, cc) {
						if !grows(cc) {
							c.Violate(R+":grow:"+funcName(fn), p.instrPos(cc), "the list is replaced instead of extended")
						}
						hit[b] = true
						if !isCommand(el) {
							for _, v := range appendedElems(cc.Call.Args[1]) {
								if !isElemOf(v, l.over) {
									c.Violate(R+":target:"+funcName(fn), p.instrPos(cc), "the target kept is not the argument")
								}
							}
						}
					}
				}
			}
			// the table is looked up with the first word as it is
			for b := range l.body {
				for _, x := range b.Instrs {
					lk, ok := x.(*ssa.Lookup)
					if !ok {
						continue
					}
					if m, ok := lk.X.Type().Underlying().(*types.Map); !ok || shortType(m.Elem()) != "edit.CommandInfo" {
						continue
					}
					c.Inst(R, "name of the command in "+funcName(fn))
					ld, ok := lk.Index.(*ssa.UnOp)
					if ok {
						ia, ok2 := ld.X.(*ssa.IndexAddr)
						ok = ok2 && constIs(ia.Index, 0)
					}
					if !ok {
						c.Violate(R+":name:"+funcName(fn), p.instrPos(lk), "the command is not found by its first word")
					}
				}
			}
			d.complete(R, "each argument is a command or a target", l.head, l.body, l.start, hit, nil)
		}
	}
}

// returned: what is appended to is a result of the function.
func (d *dispatch) returned(fn *ssa.Function, app *ssa.Call) bool {
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if r == ssa.Value(app) || phiReaches(r, app, map[ssa.Value]bool{}) {
					return true
				}
				if ld, ok := r.(*ssa.UnOp); ok {
					for _, ref := range *app.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == ld.X {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// assigned: see the rule.
func (d *dispatch) assigned(isForTarget func(types.Type) bool) {
	R := "assigned"
	p, c := d.p, d.c
	isUpd := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		el := sliceElem(mu.Value.Type())
		return el != nil && isForTarget(el)
	}
	str := func(t types.Type) bool { return typeKey(t) == "[]string" }
	inner := map[*ssa.BasicBlock]*anyLoop{}
	for _, fn := range d.fns {
		own := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if !isUpd(in) {
					continue
				}
				own[b] = true
				mu := in.(*ssa.MapUpdate)
				c.Inst(R, "assignment in "+funcName(fn))
				d.oneKey(fn, mu)
				cc, ok := mu.Value.(*ssa.Call)
				good := false
				if ok && isAppend(cc) {
					base := cc.Call.Args[0]
					if ex, is := base.(*ssa.Extract); is {
						base = ex.Tuple
					}
					l, is := base.(*ssa.Lookup)
					good = is && l.X == mu.Map && l.Index == mu.Key
				}
				if !good {
					c.Violate(R+":grow:"+funcName(fn), p.instrPos(in), "the commands assigned to the file before are lost")
				}
			}
		}
		if len(own) == 0 {
			continue
		}
		// the innermost loop around the assignment is the one over the files
		for _, l := range d.loops(fn, str) {
			for b := range own {
				if h, _ := innerLoop(b); h == l.head {
					inner[l.head] = l
					d.complete(R, "each file of a target gets the commands", l.head, l.body, l.start, own, nil)
					if _, cut := l.over.(*ssa.Slice); cut && len(appendedElems(l.over)) == 0 {
						c.Violate(R+":files:"+funcName(fn), p.instrPos(l.head.Instrs[0]), "not all files of a target get the commands")
					}
				}
			}
		}
	}
	isInner := func(in ssa.Instruction) bool {
		b := in.Block()
		return inner[b] != nil && in == b.Instrs[len(b.Instrs)-1]
	}
	n := 0
	for _, fn := range d.fns {
		hit := d.hitBlocks("assign", fn, isInner)
		for _, l := range d.loops(fn, str) {
			if inner[l.head] != nil {
				continue
			}
			any := false
			for b := range l.body {
				if h := hit[b]; h {
					hb, _ := innerLoop(b)
					any = any || hb == l.head || inner[hb] != nil
				}
			}
			// the loop over the targets: its list comes from the function that parses the arguments
			fromParse := false
			if ex, ok := l.over.(*ssa.Extract); ok {
				_, fromParse = ex.Tuple.(*ssa.Call)
			}
			if _, ok := l.over.(*ssa.Parameter); ok && inner[firstInner(l, inner)] != nil {
				fromParse = true
			}
			if !any || !fromParse {
				continue
			}
			n++
			d.complete(R, "each target is assigned the commands", l.head, l.body, l.start, hit, nil)
		}
	}
	if n == 0 || len(inner) == 0 {
		c.Violate("anchor:"+R, "", "the loops that assign commands to files were not found")
	}
}

func firstInner(l *anyLoop, inner map[*ssa.BasicBlock]*anyLoop) *ssa.BasicBlock {
	for b := range l.body {
		if inner[b] != nil {
			return b
		}
	}
	return nil
}

// lines: see the rule.
func (d *dispatch) lines() {
	R := "lines"
	p, c := d.p, d.c
	isAssign := func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		g := ci.Call.StaticCallee()
		if g == nil || relPkg(g) != "edit" {
			return false
		}
		// a function that gets the words of a line and the table
		m, w := false, false
		for _, a := range ci.Call.Args {
			if _, ok := a.Type().Underlying().(*types.Map); ok {
				m = true
			}
			if typeKey(a.Type()) == "[]string" {
				w = true
			}
		}
		return m && w
	}
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := p.staticName(&cc.Call)
				if name != "(*bufio.Reader).ReadString" && name != "(*bufio.Scanner).Scan" && name != "(*bufio.Reader).ReadLine" && name != "(*bufio.Reader).ReadBytes" {
					continue
				}
				h, body := innerLoop(b)
				if h == nil {
					continue
				}
				c.Inst(R, "lines read in "+funcName(fn))
				key := R + ":" + funcName(fn)
				hit := d.hitBlocks("line", fn, isAssign)
				start := b
				if name == "(*bufio.Scanner).Scan" && len(b.Succs) == 2 {
					start = b.Succs[0]
				}
				textual := func(v ssa.Value) bool {
					for x := range p.sliceOf(v).vals {
						if x == ssa.Value(cc) {
							return true
						}
						if c2, ok := x.(*ssa.Call); ok && strings.HasSuffix(p.staticName(&c2.Call), "Scanner).Text") {
							return true
						}
					}
					return false
				}
				skip := func(x, t *ssa.BasicBlock) bool {
					br, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
					if !ok || x.Succs[0] == x.Succs[1] {
						return false
					}
					return blankOrComment(p, br.Cond, textual, t == x.Succs[0])
				}
				end := func(t *ssa.BasicBlock) bool {
					return t == h && t != start || t == b && t != start || !body[t] && !failing(t)
				}
				if name == "(*bufio.Scanner).Scan" {
					checked := false
					for _, x := range fn.Blocks {
						for _, y := range x.Instrs {
							if c2, ok := y.(*ssa.Call); ok && p.staticName(&c2.Call) == "(*bufio.Scanner).Err" && len(*c2.Referrers()) > 0 {
								checked = true
							}
						}
					}
					if !checked {
						c.Violate(key+":err", p.instrPos(cc), "a read error (a long line) ends the commands silently")
					}
				}
				for x := range body {
					for _, y := range x.Instrs {
						if c2, ok := y.(*ssa.Call); ok && isAssign(c2) {
							for _, a := range c2.Call.Args {
								if bad := partOf(p, a, textual); bad != nil {
									c.Violate(key+":part", p.instrPos(bad), "only a part of a line is used")
								}
							}
						}
					}
				}
				ok = pathsPass2(start, h, end, func(t *ssa.BasicBlock) bool { return body[t] && hit[t] }, func(x, t *ssa.BasicBlock) bool {
					return realErrEdge(p, x, t) || skip(x, t)
				})
				if !ok {
					c.Violate(key, p.instrPos(cc), "a line may be left out that is neither blank nor a comment")
				}
			}
		}
	}
}

// pathsPass2 is pathsPass for a start that may be the head of the loop itself.
func pathsPass2(start, h *ssa.BasicBlock, end, hit func(b *ssa.BasicBlock) bool, skip func(b, t *ssa.BasicBlock) bool) bool {
	for _, t := range start.Succs {
		if skip(start, t) || hit(t) {
			continue
		}
		if end(t) || t == h || !pathsPass(t, func(b *ssa.BasicBlock) bool { return end(b) || b == h }, hit, skip) {
			return false
		}
	}
	return true
}

// realErrEdge: an error edge that does not stand for the end of the input.
func realErrEdge(p *Prog, b, t *ssa.BasicBlock) bool {
	if !errEdge(b, t) {
		return false
	}
	return failing(t)
}

// blankOrComment: the condition having that outcome means that the line is blank or a comment.
func blankOrComment(p *Prog, cond ssa.Value, textual func(ssa.Value) bool, val bool) bool {
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, val = u.X, !val
			continue
		}
		break
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		k, ok := b.(*ssa.Const)
		if !ok || k.Value == nil || (x.Op != token.EQL && x.Op != token.NEQ) || (x.Op == token.EQL) != val || !textual(a) {
			return false
		}
		if s := constStr(k); isStringType(k.Type()) && s == "" {
			if l := lenArg(a); l == nil {
				return true
			}
		}
		if l := lenArg(a); l != nil {
			return constIs(k, 0)
		}
		// the first character
		first := false
		switch y := a.(type) {
		case *ssa.Lookup:
			first = constIs(y.Index, 0)
		case *ssa.Index:
			first = constIs(y.Index, 0)
		}
		return first && constIs(k, '#')
	case *ssa.Call:
		return val && p.staticName(&x.Call) == "strings.HasPrefix" && constOf(x.Call.Args[1]) == "#" && textual(x.Call.Args[0])
	}
	return false
}

// sources: see the rule.
func (d *dispatch) sources() {
	R := "sources"
	p, c := d.p, d.c
	for _, fn := range d.fns {
		for _, l := range d.loops(fn, func(t types.Type) bool { return typeKey(t) == "[]string" }) {
			if !p.sliceOf(l.over).out["edit.Options.CommandsFiles"] {
				continue
			}
			if !loadsField(l.over, "Options.CommandsFiles") {
				if _, ok := l.over.(*ssa.Parameter); !ok {
					c.Violate(R+":list:"+funcName(fn), p.instrPos(l.head.Instrs[0]), "not all command files are read")
				}
			}
			isRead := func(in ssa.Instruction) bool {
				ci, ok := in.(*ssa.Call)
				if !ok || ci.Call.StaticCallee() == nil || relPkg(ci.Call.StaticCallee()) != "edit" {
					return false
				}
				for _, a := range ci.Call.Args {
					if typeKey(a.Type()) == "io.Reader" {
						return true
					}
				}
				return false
			}
			d.complete(R, "each command file is read", l.head, l.body, l.start, d.hitBlocks("read", fn, isRead), nil)
		}
	}
}

// files: see the rule.
func (d *dispatch) files(root *ssa.Function, runFile map[*ssa.Function]bool, isForFile, isForTarget func(types.Type) bool) {
	R := "files"
	p, c := d.p, d.c
	isRes := func(t types.Type) bool {
		for f := range runFile {
			if rs := f.Signature.Results(); rs.Len() > 0 && types.Identical(rs.At(0).Type(), t) {
				return true
			}
		}
		return false
	}
	sends := func(is func(types.Type) bool) func(in ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Send)
			return ok && is(s.X.Type())
		}
	}
	calls := func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		return ok && runFile[ci.Call.StaticCallee()]
	}
	// only the part that runs the commands
	n := map[string]int{}
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			l := loopAt(b)
			if l == nil {
				continue
			}
			switch t := l.over.Type().Underlying().(type) {
			case *types.Map:
				if el := sliceElem(t.Elem()); el == nil || !isForTarget(el) {
					continue
				}
				hit := d.hitBlocks("send", fn, func(in ssa.Instruction) bool { return sends(isForFile)(in) || calls(in) })
				any := false
				for x := range l.body {
					any = any || hit[x]
				}
				if !any {
					continue
				}
				n["send"]++
				d.complete(R, "each file is handed to a worker", l.head, l.body, l.start, hit, nil)
			case *types.Chan:
				if !isForFile(t.Elem()) {
					continue
				}
				n["work"]++
				d.complete(R, "each file a worker gets is edited", l.head, l.body, l.start, d.hitBlocks("call", fn, calls), nil)
				d.complete(R, "each result is delivered", l.head, l.body, l.start, d.hitBlocks("result", fn, sends(isRes)), nil)
			}
		}
		// receiving the results: a counting loop up to the number of files
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.ARROW || !isRes(u.Type()) {
					continue
				}
				n["recv"]++
				c.Inst(R, "results received in "+funcName(fn))
				key := R + ":recv:" + funcName(fn)
				h, body := innerLoop(b)
				if h == nil {
					c.Violate(key, p.instrPos(in), "only one result is received")
					continue
				}
				if d.boundedEarly(h, body) {
					c.Violate(key+":exit", p.instrPos(in), "the loop over the results can end before the last one")
				}
				if !countsAll(p, h, body, isForTarget) {
					c.Violate(key+":count", p.instrPos(in), "not as many results are received as there are files")
				}
				// its records are added to the output
				got := d.hitBlocks("records", fn, func(in ssa.Instruction) bool {
					cc, ok := in.(*ssa.Call)
					return ok && isAppend(cc) && sliceElem(cc.Type()) != nil && isRecord(sliceElem(cc.Type()))
				})
				c.Inst("records", "the records of each file in "+funcName(fn))
				if !got[b] && !pathsPass(b, func(t *ssa.BasicBlock) bool { return t == h || !body[t] }, func(t *ssa.BasicBlock) bool { return got[t] }, noRecordsEdge) {
					c.Violate("records:"+funcName(fn)+":file", p.instrPos(in), "the records of a file may be left out of the output")
				}
				for x := range body {
					for _, q := range x.Instrs {
						if s, ok := q.(*ssa.UnOp); ok && s.Op == token.ARROW && s != u && isRes(s.Type()) {
							c.Violate(key+":two", p.instrPos(q), "a result is received that is not looked at")
						}
					}
				}
			}
		}
	}
	for _, k := range []string{"send", "work", "recv"} {
		if n[k] == 0 {
			c.Violate("anchor:files:"+k, p.Pos(root.Pos()), "the exchange with the workers was not found (%s)", k)
		}
	}
}

// countsAll: the loop runs from 0 up to the length of the map of files.
func countsAll(p *Prog, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, isForTarget func(types.Type) bool) bool {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// a loop over the map itself (or a list made from its keys)
	if l := loopAt(h); l != nil {
		if m, ok := l.over.Type().Underlying().(*types.Map); ok {
			el := sliceElem(m.Elem())
			return el != nil && isForTarget(el)
		}
		for v := range p.sliceOf(l.over).vals {
			if r, ok := v.(*ssa.Range); ok {
				if m, ok := r.X.Type().Underlying().(*types.Map); ok {
					if el := sliceElem(m.Elem()); el != nil && isForTarget(el) {
						return true
					}
				}
			}
		}
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	i, n := cmp.X, cmp.Y
	op := cmp.Op
	if op == token.GTR {
		i, n, op = n, i, token.LSS
	}
	if op != token.LSS && op != token.NEQ {
		return false
	}
	l := lenArg(n)
	if l == nil {
		return false
	}
	m, ok := l.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	if el := sliceElem(m.Elem()); el == nil || !isForTarget(el) {
		return false
	}
	ph, ok := i.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return false
	}
	for k, pr := range h.Preds {
		if body[pr] {
			b, ok := ph.Edges[k].(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) || !constIs(b.Y, 1) {
				return false
			}
		} else if !constIs(ph.Edges[k], 0) {
			return false
		}
	}
	return true
}

// records: see the rule.
func (d *dispatch) records(root *ssa.Function) {
	R := "records"
	p, c := d.p, d.c
	isRec := isRecord
	isRecs := func(t types.Type) bool {
		el := sliceElem(t)
		return el != nil && isRec(el)
	}
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || !isAppend(cc) || !isRecs(cc.Type()) {
					continue
				}
				c.Inst(R, "records collected in "+funcName(fn))
				if !grows(cc) {
					c.Violate(R+":grow:"+funcName(fn), p.instrPos(cc), "the list of records is replaced instead of extended")
				}
			}
		}
		// a result of the function that runs the commands holds the records collected
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n := namedStruct(al.Type())
				if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/edit") {
					continue
				}
				i, f := fieldNamed(n, "records")
				if i < 0 || !isRecs(f.Type()) || d.copiedAlloc(al) {
					continue
				}
				// before any command ran there are no records
				before := true
				for _, x := range fn.Blocks {
					for _, y := range x.Instrs {
						if cc, ok := y.(*ssa.Call); ok && isAppend(cc) && isRecs(cc.Type()) && blockReaches(x, b) {
							before = false
						}
					}
				}
				if before {
					continue
				}
				c.Inst(R, "result made in "+funcName(fn))
				set := false
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == i {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
								for v := range p.sliceOf(st.Val).vals {
									if cc, ok := v.(*ssa.Call); ok && isAppend(cc) && isRecs(cc.Type()) {
										set = true
									}
								}
								if _, cut := st.Val.(*ssa.Slice); cut {
									set = false
								}
							}
						}
					}
				}
				if !set {
					c.Violate(R+":result:"+funcName(fn), p.instrPos(al), "the records of the commands executed so far are lost")
				}
			}
		}
		// printing
		for _, l := range d.loops(fn, isRecs) {
			isPrint := func(in ssa.Instruction) bool {
				ci, ok := in.(*ssa.Call)
				return ok && strings.HasPrefix(p.staticName(&ci.Call), "fmt.Fprint")
			}
			d.complete(R, "each record is printed", l.head, l.body, l.start, d.hitBlocks("print", fn, isPrint), nil)
			if _, cut := l.over.(*ssa.Slice); cut {
				c.Violate(R+":list:"+funcName(fn), p.instrPos(l.head.Instrs[0]), "not all records are printed")
			}
		}
	}
	// the record of a command that ran is collected unless it is empty
	for _, fn := range d.fns {
		hit := map[*ssa.BasicBlock]bool{}
		var runs []*ssa.Call
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok {
					if isAppend(cc) && isRecs(cc.Type()) {
						hit[b] = true
					}
					if !cc.Call.IsInvoke() && cc.Call.StaticCallee() == nil {
						for _, a := range cc.Call.Args {
							if strings.HasSuffix(typeKey(a.Type()), "edit.CmdEnvironment") {
								runs = append(runs, cc)
							}
						}
					}
				}
			}
		}
		if len(hit) == 0 {
			continue
		}
		for _, run := range runs {
			c.Inst(R, "record of a command in "+funcName(fn))
			b := run.Block()
			h, body := innerLoop(b)
			end := func(t *ssa.BasicBlock) bool { return t == h || isReturn(t) || h != nil && !body[t] }
			if hit[b] {
				continue
			}
			if !pathsPass(b, end, func(t *ssa.BasicBlock) bool { return hit[t] }, func(x, t *ssa.BasicBlock) bool { return emptyRecordEdge(x, t) }) {
				c.Violate(R+":"+funcName(fn), p.instrPos(run), "the record of a command may be dropped")
			}
		}
	}
}

func (d *dispatch) copiedAlloc(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			return true
		}
	}
	return false
}

// emptyRecordEdge: the edge is taken when the record has no fields.
func emptyRecordEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	l := lenArg(x)
	if l == nil || !constIs(y, 0) || !loadsField(l, "Output_Record.Fields") {
		return false
	}
	switch op {
	case token.EQL:
		return t == b.Succs[0]
	case token.NEQ, token.GTR:
		return t == b.Succs[1]
	}
	return false
}

// constOf: the constant string the value is, "" otherwise.
func constOf(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		return constStr(k)
	}
	return ""
}

func isRecord(t types.Type) bool {
	return strings.HasSuffix(typeKey(deref(t)), ".Output_Record")
}

// noRecordsEdge: the edge is taken when there is no result, or no records in it.
func noRecordsEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok {
		return false
	}
	yes := t == b.Succs[0]
	if k.IsNil() {
		el := sliceElem(x.Type())
		_, ptr := x.Type().Underlying().(*types.Pointer)
		return (ptr || el != nil && isRecord(el)) && typeKey(x.Type()) != "error" && (op == token.EQL && yes || op == token.NEQ && !yes)
	}
	l := lenArg(x)
	if l == nil || sliceElem(l.Type()) == nil || !isRecord(sliceElem(l.Type())) || !constIs(k, 0) {
		return false
	}
	return op == token.EQL && yes || (op == token.NEQ || op == token.GTR) && !yes
}

// partOf: the instruction that cuts a piece of the line off, in the making of v.
func partOf(p *Prog, v ssa.Value, textual func(ssa.Value) bool) ssa.Instruction {
	for x := range p.sliceOf(v).vals {
		switch y := x.(type) {
		case *ssa.Slice:
			if !isStringType(y.X.Type()) || !textual(y.X) {
				continue
			}
			// the end of the line, a character
			if b, ok := y.High.(*ssa.BinOp); ok && y.Low == nil && b.Op == token.SUB && constIs(b.Y, 1) && lenArg(b.X) == y.X {
				continue
			}
			return y
		case *ssa.Call:
			switch p.staticName(&y.Call) {
			case "strings.Cut", "strings.SplitN", "strings.SplitAfterN", "strings.Fields", "strings.FieldsFunc", "strings.TrimLeft", "strings.TrimFunc":
				if textual(y.Call.Args[0]) {
					return y
				}
			}
		}
	}
	return nil
}

// isElemOf: v is the element of the list in the current iteration.
func isElemOf(v, list ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	return ok && ia.X == list
}

// tree: see the rule.
func (d *dispatch) tree() {
	R := "tree"
	p, c := d.p, d.c
	for _, fn := range d.fns {
		for _, l := range d.loops(fn, func(t types.Type) bool {
			el := sliceElem(t)
			return el != nil && (strings.HasSuffix(typeKey(el), "fs.DirEntry") || strings.HasSuffix(typeKey(el), "os.DirEntry"))
		}) {
			c.Inst(R, "entries in "+funcName(fn))
			key := R + ":" + funcName(fn)
			if d.boundedEarly(l.head, l.body) {
				c.Violate(key+":exit", p.instrPos(l.head.Instrs[0]), "not every entry of a directory is looked at")
			}
			if _, cut := l.over.(*ssa.Slice); cut {
				c.Violate(key+":cut", p.instrPos(l.head.Instrs[0]), "not every entry of a directory is looked at")
			}
			// the paths kept: appended to a list, or handed to the function itself
			keep := map[*ssa.BasicBlock]bool{}
			for b := range l.body {
				for _, in := range b.Instrs {
					cc, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if isAppend(cc) && typeKey(cc.Type()) == "[]string" {
						if !grows(cc) {
							c.Violate(key+":grow", p.instrPos(cc), "the list is replaced instead of extended")
						}
						keep[b] = true
					}
					if cc.Call.StaticCallee() == fn {
						keep[b] = true
					}
				}
			}
			var dirs, names []edge2
			for b := range l.body {
				br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || b.Succs[0] == b.Succs[1] {
					continue
				}
				cond, i := br.Cond, 0
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, i = u.X, 1-i
				}
				switch x := cond.(type) {
				case *ssa.Call:
					if x.Call.IsInvoke() && x.Call.Method.Name() == "IsDir" {
						dirs = append(dirs, edge2{b, b.Succs[i]}, edge2{b, b.Succs[1-i]})
					}
				case *ssa.BinOp:
					if isStringType(x.X.Type()) && (x.Op == token.EQL || x.Op == token.NEQ) {
						if x.Op == token.NEQ {
							i = 1 - i
						}
						if usesGlobal(p, x, "BuildFileNames") {
							names = append(names, edge2{b, b.Succs[i]}, edge2{b, b.Succs[1-i]})
						}
					}
				}
			}
			end := func(t *ssa.BasicBlock) bool { return t == l.head || !l.body[t] }
			hit := func(t *ssa.BasicBlock) bool { return keep[t] }
			if len(dirs) == 0 || len(names) == 0 {
				c.Violate(key+":anchor", p.instrPos(l.head.Instrs[0]), "the tests for directories and file names were not found")
				continue
			}
			isEdge := func(es []edge2, k int) func(b, t *ssa.BasicBlock) bool {
				return func(b, t *ssa.BasicBlock) bool {
					for i, e := range es {
						if i%2 == k && e.b == b && e.t == t {
							return true
						}
					}
					return false
				}
			}
			c.Inst(R, "directories are searched in "+funcName(fn))
			if !pathsPass(l.start, end, hit, isEdge(dirs, 1)) {
				c.Violate(key+":dir", p.instrPos(dirs[0].b.Instrs[0]), "a directory may be left out of the search")
			}
			c.Inst(R, "files are kept in "+funcName(fn))
			notName := isEdge(names, 1)
			aDir := isEdge(dirs, 0)
			// the comparisons with the names are complete
			for b := range l.body {
				if in := loopAt(b); in != nil && b != l.head {
					if _, cut := in.over.(*ssa.Slice); cut {
						c.Violate(key+":names", p.instrPos(b.Instrs[0]), "not every name of a BUILD file is looked for")
					}
				}
			}
			// a file of such a name is kept at once, or noted (the best of the directory) and kept after the entries
			noted := false
			for i := 0; i < len(names); i += 2 {
				if keep[names[i].t] || pathsPass(names[i].t, end, hit, nil) {
					continue
				}
				noted = true
			}
			if noted {
				late := func(t *ssa.BasicBlock) bool {
					for _, in := range t.Instrs {
						if cc, ok := in.(*ssa.Call); ok && isAppend(cc) && typeKey(cc.Type()) == "[]string" && grows(cc) && usesGlobal(p, cc, "BuildFileNames") {
							return true
						}
					}
					return false
				}
				oh, ob := outerLoop(fn, l.head, l.body)
				stop := func(t *ssa.BasicBlock) bool { return t == oh || oh != nil && !ob[t] || isReturn(t) }
				ok := pathsPass(l.head, stop, late, func(b, t *ssa.BasicBlock) bool {
					if b == l.head {
						return l.body[t]
					}
					br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok || b.Succs[0] == b.Succs[1] || !usesPhiOf(p, br.Cond, l.head) {
						return false
					}
					// nothing was noted: the file is not kept on this side
					return !late(t) && pathsPass(t, late, stop, nil)
				})
				if !ok {
					c.Violate(key+":file", p.instrPos(names[0].b.Instrs[0]), "a BUILD file may be left out")
				}
			}
			// no way past the comparisons
			passed := func(t *ssa.BasicBlock) bool {
				for i := 0; i < len(names); i += 2 {
					if names[i].b == t {
						return true
					}
					if h, body := innerLoop(names[i].b); h != nil && h != l.head && (h == t || body[t]) {
						return true
					}
				}
				return keep[t]
			}
			if !pathsPass(l.start, end, passed, func(b, t *ssa.BasicBlock) bool { return notName(b, t) || aDir(b, t) }) {
				c.Violate(key+":skip", p.instrPos(l.start.Instrs[0]), "an entry may be skipped whatever its name is")
			}
			// the loop over the directories goes on until there are none left
			if h, body := outerLoop(fn, l.head, l.body); h != nil {
				if br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
					if cmp, ok := br.Cond.(*ssa.BinOp); ok && (lenArg(cmp.X) != nil || lenArg(cmp.Y) != nil) {
						x, y, op := cmp.X, cmp.Y, cmp.Op
						if lenArg(x) == nil {
							x, y = y, x
							switch op {
							case token.LSS:
								op = token.GTR
							case token.GTR:
								op = token.LSS
							}
						}
						in := body[h.Succs[0]]
						none := constIs(y, 0) && (in && (op == token.NEQ || op == token.GTR) || !in && op == token.EQL)
						if _, counted := y.(*ssa.Phi); !none && !counted {
							c.Violate(key+":end", p.instrPos(br), "the search can end before the last directory")
						}
					}
				}
				for b := range body {
					for _, t := range b.Succs {
						if !body[t] && b != h && !failing(t) {
							c.Violate(key+":end", p.instrPos(b.Instrs[len(b.Instrs)-1]), "the search can end before the last directory")
						}
					}
				}
			}
		}
	}
}

type edge2 struct{ b, t *ssa.BasicBlock }

// usesGlobal: the value is made from a package variable of that name.
func usesGlobal(p *Prog, v ssa.Value, name string) bool {
	for x := range p.sliceOf(v).vals {
		if g, ok := x.(*ssa.Global); ok && g.Name() == name {
			return true
		}
	}
	return false
}

// outerLoop: the smallest loop around the given one.
func outerLoop(fn *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var oh *ssa.BasicBlock
	var ob map[*ssa.BasicBlock]bool
	for _, h := range fn.Blocks {
		if h == head {
			continue
		}
		b := natLoop(h)
		if len(b) > 0 && b[head] && (ob == nil || len(b) < len(ob)) {
			oh, ob = h, b
		}
	}
	return oh, ob
}

// usesPhiOf: the value is made from what the loop with that head found.
func usesPhiOf(p *Prog, v ssa.Value, head *ssa.BasicBlock) bool {
	for x := range p.sliceOf(v).vals {
		if ph, ok := x.(*ssa.Phi); ok && ph.Block() == head && sliceElem(ph.Type()) == nil {
			return true
		}
	}
	return false
}

// oneKey: the name of the file the commands are listed under is absolute, unless it stands for the standard input.
func (d *dispatch) oneKey(fn *ssa.Function, mu *ssa.MapUpdate) {
	p, c := d.p, d.c
	c.Inst("one", "name of the file in "+funcName(fn))
	abs := func(v ssa.Value) bool {
		for x := range p.sliceOf(v).vals {
			if cc, ok := x.(*ssa.Call); ok && p.staticName(&cc.Call) == "path/filepath.Abs" {
				return true
			}
		}
		return false
	}
	key := "one:" + funcName(fn)
	if !abs(mu.Key) {
		c.Violate(key, p.instrPos(mu), "the same file under two names is edited by two workers at once")
		return
	}
	hit := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(*ssa.Call); ok && (p.staticName(&cc.Call) == "path/filepath.Abs" || cc.Call.StaticCallee() != nil && relPkg(cc.Call.StaticCallee()) == "edit" && isStringish(cc.Type()) && abs(cc)) {
				hit[b] = true
			}
		}
	}
	mb := mu.Block()
	if hit[mb] {
		return
	}
	start := fn.Blocks[0]
	if h, _ := innerLoop(mb); h != nil {
		start = h
		if l := loopAt(h); l != nil {
			start = l.start
		}
	}
	ok := pathsPass(start, func(b *ssa.BasicBlock) bool { return b == mb }, func(b *ssa.BasicBlock) bool { return hit[b] }, stdinEdge)
	if !ok {
		c.Violate(key, p.instrPos(mu), "the same file under two names may be edited by two workers at once")
	}
}

func isStringish(t types.Type) bool {
	if tu, ok := t.(*types.Tuple); ok && tu.Len() > 0 {
		t = tu.At(0).Type()
	}
	return isStringType(t)
}

// stdinEdge: the edge is taken when a name is the one of the standard input.
func stdinEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || constOf(cmp.X) != "-" && constOf(cmp.Y) != "-" {
		return false
	}
	return cmp.Op == token.EQL && t == b.Succs[0] || cmp.Op == token.NEQ && t == b.Succs[1]
}

// takesInfo: the function is given the description of a command.
func takesInfo(g *ssa.Function) bool {
	for _, pa := range g.Params {
		if shortType(pa.Type()) == "edit.CommandInfo" {
			return true
		}
	}
	return false
}
