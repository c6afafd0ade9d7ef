package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P21", unusedRules,
		"proto.Unmarshal decodes what the compiler wrote; which labels are equal is decided by labels.Equal; bazel writes the params files as documented")
}

// unused: which dependencies unused_deps suggests to remove.
type unused struct {
	c   *Ctx
	p   *Prog
	fns []*ssa.Function
}

func unusedRules(c *Ctx) {
	u := &unused{c: c, p: c.P}
	c.Rule("used", "a label is among the unused ones only after every explicitly used jar of the decoded jdeps file was taken into account, and it is not the label of one of them")
	c.Rule("unknown", "if a file cannot be read or decoded no dependency counts as unused")
	c.Rule("direct", "the labels considered are those in the manifests of the jars that follow the flag for direct dependencies, up to the next flag")
	c.Rule("suggested", "a command to remove or move a dependency is printed only for a string in the target's deps that equals an unused label, and for each such string")
	c.Rule("runtime", "a dependency is moved if its line has a comment with the word runtime, and removed otherwise")
	c.Rule("target", "the dependencies suggested for a target were computed from that target's own files")
	c.Rule("files", "unused_deps modifies no file but its output file and its temporary folder")
	for _, fn := range c.P.repoFuncs() {
		if relPkg(fn) == "unused_deps" && len(fn.Blocks) > 0 {
			u.fns = append(u.fns, fn)
		}
	}
	u.used()
	u.direct()
	u.suggested()
	u.target()
	u.files()
}

// roots: what a value is computed from, through the callers of the functions of the tool and through iterators.
func (u *unused) roots(v ssa.Value) *slicer {
	s := u.p.sliceOf(v)
	done := map[ssa.Value]bool{}
	for again := true; again; {
		again = false
		var vs []ssa.Value
		for x := range s.vals {
			vs = append(vs, x)
		}
		for _, x := range vs {
			if done[x] {
				continue
			}
			done[x] = true
			again = true
			switch y := x.(type) {
			case *ssa.Next:
				s.visit(y.Iter)
			case *ssa.Range:
				s.visit(y.X)
			case *ssa.Parameter:
				if relPkg(y.Parent()) != "unused_deps" {
					continue
				}
				for _, ci := range u.callsOf(y.Parent()) {
					for i, p := range y.Parent().Params {
						if p == y && i < len(ci.Common().Args) {
							s.visit(ci.Common().Args[i])
						}
					}
				}
			case *ssa.FreeVar:
				f := y.Parent()
				for i, fv := range f.FreeVars {
					if fv != y || f.Parent() == nil {
						continue
					}
					for _, b := range f.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
								s.visit(mc.Bindings[i])
							}
						}
					}
				}
			}
		}
	}
	return s
}

func (u *unused) callsOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range u.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
					g = mc.Fn.(*ssa.Function)
				}
				if g == fn {
					out = append(out, ci)
				}
			}
		}
	}
	return out
}

// onlyAfter: the block is reached, from main on, only over edges of the kind.
func (u *unused) onlyAfter(target *ssa.BasicBlock, edge func(b, t *ssa.BasicBlock) bool, depth int) bool {
	fn := target.Parent()
	never := func(*ssa.BasicBlock) bool { return false }
	if target != fn.Blocks[0] {
		// within the iteration, when the block is in a loop
		starts := []*ssa.BasicBlock{fn.Blocks[0]}
		for _, b := range fn.Blocks {
			if l := loopAt(b); l != nil && l.body[target] && l.start != target {
				starts = append(starts, l.start)
			}
		}
		for _, s := range starts {
			if pathsPass(s, func(x *ssa.BasicBlock) bool { return x == target }, never, edge) {
				return true
			}
		}
	}
	if depth > 4 {
		return false
	}
	calls := u.callsOf(fn)
	for _, ci := range calls {
		if !u.onlyAfter(ci.Block(), edge, depth+1) {
			return false
		}
	}
	return len(calls) > 0
}

// condEdge: the edge taken when a condition of the kind holds (yes) or not.
func condEdge(is func(v ssa.Value) bool, want bool) func(b, t *ssa.BasicBlock) bool {
	return impliesEdge(func(v ssa.Value, w bool) bool { return w == want && is(v) }, 0)
}

func isDependency(t types.Type) bool {
	n := namedStruct(t)
	return n != nil && n.Obj().Name() == "Dependency" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "deps_proto")
}

// readsOf: the part of a dependency a value is read from.
func (u *unused) readsOf(v ssa.Value, part string) bool {
	s := u.roots(v)
	if s.out["deps_proto.Dependency."+part] {
		return true
	}
	for x := range s.vals {
		if cc, ok := x.(*ssa.Call); ok && cc.Call.StaticCallee() != nil && cc.Call.StaticCallee().Name() == "Get"+part {
			return true
		}
	}
	return false
}

func isLabelMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key()) && isStringType(m.Elem())
}

func isLabelSet(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringType(m.Key()) {
		return false
	}
	switch e := m.Elem().Underlying().(type) {
	case *types.Basic:
		return e.Kind() == types.Bool
	case *types.Struct:
		return e.NumFields() == 0
	}
	return false
}

// used: the loop over the dependencies of the jdeps file.
func (u *unused) used() {
	c, p := u.c, u.p
	n := 0
	for _, fn := range u.fns {
		var sets []*ssa.MapUpdate
		var all []*anyLoop
		for _, b := range fn.Blocks {
			if l := loopAt(b); l != nil && sliceElem(l.over.Type()) != nil && isDependency(sliceElem(l.over.Type())) {
				all = append(all, l)
			}
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isLabelSet(mu.Map.Type()) {
					sets = append(sets, mu)
				}
			}
		}
		for _, l := range all {
			n++
			c.Inst("used", "every dependency of the jdeps file in "+funcName(fn))
			key := "used:" + funcName(fn)
			pos := p.instrPos(l.head.Instrs[len(l.head.Instrs)-1])
			if exitsEarly(l.head, l.body) != nil {
				c.Violate(key+":all", pos, "dependencies of the jdeps file may be left out")
			}
			for x := range u.roots(l.over).vals {
				if sl, ok := x.(*ssa.Slice); ok && sliceElem(sl.Type()) != nil && isDependency(sliceElem(sl.Type())) {
					c.Violate(key+":part", pos, "only a part of the dependencies of the jdeps file is looked at")
				}
			}
			// what is done with a dependency
			hit := map[*ssa.BasicBlock]bool{}
			removes, collects := []ssa.Value{}, []ssa.Value{}
			for b := range l.body {
				for _, in := range b.Instrs {
					var m, k ssa.Value
					var bulk bool
					switch x := in.(type) {
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							m, k, bulk = x.Call.Args[0], x.Call.Args[1], true
						}
					case *ssa.MapUpdate:
						m, k = x.Map, x.Key
					}
					if m == nil || !isLabelSet(m.Type()) {
						continue
					}
					if !u.labelOfPath(k) {
						c.Violate(key+":label", p.instrPos(in), "the label that counts as used is not that of the jar that is used")
						continue
					}
					hit[b] = true
					if bulk {
						removes = append(removes, m)
					} else {
						collects = append(collects, m)
					}
				}
			}
			notExplicit := func(b, t *ssa.BasicBlock) bool {
				return condEdge(func(v ssa.Value) bool {
					cmp, ok := v.(*ssa.BinOp)
					return ok && cmp.Op == token.EQL && u.isExplicit(cmp)
				}, false)(b, t) || condEdge(func(v ssa.Value) bool {
					cmp, ok := v.(*ssa.BinOp)
					return ok && cmp.Op == token.NEQ && u.isExplicit(cmp)
				}, true)(b, t) || u.unknownJar(b, t)
			}
			if !hit[l.start] && !pathsPass(l.start, func(b *ssa.BasicBlock) bool { return b == l.head }, func(b *ssa.BasicBlock) bool { return hit[b] }, notExplicit) {
				c.Violate(key+":explicit", pos, "an explicitly used jar may not count as used")
			}
			// where labels become unused
			growth := func(m ssa.Value) []*ssa.MapUpdate {
				var out []*ssa.MapUpdate
				for _, mu := range sets {
					if sameMap(mu.Map, m) && !l.body[mu.Block()] {
						out = append(out, mu)
					}
				}
				return out
			}
			for _, m := range removes {
				for _, mu := range growth(m) {
					c.Inst("used", "labels added in "+funcName(fn))
					if blockReaches(l.head, mu.Block()) {
						c.Violate(key+":after", p.instrPos(mu), "a label may count as unused again")
					}
					if !pathsPass(mu.Block(), isReturn, func(b *ssa.BasicBlock) bool { return b == l.head }, nil) {
						c.Violate(key+":before", p.instrPos(mu), "labels may count as unused without a look at the jdeps file")
					}
				}
			}
			if len(removes) > 0 {
				u.afterwards(key, fn, l)
			}
			for _, m := range collects {
				u.guardedBy(key, fn, l, m)
			}
			u.reads(fn, l)
		}
	}
	if n == 0 {
		c.Violate("anchor:used", "", "the loop over the dependencies of the jdeps file was not found")
	}
	c.Floor("used", 2)
	c.Floor("unknown", 2)
}

// afterwards: the set is not filled by another function later on: the function that removes from it gets it, makes it or returns it.
func (u *unused) afterwards(key string, fn *ssa.Function, l *anyLoop) {
	for _, f := range u.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || f == fn || !isLabelSet(mu.Map.Type()) {
					continue
				}
				// a set that is filled elsewhere: only before it is handed to fn
				fills := true
				for _, ci := range u.callsOf(fn) {
					if ci.Parent() == f && blockReaches(b, ci.Block()) && !blockReaches(ci.Block(), b) {
						fills = false
					}
				}
				calledFirst := len(u.callsOf(f)) > 0
				for _, ci := range u.callsOf(f) {
					if ci.Parent() != fn || blockReaches(l.head, ci.Block()) {
						calledFirst = false
					}
				}
				if fills && !calledFirst {
					u.c.Violate(key+":elsewhere:"+funcName(f), u.p.instrPos(in), "a label may count as unused without a look at the jdeps file")
				}
			}
		}
	}
}

// labelOfPath: the label of the jar at the dependency's path.
func (u *unused) labelOfPath(k ssa.Value) bool {
	for {
		switch x := k.(type) {
		case *ssa.Extract:
			if x.Index != 0 {
				return false
			}
			k = x.Tuple
			continue
		case *ssa.Lookup:
			return isLabelMap(x.X.Type()) && u.readsOf(x.Index, "Path")
		case *ssa.Call:
			// a helper
			g := x.Call.StaticCallee()
			return g != nil && relPkg(g) == "unused_deps" && u.readsOf(k, "Path")
		}
		return false
	}
}

func (u *unused) isExplicit(cmp *ssa.BinOp) bool {
	x, y := cmp.X, cmp.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	v, isI := constant.Int64Val(k.Value)
	return isI && v == 0 && u.readsOf(x, "Kind")
}

// unknownJar: the edge on which the jar is not that of a direct dependency.
func (u *unused) unknownJar(b, t *ssa.BasicBlock) bool {
	return condEdge(func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		lk, ok := ex.Tuple.(*ssa.Lookup)
		return ok && isLabelMap(lk.X.Type())
	}, false)(b, t)
}

func sameMap(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// guardedBy: labels become unused only if they are not among the collected used ones.
func (u *unused) guardedBy(key string, fn *ssa.Function, l *anyLoop, used ssa.Value) {
	c, p := u.c, u.p
	isUsed := func(m ssa.Value) bool {
		s := u.roots(m)
		return s.vals[used] || s.vals[stripLoad(used)]
	}
	n := 0
	for _, f := range u.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isLabelSet(mu.Map.Type()) || f == fn && l.body[b] || isUsed(mu.Map) {
					continue
				}
				n++
				c.Inst("used", "labels added in "+funcName(f))
				ask := func(v ssa.Value) bool {
					if ex, ok := v.(*ssa.Extract); ok && ex.Index == 1 {
						v = ex.Tuple
					}
					lk, ok := v.(*ssa.Lookup)
					return ok && isUsed(lk.X) && lk.Index == mu.Key
				}
				if !u.onlyAfter(b, condEdge(ask, false), 9) {
					c.Violate(key+":guard", p.instrPos(in), "a label may count as unused although its jar is used")
				}
				if f == fn && (blockReaches(b, l.head) || !l.head.Dominates(b)) {
					c.Violate(key+":guard", p.instrPos(in), "labels may count as unused before the whole jdeps file was looked at")
				}
			}
		}
	}
	if n == 0 {
		c.Violate(key+":guard", p.Pos(fn.Pos()), "the place where labels count as unused was not found")
	}
}

func stripLoad(v ssa.Value) ssa.Value {
	if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL {
		return x.X
	}
	return v
}

// reads: when the file cannot be read or decoded, nothing counts as unused.
func (u *unused) reads(fn *ssa.Function, l *anyLoop) {
	c, p := u.c, u.p
	fams := map[*ssa.Function]bool{fn: true}
	for i := 0; i < 3; i++ {
		for f := range fams {
			for _, ci := range u.callsOf(f) {
				if relPkg(ci.Parent()) == "unused_deps" && ci.Parent().Name() != "main" {
					fams[ci.Parent()] = true
				}
			}
		}
	}
	for _, f := range u.fns {
		if !fams[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, t := range b.Succs {
				if !errEdge(b, t) {
					continue
				}
				c.Inst("unknown", "failure in "+funcName(f))
				for _, x := range f.Blocks {
					for _, in := range x.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok && isLabelSet(mu.Map.Type()) && (x == t || blockReaches(t, x)) && f == fn {
							c.Violate("unknown:"+funcName(f), p.instrPos(in), "labels may count as unused although a file could not be read or decoded")
						}
					}
				}
			}
		}
		// each decoding is checked
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || typeKey(cc.Type()) != "error" || !strings.HasSuffix(p.staticName(&cc.Call), ".Unmarshal") {
					continue
				}
				c.Inst("unknown", "decoding in "+funcName(f))
				checked := false
				for _, ref := range *cc.Referrers() {
					if cmp, ok := ref.(*ssa.BinOp); ok && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
						for _, r := range *cmp.Referrers() {
							if _, ok := r.(*ssa.If); ok {
								checked = true
							}
						}
					}
					if _, ok := ref.(*ssa.Return); ok {
						checked = true
					}
				}
				if !checked {
					c.Violate("unknown:"+funcName(f)+":decode", p.instrPos(in), "labels may count as unused although the file could not be decoded")
				}
			}
		}
	}
}

// direct: which jars and labels are taken from the params files.
func (u *unused) direct() {
	c, p := u.c, u.p
	n := 0
	for _, fn := range u.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isLabelMap(mu.Map.Type()) {
					continue
				}
				n++
				c.Inst("direct", "jar in "+funcName(fn))
				key := "direct:" + funcName(fn)
				var manifest *ssa.Call
				for x := range p.sliceOf(mu.Value).vals {
					if cc, ok := x.(*ssa.Call); ok && cc.Call.StaticCallee() != nil && u.readsJar(cc.Call.StaticCallee()) && len(cc.Call.Args) > 0 {
						if fromConst(cc.Call.Args, "Target-Label") {
							manifest = cc
						}
					}
				}
				if manifest == nil {
					c.Violate(key+":label", p.instrPos(in), "the label of a jar is not the one in its manifest")
					continue
				}
				same := false
				for _, a := range manifest.Call.Args {
					s := u.roots(a)
					same = same || s.vals[mu.Key]
				}
				if !same {
					c.Violate(key+":same", p.instrPos(in), "a jar gets the label of another jar")
				}
				// up to the next flag
				flag := condEdge(func(v ssa.Value) bool {
					cc, ok := v.(*ssa.Call)
					return ok && p.staticName(&cc.Call) == "strings.HasPrefix" && len(cc.Call.Args) == 2 && constOf(cc.Call.Args[1]) == "--" && u.sameText(cc.Call.Args[0], mu.Key)
				}, false)
				if !u.onlyAfter(b, flag, 9) {
					c.Violate(key+":flag", p.instrPos(in), "a flag may be taken for a jar")
				}
				h, body := innerLoop(b)
				for x := range body {
					for _, t := range x.Succs {
						br, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
						if !ok || x == h {
							continue
						}
						isFlag := condEdge(func(v ssa.Value) bool {
							cc, ok := v.(*ssa.Call)
							return ok && p.staticName(&cc.Call) == "strings.HasPrefix" && len(cc.Call.Args) == 2 && constOf(cc.Call.Args[1]) == "--"
						}, true)
						_ = br
						if isFlag(x, t) && body[t] {
							c.Violate(key+":end", p.instrPos(in), "jars behind the next flag may be taken for direct dependencies")
						}
					}
				}
				// from the flag on
				start := false
				for x := range u.roots(mu.Key).vals {
					switch y := x.(type) {
					case *ssa.Call:
						nm := p.staticName(&y.Call)
						if (nm == "bytes.Index" || nm == "strings.Index" || nm == "bytes.Cut" || nm == "strings.Cut") && len(y.Call.Args) == 2 && u.hasConst(y.Call.Args[1], "--direct_dependencies") {
							start = true
						}
					}
				}
				if !start {
					// an offset is no operand of the text: look at the slices
					for _, x := range fn.Blocks {
						for _, in := range x.Instrs {
							if sl, ok := in.(*ssa.Slice); ok && sl.Low != nil {
								for y := range u.roots(sl.Low).vals {
									if cc, ok := y.(*ssa.Call); ok && strings.HasSuffix(p.staticName(&cc.Call), ".Index") && u.hasConst(cc.Call.Args[1], "--direct_dependencies") {
										start = u.roots(mu.Key).vals[sl] || u.scanned(mu.Key, sl)
									}
								}
							}
						}
					}
				}
				if !start {
					c.Violate(key+":start", p.instrPos(in), "the jars are not taken from behind the flag for direct dependencies")
				}
			}
		}
	}
	if n == 0 {
		c.Violate("anchor:direct", "", "the place where the labels of direct dependencies are collected was not found")
	}
}

// sameText: both are the same text, maybe asked for twice.
func (u *unused) sameText(a, key ssa.Value) bool {
	s := u.roots(a)
	if s.vals[key] {
		return true
	}
	k, ok := key.(*ssa.Call)
	if !ok || !strings.HasSuffix(u.p.staticName(&k.Call), "bufio.Scanner).Text") {
		return false
	}
	for x := range s.vals {
		if cc, ok := x.(*ssa.Call); ok && cc.Call.StaticCallee() == k.Call.StaticCallee() && sameMap(cc.Call.Args[0], k.Call.Args[0]) {
			return true
		}
	}
	return false
}

// scanned: the text comes from a scanner over the slice.
func (u *unused) scanned(v ssa.Value, sl *ssa.Slice) bool {
	for x := range u.roots(v).vals {
		if cc, ok := x.(*ssa.Call); ok && len(cc.Call.Args) > 0 {
			for y := range u.roots(cc.Call.Args[0]).vals {
				if y == ssa.Value(sl) {
					return true
				}
			}
		}
	}
	return false
}

func (u *unused) hasConst(v ssa.Value, s string) bool {
	for x := range u.roots(v).vals {
		if constOf(x) == s {
			return true
		}
	}
	return false
}

func fromConst(vs []ssa.Value, s string) bool {
	for _, v := range vs {
		if constOf(v) == s {
			return true
		}
	}
	return false
}

func (u *unused) readsJar(g *ssa.Function) bool {
	if !inRepo(g) {
		return false
	}
	for f := range u.p.reachableFrom(g) {
		if f.String() == "archive/zip.OpenReader" {
			return true
		}
	}
	return false
}

// suggested: the commands that are printed.
func (u *unused) suggested() {
	c, p := u.c, u.p
	isEqual := func(v ssa.Value) bool {
		cc, ok := v.(*ssa.Call)
		return ok && strings.HasSuffix(p.staticName(&cc.Call), "labels.Equal") && len(cc.Call.Args) == 3
	}
	isRuntime := func(v ssa.Value) bool {
		cc, ok := v.(*ssa.Call)
		if !ok || cc.Call.StaticCallee() == nil || relPkg(cc.Call.StaticCallee()) != "unused_deps" || typeKey(cc.Type()) != "bool" {
			return false
		}
		if !p.readsField(cc.Call.StaticCallee(), "Comments.Suffix") || len(cc.Call.Args) == 0 {
			return false
		}
		// asked of the string itself
		a := cc.Call.Args[0]
		for {
			mi, ok := a.(*ssa.MakeInterface)
			if !ok {
				break
			}
			a = mi.X
		}
		if shortType(a.Type()) == "build.StringExpr" {
			return true
		}
		if a.Referrers() == nil {
			return false
		}
		for _, ref := range *a.Referrers() {
			if ta, ok := ref.(*ssa.TypeAssert); ok && shortType(ta.AssertedType) == "build.StringExpr" {
				return true
			}
		}
		return false
	}
	n := map[string]int{}
	printed := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	for _, fn := range u.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || !strings.HasPrefix(p.staticName(&cc.Call), "fmt.") || len(cc.Call.Args) == 0 {
					continue
				}
				format := ""
				for _, a := range cc.Call.Args {
					for x := range p.sliceOf(a).vals {
						if s := constOf(x); strings.Contains(s, "buildozer") {
							format = s
						}
					}
				}
				kind := ""
				switch {
				case strings.Contains(format, "remove deps"):
					kind = "remove"
				case strings.Contains(format, "move deps"):
					kind = "move"
				default:
					continue
				}
				n[kind]++
				c.Inst("suggested", kind+" in "+funcName(fn))
				c.Inst("runtime", kind+" in "+funcName(fn))
				if printed[fn] == nil {
					printed[fn] = map[*ssa.BasicBlock]bool{}
				}
				printed[fn][b] = true
				key := "suggested:" + kind
				if !u.onlyAfter(b, condEdge(isEqual, true), 0) {
					c.Violate(key+":equal", p.instrPos(in), "a dependency that is not unused may be suggested to be %sd", kind)
				}
				if !u.onlyAfter(b, condEdge(isRuntime, kind == "move"), 0) {
					c.Violate("runtime:"+kind, p.instrPos(in), "the command does not depend on whether the dependency is needed at run time")
				}
				s := u.roots(cc.Call.Args[len(cc.Call.Args)-1])
				if !s.out["build.StringExpr.Value"] {
					c.Violate(key+":text", p.instrPos(in), "the command does not name the dependency as it is in the BUILD file")
				}
			}
		}
	}
	for _, k := range []string{"remove", "move"} {
		if n[k] == 0 {
			c.Violate("anchor:"+k, "", "the place where buildozer commands with %q are printed was not found", k)
		}
	}
	// what is compared
	m := 0
	for _, fn := range u.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || !isEqual(cc) {
					continue
				}
				m++
				c.Inst("suggested", "comparison in "+funcName(fn))
				x, y := u.roots(cc.Call.Args[0]), u.roots(cc.Call.Args[1])
				if !x.out["build.StringExpr.Value"] {
					x, y = y, x
				}
				if !x.out["build.StringExpr.Value"] {
					c.Violate("suggested:compared", p.instrPos(in), "what is compared is not a string of the BUILD file")
				}
				deps := false
				for v := range x.vals {
					if k, ok := v.(*ssa.Call); ok && strings.HasSuffix(p.staticName(&k.Call), "build.Rule).Attr") && len(k.Call.Args) == 2 {
						deps = true
						if constOf(k.Call.Args[1]) != "deps" {
							c.Violate("suggested:attr", p.instrPos(k), "the strings compared may be those of another attribute than deps")
						}
					}
				}
				if !deps {
					c.Violate("suggested:deps", p.instrPos(in), "the strings compared are not those of the deps attribute")
				}
				set := false
				for v := range y.vals {
					if isLabelSet(v.Type()) {
						set = true
					}
				}
				if !set {
					c.Violate("suggested:unused", p.instrPos(in), "the labels compared with are not the unused ones")
				}
				// and for each equal one a command is printed
				hit := map[*ssa.BasicBlock]bool{}
				var mark func(f *ssa.Function, depth int) map[*ssa.BasicBlock]bool
				mark = func(f *ssa.Function, depth int) map[*ssa.BasicBlock]bool {
					out := map[*ssa.BasicBlock]bool{}
					for _, b := range f.Blocks {
						if printed[f][b] {
							out[b] = true
						}
						for _, in := range b.Instrs {
							if k, ok := in.(*ssa.Call); ok && depth < 4 {
								g := k.Call.StaticCallee()
								if mc, ok := k.Call.Value.(*ssa.MakeClosure); ok {
									g = mc.Fn.(*ssa.Function)
								}
								if g != nil && g != f && relPkg(g) == "unused_deps" && len(g.Blocks) > 0 {
									sub := mark(g, depth+1)
									if len(sub) > 0 && (sub[g.Blocks[0]] || pathsPass(g.Blocks[0], isReturn, func(b *ssa.BasicBlock) bool { return sub[b] }, nil)) {
										out[b] = true
									}
								}
							}
						}
					}
					return out
				}
				hit = mark(fn, 0)
				for _, t := range b.Succs {
					if !condEdge(func(v ssa.Value) bool { return v == ssa.Value(cc) }, true)(b, t) {
						continue
					}
					h, _ := innerLoop(b)
					if !hit[t] && !pathsPass(t, func(x *ssa.BasicBlock) bool { return x == h || isReturn(x) }, func(x *ssa.BasicBlock) bool { return hit[x] }, nil) {
						c.Violate("suggested:each", p.instrPos(in), "an unused dependency may not be suggested")
					}
				}
			}
		}
	}
	if m == 0 {
		c.Violate("anchor:suggested", "", "the comparison of the dependencies with the unused labels was not found")
	}
	// the mark for run time
	for _, fn := range u.fns {
		if len(fn.Params) != 1 || !p.readsField(fn, "Comments.Suffix") || len(fn.Signature.Results().String()) == 0 {
			continue
		}
		word := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok && strings.Contains(p.staticName(&cc.Call), "Contains") && fromConst(cc.Call.Args, "runtime") {
					for x := range p.sliceOf(cc.Call.Args[0]).vals {
						if lc, ok := x.(*ssa.Call); ok && strings.HasSuffix(p.staticName(&lc.Call), ".ToLower") {
							word = true
						}
					}
				}
			}
		}
		c.Inst("runtime", "mark in "+funcName(fn))
		if !word {
			c.Violate("runtime:word", p.Pos(fn.Pos()), "the word that marks dependencies needed at run time is not looked for in any letter case")
		}
	}
	c.Floor("runtime", 3)
	c.Floor("suggested", 3)
}

// target: the sets are made anew for each target.
func (u *unused) target() {
	c, p := u.c, u.p
	n := 0
	for _, fn := range u.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok || cc.Call.StaticCallee() == nil || relPkg(cc.Call.StaticCallee()) != "unused_deps" {
					continue
				}
				var label, set ssa.Value
				for _, a := range cc.Call.Args {
					if isStringType(a.Type()) && label == nil {
						label = a
					}
					if isLabelSet(a.Type()) {
						set = a
					}
				}
				h, body := innerLoop(b)
				if label == nil || set == nil || typeKey(cc.Type()) != "bool" {
					continue
				}
				if h == nil {
					// one target per call
					if _, ok := label.(*ssa.Parameter); !ok || len(u.callsOf(fn)) == 0 {
						continue
					}
					body = map[*ssa.BasicBlock]bool{}
					for _, x := range fn.Blocks {
						body[x] = true
					}
				} else if l := loopAt(h); l == nil || sliceElem(l.over.Type()) == nil || !isStringType(sliceElem(l.over.Type())) {
					continue
				}
				n++
				c.Inst("target", "suggestions in "+funcName(fn))
				key := "target:" + funcName(fn)
				s := p.sliceOf(set)
				if !s.vals[label] {
					c.Violate(key+":own", p.instrPos(in), "the dependencies suggested for a target are not computed from its name")
				}
				for v := range s.vals {
					iv, ok := v.(ssa.Instruction)
					if !ok || iv.Parent() != fn {
						continue
					}
					if ph, ok := v.(*ssa.Phi); ok && (isLabelSet(ph.Type()) || isLabelMap(ph.Type())) && ph.Block() == h {
						c.Violate(key+":carried", p.instrPos(in), "unused dependencies of one target may be suggested for another")
					}
					if mk, ok := v.(*ssa.MakeMap); ok && !body[mk.Block()] {
						c.Violate(key+":carried", p.instrPos(in), "unused dependencies of one target may be suggested for another")
					}
				}
				for v := range s.vals {
					if pm, ok := v.(*ssa.Parameter); ok && pm.Parent() == fn && (isLabelSet(pm.Type()) || isLabelMap(pm.Type())) {
						c.Violate(key+":carried", p.instrPos(in), "unused dependencies of one target may be suggested for another")
					}
					if g, ok := v.(*ssa.Global); ok && (isLabelSet(deref(g.Type())) || isLabelMap(deref(g.Type()))) {
						c.Violate(key+":carried", p.instrPos(in), "unused dependencies of one target may be suggested for another")
					}
				}
			}
		}
	}
	if n == 0 {
		c.Violate("anchor:target", "", "the loop over the targets was not found")
	}
}

// files: what the tool writes.
func (u *unused) files() {
	c, p := u.c, u.p
	var root *ssa.Function
	for _, fn := range u.fns {
		if fn.Name() == "main" && fn.Parent() == nil {
			root = fn
		}
	}
	if root == nil {
		c.Violate("anchor:main", "", "unused_deps has no main")
		return
	}
	tmp := func(s *slicer) bool {
		for x := range s.vals {
			if strings.Contains(constOf(x), "..") {
				return false
			}
			if cc, ok := x.(*ssa.Call); ok {
				switch p.staticName(&cc.Call) {
				case "path.Dir", "path/filepath.Dir", "path.Split", "path/filepath.Split", "strings.TrimSuffix", "strings.TrimRight":
					return false
				}
			}
		}
		for x := range s.vals {
			if cc, ok := x.(*ssa.Call); ok && fsTemp[p.staticName(&cc.Call)] {
				return true
			}
		}
		return false
	}
	n := 0
	whoMayWrite(c, root, "files", func(f *ssa.Function) bool {
		if relPkg(f) != "unused_deps" {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				i, bad := fsWrites[p.staticName(ci.Common())]
				if !bad {
					continue
				}
				n++
				c.Inst("files", funcName(f)+" "+p.staticName(ci.Common()))
				s := u.roots(ci.Common().Args[i])
				if tmp(s) {
					continue
				}
				flag := false
				for x := range s.vals {
					if g, ok := x.(*ssa.Global); ok && strings.Contains(strings.ToLower(g.Name()), "output") {
						flag = true
					}
				}
				if !flag || strings.Contains(p.staticName(ci.Common()), "Remove") {
					c.Violate("files:"+funcName(f)+":"+p.staticName(ci.Common()), p.instrPos(in), "a file that is neither the output file nor in the temporary folder may be modified")
				}
			}
		}
		return true
	})
	c.Floor("files", 2)
}
