package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P11", traversal, "fields of a node hold the code they are named after; the From and To lists of a load have equal length")
	register("P12", printing, "a lambda has exactly one body expression; the step of a slice is only set together with its second colon")
}

// part is something a node of the syntax tree holds: a child, a list of children, an end marker or a
// piece of text.
type part struct {
	name string
	path []int
	typ  types.Type
	kind byte // e child, l list, E end marker (by address), s text
}

// visitFam is a family of functions that must deal with every part of every node they are given. A
// claim (function, parameter) says that the function deals with all of that argument; claims are
// assumed for calls and verified for bodies, and claims that fail are withdrawn until nothing changes.
type visitFam struct {
	copies    map[*ssa.Function]bool // functions that return a copy of a list
	queued    func(addr *T) bool     // the address is that of a queue of comments
	lostQueue map[*ssa.Function]bool
	c         *Ctx
	p         *Prog
	what      string
	rule      string
	root      *ssa.Function
	arg       int
	nodes     []*types.Named
	parts     map[*types.Named][]part
	claims    map[*ssa.Function]map[int]bool
	texts     map[string]bool
	fail      map[*ssa.Function]map[int]map[string]bool
	inline    func(fn *ssa.Function) bool
	// base: further calls that deal with values
	base func(v *visitRun, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool)
	// also: further obligations of the root at a return
	also     func(v *visitRun, s *S, node *T) []string
	onAppend func(v *visitRun, s *S, list, tail *T)
	comments *types.Named // set if comments are parts too
	after    map[*ssa.Function]bool
	isRange  map[*ssa.BasicBlock]*rangeLoop
	comps    map[*ssa.Function]map[ssa.Value]ssa.Value
	guards   map[string]func(v *visitRun, s *S, node *T, n *types.Named) bool
}

type visitRun struct {
	*visitFam
	e    *Engine
	fn   *ssa.Function
	args []*T
}

// astNodes lists the concrete node types: structs of package build whose pointers implement Expr.
func (p *Prog) astNodes() (types.Type, []*types.Named) {
	sp := p.SPkgs["build"]
	if sp == nil {
		return nil, nil
	}
	ex, ok := sp.Pkg.Scope().Lookup("Expr").(*types.TypeName)
	if !ok {
		return nil, nil
	}
	iface, ok := ex.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, nil
	}
	var out []*types.Named
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(nt), iface) {
			out = append(out, nt)
		}
	}
	return ex.Type(), out
}

func (f *visitFam) isNodePtr(t types.Type) *types.Named {
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	for _, x := range f.nodes {
		if x == n {
			return n
		}
	}
	return nil
}

func (f *visitFam) isExpr(t types.Type) bool { return typeKey(t) == modPath+"/build.Expr" }

func (f *visitFam) isList(t types.Type) (types.Type, bool) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	if f.isExpr(sl.Elem()) || f.isNodePtr(sl.Elem()) != nil || f.comments != nil && typeKey(sl.Elem()) == modPath+"/build.Comment" {
		return sl.Elem(), true
	}
	return nil, false
}

// exprish: the kinds of argument a claim can be about.
func (f *visitFam) exprish(t types.Type) bool {
	if f.isExpr(t) || f.isNodePtr(t) != nil {
		return true
	}
	if _, ok := f.isList(t); ok {
		return true
	}
	if p, ok := t.(*types.Pointer); ok {
		if _, ok := f.isList(p.Elem()); ok {
			return true
		}
	}
	return false
}

func (f *visitFam) partsOf(n *types.Named, text, ends bool) []part {
	var out []part
	var rec func(st *types.Struct, path []int)
	rec = func(st *types.Struct, path []int) {
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			pt := append(append([]int{}, path...), i)
			name := n.Obj().Name() + "." + fl.Name()
			ft := fl.Type()
			_, list := f.isList(ft)
			switch {
			case f.isExpr(ft) || f.isNodePtr(ft) != nil:
				out = append(out, part{name, pt, ft, 'e'})
			case list:
				out = append(out, part{name, pt, ft, 'l'})
			case typeKey(ft) == modPath+"/build.End":
				if ends {
					out = append(out, part{name, pt, ft, 'E'})
				}
			case fl.Embedded():
				if nt, ok := ft.(*types.Named); ok && nt.Obj().Name() != "Comments" {
					if st2, ok := nt.Underlying().(*types.Struct); ok {
						rec(st2, pt)
					}
				}
			case isStringType(ft) && text && n.Obj().Name() != "File":
				out = append(out, part{name, pt, ft, 's'})
			}
		}
	}
	rec(n.Underlying().(*types.Struct), nil)
	return out
}

// addr is the address of a part of the node t.
func (v *visitRun) addr(t *T, n *types.Named, p part) *T {
	var cur types.Type = n
	a := t
	for _, i := range p.path {
		a = v.e.Field(a, cur, i)
		cur = cur.Underlying().(*types.Struct).Field(i).Type()
	}
	return a
}

func (v *visitRun) load(s *S, t *T, n *types.Named, p part) *T {
	return v.e.Load(s.State, v.addr(t, n, p), p.typ)
}

func unbox(t *T) *T {
	for t.op == "mkiface" {
		t = t.args[0]
	}
	return t
}

func (v *visitRun) cover(s *S, t *T) {
	t = unbox(t)
	if discr(t) {
		return
	}
	s.note[fmt.Sprintf("cov|%d", t.id)] = t
	if t.op == "load" && (t.args[0].op == "elem" || t.args[0].op == "field") {
		a := t.args[0]
		s.note[fmt.Sprintf("cov|%d", a.id)] = a
	}
	if t.op == "alloc" { // a node made on the spot stands for what it was made of
		for a, val := range s.mem {
			if a.op != "field" || a.args[0] != t || val == t {
				continue
			}
			if a.typ != nil && isStringType(deref(a.typ)) {
				v.print(s, val)
			} else if a.typ != nil && v.exprish(deref(a.typ)) && !v.has(s, unbox(val)) {
				v.cover(s, val)
			}
		}
	}
}

func (v *visitRun) has(s *S, t *T) bool {
	return s.note[fmt.Sprintf("cov|%d", t.id)] == t
}

func (v *visitRun) emptyAt(s *State, list *T) bool {
	hi, ok := v.e.upper(s, v.e.tb.Len(list))
	return ok && hi <= 0 || v.e.Eval(s, v.e.tb.Eq(list, v.e.tb.Nil())) == yes
}

func (v *visitRun) empty(s *S, list *T) bool {
	if list.op == "nil" || list.op == "zero" {
		return true
	}
	hi, ok := v.e.upper(s.State, v.e.tb.Len(list))
	return ok && hi <= 0 || v.e.Eval(s.State, v.e.tb.Eq(list, v.e.tb.Nil())) == yes
}

// coverValue marks what an argument of this type stands for.
func (v *visitRun) coverValue(s *S, a *T, t types.Type) {
	v.cover(s, a)
	if p, ok := t.(*types.Pointer); ok {
		if _, ok := v.isList(p.Elem()); ok || v.isExpr(p.Elem()) {
			v.cover(s, v.e.Load(s.State, a, p.Elem()))
		}
	}
}

// missing lists what has not been dealt with of a value of type typ.
func (v *visitRun) missing(s *S, t *T, typ types.Type, depth int) []string {
	t = unbox(t)
	if v.comments != nil && typeKey(typ) == modPath+"/build.Comment" {
		if t.op == "load" && v.printed(s, v.e.Field(t.args[0], typ, v.fieldIndex(typ, "Token")), t) {
			return nil
		}
		return []string{"text"}
	}
	if v.has(s, t) || t.op == "nil" || v.e.Eval(s.State, v.e.tb.Eq(t, v.e.tb.Nil())) == yes {
		return nil
	}
	if p, ok := typ.(*types.Pointer); ok {
		if _, ok := v.isList(p.Elem()); ok {
			return v.missing(s, v.e.Load(s.State, t, p.Elem()), p.Elem(), depth)
		}
	}
	if el, ok := v.isList(typ); ok {
		if v.empty(s, t) {
			return nil
		}
		if depth < 2 {
			if hi, ok := v.e.upper(s.State, v.e.tb.Len(t)); ok && hi == 1 {
				return v.missing(s, v.elem(s, t, el, v.e.tb.Int(0)), el, depth+1)
			}
		}
		return []string{"elements"}
	}
	if n := v.isNodePtr(typ); n != nil && (depth == 0 || v.leaf(n)) {
		return v.missingNode(s, t, n)
	}
	if depth > 0 {
		return []string{"it"}
	}
	var out []string
	for _, n := range v.nodes {
		is := v.e.tb.mk("is", typeKey(types.NewPointer(n)), t)
		is.typ = types.NewPointer(n)
		if v.e.Eval(s.State, is) != no {
			out = append(out, v.missingNode(s, t, n)...)
		}
	}
	return out
}

func (v *visitRun) missingNode(s *S, t *T, n *types.Named) []string {
	var out []string
	if v.comments != nil && n.Obj().Name() == "End" && !v.commentDone(s, t, n, "Before") {
		out = append(out, "comments before a closing bracket")
	}
	if v.comments != nil && n.Obj().Name() == "File" && v.fn != v.root {
		for _, w := range []string{"Before", "After"} {
			if !v.commentDone(s, t, n, w) {
				out = append(out, w+" comments of the file")
			}
		}
	}
	for _, p := range v.parts[n] {
		if g := v.guards[p.name]; g != nil && g(v, s, t, n) {
			continue
		}
		if v.has(s, v.addr(t, n, p)) {
			continue
		}
		switch p.kind {
		case 'E':
			if v.comments == nil || !v.commentDone(s, v.addr(t, n, p), p.typ.(*types.Named), "Before") {
				out = append(out, p.name)
			}
		case 's':
			if !v.printed(s, v.addr(t, n, p), v.load(s, t, n, p)) {
				out = append(out, p.name)
			}
		default:
			if len(v.missing(s, v.load(s, t, n, p), p.typ, 1)) > 0 {
				out = append(out, p.name)
			}
		}
	}
	return out
}

// leaf: the node has nothing but text.
func (f *visitFam) leaf(n *types.Named) bool {
	for _, p := range f.parts[n] {
		if p.kind != 's' {
			return false
		}
	}
	return len(f.parts[n]) > 0
}

func (f *visitFam) textKey(key string) bool {
	if f.texts == nil {
		f.texts = map[string]bool{}
		for _, ps := range f.parts {
			for _, p := range ps {
				if p.kind == 's' {
					f.texts[modPath+"/build."+p.name] = true
				}
			}
		}
		if f.comments != nil {
			f.texts[modPath+"/build.Comment.Token"] = true
		}
	}
	return f.texts[key]
}

func (f *visitFam) fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// commentDone: the comments of the node have been written, or there are none.
func (v *visitRun) commentDone(s *S, t *T, n *types.Named, which string) bool {
	k := v.fieldIndex(v.comments, which)
	bases := []*T{v.e.tb.mk("comments", "", t)}
	if n != nil {
		if i := v.fieldIndex(n, "Comments"); i >= 0 {
			bases = append(bases, v.e.Field(t, n, i))
		}
	} else {
		for _, n := range v.nodes {
			is := v.e.tb.mk("is", typeKey(types.NewPointer(n)), t)
			is.typ = types.NewPointer(n)
			if i := v.fieldIndex(n, "Comments"); i >= 0 && v.e.Eval(s.State, is) == yes {
				bases = append(bases, v.e.Field(t, n, i))
			}
		}
	}
	for _, b := range bases {
		a := v.e.Field(b, v.comments, k)
		l := v.e.Load(s.State, a, v.comments.Underlying().(*types.Struct).Field(k).Type())
		if v.has(s, a) || v.has(s, l) || v.empty(s, l) || s.note[fmt.Sprintf("none|%d", a.id)] == a {
			return true
		}
	}
	return false
}

// printed: text derived from the field has been written, or the text is known and has been written.
func (v *visitRun) printed(s *S, addr, val *T) bool {
	want := ""
	if k, ok := isStr(val); ok {
		want = k
	} else if k := s.eqc[val]; k != nil {
		want, _ = isStr(k)
	}
	for k, t := range s.note {
		if !strings.HasPrefix(k, "prt|") {
			continue
		}
		if t.mentions(func(x *T) bool {
			return x.op == "load" && (x.args[0] == addr || x.args[0].op == "field" && v.e.Eval(s.State, v.e.tb.Eq(x, val)) == yes)
		}) {
			return true
		}
		if lit, ok := isStr(t); ok && want != "" && strings.Contains(lit, want) {
			return true
		}
	}
	return false
}

func (v *visitRun) print(s *S, t *T) {
	t = unbox(t)
	if lit, ok := isStr(t); ok {
		for _, k := range s.eqc {
			if w, ok := isStr(k); ok && w != "" && strings.Contains(lit, w) {
				s.note[fmt.Sprintf("prt|%d", t.id)] = t
			}
		}
		return
	}
	if t.mentions(func(x *T) bool { return x.op == "load" && x.args[0].op == "field" && v.textKey(x.args[0].aux) }) {
		s.note[fmt.Sprintf("prt|%d", t.id)] = t
	}
}

func (v *visitRun) elemAddr(list *T, el types.Type, idx *T) *T {
	a := v.e.tb.mk("elem", typeKey(types.NewPointer(el)), list, idx)
	if a.typ == nil {
		a.typ = types.NewPointer(el)
	}
	return a
}

func (v *visitRun) elem(s *S, list *T, el types.Type, idx *T) *T {
	return v.e.Load(s.State, v.elemAddr(list, el, idx), el)
}

// rangeLoop is a loop that counts over all indices of a list.
type rangeLoop struct {
	list ssa.Value
	idx  func(v *visitRun, fr *Frame, s *S, from *ssa.BasicBlock) *T
	body map[*ssa.BasicBlock]bool
}

// value is the list at an edge to the head of the loop, also where the loop loads it in every iteration.
func (rg *rangeLoop) value(v *visitRun, fr *Frame, s *S) *T {
	var addr func(x ssa.Value) *T
	inside := func(x ssa.Value) bool {
		in, ok := x.(ssa.Instruction)
		return ok && rg.body[in.Block()]
	}
	addr = func(x ssa.Value) *T {
		if !inside(x) {
			return v.e.val(fr, s, x)
		}
		switch x := x.(type) {
		case *ssa.FieldAddr:
			if b := addr(x.X); b != nil {
				return v.e.Field(b, deref(x.X.Type()), x.Field)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if b := addr(x.X); b != nil {
					return v.e.Load(s.State, b, x.Type())
				}
			}
		}
		return nil
	}
	return addr(rg.list)
}

func (f *visitFam) rangeAt(h *ssa.BasicBlock) *rangeLoop {
	if r, ok := f.isRange[h]; ok {
		return r
	}
	r := findRange(h)
	f.isRange[h] = r
	return r
}

func lenArg(x ssa.Value) ssa.Value {
	if c, ok := x.(*ssa.Call); ok && len(c.Call.Args) == 1 {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func constIs(x ssa.Value, n int64) bool {
	c, ok := x.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
}

func findRange(h *ssa.BasicBlock) *rangeLoop {
	head, body := innerLoop(h)
	if head != h || len(h.Instrs) == 0 {
		return nil
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !body[h.Succs[0]] || body[h.Succs[1]] {
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	plus := func(x ssa.Value, n int64) ssa.Value {
		if b, ok := x.(*ssa.BinOp); ok {
			if b.Op == token.ADD && constIs(b.Y, n) || b.Op == token.SUB && constIs(b.Y, -n) {
				return b.X
			}
		}
		return nil
	}
	check := func(ph *ssa.Phi, init func(ssa.Value) bool, step int64) bool {
		if ph == nil || ph.Block() != h {
			return false
		}
		for i, pr := range h.Preds {
			if body[pr] {
				if plus(ph.Edges[i], step) != ssa.Value(ph) {
					return false
				}
			} else if !init(ph.Edges[i]) {
				return false
			}
		}
		return true
	}
	isC := func(n int64) func(ssa.Value) bool { return func(x ssa.Value) bool { return constIs(x, n) } }
	op, left, right := cmp.Op, cmp.X, cmp.Y
	switch op {
	case token.GTR:
		op, left, right = token.LSS, right, left
	case token.NEQ:
		if lenArg(left) != nil {
			left, right = right, left
		}
		if lenArg(right) != nil {
			op = token.LSS
		}
	}
	if op == token.LSS || op == token.LEQ {
		list := lenArg(right)
		if op == token.LEQ {
			list = lenArg(plus(right, -1))
		}
		if list == nil {
			return nil
		}
		if ph, ok := left.(*ssa.Phi); ok && check(ph, isC(0), 1) {
			return &rangeLoop{list, func(v *visitRun, fr *Frame, s *S, from *ssa.BasicBlock) *T {
				for i, pr := range h.Preds {
					if pr == from {
						return v.e.tb.Add(v.e.val(fr, s, ph.Edges[i]), v.e.tb.Int(-1))
					}
				}
				return nil
			}, body}
		}
		if x := plus(left, 1); x != nil {
			if ph, ok := x.(*ssa.Phi); ok && check(ph, isC(-1), 1) {
				return &rangeLoop{list, func(v *visitRun, fr *Frame, s *S, from *ssa.BasicBlock) *T {
					return v.e.val(fr, s, left)
				}, body}
			}
		}
	}
	if cmp.Op == token.GEQ && constIs(cmp.Y, 0) {
		if ph, ok := cmp.X.(*ssa.Phi); ok {
			var list ssa.Value
			if check(ph, func(x ssa.Value) bool {
				if y := plus(x, -1); y != nil {
					list = lenArg(y)
				}
				return list != nil
			}, -1) {
				return &rangeLoop{list, func(v *visitRun, fr *Frame, s *S, from *ssa.BasicBlock) *T {
					for i, pr := range h.Preds {
						if pr == from {
							return v.e.tb.Add(v.e.val(fr, s, ph.Edges[i]), v.e.tb.Int(1))
						}
					}
					return nil
				}, body}
			}
		}
	}
	return nil
}

// comp names the local list variable a slice value (or a pointer to a slice) belongs to; nil if the
// list does not start out empty or as a literal in this function.
func (f *visitFam) comp(x ssa.Value) ssa.Value {
	in, ok := x.(ssa.Instruction)
	if !ok || in.Parent() == nil {
		return nil
	}
	fn := in.Parent()
	m := f.comps[fn]
	if m == nil {
		m = map[ssa.Value]ssa.Value{}
		f.comps[fn] = m
		up := map[ssa.Value]ssa.Value{}
		var find func(a ssa.Value) ssa.Value
		find = func(a ssa.Value) ssa.Value {
			if up[a] == nil || up[a] == a {
				up[a] = a
				return a
			}
			r := find(up[a])
			up[a] = r
			return r
		}
		bad := map[ssa.Value]bool{}
		join := func(a, b ssa.Value) {
			if c, ok := b.(*ssa.Const); ok && c.Value == nil {
				find(a)
				return
			}
			up[find(a)] = find(b)
		}
		isL := func(t types.Type) bool {
			if _, ok := f.isList(t); ok {
				return true
			}
			if p, ok := t.(*types.Pointer); ok {
				_, ok := f.isList(p.Elem())
				return ok
			}
			return false
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isL(st.Addr.Type()) {
					if _, ok := st.Addr.(*ssa.Alloc); ok {
						join(st.Addr, st.Val)
					}
					continue
				}
				val, ok := in.(ssa.Value)
				if !ok || !isL(val.Type()) {
					continue
				}
				switch x := val.(type) {
				case *ssa.Phi:
					for _, ed := range x.Edges {
						join(x, ed)
					}
				case *ssa.Alloc, *ssa.MakeSlice:
					find(val)
				case *ssa.UnOp:
					if _, ok := x.X.(*ssa.Alloc); ok {
						join(x, x.X)
					} else if cl, ok := x.X.(*ssa.Call); ok && f.copies[cl.Call.StaticCallee()] {
						join(x, x.X)
					} else {
						find(x)
						bad[x] = true
					}
				case *ssa.Slice:
					if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						if _, ok := p.Elem().Underlying().(*types.Array); ok {
							find(x)
							continue
						}
					}
					join(x, x.X)
				case *ssa.ChangeType:
					join(x, x.X)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						join(x, x.Call.Args[0])
						if len(x.Call.Args) > 1 {
							if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
								if _, ok := sl.X.(*ssa.Alloc); ok {
									join(x, sl)
								}
							}
						}
						continue
					}
					find(x)
					bad[x] = !f.copies[x.Call.StaticCallee()]
				default:
					find(val)
					bad[val] = true
				}
			}
		}
		for _, pa := range fn.Params {
			if up[pa] != nil {
				bad[pa] = true
			}
		}
		for _, pa := range fn.FreeVars {
			if up[pa] != nil {
				bad[pa] = true
			}
		}
		badc := map[ssa.Value]bool{}
		for x, is := range bad {
			if is {
				badc[find(x)] = true
			}
		}
		keys := make([]ssa.Value, 0, len(up))
		for a := range up {
			keys = append(keys, a)
		}
		for _, a := range keys {
			if r := find(a); !badc[r] {
				m[a] = r
			}
		}
	}
	return m[x]
}

func (v *visitRun) owe(s *S, x ssa.Value) {
	if c := v.comp(x); c != nil {
		s.ev["owe|"+c.Name()] = "1"
	}
}

func (v *visitRun) settle(s *S, x ssa.Value) {
	if c := v.comp(x); c != nil {
		delete(s.ev, "owe|"+c.Name())
	}
}

func (f *visitFam) run(fn *ssa.Function) {
	c, p := f.c, f.p
	r := &Rule{}
	v := &visitRun{visitFam: f, fn: fn}
	r.NoPeel = func(fn *ssa.Function) bool { return true }
	r.Inline = func(fr *Frame, g *ssa.Function) (bool, bool) {
		if g.Parent() != nil || f.inline != nil && f.inline(g) || f.picks(g) {
			return true, true
		}
		if fr.parent != nil || fn != f.root && len(g.Blocks) > 3 {
			return false, true
		}
		return false, false
	}
	partLoad := func(t *T) bool {
		return t.op == "load" && t.args[0].op == "field" || t.op == "param" ||
			t.op == "len" && t.args[0].op == "load" && t.args[0].args[0].op == "field"
	}
	r.Protect = func(t *T) bool {
		switch t.op {
		case "is":
			return len(t.args) > 0 && t.args[0].op != "stale"
		case "==", "<":
			for _, a := range t.args {
				if partLoad(a) {
					return true
				}
			}
		}
		return false
	}
	r.EnvKey = func(e *Engine, s *S, k ssa.Value, t *T) int {
		if ph, ok := k.(*ssa.Phi); ok && (f.isExpr(ph.Type()) || f.isNodePtr(ph.Type()) != nil) {
			for i, a := range v.args {
				if t == a {
					return i + 1
				}
			}
			if t.op == "alloc" {
				return 1000 + t.id
			}
		} else if ok && fn == f.root && isStringType(ph.Type()) {
			return 1000 + t.id
		}
		return 0
	}
	result := func(fr *Frame, s *S, in ssa.Instruction) []Out {
		if x, ok := in.(ssa.Value); ok {
			if tu, ok := x.Type().(*types.Tuple); ok {
				var ts []*T
				for i := 0; i < tu.Len(); i++ {
					t := v.e.tb.mk("opaque", fr.ctx+"|"+fmt.Sprintf("%s.%s.r%d", x.Parent(), x.Name(), i))
					t.typ = tu.At(i).Type()
					v.e.redefine(s, t)
					ts = append(ts, t)
				}
				return []Out{{s, v.e.tb.mk("tuple", "", ts...)}}
			}
			return []Out{{s, v.e.opaque(fr, s, x, "v")}}
		}
		return []Out{{s, v.e.tb.mk("none", "")}}
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, args []*T) ([]Out, bool) {
		if f.base != nil {
			if o, ok := f.base(v, fr, s, in, cc, name, g, args); ok {
				if o == nil {
					o = result(fr, s, in)
				}
				return o, true
			}
		}
		if f.comments != nil && cc.Signature().Results().Len() == 1 && typeKey(cc.Signature().Results().At(0).Type()) == "*"+modPath+"/build.Comments" && len(args) == 1 {
			a := args[0]
			if a.op == "field" && strings.HasSuffix(a.aux, ".Comments") {
				return []Out{{s, a}}, true
			}
			t := e.tb.mk("comments", "", a)
			t.typ = cc.Signature().Results().At(0).Type()
			return []Out{{s, t}}, true
		}
		if g == nil {
			return nil, false
		}
		if ks := f.claims[g]; len(ks) > 0 {
			for k := range ks {
				if k < len(args) {
					if g == f.root && k == f.arg && f.after[fr.fn] {
						s.note[fmt.Sprintf("exp|%d", unbox(args[k]).id)] = unbox(args[k])
					}
					v.coverValue(s, args[k], g.Params[k].Type())
					if !cc.IsInvoke() && len(cc.Args) == len(args) {
						v.settle(s, cc.Args[k])
					}
					if x, ok := in.(ssa.Value); ok && f.copies[g] {
						v.owe(s, x)
					}
				}
			}
			return result(fr, s, in), true
		}
		// the value of a function of texts is a text derived from them
		if res := g.Signature.Results(); res.Len() == 1 && isStringType(res.At(0).Type()) && len(args) > 0 {
			for i, a := range args {
				if i < g.Signature.Params().Len() && isStringType(g.Signature.Params().At(i).Type()) && !discr(a) {
					t := e.tb.mk("derived", name, args...)
					t.typ = res.At(0).Type()
					return []Out{{s, t}}, true
				}
			}
		}
		return nil, false
	}
	// lists of comments found empty stay empty until a store that may concern them
	isComments := func(a *T) bool {
		return a.op == "field" && strings.Contains(a.aux, "/build.Comments.") && (a.args[0].op == "comments" || a.args[0].op == "field")
	}
	r.OnFact = func(e *Engine, s *State, t *T, val bool) {
		if f.comments == nil || len(t.args) == 0 {
			return
		}
		for _, x := range t.args {
			if x.op != "len" && !(x.op == "load" && t.op == "==") {
				continue
			}
			l := x
			if x.op == "len" {
				l = x.args[0]
			}
			if l.op == "load" && isComments(l.args[0]) && v.emptyAt(s, l) {
				s.note[fmt.Sprintf("none|%d", l.args[0].id)] = l.args[0]
			}
		}
	}
	r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
		if f.queued != nil && f.queued(addr) {
			old, q := e.Load(s.State, addr, deref(addr.typ)), val
			for q != old && q.op == "append" {
				q = q.args[0]
			}
			if q != old && val != old && !v.has(s, old) && !v.empty(s, old) {
				e.why(s, "queue "+fn.Name())
				f.lostQueue[fn] = true
			}
		}
		if f.comments == nil || !isComments(addr) {
			return
		}
		to := addr.args[0].args[0]
		for k, t := range s.note {
			if !strings.HasPrefix(k, "none|") || t.aux != addr.aux {
				continue
			}
			from := t.args[0].args[0]
			apart := false
			tt := unbox(to).typ
			if unbox(to).op == "alloc" && tt != nil {
				tt = types.NewPointer(tt)
			}
			if n := f.isNodePtr(tt); n != nil && from != to {
				is := e.tb.mk("is", typeKey(types.NewPointer(n)), unbox(from))
				is.typ = types.NewPointer(n)
				apart = e.Eval(s.State, is) == no
			}
			if !apart {
				delete(s.note, k)
			}
		}
	}
	r.OnAppend = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, list, tail *T) {
		if f.onAppend != nil && fr.parent == nil {
			f.onAppend(v, s, list, tail)
		}
		queue := list
		for queue.op == "append" {
			queue = queue.args[0]
		}
		if _, ok := f.isList(cc.Args[0].Type()); ok && queue.op == "load" && queue.args[0].op == "field" && strings.Contains(queue.args[0].aux, "/build.printer.") && (tail.op != "slice" || tail.args[0].op != "alloc") {
			v.cover(s, tail)
			return
		}
		if _, ok := f.isList(cc.Args[0].Type()); !ok || f.comp(cc.Args[0]) == nil && !(isNilConst(cc.Args[0])) {
			return
		}
		if tail.op == "slice" && tail.args[0].op == "alloc" {
			return // its elements were seen when the slice was made
		}
		v.cover(s, tail)
		if x, ok := in.(ssa.Value); ok {
			v.owe(s, x)
		}
	}
	r.OnSlice = func(e *Engine, fr *Frame, s *S, in *ssa.Slice, x, lo, hi *T) {
		if _, ok := f.isList(in.Type()); !ok || x.op != "alloc" || f.comp(in) == nil {
			return
		}
		n := 0
		for a, val := range s.mem {
			if a.op == "elem" && a.args[0] == x {
				v.cover(s, val)
				n++
			}
		}
		if n > 0 {
			v.owe(s, in)
		}
	}
	hkey := func(fr *Frame, h *ssa.BasicBlock) string {
		return fmt.Sprintf("%s|%s.%d", fr.ctx, fr.fn.Name(), h.Index)
	}
	r.OnEdge = func(e *Engine, fr *Frame, s *S, from, to *ssa.BasicBlock, phis bool) {
		// nodes handed from one iteration to the next
		if head, body := innerLoopOf(f, to); head == to {
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !f.isExpr(ph.Type()) && f.isNodePtr(ph.Type()) == nil || fr.parent != nil {
					continue
				}
				key := "cur|" + ph.Name()
				if phis {
					s.note[key] = s.env[ph]
					continue
				}
				if !body[from] {
					continue
				}
				old := e.envOrNil(s, ph)
				if old == nil {
					old = s.note[key]
				}
				var nw *T
				for i, pr := range to.Preds {
					if pr == from {
						nw = e.val(fr, s, ph.Edges[i])
					}
				}
				if old == nil || nw == nil || old == nw {
					continue
				}
				n := s.fork()
				v.cover(n, nw)
				miss := v.missing(n, old, ph.Type(), 0)
				if f.comments != nil && !v.commentDone(s, unbox(nw), f.isNodePtr(ph.Type()), "Before") {
					miss = append(miss, "comments before "+typStr(ph.Type()))
				}
				if len(miss) > 0 {
					s.ev["lost|"+ph.Name()] = strings.Join(miss, ",")
				} else {
					v.cover(s, old)
				}
			}
		}
		if phis {
			return
		}
		if rg := f.rangeAt(to); rg != nil {
			el, isL := f.isList(rg.list.Type())
			k := hkey(fr, to)
			if isL && !rg.body[from] {
				s.note["rng|"+k] = rg.value(v, fr, s)
				for x := range s.ev {
					if strings.HasPrefix(x, "missed|"+k) {
						delete(s.ev, x)
					}
				}
			} else if isL {
				L := s.note["rng|"+k]
				idx := rg.idx(v, fr, s, from)
				if in, ok := rg.list.(ssa.Instruction); ok && L != nil && rg.body[in.Block()] && rg.value(v, fr, s) != L {
					L = nil
				}
				if L != nil && idx != nil {
					for _, g := range v.parallel(s, L) {
						gel := el
						if g.typ != nil {
							if x, ok := f.isList(g.typ); ok {
								gel = x
							}
						}
						if !v.has(s, v.elemAddr(g, gel, idx)) && len(v.missing(s, v.elem(s, g, gel, idx), gel, 1)) > 0 {
							s.ev[fmt.Sprintf("missed|%s|%d", k, g.id)] = "1"
						}
					}
					for x, t := range s.note {
						if !strings.HasPrefix(x, "exp|") {
							continue
						}
						mine := false
						for _, l := range idx.leaves {
							mine = mine || t.hasLeaf(l)
						}
						if mine {
							if !v.commentDone(s, t, nil, "After") {
								s.ev[fmt.Sprintf("missed|%s|%d", k, L.id)] = "1"
							}
							delete(s.note, x)
						}
					}
					for x, t := range s.note {
						if strings.HasPrefix(x, "cov|") || strings.HasPrefix(x, "prt|") {
							for _, l := range idx.leaves {
								if t.hasLeaf(l) {
									delete(s.note, x)
								}
							}
						}
					}
				} else {
					s.ev[fmt.Sprintf("missed|%s|?", k)] = "1"
				}
			}
		}
		if rg := f.rangeAt(from); rg != nil && !rg.body[to] {
			k := hkey(fr, from)
			L := s.note["rng|"+k]
			if L != nil {
				if s.ev[fmt.Sprintf("missed|%s|?", k)] == "" {
					for _, g := range v.parallel(s, L) {
						if s.ev[fmt.Sprintf("missed|%s|%d", k, g.id)] == "" {
							v.cover(s, g)
							if g == L {
								v.settle(s, rg.list)
							}
						}
					}
				}
			}
			delete(s.note, "rng|"+k)
			for x := range s.ev {
				if strings.HasPrefix(x, "missed|"+k) {
					delete(s.ev, x)
				}
			}
		}
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.parent != nil {
			return
		}
		for k := range f.claims[fn] {
			if f.copies[fn] {
				v.settle(s, in.Results[0])
			}
			miss := v.missing(s, v.args[k], fn.Params[k].Type(), 0)
			for x, t := range s.note {
				if strings.HasPrefix(x, "exp|") && !v.commentDone(s, t, nil, "After") {
					miss = append(miss, "comments after a statement")
				}
			}
			for x, val := range s.ev {
				if strings.HasPrefix(x, "owe|") {
					miss = append(miss, "a list of copies")
				}
				if strings.HasPrefix(x, "lost|") {
					miss = append(miss, strings.Split(val, ",")...)
				}
			}
			for x, t := range s.note {
				if strings.HasPrefix(x, "cur|") {
					for _, m := range v.missing(s, t, t.typ, 0) {
						miss = append(miss, m)
					}
				}
			}
			if fn == f.root && f.also != nil {
				miss = append(miss, f.also(v, s, v.args[k])...)
			}
			if len(miss) > 0 {
				e.why(s, f.what+" "+fn.Name()+" "+strings.Join(miss, " "))
				if f.fail[fn] == nil {
					f.fail[fn] = map[int]map[string]bool{}
				}
				if f.fail[fn][k] == nil {
					f.fail[fn][k] = map[string]bool{}
				}
				for _, m := range miss {
					f.fail[fn][k][m] = true
				}
			}
		}
	}
	delete(f.fail, fn)
	e := newEngine(c, r)
	e.Cap = 400
	v.e = e
	_, err := e.Run(fn, func(s *S, params []*T) {
		v.args = params
	})
	if err != nil {
		for k := range f.claims[fn] {
			if f.fail[fn] == nil {
				f.fail[fn] = map[int]map[string]bool{}
			}
			f.fail[fn][k] = map[string]bool{"undecided: " + err.Error(): true}
		}
	}
	c.flowStats(e)
	_ = p
}

// picks: the function only chooses a node.
func (f *visitFam) picks(g *ssa.Function) bool {
	if relPkg(g) != "build" || g.Signature.Recv() != nil || hasLoop(g) || len(g.Blocks) > 16 || len(f.claims[g]) > 0 {
		return false
	}
	for i := 0; i < g.Signature.Results().Len(); i++ {
		if f.isNodePtr(g.Signature.Results().At(i).Type()) != nil {
			return true
		}
	}
	return false
}

var loopCache = map[*ssa.BasicBlock]*struct {
	h *ssa.BasicBlock
	b map[*ssa.BasicBlock]bool
}{}

func innerLoopOf(f *visitFam, b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	if x := loopCache[b]; x != nil {
		return x.h, x.b
	}
	h, body := innerLoop(b)
	loopCache[b] = &struct {
		h *ssa.BasicBlock
		b map[*ssa.BasicBlock]bool
	}{h, body}
	return h, body
}

// parallel: the list itself and the other lists of the node it belongs to.
func (v *visitRun) parallel(s *S, L *T) []*T {
	out := []*T{L}
	if L.op != "load" || L.args[0].op != "field" {
		return out
	}
	key := L.args[0].aux
	for _, n := range v.nodes {
		if n.Obj().Name() != "LoadStmt" || !strings.Contains(key, ".LoadStmt.") {
			continue
		}
		base := L.args[0].args[0]
		for _, p := range v.parts[n] {
			if p.kind != 'l' {
				continue
			}
			if g := v.load(s, base, n, p); g != L {
				g.typ = p.typ
				out = append(out, g)
			}
		}
	}
	return out
}

// solve verifies the claims, withdrawing those that fail; the claim of the root is never withdrawn.
func (f *visitFam) solve() {
	for {
		var fns []*ssa.Function
		for fn, ks := range f.claims {
			if len(ks) > 0 {
				fns = append(fns, fn)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		changed := false
		for _, fn := range fns {
			t0 := time.Now()
			f.run(fn)
			if os.Getenv("TIMES") != "" {
				fmt.Fprintln(os.Stderr, funcName(fn), f.claims[fn], f.fail[fn], time.Since(t0))
			}
			for k := range f.fail[fn] {
				if fn == f.root && k == f.arg {
					continue
				}
				delete(f.claims[fn], k)
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

func (f *visitFam) report() {
	c, p := f.c, f.p
	for _, n := range f.nodes {
		for _, pt := range f.parts[n] {
			c.Inst(f.rule, pt.name)
		}
	}
	var names []string
	for m := range f.fail[f.root][f.arg] {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		c.Violate(f.what+":"+m, p.Pos(f.root.Pos()), "%s does not deal with %s on every path", funcName(f.root), m)
	}
}

func newVisitFam(c *Ctx, what, rule string, root *ssa.Function, arg int, text, ends bool) *visitFam {
	p := c.P
	f := &visitFam{c: c, p: p, what: what, rule: rule, root: root, arg: arg,
		parts: map[*types.Named][]part{}, claims: map[*ssa.Function]map[int]bool{root: {arg: true}},
		fail: map[*ssa.Function]map[int]map[string]bool{}, isRange: map[*ssa.BasicBlock]*rangeLoop{},
		comps:  map[*ssa.Function]map[ssa.Value]ssa.Value{},
		guards: map[string]func(v *visitRun, s *S, node *T, n *types.Named) bool{}}
	_, f.nodes = p.astNodes()
	for _, n := range f.nodes {
		if n.Obj().Name() == "End" {
			continue
		}
		f.parts[n] = f.partsOf(n, text, ends)
	}
	f.dropUnused()
	return f
}

// dispatcher finds the function among cands that tells the types of its argument apart.
func (p *Prog) dispatcher(cands []*ssa.Function, isExpr func(types.Type) bool) (*ssa.Function, int) {
	var best *ssa.Function
	bestN, arg := 1, 0
	for _, fn := range cands {
		for i, pa := range fn.Params {
			if !isExpr(pa.Type()) {
				continue
			}
			n := 0
			for _, r := range *pa.Referrers() {
				if _, ok := r.(*ssa.TypeAssert); ok {
					n++
				}
			}
			if n > bestN {
				best, bestN, arg = fn, n, i
			}
		}
	}
	return best, arg
}

// dropUnused leaves out kinds of nodes that no code turns into an expression, and inherited parts that
// no code touches.
func (f *visitFam) dropUnused() {
	made := map[*types.Named]bool{}
	used := map[*types.Named]map[int]bool{}
	for _, fn := range f.p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					if n := f.isNodePtr(in.X.Type()); n != nil && in.Type().Underlying().(*types.Interface).NumMethods() > 0 {
						if fn.Name() != "Copy" {
							made[n] = true
						}
					}
				case *ssa.FieldAddr:
					if n := f.isNodePtr(in.X.Type()); n != nil && fn.Synthetic == "" {
						if used[n] == nil {
							used[n] = map[int]bool{}
						}
						used[n][in.Field] = true
					}
				}
			}
		}
	}
	var keep []*types.Named
	for _, n := range f.nodes {
		if !made[n] {
			delete(f.parts, n)
			continue
		}
		keep = append(keep, n)
		var ps []part
		for _, p := range f.parts[n] {
			if len(p.path) == 1 || used[n][p.path[0]] {
				ps = append(ps, p)
			}
		}
		f.parts[n] = ps
	}
	f.nodes = keep
}
