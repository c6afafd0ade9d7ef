package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P18: parsing loses nothing.

func init() {
	register("P18", parseComplete)
}

// rhs returns the symbols of the right side of every production, read from the tables: tokens are
// positive (internal numbers), nonterminals negative.
func (l *lalr) rhs() map[int][]int {
	const flag = -1000
	trans := map[int]map[int]bool{} // predecessor sets
	known := map[int]bool{0: true}
	add := func(from, to int) bool {
		if to < 0 || to >= len(l.chk) {
			return false
		}
		if trans[to] == nil {
			trans[to] = map[int]bool{}
		}
		if trans[to][from] && known[to] {
			return false
		}
		trans[to][from] = true
		known[to] = true
		return true
	}
	reductions := func(st int) []int {
		n := l.def[st]
		if n > 0 {
			return []int{n}
		}
		if n != -2 {
			return nil
		}
		var out []int
		for x := 0; x+1 < len(l.exca); x += 2 {
			if l.exca[x] == -1 && l.exca[x+1] == st {
				for x += 2; x+1 < len(l.exca); x += 2 {
					if l.exca[x+1] > 0 {
						out = append(out, l.exca[x+1])
					}
					if l.exca[x] < 0 {
						break
					}
				}
				break
			}
		}
		return out
	}
	out := map[int][]int{}
	for changed := true; changed; {
		changed = false
		var states []int
		for st := range known {
			states = append(states, st)
		}
		sort.Ints(states)
		for _, st := range states {
			// shifts
			if b := l.pact[st]; b > flag {
				for t := 1; t < l.last; t++ {
					n := b + t
					if n < 0 || n >= l.last {
						continue
					}
					if to := l.act[n]; to >= 0 && to < len(l.chk) && l.chk[to] == t && t < 200 {
						changed = add(st, to) || changed
					}
				}
			}
			for _, pr := range reductions(st) {
				// all ways back over the right side
				type back struct {
					st   int
					syms []int
				}
				cur := []back{{st, nil}}
				for i := 0; i < l.r2[pr]; i++ {
					var next []back
					seen := map[int]bool{}
					for _, b := range cur {
						for p := range trans[b.st] {
							if !seen[p] {
								seen[p] = true
								next = append(next, back{p, append([]int{l.chk[b.st]}, b.syms...)})
							}
						}
					}
					cur = next
				}
				for _, b := range cur {
					if out[pr] == nil {
						out[pr] = append([]int{}, b.syms...)
					}
					a := l.r1[pr]
					g := l.pgo[a]
					j := g + b.st + 1
					to := 0
					if j >= l.last || j < 0 {
						to = l.act[g]
					} else {
						to = l.act[j]
						if to < 0 || to >= len(l.chk) || l.chk[to] != -a {
							to = l.act[g]
						}
					}
					changed = add(b.st, to) || changed
				}
			}
		}
	}
	return out
}

// tokNames are the names of the tokens by internal number.
func (p *Prog) tokNames() []string {
	var out []string
	for _, f := range p.Pkgs["build"].Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			vs, ok := n.(*ast.ValueSpec)
			if !ok || len(vs.Names) != 1 || vs.Names[0].Name != "yyToknames" || len(vs.Values) != 1 {
				return true
			}
			if cl, ok := vs.Values[0].(*ast.CompositeLit); ok {
				for _, e := range cl.Elts {
					if bl, ok := e.(*ast.BasicLit); ok {
						s, _ := strconv.Unquote(bl.Value)
						out = append(out, s)
					}
				}
			}
			return true
		})
	}
	return out
}

// textTokens: tokens whose text is not implied by their kind, with the fields that hold it.
var textTokens = map[string][]string{
	"_IDENT": {"tok"}, "_INT": {"tok"}, "_STRING": {"tok", "str", "triple"}, "_AUGM": {"tok"}, "_COMMENT": {"tok"},
}

type gsym struct {
	i int    // position in the right side
	f string // field of the union
}

func (g gsym) String() string { return fmt.Sprintf("$%d.%s", g.i, g.f) }

type cset map[string]bool

func (a cset) union(b cset) cset {
	if len(b) == 0 {
		return a
	}
	n := cset{}
	for k := range a {
		n[k] = true
	}
	for k := range b {
		n[k] = true
	}
	return n
}

func (a cset) minus(q string) cset {
	n := a.union(cset{q: true})
	delete(n, q)
	return n
}

func meetSet(a, b cset) cset {
	n := cset{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n
}

// pstate: what holds which part of the source.
type pstate struct {
	env  map[ssa.Value]cset
	mem  map[string]cset // "v.f" result, "d.i.f" operands, "o<id>.path" fresh objects
	sunk cset            // stored in something that is in the tree already
	gone cset            // known to be empty here
}

func newPstate() *pstate {
	return &pstate{map[ssa.Value]cset{}, map[string]cset{}, cset{}, cset{}}
}

func (s *pstate) copy() *pstate {
	n := newPstate()
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.sunk, n.gone = s.sunk.union(nil), s.gone.union(nil)
	return n
}

func (s *pstate) String() string {
	var l []string
	for k, v := range s.mem {
		l = append(l, k+"="+fmt.Sprint(v))
	}
	for k := range s.sunk {
		l = append(l, "!"+k)
	}
	for k := range s.gone {
		l = append(l, "0"+k)
	}
	for k, v := range s.env {
		if len(v) > 0 {
			l = append(l, k.Name()+"="+fmt.Sprint(v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// action analyses one region of a function: the blocks dominated by entry, or a whole function.
type action struct {
	c       *Ctx
	p       *Prog
	fn      *ssa.Function
	in      map[*ssa.BasicBlock]bool
	entry   *ssa.BasicBlock
	dollar  func(v ssa.Value) (int, bool) // the operand that an element address denotes
	val     ssa.Value                     // the result
	derived map[ssa.Value]bool            // pointers into the trees of operands
	ids     map[ssa.Value]int
	sums    map[*ssa.Function]map[int]bool
	born    map[ssa.Value]string   // slices that are cut off from the tree
	removes map[*ssa.Function]bool // functions whose result is what they removed from a tree
}

func (a *action) id(v ssa.Value) int {
	if n, ok := a.ids[v]; ok {
		return n
	}
	a.ids[v] = len(a.ids) + 1
	return a.ids[v]
}

// place names the memory an address denotes; base is the fresh object, if any.
func (a *action) place(v ssa.Value) (key string, ok bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		f := st.Field(x.Field).Name()
		if x.X == a.val {
			return "v." + f, true
		}
		if a.dollar != nil {
			if i, ok := a.dollar(x.X); ok {
				return fmt.Sprintf("d.%d.%s", i, f), true
			}
		}
		if k, ok := a.place(x.X); ok {
			return k + "." + f, true
		}
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if c, isC := x.Index.(*ssa.Const); isC {
				return fmt.Sprintf("o%d.[%d]", a.id(al), c.Int64()), true
			}
		}
	case *ssa.Alloc:
		return fmt.Sprintf("o%d", a.id(x)), true
	}
	return "", false
}

func under(key, base string) bool { return key == base || strings.HasPrefix(key, base+".") }

// held: what a value holds.
func (a *action) held(s *pstate, v ssa.Value) cset {
	if al, ok := v.(*ssa.Alloc); ok {
		out := cset{}
		k := fmt.Sprintf("o%d", a.id(al))
		for m, c := range s.mem {
			if under(m, k) {
				out = out.union(c)
			}
		}
		return out
	}
	return s.env[v]
}

func (a *action) step(s *pstate, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			s.env[x] = nil
			return
		}
		if k, ok := a.place(x.X); ok {
			out := cset{}
			for m, c := range s.mem {
				if under(m, k) {
					out = out.union(c)
				}
			}
			s.env[x] = out
			return
		}
		s.env[x] = s.env[x.X] // element or decomposed node: see below
	case *ssa.FieldAddr:
		if _, ok := a.place(x); ok {
			return
		}
		// a part of something held: a field of an element of a list of pairs, or of an operator
		// expression that was told apart by its operator
		base := s.env[x.X]
		if len(base) == 0 {
			s.env[x] = nil
			return
		}
		f := deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
		out := cset{}
		for c := range base {
			if strings.HasSuffix(c, "/"+f) || a.toldApart(x) || a.literalText(x) {
				out[c] = true
			}
		}
		s.env[x] = out
	case *ssa.IndexAddr:
		if _, ok := a.place(x); ok {
			return
		}
		s.env[x] = nil
		if base := s.env[x.X]; len(base) > 0 && (a.rangeOver(x) || a.onlyElement(x)) {
			s.env[x] = base
		}
	case *ssa.MakeInterface:
		s.env[x] = a.held(s, x.X)
	case *ssa.ChangeInterface:
		s.env[x] = a.held(s, x.X)
	case *ssa.ChangeType:
		s.env[x] = a.held(s, x.X)
	case *ssa.TypeAssert:
		s.env[x] = a.held(s, x.X)
	case *ssa.Extract:
		if x.Index == 0 {
			s.env[x] = a.held(s, x.Tuple)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			s.env[x] = a.held(s, x.X).union(a.held(s, x.Y))
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil || a.commentMoved(x) {
			s.env[x] = a.held(s, x.X)
		} else {
			s.env[x] = nil
		}
		if q := a.born[x]; q != "" {
			a.forget(s, q)
			s.env[x] = s.env[x].union(cset{q: true})
		}
	case *ssa.Call:
		out := cset{}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				for _, g := range x.Call.Args {
					out = out.union(a.held(s, g))
				}
			}
		} else if f := x.Call.StaticCallee(); f != nil && inRepo(f) && len(f.Blocks) > 0 {
			for i := range a.summary(f) {
				if i < len(x.Call.Args) {
					out = out.union(a.held(s, x.Call.Args[i]))
				}
			}
		}
		if f := x.Call.StaticCallee(); a.removes[f] {
			q := "what " + f.Name() + " removes"
			a.forget(s, q)
			out = out.union(cset{q: true})
		}
		s.env[x] = out
	case *ssa.Store:
		h := a.held(s, x.Val)
		if k, ok := a.place(x.Addr); ok {
			for m := range s.mem {
				if under(m, k) {
					delete(s.mem, m)
				}
			}
			if len(h) > 0 {
				s.mem[k] = h
			}
			return
		}
		if a.intoTree(x.Addr) {
			s.sunk = s.sunk.union(h)
		}
	}
}

// forget: q stands for something new from here on.
func (a *action) forget(s *pstate, q string) {
	s.sunk, s.gone = s.sunk.minus(q), s.gone.minus(q)
	for k, v := range s.env {
		if v[q] {
			s.env[k] = v.minus(q)
		}
	}
	for k, v := range s.mem {
		if v[q] {
			s.mem[k] = v.minus(q)
		}
	}
}

// intoTree: the address is in a node of an operand (or in the parser's input).
func (a *action) intoTree(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if x.X == a.val {
				return true
			}
			return rec(x.X)
		case *ssa.IndexAddr:
			if a.dollar != nil {
				if _, ok := a.dollar(x); ok {
					return true
				}
			}
			return rec(x.X)
		case *ssa.UnOp:
			return x.Op == token.MUL && rec(x.X)
		case *ssa.TypeAssert:
			return rec(x.X)
		case *ssa.Extract:
			return rec(x.Tuple)
		case *ssa.MakeInterface:
			return rec(x.X)
		case *ssa.ChangeInterface:
			return rec(x.X)
		case *ssa.Slice:
			return rec(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			// x.Comment(): the comments of a node
			if x.Call.IsInvoke() && x.Call.Method.Name() == "Comment" {
				return rec(x.Call.Value)
			}
			if f := x.Call.StaticCallee(); f != nil && f.Name() == "Comment" && len(x.Call.Args) == 1 {
				return rec(x.Call.Args[0])
			}
		case *ssa.Parameter:
			return typeKey(x.Type()) == modPath+"/build.yyLexer"
		case *ssa.Alloc:
			return x.Heap && a.in[x.Block()]
		}
		return false
	}
	return rec(v)
}

// rangeOver: the element of a loop over all elements of a list.
func (a *action) rangeOver(x *ssa.IndexAddr) bool {
	return a.rangeHead(x) != nil
}

func (a *action) rangeHead(x *ssa.IndexAddr) *ssa.BasicBlock {
	add, ok := x.Index.(*ssa.BinOp)
	var ph *ssa.Phi
	if ok && add.Op == token.ADD {
		ph, _ = add.X.(*ssa.Phi)
	} else {
		ph, _ = x.Index.(*ssa.Phi)
	}
	if ph == nil {
		return nil
	}
	h := ph.Block()
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.X != x.Index {
		return nil
	}
	// from the start, one at a time
	start, inc := int64(-2), false
	for i, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok && !h.Dominates(h.Preds[i]) {
			start = c.Int64()
		} else if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok && b.X == ssa.Value(ph) && c.Int64() == 1 {
				inc = true
			}
		}
	}
	if !inc || (add != nil && ok && start != -1) && start != 0 {
		return nil
	}
	ln, ok := cmp.Y.(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 || !sameLoad(ln.Call.Args[0], x.X) {
		return nil
	}
	return h
}

// sameLoad: the same value, or two loads of the same operand.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && sameOperandAddr(x.X, y.X)
}

func sameOperandAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameOperandAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		if !ok || !sameOperandAddr(x.X, y.X) {
			return false
		}
		c, ok := x.Index.(*ssa.Const)
		d, ok2 := y.Index.(*ssa.Const)
		return ok && ok2 && c.Value != nil && d.Value != nil && constant.Compare(c.Value, token.EQL, d.Value)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameOperandAddr(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		return ok && x.Call.IsInvoke() && y.Call.IsInvoke() && x.Call.Method == y.Call.Method && x.Call.Method.Name() == "Comment" && sameOperandAddr(x.Call.Value, y.Call.Value)
	}
	return false
}

// trueBranch: in is only reached when a condition holds that want accepts.
func trueBranch(in ssa.Instruction, want func(cond ssa.Value) bool) bool {
	for d := in.Block().Idom(); d != nil; d = d.Idom() {
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !want(br.Cond) {
			continue
		}
		t := d.Succs[0]
		if t != d.Succs[1] && len(t.Preds) == 1 && t.Dominates(in.Block()) {
			return true
		}
	}
	return false
}

// onlyElement: element 0 of a list known to have one element.
func (a *action) onlyElement(x *ssa.IndexAddr) bool {
	if c, ok := x.Index.(*ssa.Const); !ok || c.Int64() != 0 {
		return false
	}
	return trueBranch(x, func(cond ssa.Value) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return false
		}
		ln, ok := b.X.(*ssa.Call)
		c, ok2 := b.Y.(*ssa.Const)
		if !ok || !ok2 || c.Value == nil || c.Int64() != 1 || len(ln.Call.Args) != 1 {
			return false
		}
		bi, ok := ln.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && sameLoad(ln.Call.Args[0], x.X)
	})
}

// toldApart: the operand of a unary expression whose operator was compared with a constant.
func (a *action) toldApart(x *ssa.FieldAddr) bool {
	if !strings.HasSuffix(fieldKey(deref(x.X.Type()), x.Field), "UnaryExpr.X") {
		return false
	}
	return trueBranch(x, func(cond ssa.Value) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return false
		}
		l, ok := b.X.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		return ok && fa.X == x.X && strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), "UnaryExpr.Op")
	})
}

// literalText: the text of a string literal that becomes a name.
func (a *action) literalText(x *ssa.FieldAddr) bool {
	return strings.HasSuffix(fieldKey(deref(x.X.Type()), x.Field), "build.StringExpr.Value")
}

// absent: what is known to be empty when the branch from b to t is taken.
func (a *action) absent(s *pstate, b, t *ssa.BasicBlock) cset {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := cmp.Op
	if t == b.Succs[1] {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.GTR: token.LEQ, token.LSS: token.GEQ}[op]
	}
	k, ok := cmp.Y.(*ssa.Const)
	if !ok {
		return nil
	}
	if k.IsNil() {
		if op == token.EQL {
			return a.held(s, cmp.X)
		}
		return nil
	}
	ln, ok := cmp.X.(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 || k.Value == nil || k.Value.Kind() != constant.Int {
		return nil
	}
	if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil
	}
	n := k.Int64()
	if n == 0 && (op == token.EQL || op == token.LEQ) || n == 1 && op == token.LSS {
		return a.held(s, ln.Call.Args[0])
	}
	return nil
}

// commentMoved: all but the last element, which is a block of comments that are attached elsewhere.
func (a *action) commentMoved(x *ssa.Slice) bool {
	b, ok := x.High.(*ssa.BinOp)
	if !ok || x.Low != nil || b.Op != token.SUB {
		return false
	}
	if c, ok := b.Y.(*ssa.Const); !ok || c.Int64() != 1 {
		return false
	}
	ln, ok := b.X.(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 || !sameLoad(ln.Call.Args[0], x.X) {
		return false
	}
	// the block's comments
	for blk := range a.in {
		for _, in := range blk.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !a.intoTree(st.Addr) || !(blk.Dominates(x.Block()) || x.Block().Dominates(blk)) {
				continue
			}
			ld, ok := st.Val.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok || deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() != "After" {
				continue
			}
			if isCommentBlock(fa.X) {
				return true
			}
		}
	}
	return false
}

func isCommentBlock(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return isCommentBlock(x.X)
	case *ssa.Extract:
		return isCommentBlock(x.Tuple)
	case *ssa.TypeAssert:
		return typeKey(x.AssertedType) == "*"+modPath+"/build.CommentBlock"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isCommentBlock(e) {
				return false
			}
		}
		return true
	}
	return typeKey(v.Type()) == "*"+modPath+"/build.CommentBlock"
}

// summary: the parameters of a helper that its (first) result holds on every path.
func (a *action) summary(f *ssa.Function) map[int]bool {
	if m, ok := a.sums[f]; ok {
		return m
	}
	a.sums[f] = map[int]bool{}
	h := &action{c: a.c, p: a.p, fn: f, in: map[*ssa.BasicBlock]bool{}, entry: f.Blocks[0], ids: map[ssa.Value]int{}, sums: a.sums}
	for _, b := range f.Blocks {
		h.in[b] = true
	}
	init := newPstate()
	for i, p := range f.Params {
		init.env[p] = cset{fmt.Sprint(i): true}
	}
	var all cset
	h.run(init, func(from *ssa.BasicBlock, to *ssa.BasicBlock, s *pstate) {
		ret, ok := from.Instrs[len(from.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			return
		}
		r := h.held(s, ret.Results[0]).union(nil)
		if all == nil {
			all = r
		} else {
			all = meetSet(all, r)
		}
	})
	m := map[int]bool{}
	for k := range all {
		n, _ := strconv.Atoi(k)
		m[n] = true
	}
	a.sums[f] = m
	return m
}

// run propagates init through the region; exit is called for every way out, with the final states.
func (a *action) run(init *pstate, exit func(from, to *ssa.BasicBlock, s *pstate)) {
	type edge struct{ from, to *ssa.BasicBlock }
	outs := map[edge]*pstate{}
	var blocks []*ssa.BasicBlock
	for _, b := range a.fn.Blocks {
		if a.in[b] {
			blocks = append(blocks, b)
		}
	}
	meet := func(b *ssa.BasicBlock) *pstate {
		var res *pstate
		merge := func(n *pstate) {
			if res == nil {
				res = n.copy()
				return
			}
			// what is known to be empty counts as held by everything
			meet := func(a, b cset) cset { return meetSet(a.union(res.gone), b.union(n.gone)) }
			for k := range n.env {
				if _, ok := res.env[k]; !ok {
					res.env[k] = nil
				}
			}
			for k, v := range res.env {
				res.env[k] = meet(v, n.env[k])
			}
			for k := range n.mem {
				if _, ok := res.mem[k]; !ok {
					res.mem[k] = nil
				}
			}
			for k, v := range res.mem {
				if m := meet(v, n.mem[k]); len(m) > 0 {
					res.mem[k] = m
				} else {
					delete(res.mem, k)
				}
			}
			res.sunk = meet(res.sunk, n.sunk)
			res.gone = meetSet(res.gone, n.gone)
		}
		var back *pstate
		first := true
		for _, p := range b.Preds {
			o := outs[edge{p, b}]
			if o == nil {
				continue
			}
			n := o.copy()
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, q := range b.Preds {
					if q == p {
						n.env[ph] = a.held(o, ph.Edges[k])
					}
				}
			}
			if b.Dominates(p) {
				if first {
					back, first = n.copy(), false
				} else {
					back.sunk = meetSet(back.sunk, n.sunk)
					for k, v := range back.mem {
						back.mem[k] = meetSet(v, n.mem[k])
					}
				}
			}
			merge(n)
		}
		if b == a.entry {
			n := init.copy()
			merge(n)
		}
		if res == nil {
			return nil
		}
		// what every turn of a loop over a list stores is stored when the loop ends
		if back != nil {
			over := cset{}
			for blk := range a.in {
				for _, in := range blk.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && a.rangeHead(ia) == b {
						over = over.union(res.env[ia.X])
					}
				}
			}
			for c := range over {
				if back.sunk[c] {
					res.sunk = res.sunk.union(cset{c: true})
				}
				for k, v := range back.mem {
					if v[c] {
						res.mem[k] = res.mem[k].union(cset{c: true})
					}
				}
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					every := true
					for k, q := range b.Preds {
						if o := outs[edge{q, b}]; b.Dominates(q) && (o == nil || !a.held(o, ph.Edges[k])[c]) {
							every = false
						}
					}
					if every {
						res.env[ph] = res.env[ph].union(cset{c: true})
					}
				}
			}
		}
		return res
	}
	for round, changed := 0, true; changed && round < 50; round++ {
		changed = false
		for _, b := range blocks {
			s := meet(b)
			if s == nil {
				continue
			}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); !ok {
					a.step(s, in)
				}
			}
			for _, t := range b.Succs {
				e := edge{b, t}
				n := s.copy()
				n.gone = n.gone.union(a.absent(s, b, t))
				if outs[e] == nil || outs[e].String() != n.String() {
					outs[e] = n
					changed = true
				}
			}
			if len(b.Succs) == 0 {
				e := edge{b, nil}
				outs[e] = s.copy()
			}
		}
	}
	var es []edge
	for e := range outs {
		if e.to == nil || !a.in[e.to] {
			es = append(es, e)
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from.Index < es[j].from.Index })
	for _, e := range es {
		exit(e.from, e.to, outs[e])
	}
}

func parseComplete(c *Ctx) {
	p := c.P
	c.Rule("production", "in every production of the grammar, each syntax tree, name, number and literal of the right side ends up in the tree the production makes, on every path of its action")
	c.Rule("overwrite", "an action stores syntax in a field of a node that is there already only if the field is empty: no other production fills it, or it was found empty")
	c.Rule("lexed", "every comment the lexer reads is handed to the parser or put in one queue, once, on every path")
	c.Rule("text", "the lexer reads a character outside a token only after it was seen to be white space, and returns no token whose text was not recorded")
	c.Rule("attached", "a comment leaves a queue only to be attached to a node, and what remains in the queue is attached to the file")
	c.Rule("parsed", "the parser returns a tree only after the queues were emptied into it")
	c.Rule("moved", "a comment or statement removed from its place in the tree was stored elsewhere in the tree")
	var parse *ssa.Function
	for _, f := range p.repoFuncs() {
		if relPkg(f) == "build" && f.Name() == "Parse" && f.Signature.Recv() != nil && strings.Contains(typeKey(f.Signature.Recv().Type()), "yyParserImpl") {
			parse = f
		}
	}
	if parse == nil {
		c.Violate("anchor:parser", "", "the generated parser is not found")
		return
	}
	removes := commentsMoved(c, p, parse)
	grammarKeeps(c, p, parse, removes)
	lexComments(c, p)
	lexText(c, p)
	verbatim(c, p, parse)
	drained := queuesDrained(c, p)
	parseDrains(c, p, parse, drained)
	c.Floor("lexed", 1)
	c.Floor("attached", 2)
	c.Floor("text", 5)
	c.Floor("parsed", 1)
	c.Floor("moved", 5)
}

var commentQueues = []string{"build.input.lineComments", "build.input.suffixComments"}

func isCommentQueue(k string) string {
	for _, q := range commentQueues {
		if strings.HasSuffix(k, q) {
			return q
		}
	}
	return ""
}

func lexComments(c *Ctx, p *Prog) {
	var lex *ssa.Function
	for _, f := range p.repoFuncs() {
		if relPkg(f) == "build" && f.Name() == "Lex" && f.Signature.Recv() != nil && len(f.Blocks) > 10 {
			lex = f
		}
	}
	var tok int64 = -1
	if k, ok := p.Pkgs["build"].Types.Scope().Lookup("_COMMENT").(*types.Const); ok {
		tok, _ = constant.Int64Val(k.Val())
	}
	if lex == nil || tok < 0 {
		c.Violate("anchor:lexer", "", "the lexer is not found")
		return
	}
	// the branch that reads a comment
	entry := map[*ssa.BasicBlock]bool{}
	for _, b := range lex.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		for _, v := range []ssa.Value{cmp.X, cmp.Y} {
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == '#' {
				t := b.Succs[0]
				if cmp.Op == token.NEQ {
					t = b.Succs[1]
				}
				entry[t] = true
				c.Inst("lexed", p.instrPos(br))
			}
		}
	}
	queued := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && isCommentQueue(fieldKey(deref(fa.X.Type()), fa.Field)) != ""
	})
	type issue struct{ pos, msg string }
	bad := map[string]issue{}
	r := &Rule{Relevant: queued}
	r.Reset = func() { bad = map[string]issue{} }
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) { return queued[fn], queued[fn] }
	r.OnEdge = func(e *Engine, fr *Frame, s *S, from, to *ssa.BasicBlock, phis bool) {
		if phis || fr.fn != lex {
			return
		}
		if to.Dominates(from) && s.ev["comment"] == "read" {
			for b := range entry {
				if to.Dominates(b) {
					bad["dropped"] = issue{p.instrPos(from.Instrs[len(from.Instrs)-1]), "a comment may be neither queued nor handed to the parser"}
				}
			}
		}
		if entry[to] {
			s.ev["comment"] = "read"
		}
	}
	r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		q := isCommentQueue(fieldKey(deref(fa.X.Type()), fa.Field))
		if q == "" {
			return
		}
		at := p.instrPos(in)
		call, ok := st.Val.(*ssa.Call)
		if !ok || len(call.Call.Args) != 2 || !appendsTo(st.Val, fa) {
			bad["queue"] = issue{at, "the comments in " + q + " may be overwritten"}
			return
		}
		for _, el := range appendedElems(call.Call.Args[1]) {
			text := commentText(el)
			if text == nil {
				bad["element"] = issue{at, "it cannot be decided which comment is put in " + q}
				continue
			}
			if k, ok := text.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
				continue // a blank line
			}
			if s.ev["comment"] != "read" {
				bad["twice"] = issue{at, "a comment may be queued twice, or not be the one that was read"}
			}
			s.ev["comment"] = "queued"
		}
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn != lex || len(vals) != 1 {
			return
		}
		is := e.Eval(s.State, e.tb.mk("==", "", vals[0], e.tb.Int(tok))) != no
		k, isConst := in.Results[0].(*ssa.Const)
		if isConst {
			is = k.Value != nil && k.Int64() == tok
		}
		if s.ev["comment"] == "read" && !is {
			e.why(s, "lexed")
			bad["dropped"] = issue{p.instrPos(in), "a comment may be neither queued nor handed to the parser"}
		}
		if s.ev["comment"] != "read" && is && isConst {
			bad["twice"] = issue{p.instrPos(in), "a comment may be handed to the parser after it was queued"}
		}
	}
	eng := newEngine(c, r)
	if _, err := eng.Run(lex, nil); err != nil {
		c.Violate("undecided:"+funcName(lex), p.Pos(lex.Pos()), "%v", err)
		return
	}
	c.flowStats(eng)
	for k, b := range bad {
		c.Violate("lexed:"+k, b.pos, "%s", b.msg)
	}
}

// appendsTo: v is append(the list at addr, ...).
func appendsTo(v ssa.Value, addr ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || len(call.Call.Args) != 2 {
		return false
	}
	if ld, ok := call.Call.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL && sameOperandAddr(ld.X, addr) {
		return true
	}
	return appendsTo(call.Call.Args[0], addr)
}

// appended returns the elements of the argument list of an append.
func appendedElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		any := false
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				out = append(out, st.Val)
				any = true
			}
		}
		if !any {
			out = append(out, ia)
		}
	}
	return out
}

// commentText: the text of a comment made in place.
func commentText(v ssa.Value) ssa.Value {
	if cl, ok := v.(*ssa.Call); ok {
		// a function that makes one of a text it is given
		g := cl.Call.StaticCallee()
		if g == nil || !inRepo(g) {
			return nil
		}
		par := -1
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			i := -1
			for j, pa := range g.Params {
				if commentText(ret.Results[0]) == pa {
					i = j
				}
			}
			if i < 0 || par >= 0 && par != i {
				return nil
			}
			par = i
		}
		if par < 0 {
			return nil
		}
		return cl.Call.Args[par]
	}
	var addr ssa.Value = v
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		addr = ld.X
	}
	refs := addr.Referrers()
	if refs == nil {
		return nil
	}
	for _, ref := range *refs {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || !strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), "build.Comment.Token") {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				return st.Val
			}
		}
	}
	return nil
}

// commentsField: the address of a list of comments of a node.
func commentsField(v ssa.Value) (*ssa.FieldAddr, string) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || typeKey(deref(fa.X.Type())) != modPath+"/build.Comments" {
		return nil, ""
	}
	return fa, deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

// queuesDrained returns, for each queue, the functions that empty it.
func queuesDrained(c *Ctx, p *Prog) map[string]map[*ssa.Function]bool {
	out := map[string]map[*ssa.Function]bool{}
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "build" {
			continue
		}
		for _, q := range commentQueues {
			web := map[ssa.Value]bool{}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ld, ok := in.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok || isCommentQueue(fieldKey(deref(fa.X.Type()), fa.Field)) != q {
						continue
					}
					self := true
					for _, ref := range *ld.Referrers() {
						call, ok := ref.(*ssa.Call)
						stored := false
						if ok {
							for _, r2 := range *call.Referrers() {
								st, ok := r2.(*ssa.Store)
								stored = stored || ok && sameOperandAddr(st.Addr, fa)
							}
							if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
								stored = true
							}
						}
						self = self && stored
					}
					if !self {
						web[ld] = true
					}
				}
			}
			if len(web) == 0 {
				continue
			}
			key := funcName(fn) + " " + q
			c.Inst("attached", key)
			var cuts []*ssa.Slice
			for changed := true; changed; {
				changed = false
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Phi:
							for _, e := range x.Edges {
								if web[e] && !web[x] {
									web[x] = true
									changed = true
								}
							}
						case *ssa.Slice:
							if web[x.X] && !web[x] {
								web[x] = true
								cuts = append(cuts, x)
								changed = true
							}
						}
					}
				}
			}
			for _, cut := range cuts {
				if !delivered(fn, cut) && !cutStored(fn, cut) {
					c.Violate("attached:"+key, p.instrPos(cut), "%s takes a comment from %s without attaching it to a node", funcName(fn), q)
				}
			}
			if rest := restStored(fn, web, cuts); rest {
				if out[q] == nil {
					out[q] = map[*ssa.Function]bool{}
				}
				out[q][fn] = true
			} else {
				c.Violate("attached:"+key+":rest", p.Pos(fn.Pos()), "%s may return without attaching the comments that remain in %s to the file", funcName(fn), q)
			}
		}
	}
	for _, q := range commentQueues {
		if out[q] == nil {
			c.Violate("attached:"+q, "", "no function empties %s", q)
		}
	}
	return out
}

// ofTree: the comments of a node of the parsed file.
func ofTree(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if strings.HasSuffix(typeKey(deref(x.X.Type())), "build.input") {
			return true
		}
		return ofTree(x.X)
	case *ssa.IndexAddr:
		return ofTree(x.X)
	case *ssa.UnOp:
		return ofTree(x.X)
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return ofTree(x.Call.Value)
		}
		return len(x.Call.Args) == 1 && ofTree(x.Call.Args[0])
	case *ssa.TypeAssert:
		return ofTree(x.X)
	case *ssa.Extract:
		return ofTree(x.Tuple)
	case *ssa.Alloc:
		// a variable that is assigned once
		var val ssa.Value
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
				if val != nil {
					return false
				}
				val = st.Val
			}
		}
		return val != nil && ofTree(val)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) && !ofTree(e) {
				return false
			}
		}
		return true
	}
	return false
}

// sameList: the same value, or two loads of the same field.
func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && sameOperandAddr(x.X, y.X)
}

// variable: the value of a local variable that is assigned once.
func variable(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var val ssa.Value
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			if val != nil {
				return v
			}
			val = st.Val
		}
	}
	if val == nil {
		return v
	}
	return val
}

// goesWith: in is executed whenever at is, in the same turn of the loops around at.
func goesWith(in, at ssa.Instruction) bool {
	b := at.Block()
	if in.Block() == b || in.Block().Dominates(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{in.Block(): true}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if len(x.Succs) == 0 {
			return false
		}
		for _, t := range x.Succs {
			if t.Dominates(b) {
				return false
			}
			if !seen[t] {
				seen[t] = true
				if !rec(t) {
					return false
				}
			}
		}
		return true
	}
	return rec(b)
}

// deliveries calls f for everything that is appended to the comments of a node of the tree.
func deliveries(fn *ssa.Function, f func(st *ssa.Store, v ssa.Value, whole bool)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, _ := commentsField(st.Addr)
			if fa == nil || !ofTree(fa.X) || !appendsTo(st.Val, fa) {
				continue
			}
			tail := st.Val.(*ssa.Call).Call.Args[1]
			els := appendedElems(tail)
			for _, el := range els {
				f(st, el, false)
			}
			if len(els) == 0 {
				f(st, tail, true)
			}
		}
	}
}

// elemStored: the element list[index] is attached to a node whenever at is executed.
func elemStored(fn *ssa.Function, at ssa.Instruction, list ssa.Value, want func(index ssa.Value) bool) bool {
	found := false
	deliveries(fn, func(st *ssa.Store, v ssa.Value, whole bool) {
		if whole || !goesWith(st, at) {
			return
		}
		ld, ok := variable(v).(*ssa.UnOp)
		if !ok {
			return
		}
		if ia, ok := ld.X.(*ssa.IndexAddr); ok && sameList(ia.X, list) && want(ia.Index) {
			found = true
		}
	})
	return found
}

// cutStored: what cut leaves out is attached to a node.
func cutStored(fn *ssa.Function, cut *ssa.Slice) bool {
	whole := false
	deliveries(fn, func(st *ssa.Store, v ssa.Value, w bool) {
		sl, ok := v.(*ssa.Slice)
		if !w || !ok || !sameList(sl.X, cut.X) || !goesWith(st, cut) {
			return
		}
		if cut.High == nil && sl.Low == nil && sl.High != nil && sameIndex(sl.High, cut.Low) || cut.Low == nil && sl.High == nil && sl.Low != nil && sameIndex(sl.Low, cut.High) {
			whole = true
		}
	})
	if whole {
		return true
	}
	switch {
	case cut.High == nil && cut.Low == nil:
		return true
	case cut.High == nil:
		if lo, ok := cut.Low.(*ssa.Const); ok {
			return lo.Int64() == 0 || lo.Int64() == 1 && elemStored(fn, cut, cut.X, func(ix ssa.Value) bool {
				k, ok := ix.(*ssa.Const)
				return ok && k.Int64() == 0
			})
		}
		return counterStored(fn, cut.Low, cut.X, map[ssa.Value]bool{})
	case cut.Low == nil:
		return lastOf(cut.High, cut.X) && elemStored(fn, cut, cut.X, func(ix ssa.Value) bool {
			return lastOf(ix, cut.X) || sameIndex(ix, cut.High)
		})
	}
	return false
}

// counterStored: the elements of list before n are attached: n counts them from 0.
func counterStored(fn *ssa.Function, n, list ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[n] {
		return true
	}
	seen[n] = true
	switch x := n.(type) {
	case *ssa.Const:
		return x.Int64() == 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !counterStored(fn, e, list, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		return x.Op == token.ADD && ok && k.Int64() == 1 && counterStored(fn, x.X, list, seen) && elemStored(fn, x, list, func(ix ssa.Value) bool { return ix == x.X })
	}
	return false
}

// lastOf: v is len(list)-1.
func lastOf(v, list ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return false
	}
	k, ok := b.Y.(*ssa.Const)
	ln, ok2 := b.X.(*ssa.Call)
	if !ok || !ok2 || k.Int64() != 1 || len(ln.Call.Args) != 1 {
		return false
	}
	bi, ok := ln.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && ln.Call.Args[0] == list
}

func restStored(fn *ssa.Function, web map[ssa.Value]bool, cuts []*ssa.Slice) bool {
	res := false
	deliveries(fn, func(st *ssa.Store, w ssa.Value, whole bool) {
		if !whole || !web[w] {
			return
		}
		// it comes from every cut, and no cut follows
		src := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		rec = func(v ssa.Value) {
			if src[v] {
				return
			}
			src[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					rec(e)
				}
			case *ssa.Slice:
				rec(x.X)
			}
		}
		rec(w)
		all := true
		for v := range src {
			all = all && web[v]
		}
		for _, cut := range cuts {
			if delivered(fn, cut) {
				continue // only taken to be attached
			}
			all = all && src[cut] && (cut.Block() == st.Block() || !blockReaches(st.Block(), cut.Block()))
		}
		if all && everyPathBut(fn, st.Block(), func(b, t *ssa.BasicBlock) bool { return emptyOn(web, b, t) }) {
			res = true
		}
	})
	return res
}

// delivered: the slice is attached to a node, and not used otherwise.
func delivered(fn *ssa.Function, cut *ssa.Slice) bool {
	if len(*cut.Referrers()) != 1 {
		return false
	}
	inLoop := blockReaches(cut.Block(), cut.Block())
	found := false
	deliveries(fn, func(st *ssa.Store, v ssa.Value, whole bool) {
		found = found || v == ssa.Value(cut) && inLoop
	})
	return found
}

// emptyOn: a list of the web is empty when the branch from b to t is taken.
func emptyOn(web map[ssa.Value]bool, b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	ln, ok := cmp.X.(*ssa.Call)
	k, ok2 := cmp.Y.(*ssa.Const)
	if !ok || !ok2 || len(ln.Call.Args) != 1 || !web[ln.Call.Args[0]] || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != 0 {
		return false
	}
	if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return false
	}
	if t == b.Succs[0] {
		return cmp.Op == token.EQL
	}
	return cmp.Op == token.GTR || cmp.Op == token.NEQ
}

func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		for _, t := range b.Succs {
			if t == to {
				return true
			}
			if !seen[t] {
				seen[t] = true
				if rec(t) {
					return true
				}
			}
		}
		return false
	}
	return rec(from)
}

// onEveryPath: every way from the start of fn to a return goes through b.
func onEveryPath(fn *ssa.Function, b *ssa.BasicBlock) bool {
	return everyPathBut(fn, b, func(b, t *ssa.BasicBlock) bool { return false })
}

// everyPathBut: every way from the start of fn to a return goes through b or an edge that skip accepts.
func everyPathBut(fn *ssa.Function, b *ssa.BasicBlock, skip func(b, t *ssa.BasicBlock) bool) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, t := range x.Succs {
			if !skip(x, t) && !rec(t) {
				return false
			}
		}
		return true
	}
	return rec(fn.Blocks[0])
}

// parseDrains: a tree is only returned after the queues were emptied into it.
func parseDrains(c *Ctx, p *Prog, parse *ssa.Function, drained map[string]map[*ssa.Function]bool) {
	// functions that always call a function of the set
	always := func(set map[*ssa.Function]bool) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		for f := range set {
			out[f] = true
		}
		for changed := true; changed; {
			changed = false
			for _, fn := range p.repoFuncs() {
				if out[fn] || relPkg(fn) != "build" || len(fn.Blocks) == 0 {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(*ssa.Call); ok && out[call.Call.StaticCallee()] && onEveryPath(fn, b) {
							out[fn] = true
							changed = true
						}
					}
				}
			}
		}
		return out
	}
	runs := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool { return fn == parse })
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "build" || !runs[fn] || fn.Signature.Results().Len() == 0 || typeKey(fn.Signature.Results().At(0).Type()) != "*"+modPath+"/build.File" {
			continue
		}
		direct := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					f := call.Call.StaticCallee()
					direct = direct || f != nil && runs[f] && (f.Signature.Results().Len() == 0 || typeKey(f.Signature.Results().At(0).Type()) != "*"+modPath+"/build.File")
				}
			}
		}
		if !direct {
			continue
		}
		for _, q := range commentQueues {
			al := always(drained[q])
			c.Inst("parsed", funcName(fn)+" "+q)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ret, ok := in.(*ssa.Return)
					if !ok {
						continue
					}
					type src struct {
						v ssa.Value
						b *ssa.BasicBlock
					}
					srcs := []src{{ret.Results[0], b}}
					if ld, ok := ret.Results[0].(*ssa.UnOp); ok {
						if a, ok := ld.X.(*ssa.Alloc); ok {
							srcs = nil
							for _, ref := range *a.Referrers() {
								if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
									srcs = append(srcs, src{st.Val, st.Block()})
								}
							}
						}
					}
					for _, x := range srcs {
						if isNilConst(x.v) {
							continue
						}
						found := false
						for _, d := range fn.Blocks {
							for _, in := range d.Instrs {
								call, ok := in.(*ssa.Call)
								found = found || ok && al[call.Call.StaticCallee()] && (d == x.b || d.Dominates(x.b))
							}
						}
						if !found {
							c.Violate("parsed:"+funcName(fn)+":"+q, p.instrPos(ret), "%s may return a tree without the comments in %s", funcName(fn), q)
						}
					}
				}
			}
		}
	}
}

// sameIndex: two values are the same index.
func sameIndex(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.BinOp)
	y, ok2 := b.(*ssa.BinOp)
	if ok && ok2 && x.Op == y.Op {
		return sameIndex(x.X, y.X) && sameIndex(x.Y, y.Y)
	}
	c, ok := a.(*ssa.Const)
	d, ok2 := b.(*ssa.Const)
	return ok && ok2 && c.Value != nil && d.Value != nil && constant.Compare(c.Value, token.EQL, d.Value)
}

// commentsMoved checks what the parser and its helpers remove from the tree; it returns the helpers
// whose result is what they removed.
func commentsMoved(c *Ctx, p *Prog, parse *ssa.Function) map[*ssa.Function]bool {
	fns := p.reachableFrom(parse)
	removes := map[*ssa.Function]bool{}
	rests := map[*ssa.Function]map[ssa.Value]string{}
	var list []*ssa.Function
	for fn := range fns {
		if relPkg(fn) == "build" && len(fn.Blocks) > 0 {
			list = append(list, fn)
		}
	}
	sort.Slice(list, func(i, j int) bool { return funcName(list[i]) < funcName(list[j]) })
	for _, fn := range list {
		var stores []*ssa.Store
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					stores = append(stores, st)
				}
			}
		}
		for _, st := range stores {
			fa, field := commentsField(st.Addr)
			isList := false
			if fa == nil {
				if _, ok := st.Addr.(*ssa.FieldAddr); !ok && typeKey(deref(st.Addr.Type())) == "[]"+modPath+"/build.Expr" {
					if _, ok := st.Addr.(*ssa.Alloc); !ok {
						isList = true
					}
				}
				if !isList {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia != nil {
					continue
				}
			}
			if fa != nil {
				base := fa.X
				if b, ok := base.(*ssa.FieldAddr); ok {
					base = b.X
				}
				if _, ok := base.(*ssa.Alloc); ok {
					continue // a node being made
				}
			}
			what := "statements"
			if fa != nil {
				what = "comments " + field
			}
			key := funcName(fn) + " " + what
			c.Inst("moved", key+" "+p.instrPos(st))
			near := func(o ssa.Instruction) bool {
				return o.Block() == st.Block() || o.Block().Dominates(st.Block())
			}
			switch v := st.Val.(type) {
			case *ssa.Call:
				if appendsTo(v, st.Addr) {
					continue
				}
			case *ssa.Const:
				kept := false
				for _, o := range stores {
					ld, ok := o.Val.(*ssa.UnOp)
					if of, _ := commentsField(o.Addr); of != nil && ok && o.Block() == st.Block() && sameOperandAddr(ld.X, st.Addr) && !sameOperandAddr(o.Addr, st.Addr) {
						kept = true
					}
				}
				if kept {
					continue
				}
				c.Violate("moved:"+key, p.instrPos(st), "%s removes the %s of a node without storing them elsewhere", funcName(fn), what)
				continue
			case *ssa.Slice:
				ld, ok := v.X.(*ssa.UnOp)
				if ok && sameOperandAddr(ld.X, st.Addr) && v.Low == nil && v.High != nil {
					kept := false
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							o, ok := in.(*ssa.Slice)
							if !ok || o.Low == nil || o.High != nil || !near(o) {
								continue
							}
							ol, ok := o.X.(*ssa.UnOp)
							if ok && sameOperandAddr(ol.X, st.Addr) && sameIndex(o.Low, v.High) && o.Referrers() != nil && len(*o.Referrers()) > 0 {
								kept = true
								if rests[fn] == nil {
									rests[fn] = map[ssa.Value]string{}
								}
								rests[fn][o] = "the " + what + " it removes"
							}
						}
					}
					if !kept && isList {
						kept = emptyBlockDropped(st, v)
					}
					if kept {
						removes[fn] = true
						continue
					}
				}
				c.Violate("moved:"+key, p.instrPos(st), "%s shortens the %s of a node without storing the rest elsewhere", funcName(fn), what)
				continue
			case *ssa.UnOp:
				// moved here from another node
				from, _ := commentsField(v.X)
				if from != nil && field == "Before" {
					cleared := isCommentBlock(from.X)
					for _, o := range stores {
						if o.Block() == st.Block() && sameOperandAddr(o.Addr, v.X) && isNilConst(o.Val) {
							cleared = true
						}
					}
					if !cleared {
						c.Violate("moved:"+key, p.instrPos(st), "%s gives comments to another node that stay where they were", funcName(fn))
					}
					continue
				}
			}
			c.Violate("moved:"+key, p.instrPos(st), "%s may overwrite the %s of a node", funcName(fn), what)
		}
	}
	for i := 0; i < 3; i++ {
		for _, fn := range list {
			if fn == parse || removes[fn] || fn.Signature.Results().Len() == 0 {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok && removes[call.Call.StaticCallee()] {
						removes[fn] = true
					}
				}
			}
		}
	}
	// what a helper gets from another helper is in its own result
	for _, fn := range list {
		if fn == parse {
			continue
		}
		calls := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && removes[call.Call.StaticCallee()] {
					calls[call.Call.StaticCallee()] = true
				}
			}
		}
		if len(calls)+len(rests[fn]) == 0 {
			continue
		}
		a := &action{born: rests[fn], c: c, p: p, fn: fn, in: map[*ssa.BasicBlock]bool{}, entry: fn.Blocks[0], ids: map[ssa.Value]int{}, sums: map[*ssa.Function]map[int]bool{}, removes: removes}
		for _, b := range fn.Blocks {
			a.in[b] = true
		}
		init := newPstate()
		for _, q := range rests[fn] {
			init.gone[q] = true
		}
		for f := range calls {
			init.gone["what "+f.Name()+" removes"] = true
		}
		a.run(init, func(from, to *ssa.BasicBlock, s *pstate) {
			ret, ok := from.Instrs[len(from.Instrs)-1].(*ssa.Return)
			if !ok {
				return
			}
			got := s.sunk.union(s.gone)
			for _, r := range ret.Results {
				got = got.union(a.held(s, r))
			}
			for _, q := range rests[fn] {
				if !got[q] {
					c.Violate("moved:"+funcName(fn)+" rest", p.instrPos(ret), "%s may lose some of %s from the tree", funcName(fn), q)
				}
			}
			for f := range calls {
				q := "what " + f.Name() + " removes"
				if !got[q] {
					c.Violate("moved:"+funcName(fn)+" "+f.Name(), p.instrPos(ret), "%s may lose %s from the tree", funcName(fn), q)
				}
			}
		})
	}
	return removes
}

// emptyBlockDropped: the last statement that is cut off is a comment block without comments.
func emptyBlockDropped(st *ssa.Store, cut *ssa.Slice) bool {
	empty := trueBranch(st, func(cond ssa.Value) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return false
		}
		ln, ok := b.X.(*ssa.Call)
		k, ok2 := b.Y.(*ssa.Const)
		if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != 0 || len(ln.Call.Args) != 1 {
			return false
		}
		ld, ok := ln.Call.Args[0].(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, _ := commentsField(ld.X)
		return fa != nil
	})
	block := trueBranch(st, func(cond ssa.Value) bool {
		switch x := cond.(type) {
		case *ssa.BinOp:
			return (x.Op == token.GTR || x.Op == token.NEQ) && x.X == cut.High || (x.Op == token.LSS || x.Op == token.NEQ) && x.Y == cut.High
		case *ssa.Extract:
			return isCommentBlock(x.Tuple)
		}
		return false
	})
	return empty && block
}

func grammarKeeps(c *Ctx, p *Prog, fn *ssa.Function, removes map[*ssa.Function]bool) {
	l, err := p.readLALR()
	if err != nil {
		c.Violate("anchor:tables", "", "the parser's tables cannot be read: %v", err)
		return
	}
	rhs := l.rhs()
	names := p.tokNames()
	if fn == nil || len(names) == 0 {
		c.Violate("anchor:parser", "", "the generated parser is not found")
		return
	}
	// cases of the switch over productions
	byVal := map[ssa.Value]map[int]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL {
			continue
		}
		k, ok := cmp.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			continue
		}
		if byVal[cmp.X] == nil {
			byVal[cmp.X] = map[int]*ssa.BasicBlock{}
		}
		byVal[cmp.X][int(k.Int64())] = b.Succs[0]
	}
	var cases map[int]*ssa.BasicBlock
	for _, m := range byVal {
		if len(m) > len(cases) {
			cases = m
		}
	}
	if len(cases) < 50 {
		c.Violate("anchor:actions", p.Pos(fn.Pos()), "the actions of the grammar are not found")
		return
	}
	// the result variable
	var val ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && al.Comment == "yyVAL" {
				val = al
			}
		}
	}
	if val == nil {
		c.Violate("anchor:result", p.Pos(fn.Pos()), "the result of the actions is not found")
		return
	}
	dollar := func(v ssa.Value) (int, bool) {
		ia, ok := v.(*ssa.IndexAddr)
		if !ok {
			return 0, false
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return 0, false
		}
		sl, ok := ia.X.(*ssa.Slice)
		if !ok || !strings.Contains(typeKey(sl.Type()), "yySymType") {
			return 0, false
		}
		return int(k.Int64()), true
	}
	union := deref(val.Type()).Underlying().(*types.Struct)
	isTree := map[string]types.Type{}
	for i := 0; i < union.NumFields(); i++ {
		f := union.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Interface:
			if f.Name() != "lastStmt" {
				isTree[f.Name()] = f.Type()
			}
		}
	}
	// which fields of which symbols hold trees
	content := map[int]map[string]bool{}
	put := func(sym int, f string) bool {
		if isTree[f] == nil || sym >= 0 {
			return false
		}
		if content[sym] == nil {
			content[sym] = map[string]bool{}
		}
		if content[sym][f] {
			return false
		}
		content[sym][f] = true
		return true
	}
	regions := map[int]*action{}
	sums := map[*ssa.Function]map[int]bool{}
	for n, b := range cases {
		if n <= 0 || n >= len(l.r2) || len(b.Preds) != 1 {
			continue
		}
		a := &action{c: c, p: p, fn: fn, in: map[*ssa.BasicBlock]bool{}, entry: b, dollar: dollar, val: val, ids: map[ssa.Value]int{}, sums: sums, removes: removes}
		for _, d := range fn.Blocks {
			if b.Dominates(d) {
				a.in[d] = true
			}
		}
		regions[n] = a
		for d := range a.in {
			for _, in := range d.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := ""
				if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
					f = st.Field(fa.Field).Name()
				}
				if fa.X == val {
					put(-l.r1[n], f)
				} else if i, ok := dollar(fa.X); ok && i >= 1 && i <= len(rhs[n]) {
					put(rhs[n][i-1], f)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for n := 1; n < len(l.r2); n++ {
			if regions[n] == nil && l.r2[n] >= 1 && len(rhs[n]) > 0 {
				// the default action copies the first symbol
				for f := range content[rhs[n][0]] {
					changed = put(-l.r1[n], f) || changed
				}
				for f := range content[-l.r1[n]] {
					changed = put(rhs[n][0], f) || changed
				}
			}
		}
	}
	symName := func(s int) string {
		if s > 0 && s-1 < len(names) {
			return names[s-1]
		}
		return fmt.Sprint(s)
	}
	need := func(sym int) []string {
		if sym > 0 {
			return textTokens[symName(sym)]
		}
		var fs []string
		for f := range content[sym] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		return fs
	}
	parts := func(f string, i int) []string {
		// lists of unnamed pairs are kept part by part
		t := isTree[f]
		for t != nil {
			switch x := t.(type) {
			case *types.Slice:
				t = x.Elem()
				continue
			case *types.Pointer:
				t = x.Elem()
				continue
			case *types.Struct:
				var out []string
				for k := 0; k < x.NumFields(); k++ {
					out = append(out, fmt.Sprintf("$%d.%s/%s", i, f, x.Field(k).Name()))
				}
				return out
			}
			break
		}
		return []string{fmt.Sprintf("$%d.%s", i, f)}
	}
	for n := 1; n < len(l.r2); n++ {
		syms, ok := rhs[n]
		if !ok {
			continue // not reachable in the automaton
		}
		if l.r1[n] == 0 {
			continue
		}
		var lhs []string
		for _, s := range syms {
			lhs = append(lhs, symName(s))
		}
		desc := fmt.Sprintf("production %d (%s)", n, strings.Join(lhs, " "))
		c.Inst("production", desc)
		a := regions[n]
		if a == nil {
			for i, s := range syms {
				if i > 0 && len(need(s)) > 0 {
					c.Violate("production:"+desc, p.Pos(fn.Pos()), "%s has no action, so that symbol %d is lost", desc, i+1)
				}
			}
			if len(syms) > 0 && syms[0] > 0 && len(need(syms[0])) > 0 {
				c.Violate("production:"+desc, p.Pos(fn.Pos()), "%s has no action, so that its text is lost", desc)
			}
			continue
		}
		init := newPstate()
		want := cset{}
		for f := range a.removes {
			q := "what " + f.Name() + " removes"
			want[q], init.gone[q] = true, true
		}
		for i, s := range syms {
			for _, f := range need(s) {
				for _, q := range parts(f, i+1) {
					want[q] = true
					k := fmt.Sprintf("d.%d.%s", i+1, f)
					init.mem[k] = init.mem[k].union(cset{q: true})
					if i == 0 {
						k = "v." + f
						init.mem[k] = init.mem[k].union(cset{q: true})
					}
				}
			}
		}
		a.run(init, func(from, to *ssa.BasicBlock, s *pstate) {
			if _, ok := from.Instrs[len(from.Instrs)-1].(*ssa.Panic); ok {
				return
			}
			got := s.sunk.union(s.gone)
			for k, v := range s.mem {
				if strings.HasPrefix(k, "v.") && content[-l.r1[n]][strings.SplitN(k, ".", 3)[1]] {
					got = got.union(v)
				}
			}
			var lost []string
			for q := range want {
				if !got[q] {
					lost = append(lost, q)
				}
			}
			sort.Strings(lost)
			if len(lost) > 0 {
				c.Violate("production:"+desc, p.instrPos(from.Instrs[0]), "%s may lose %s", desc, strings.Join(lost, ", "))
			}
		})
	}
	c.Floor("production", 140)
	overwritten(c, p, fn, regions, l, rhs)
}

// overwritten checks the fields of existing nodes that actions assign.
func overwritten(c *Ctx, p *Prog, fn *ssa.Function, regions map[int]*action, l *lalr, rhs map[int][]int) {
	fieldPath := func(v ssa.Value) (string, ssa.Value) {
		path := ""
		for {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok {
				return path, v
			}
			path = "." + deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() + path
			if _, ok := fa.X.(*ssa.FieldAddr); !ok {
				return typeKey(deref(fa.X.Type())) + path, fa.X
			}
			v = fa.X
		}
	}
	filled := map[string]map[int]bool{}
	var order []int
	for n := range regions {
		order = append(order, n)
	}
	sort.Ints(order)
	each := func(n int, f func(st *ssa.Store, path string, base ssa.Value)) {
		for _, b := range fn.Blocks {
			if !regions[n].in[b] {
				continue
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || isNilConst(st.Val) {
					continue
				}
				if _, ok := st.Addr.(*ssa.FieldAddr); !ok {
					continue
				}
				path, base := fieldPath(st.Addr)
				if strings.Contains(path, "yySymType") || !strings.Contains(path, "/build.") {
					continue
				}
				f(st, strings.TrimPrefix(path, modPath+"/"), base)
			}
		}
	}
	for _, n := range order {
		each(n, func(st *ssa.Store, path string, base ssa.Value) {
			if filled[path] == nil {
				filled[path] = map[int]bool{}
			}
			filled[path][n] = true
		})
	}
	for _, n := range order {
		each(n, func(st *ssa.Store, path string, base ssa.Value) {
			if _, ok := base.(*ssa.Alloc); ok || appendsTo(st.Val, st.Addr) {
				return
			}
			switch st.Val.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Interface:
			default:
				return
			}
			if fa, _ := commentsField(st.Addr); fa != nil || strings.Contains(path, "build.Comments") || strings.Contains(path, "build.input") {
				return // see commentsMoved
			}
			c.Inst("overwrite", fmt.Sprintf("production %d %s", n, path))
			once := len(filled[path]) == 1
			for _, s := range rhs[n] {
				once = once && s != -l.r1[n]
			}
			if once {
				return
			}
			// found empty
			fa := st.Addr.(*ssa.FieldAddr)
			found := false
			for d := st.Block(); d != nil && !found; d = d.Idom() {
				br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
				if !ok || d == st.Block() {
					continue
				}
				cmp, ok := br.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				ln, ok := cmp.X.(*ssa.Call)
				if !ok || len(ln.Call.Args) != 1 {
					continue
				}
				ld, ok := ln.Call.Args[0].(*ssa.UnOp)
				if ok && sameOperandAddr(ld.X, fa) && (cmp.Op == token.EQL || cmp.Op == token.NEQ || cmp.Op == token.GTR) {
					exit := d.Succs[1]
					if cmp.Op == token.NEQ {
						exit = d.Succs[0]
					}
					found = exit.Dominates(st.Block())
				}
			}
			if !found {
				c.Violate(fmt.Sprintf("overwrite:%d:%s", n, path), p.instrPos(st), "production %d may overwrite %s of a node that another production has filled", n, path)
			}
		})
	}
	c.Floor("overwrite", 4)
}

// lexText walks the lexer's control flow with the state of the current token.
func lexText(c *Ctx, p *Prog) {
	storesField := func(fn *ssa.Function, suffix string, want func(st *ssa.Store) bool) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok && strings.HasSuffix(fieldKey(deref(fa.X.Type()), fa.Field), suffix) && want(st) {
					return true
				}
			}
		}
		return false
	}
	readers, openers, closers := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var lex *ssa.Function
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "build" || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Name() == "Lex" && fn.Signature.Recv() != nil && len(fn.Blocks) > 10 {
			lex = fn
			continue
		}
		if storesField(fn, "build.input.remaining", func(st *ssa.Store) bool {
			sl, ok := st.Val.(*ssa.Slice)
			return ok && sl.Low != nil
		}) {
			readers[fn] = true
		}
		if storesField(fn, "build.input.token", func(st *ssa.Store) bool { return true }) {
			openers[fn] = true
		}
		if storesField(fn, "build.yySymType.tok", func(st *ssa.Store) bool { _, isConst := st.Val.(*ssa.Const); return !isConst }) {
			closers[fn] = true
		}
	}
	if lex == nil || len(readers) == 0 || len(openers) == 0 || len(closers) == 0 {
		c.Violate("anchor:lexer", "", "the functions with which the lexer reads characters and records tokens are not found")
		return
	}
	direct := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := call.Common().StaticCallee()
		return readers[f] || openers[f] || closers[f]
	})
	white := func(v ssa.Value) int64 {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0
		}
		switch n := k.Int64(); n {
		case ' ', '\t', '\r', '\n', '\\':
			return n
		}
		return 0
	}
	type lst struct {
		tok   string // "", "open", "done"
		white bool   // the next character was seen to be white space
		defd  bool   // the token is recorded when the lexer returns
		peek  ssa.Value
	}
	isWhiteEdge := func(cond ssa.Value, i int, peek ssa.Value) bool {
		switch x := cond.(type) {
		case *ssa.BinOp:
			if (white(x.X) != 0 && x.Y == peek || white(x.Y) != 0 && x.X == peek) && (x.Op == token.EQL && i == 0 || x.Op == token.NEQ && i == 1) {
				return true
			}
		}
		return false
	}
	// isSpace-like functions: the result is only true for white space
	implies := func(fn *ssa.Function, k int) bool {
		if fn == nil || k >= len(fn.Params) || len(fn.Blocks) == 0 || !isBoolType(fn.Signature.Results().At(0).Type()) {
			return false
		}
		par := fn.Params[k]
		var onlyWhite func(b *ssa.BasicBlock) bool
		onlyWhite = func(b *ssa.BasicBlock) bool {
			if len(b.Preds) == 0 {
				return false
			}
			for _, pr := range b.Preds {
				ok := false
				if br, isIf := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); isIf {
					for i, t := range pr.Succs {
						ok = ok || t == b && isWhiteEdge(br.Cond, i, par) && pr.Succs[0] != pr.Succs[1]
					}
				}
				if !ok {
					return false
				}
			}
			return true
		}
		var isTrue func(v ssa.Value, b *ssa.BasicBlock, from *ssa.BasicBlock) bool
		isTrue = func(v ssa.Value, b, from *ssa.BasicBlock) bool {
			switch x := v.(type) {
			case *ssa.Const:
				if !constant.BoolVal(x.Value) {
					return true
				}
				if from != nil {
					br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
					if !ok {
						return onlyWhite(from)
					}
					for i, t := range from.Succs {
						if t == b && isWhiteEdge(br.Cond, i, par) {
							return true
						}
					}
					return false
				}
				return onlyWhite(b)
			case *ssa.Phi:
				for i, e := range x.Edges {
					if !isTrue(e, x.Block(), x.Block().Preds[i]) {
						return false
					}
				}
				return true
			case *ssa.BinOp:
				return isWhiteEdge(x, 0, par)
			}
			return false
		}
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !isTrue(ret.Results[0], b, nil) {
				return false
			}
		}
		return true
	}
	// second character of a line continuation
	newline := func(in ssa.Instruction) bool {
		return trueBranch(in, func(cond ssa.Value) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL {
				return false
			}
			k, ok := b.Y.(*ssa.Const)
			ld, ok2 := b.X.(*ssa.UnOp)
			if !ok || !ok2 || k.Value == nil || k.Int64() != '\n' {
				return false
			}
			ia, ok := ld.X.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			ix, ok := ia.Index.(*ssa.Const)
			return ok && ix.Int64() == 1
		})
	}
	reported := map[string]bool{}
	seenSite := map[ssa.Instruction]bool{}
	var walk func(fn *ssa.Function, in map[lst]bool, depth int) map[lst]bool
	walk = func(fn *ssa.Function, in map[lst]bool, depth int) map[lst]bool {
		out := map[lst]bool{}
		at := map[*ssa.BasicBlock]map[lst]bool{fn.Blocks[0]: in}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			cur := map[lst]bool{}
			for s := range at[b] {
				cur[s] = true
			}
			for idx, ins := range b.Instrs {
				next := map[lst]bool{}
				switch x := ins.(type) {
				case *ssa.Call:
					f := x.Call.StaticCallee()
					switch {
					case readers[f]:
						for s := range cur {
							if s.tok != "open" {
								if !seenSite[ins] {
									seenSite[ins] = true
									c.Inst("text", "read outside a token "+p.instrPos(ins))
								}
								follows := false
								for _, prev := range b.Instrs[:idx] {
									pc, ok := prev.(*ssa.Call)
									follows = follows || ok && readers[pc.Call.StaticCallee()]
								}
								if !s.white && !(follows && newline(ins)) && !reported[p.instrPos(ins)] {
									reported[p.instrPos(ins)] = true
									c.Violate("text:read:"+funcName(fn), p.instrPos(ins), "%s may skip a character that is not white space", funcName(fn))
								}
							}
							s.white, s.peek = false, nil
							next[s] = true
						}
					case openers[f]:
						for s := range cur {
							s.tok = "open"
							next[s] = true
						}
					case closers[f]:
						for s := range cur {
							s.tok = "done"
							next[s] = true
						}
					case f != nil && direct[f] && depth < 4 && len(f.Blocks) > 0 && f != lex:
						next = walk(f, cur, depth+1)
					case f != nil && relPkg(f) == "build" && len(x.Call.Args) == 1 && typeKey(x.Type()) == "int" && strings.HasSuffix(typeKey(x.Call.Args[0].Type()), "build.input"):
						for s := range cur {
							s.peek = x
							next[s] = true
						}
					default:
						next = cur
					}
					cur = next
				case *ssa.Defer:
					if closers[x.Call.StaticCallee()] {
						for s := range cur {
							s.defd = true
							next[s] = true
						}
						cur = next
					}
				case *ssa.Return:
					if depth == 0 {
						c.Inst("text", "return "+p.instrPos(ins))
					}
					for s := range cur {
						if depth == 0 && s.tok == "open" && !s.defd && !reported[p.instrPos(ins)] {
							reported[p.instrPos(ins)] = true
							c.Violate("text:return:"+funcName(fn), p.instrPos(ins), "%s may return a token without its text", funcName(fn))
						}
						out[s] = true
					}
				}
			}
			for i, t := range b.Succs {
				for s := range cur {
					if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if s.peek != nil && isWhiteEdge(br.Cond, i, s.peek) {
							s.white = true
						}
						if call, ok := br.Cond.(*ssa.Call); ok && i == 0 && s.peek != nil {
							for k, g := range call.Call.Args {
								if g == s.peek && implies(call.Call.StaticCallee(), k) {
									s.white = true
								}
							}
						}
					}
					if at[t] == nil {
						at[t] = map[lst]bool{}
					}
					if !at[t][s] {
						at[t][s] = true
						work = append(work, t)
					}
				}
			}
		}
		return out
	}
	walk(lex, map[lst]bool{{}: true}, 0)
}
