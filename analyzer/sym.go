package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small symbolic reader of straight data flow: values are turned into terms over the fields of named structs,
// globals, flags and constants, calls are followed with their arguments bound, and conditions whose terms are
// constants close the edges that cannot be taken. A value taken from the element of a local table in a loop over it
// is a vector with one term for each element.
type sterm []string

type senv struct {
	fn   *ssa.Function
	bind map[ssa.Value]sterm
	live map[*ssa.BasicBlock]bool
	memo map[ssa.Value]sterm
	deep int
}

type symb struct {
	p      *Prog
	fixed  map[string]string // terms whose value is assumed
	inits  map[*ssa.Global][]*ssa.Store
	active map[*ssa.Function]int
	opaque map[string]bool // functions whose calls are left as they are
}

type slevel struct {
	in  ssa.Instruction
	env *senv
}

// sevent: an instruction reached over a chain of calls; the last level is the instruction itself.
type sevent struct{ levels []slevel }

func (ev sevent) in() ssa.Instruction { return ev.levels[len(ev.levels)-1].in }
func (ev sevent) env() *senv          { return ev.levels[len(ev.levels)-1].env }

func (p *Prog) symbolic() *symb {
	s := &symb{p: p, fixed: map[string]string{}, inits: map[*ssa.Global][]*ssa.Store{}, active: map[*ssa.Function]int{}}
	add := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						s.inits[g] = append(s.inits[g], st)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.repoFuncs() {
		seen[fn] = true
		add(fn)
	}
	for _, sp := range p.SPkgs {
		if init := sp.Func("init"); init != nil && !seen[init] {
			add(init)
		}
	}
	return s
}

func (s *symb) env(fn *ssa.Function, bind map[ssa.Value]sterm, deep int) *senv {
	e := &senv{fn: fn, bind: bind, deep: deep, memo: map[ssa.Value]sterm{}}
	if len(fn.Blocks) == 0 {
		return e
	}
	// twice: what a phi may be depends on what is reachable
	for i := 0; i < 2; i++ {
		live := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, t := range b.Succs {
				if !live[t] && !s.closed(e, b, t) {
					live[t] = true
					work = append(work, t)
				}
			}
		}
		e.live = live
		e.memo = map[ssa.Value]sterm{}
	}
	return e
}

// closed: the edge cannot be taken.
func (s *symb) closed(e *senv, b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	v := s.eval(br.Cond, e)
	if len(v) != 1 {
		return false
	}
	return v[0] == "true" && t == b.Succs[1] || v[0] == "false" && t == b.Succs[0]
}

func one(t string) sterm { return sterm{t} }

func zipTerms(f func(a ...string) string, ts ...sterm) sterm {
	n := 1
	for _, t := range ts {
		if len(t) > n {
			n = len(t)
		}
	}
	out := make(sterm, n)
	for i := range out {
		row := make([]string, len(ts))
		for j, t := range ts {
			switch {
			case len(t) == n:
				row[j] = t[i]
			case len(t) == 1:
				row[j] = t[0]
			default:
				row[j] = "?"
			}
		}
		out[i] = f(row...)
	}
	return out
}

func isConstTerm(t string) bool {
	return t == "true" || t == "false" || t == "nil" || strings.HasPrefix(t, `"`) || t != "" && (t[0] >= '0' && t[0] <= '9' || t[0] == '-')
}

func (s *symb) eval(v ssa.Value, e *senv) sterm {
	if t, ok := e.bind[v]; ok {
		return t
	}
	if t, ok := e.memo[v]; ok {
		return t
	}
	e.memo[v] = one("?")
	t := s.eval1(v, e)
	if len(s.fixed) > 0 {
		t = zipTerms(func(a ...string) string {
			if x, ok := s.fixed[a[0]]; ok {
				return x
			}
			return a[0]
		}, t)
	}
	e.memo[v] = t
	return t
}

func (s *symb) eval1(v ssa.Value, e *senv) sterm {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return one("nil")
			}
			return one("zero")
		}
		if x.Value.Kind() == constant.String {
			return one(strconv.Quote(constant.StringVal(x.Value)))
		}
		return one(x.Value.ExactString())
	case *ssa.Function:
		return one("func:" + symFn(x))
	case *ssa.Global:
		return one("&" + symGlobal(x))
	case *ssa.Parameter:
		return one("param:" + x.Name())
	case *ssa.FieldAddr:
		if arr := rowsOf(x.X); arr != nil {
			return zipTerms(func(a ...string) string { return "&" + a[0] }, s.rowField(arr, x.Field, e))
		}
		return one("&" + symField(x.X.Type(), x.Field))
	case *ssa.Field:
		if arr := rowsOf(x.X); arr != nil {
			return s.rowField(arr, x.Field, e)
		}
		return one(symField(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		if arr := rowsOf(x); arr != nil {
			return zipTerms(func(a ...string) string { return "&" + a[0] }, s.rowField(arr, -1, e))
		}
		return zipTerms(func(a ...string) string { return "&" + a[0] + "[" + a[1] + "]" }, s.eval(x.X, e), s.eval(x.Index, e))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if arr := rowsOf(x); arr != nil {
				return s.rowField(arr, -1, e)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if t := s.cell(al, e); t != nil {
					return t
				}
				return one("?")
			}
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Name() == "main" && len(s.inits[g]) == 1 && x.Parent().Name() != "init" {
				st := s.inits[g][0]
				if fn := st.Parent(); fn.Name() == "init" {
					return s.eval(st.Val, s.env(fn, nil, e.deep+1))
				}
			}
			return zipTerms(func(a ...string) string {
				if strings.HasPrefix(a[0], "&") {
					return a[0][1:]
				}
				if a[0] == "?" {
					return "?"
				}
				return "*" + a[0]
			}, s.eval(x.X, e))
		case token.NOT:
			return zipTerms(func(a ...string) string {
				switch a[0] {
				case "true":
					return "false"
				case "false":
					return "true"
				}
				return "not(" + a[0] + ")"
			}, s.eval(x.X, e))
		}
	case *ssa.BinOp:
		return zipTerms(func(a ...string) string {
			if x.Op == token.EQL || x.Op == token.NEQ {
				if isConstTerm(a[0]) && isConstTerm(a[1]) {
					return strconv.FormatBool((a[0] == a[1]) == (x.Op == token.EQL))
				}
			}
			return x.Op.String() + "(" + a[0] + "," + a[1] + ")"
		}, s.eval(x.X, e), s.eval(x.Y, e))
	case *ssa.Alloc:
		if t := s.cell(x, e); t != nil {
			return zipTerms(func(a ...string) string { return "&" + a[0] }, t)
		}
	case *ssa.Phi:
		if t := s.oneOf(x, e); t != "" {
			return one(t)
		}
		set := map[string]sterm{}
		for i, ed := range x.Edges {
			pred := x.Block().Preds[i]
			if e.live != nil && (!e.live[pred] || s.closed(e, pred, x.Block())) {
				continue
			}
			t := s.eval(ed, e)
			set[strings.Join(t, "|")] = t
		}
		if len(set) == 1 {
			for _, t := range set {
				return t
			}
		}
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return one("phi(" + strings.Join(ks, ",") + ")")
	case *ssa.ChangeType:
		return s.eval(x.X, e)
	case *ssa.MakeInterface:
		return s.eval(x.X, e)
	case *ssa.Convert:
		return s.eval(x.X, e)
	case *ssa.ChangeInterface:
		return s.eval(x.X, e)
	case *ssa.MakeMap:
		return one("make")
	case *ssa.MakeClosure:
		return one("func:" + symFn(x.Fn.(*ssa.Function)))
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			if _, isArr := deref(al.Type()).Underlying().(*types.Array); isArr {
				return one("[" + strings.Join(s.rowField(al, -1, e), ",") + "]")
			}
		}
		lo := "0"
		if x.Low != nil {
			lo = s.eval(x.Low, e)[0]
		}
		if x.High != nil || x.Max != nil {
			return one("?")
		}
		return zipTerms(func(a ...string) string {
			if lo == "0" {
				return a[0]
			}
			return a[0] + "[" + lo + ":]"
		}, s.eval(x.X, e))
	case *ssa.Lookup:
		if ld, ok := x.X.(*ssa.UnOp); ok {
			if g, ok := ld.X.(*ssa.Global); ok && g.Pkg != nil {
				if k := s.eval(x.Index, e); len(k) == 1 && isConstTerm(k[0]) && len(s.inits[g]) == 1 {
					val, has := "zero", "false"
					for ks, mv := range s.p.mapInit(relOf(g.Pkg.Pkg), g.Name()) {
						if strconv.Quote(ks) == k[0] || ks == k[0] {
							val, has = s.eval(mv, s.env(s.inits[g][0].Parent(), nil, e.deep+1))[0], "true"
						}
					}
					if x.CommaOk {
						return one("tuple:" + val + "\x00" + has)
					}
					return one(val)
				}
			}
		}
		return zipTerms(func(a ...string) string { return a[0] + "[" + a[1] + "]" }, s.eval(x.X, e), s.eval(x.Index, e))
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				what := map[int]string{0: "more", 1: "key", 2: "val"}[x.Index]
				return zipTerms(func(a ...string) string { return what + "(" + a[0] + ")" }, s.eval(r.X, e))
			}
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if t := s.inlined(call, x.Index, e); t != nil {
				return t
			}
		}
		return zipTerms(func(a ...string) string {
			if strings.HasPrefix(a[0], "tuple:") {
				parts := strings.Split(a[0][6:], "\x00")
				if x.Index < len(parts) {
					return parts[x.Index]
				}
			}
			if a[0] == "?" {
				return "?"
			}
			return a[0] + "#" + strconv.Itoa(x.Index)
		}, s.eval(x.Tuple, e))
	case *ssa.Call:
		return s.call(x, e)
	}
	return one("?")
}

func (s *symb) call(x *ssa.Call, e *senv) sterm {
	args := make([]sterm, len(x.Call.Args))
	for i, a := range x.Call.Args {
		args[i] = s.eval(a, e)
	}
	name := ""
	g := x.Call.StaticCallee()
	switch {
	case g != nil:
		name = symFn(g)
		if name == "flag.String" || name == "flag.Bool" || name == "flag.Int" {
			return zipTerms(func(a ...string) string { return "flag:" + a[0] }, args[0])
		}
	case x.Call.IsInvoke():
		return one("?")
	default:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			name = b.Name()
		} else if t := s.eval(x.Call.Value, e); len(t) == 1 && t[0] != "?" {
			name = "(" + t[0] + ")"
		} else {
			return one("?")
		}
	}
	if g != nil && g.Signature.Results().Len() == 1 {
		if t := s.inlined(x, 0, e); t != nil {
			return t
		}
	}
	if len(args) == 0 {
		return one("call:" + name + "()")
	}
	return zipTerms(func(a ...string) string { return "call:" + name + "(" + strings.Join(a, ",") + ")" }, args...)
}

// inlined: a result of a function of the repository, if it is the same term wherever it returns one.
func (s *symb) inlined(x *ssa.Call, i int, e *senv) sterm {
	g := x.Call.StaticCallee()
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 || e.deep >= 6 || s.active[g] != 0 || s.opaque[symFn(g)] {
		return nil
	}
	s.active[g]++
	defer func() { s.active[g]-- }()
	bind := map[ssa.Value]sterm{}
	for i, pr := range g.Params {
		if i < len(x.Call.Args) {
			bind[pr] = s.eval(x.Call.Args[i], e)
		}
	}
	ge := s.env(g, bind, e.deep+1)
	set := map[string]sterm{}
	n := g.Signature.Results().Len()
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ge.live[b] {
			t := s.eval(ret.Results[i], ge)
			k := strings.Join(t, "|")
			if n > 1 && (k == "nil" || k == "zero") {
				continue
			}
			set[k] = t
		}
	}
	if len(set) == 1 {
		for k, t := range set {
			if !strings.HasPrefix(k, "func:") && k != "?" {
				return t
			}
		}
	}
	return nil
}

// oneOf: a || b.
func (s *symb) oneOf(x *ssa.Phi, e *senv) string {
	if len(x.Edges) != 2 || !isBoolType(x.Type()) {
		return ""
	}
	for i, ed := range x.Edges {
		k, ok := ed.(*ssa.Const)
		if !ok || k.Value == nil || !constant.BoolVal(k.Value) {
			continue
		}
		pred, other := x.Block().Preds[i], x.Block().Preds[1-i]
		br, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
		if !ok || pred.Succs[0] != x.Block() || len(other.Preds) != 1 || other.Preds[0] != pred {
			continue
		}
		a, b := s.eval(br.Cond, e), s.eval(x.Edges[1-i], e)
		if len(a) == 1 && len(b) == 1 && !isConstTerm(a[0]) && !isConstTerm(b[0]) {
			return "or(" + a[0] + "," + b[0] + ")"
		}
	}
	return ""
}

// cell: what a local variable holds that is stored to once.
func (s *symb) cell(al *ssa.Alloc, e *senv) sterm {
	var val ssa.Value
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al || val != nil {
				return nil
			}
			val = x.Val
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, ssa.CallInstruction, *ssa.MakeInterface:
		default:
			return nil
		}
	}
	if val == nil {
		return nil
	}
	return s.eval(val, e)
}

// rowsOf: the local array an element is taken from with an index that is not a constant.
func rowsOf(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		if _, ok := x.Index.(*ssa.Const); ok {
			return nil
		}
		base := x.X
		if sl, ok := base.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
			base = sl.X
		}
		if al, ok := base.(*ssa.Alloc); ok {
			if _, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return al
			}
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return rowsOf(ia)
		}
	case *ssa.Alloc:
		var val ssa.Value
		if x.Referrers() == nil {
			return nil
		}
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				if val != nil {
					return nil
				}
				val = st.Val
			}
		}
		if u, ok := val.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.IndexAddr); ok {
				return rowsOf(u.X)
			}
		}
	}
	return nil
}

// rowField: a field (or, with -1, the whole) of each element of a local array.
func (s *symb) rowField(arr *ssa.Alloc, f int, e *senv) sterm {
	n := int(deref(arr.Type()).Underlying().(*types.Array).Len())
	out := make(sterm, n)
	for i := range out {
		out[i] = "zero"
	}
	put := func(i int, v ssa.Value) {
		if i >= 0 && i < n {
			if t := s.eval(v, e); len(t) == 1 {
				out[i] = t[0]
			} else {
				out[i] = "?"
			}
		}
	}
	fields := func(i int, a ssa.Value) {
		for _, r := range *a.Referrers() {
			switch y := r.(type) {
			case *ssa.FieldAddr:
				if y.Field != f {
					continue
				}
				for _, q := range *y.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == y {
						put(i, st.Val)
					}
				}
			}
		}
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i := int(k.Int64())
		if f >= 0 {
			fields(i, ia)
		}
		for _, q := range *ia.Referrers() {
			st, ok := q.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			if f < 0 {
				put(i, st.Val)
			} else if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if al, ok := u.X.(*ssa.Alloc); ok {
					fields(i, al)
				}
			}
		}
	}
	return out
}

func symFn(g *ssa.Function) string {
	name := g.Name()
	if o := g.Origin(); o != nil {
		name = o.Name()
	}
	if r := g.Signature.Recv(); r != nil {
		if n, ok := deref(r.Type()).(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	if pk := fnPkg(g); pk != nil {
		if inRepo(g) {
			return relOf(pk) + "." + name
		}
		return pk.Path() + "." + name
	}
	return name
}

func relOf(pk *types.Package) string {
	if pk.Path() == modPath {
		return ""
	}
	return strings.TrimPrefix(pk.Path(), modPath+"/")
}

func symGlobal(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return relOf(g.Pkg.Pkg) + "." + g.Name()
}

func symField(t types.Type, i int) string {
	t = deref(t)
	name := "?"
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return name + "." + st.Field(i).Name()
}

// walk visits the instructions that can be reached from a function, following the calls to functions of the repository.
func (s *symb) walk(fn *ssa.Function, e *senv, prefix []slevel, into func(g *ssa.Function) bool, visit func(ev sevent)) {
	if s.active[fn] > 0 || len(prefix) > 7 {
		return
	}
	s.active[fn]++
	defer func() { s.active[fn]-- }()
	for _, b := range fn.Blocks {
		if !e.live[b] {
			continue
		}
		for _, in := range b.Instrs {
			levels := append(append([]slevel{}, prefix...), slevel{in, e})
			visit(sevent{levels})
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil || !inRepo(g) || len(g.Blocks) == 0 || !into(g) {
				continue
			}
			bind := map[ssa.Value]sterm{}
			for i, pr := range g.Params {
				if i < len(ci.Common().Args) {
					bind[pr] = s.eval(ci.Common().Args[i], e)
				}
			}
			if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
				for i, fv := range g.FreeVars {
					bind[fv] = s.eval(mc.Bindings[i], e)
				}
			}
			s.walk(g, s.env(g, bind, len(levels)), levels, into, visit)
		}
	}
}

// must: the instruction is reached on every path through the functions on its chain that does not fail, in every
// round of the loops around it. Edges accepted by skip are left out.
func (s *symb) must(ev sevent, skip func(e *senv, b, t *ssa.BasicBlock) bool) bool {
	return s.mustFrom(ev, 0, skip)
}

func (s *symb) mustFrom(ev sevent, from int, skip func(e *senv, b, t *ssa.BasicBlock) bool) bool {
	for _, l := range ev.levels[from:] {
		if !s.mustIn(l, skip) {
			return false
		}
	}
	return true
}

func (s *symb) skips(e *senv, skip func(e *senv, b, t *ssa.BasicBlock) bool) func(b, t *ssa.BasicBlock) bool {
	return func(b, t *ssa.BasicBlock) bool {
		return s.closed(e, b, t) || errEdge(b, t) || givesUp(t) || skip != nil && skip(e, b, t)
	}
}

// endsProcess: the block ends the process with a status that is a constant, or panics.
func endsProcess(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			switch calleeName(x.Common()) {
			case "os.Exit":
				_, ok := x.Call.Args[0].(*ssa.Const)
				return ok
			case "log.Fatal", "log.Fatalf", "log.Fatalln":
				return true
			}
		}
	}
	return false
}

// givesUp: everything that follows the block ends in a return that carries an error, or ends the process as above.
func givesUp(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] || endsProcess(b) {
			return true
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if carriesError(r, 0) {
					return true
				}
			}
			return false
		}
		for _, t := range b.Succs {
			if !rec(t) {
				return false
			}
		}
		return true
	}
	return rec(b)
}

func (s *symb) mustIn(l slevel, skip func(e *senv, b, t *ssa.BasicBlock) bool) bool {
	b := l.in.Block()
	fn := b.Parent()
	sk := s.skips(l.env, skip)
	var heads []*ssa.BasicBlock
	bodies := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, x := range fn.Blocks {
		if h, body := innerLoop(x); h == x && body[b] {
			heads = append(heads, h)
			bodies[h] = body
		}
	}
	sort.Slice(heads, func(i, j int) bool { return len(bodies[heads[i]]) > len(bodies[heads[j]]) })
	next := func(i int) *ssa.BasicBlock {
		if i < len(heads) {
			return heads[i]
		}
		return b
	}
	is := func(t *ssa.BasicBlock) func(x *ssa.BasicBlock) bool {
		return func(x *ssa.BasicBlock) bool { return x == t }
	}
	if !pathsPass(fn.Blocks[0], isReturn, is(next(0)), sk) {
		return false
	}
	for i, h := range heads {
		if h == b {
			return i == len(heads)-1
		}
		body := bodies[h]
		for _, t := range h.Succs {
			if body[t] && t != h && !pathsPass(t, is(h), is(next(i+1)), sk) {
				return false
			}
		}
		for x := range body {
			if x == h {
				continue
			}
			for _, t := range x.Succs {
				if !body[t] && !sk(x, t) {
					return false
				}
			}
		}
	}
	return true
}

// apart: the first level on which two chains differ.
func apart(a, b sevent) int {
	k := 0
	for k < len(a.levels)-1 && k < len(b.levels)-1 && a.levels[k].in == b.levels[k].in {
		k++
	}
	return k
}

// before: the first event can come before the second one in the code, and not after it.
func before(a, b sevent) bool {
	k := apart(a, b)
	x, y := a.levels[k].in, b.levels[k].in
	if x.Block() == y.Block() {
		if h, _ := innerLoop(x.Block()); h != nil && reachesBlock(x.Block(), x.Block()) {
			return false
		}
		return instrIndex(x) < instrIndex(y)
	}
	return reachesBlock(x.Block(), y.Block()) && !reachesBlock(y.Block(), x.Block())
}

// reachesBlock: there is a path of at least one edge.
func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		for _, t := range b.Succs {
			if t == to {
				return true
			}
			if !seen[t] {
				seen[t] = true
				if rec(t) {
					return true
				}
			}
		}
		return false
	}
	return rec(from)
}

// guarded: every path from the entry of the event's function to it takes an edge whose condition implies one of the
// facts; a fact is a term that is true, or not(term).
func (s *symb) guarded(ev sevent, fact func(t string) bool) bool {
	l := ev.levels[len(ev.levels)-1]
	if s.guardedIn(l, fact) {
		return true
	}
	for _, l := range ev.levels[:len(ev.levels)-1] {
		if s.guardedIn(l, fact) {
			return true
		}
	}
	return false
}

func (s *symb) guardedIn(l slevel, fact func(t string) bool) bool {
	b := l.in.Block()
	entry := b.Parent().Blocks[0]
	if b == entry {
		return false
	}
	never := func(*ssa.BasicBlock) bool { return false }
	edge := s.factEdge(l.env, fact)
	return pathsPass(entry, func(t *ssa.BasicBlock) bool { return t == b }, never, func(b, t *ssa.BasicBlock) bool {
		return s.closed(l.env, b, t) || edge(b, t)
	})
}

func (s *symb) factEdge(e *senv, fact func(t string) bool) func(b, t *ssa.BasicBlock) bool {
	return impliesEdge(func(v ssa.Value, want bool) bool {
		if v.Parent() != e.fn {
			return false
		}
		t := append(sterm{}, s.eval(v, e)...)
		for i, x := range t {
			if !want {
				switch {
				case strings.HasPrefix(x, "not("):
					x = x[4 : len(x)-1]
				case strings.HasPrefix(x, "!=("):
					x = "==" + x[2:]
				case strings.HasPrefix(x, "==("):
					x = "!=" + x[2:]
				default:
					x = "not(" + x + ")"
				}
			}
			t[i] = x
		}
		return fact(strings.Join(t, "|"))
	}, 0)
}
