package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", crashes, "")
}

type crashes1 struct {
	c       *Ctx
	p       *Prog
	callers map[*ssa.Function][]ssa.CallInstruction
	nils    map[*ssa.Function]map[int]*nilResult
	taken   map[*ssa.Function]bool // used as a value
	bounds  map[*ssa.Function][2]int64
	init    map[*ssa.Function]func(e *Engine, s *S, ps []*T)
}

// a site that may crash, and why it was not shown safe
type crashSites struct {
	all map[ssa.Instruction]string // kind
	bad map[ssa.Instruction]string // reason
}

func (k *crashes1) analyse(root *ssa.Function, inline map[*ssa.Function]bool, only *ssa.Function) (*crashSites, error) {
	cs := &crashSites{map[ssa.Instruction]string{}, map[ssa.Instruction]string{}}
	r := &Rule{JoinFacts: true}
	r.Reset = func() { cs.all, cs.bad = map[ssa.Instruction]string{}, map[ssa.Instruction]string{} }
	r.Inline = func(fr *Frame, h *ssa.Function) (bool, bool) {
		if inline[h] {
			return true, true
		}
		return false, false
	}
	put := func(fr *Frame, in ssa.Instruction, kind string, ok bool, why string) {
		if fr.fn != only {
			return
		}
		cs.all[in] = kind
		if !ok {
			cs.bad[in] = why
		}
	}
	le := func(e *Engine, s *S, a, b *T) bool { // a <= b
		return e.Eval(s.State, e.tb.mk("<", "", b, a)) == no || e.Eval(s.State, e.tb.mk("<", "", a, e.tb.Add(b, e.tb.Int(1)))) == yes
	}
	isPtr := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Pointer)
		return ok
	}
	// fixed: a constant position, counted from the start or from the end
	fixed := func(e *Engine, i, n *T) bool {
		if _, ok := isInt(i); ok {
			return true
		}
		a, _ := lin(i)
		b, _ := lin(n)
		return a == b && a != nil
	}
	near := func(e *Engine, s *S, i, n *T, end bool) (bool, string) {
		if l, ok := e.lower(s.State, i); ok && l < 0 {
			return false, "may be before the start"
		}
		if end {
			i = e.tb.Add(i, e.tb.Int(-1))
		}
		if e.Eval(s.State, e.tb.mk("<", "", i, n)) != yes && e.Eval(s.State, e.tb.mk("<", "", n, i)) == no {
			return false, "may be just after the end"
		}
		return true, ""
	}
	r.OnIndex = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, base, idx *T) {
		var arr *types.Array
		var iv ssa.Value
		switch x := in.(type) {
		case *ssa.IndexAddr:
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				arr, _ = pt.Elem().Underlying().(*types.Array)
				iv = x.Index
			}
		case *ssa.Index:
			arr, _ = x.X.Type().Underlying().(*types.Array)
			iv = x.Index
		}
		if arr != nil {
			if _, isC := iv.(*ssa.Const); isC {
				return // decided by the compiler
			}
			lo, ok := e.lower(s.State, idx)
			hi, ok2 := e.upper(s.State, idx)
			for w := iv; ; {
				if cv, isCv := w.(*ssa.Convert); isCv {
					w = cv.X
					continue
				}
				if b, isB := w.Type().Underlying().(*types.Basic); isB && b.Kind() == types.Uint8 {
					if !ok {
						lo, ok = 0, true
					}
					if !ok2 {
						hi, ok2 = 255, true
					}
				}
				// one of the constants of a type
				if nt, isN := w.Type().(*types.Named); isN && nt.Obj().Pkg() != nil && !ok2 {
					scope := nt.Obj().Pkg().Scope()
					for _, name := range scope.Names() {
						if cn, isC := scope.Lookup(name).(*types.Const); isC && types.Identical(cn.Type(), nt) {
							if v, exact := constant.Int64Val(cn.Val()); exact {
								if !ok || v < lo {
									lo, ok = v, true
								}
								if !ok2 || v > hi {
									hi, ok2 = v, true
								}
							}
						}
					}
				}
				// characters of a string
				if ex, isE := w.(*ssa.Extract); isE && ex.Index == 2 && !ok {
					if _, isN := ex.Tuple.(*ssa.Next); isN {
						lo, ok = 0, true
					}
				}
				break
			}
			put(fr, in, "position", ok && ok2 && lo >= 0 && hi < arr.Len(), fmt.Sprintf("index %v may be outside an array of %d elements", idx, arr.Len()))
			return
		}
		n := e.tb.Len(base)
		if !fixed(e, idx, n) {
			// a computed position is only judged when it was compared, or found, and may be just outside
			ok, why := near(e, s, idx, n, false)
			put(fr, in, "position", ok, fmt.Sprintf("index %v of %v %s", idx, base, why))
			return
		}
		lo, ok := e.lower(s.State, idx)
		ok = ok && lo >= 0
		ok2 := e.Eval(s.State, e.tb.mk("<", "", idx, n)) == yes
		if !(ok && ok2) {
			e.why(s, "crash "+funcName(fr.fn))
		}
		put(fr, in, "index", ok && ok2, fmt.Sprintf("index %v may be outside %v", idx, base))
	}
	r.OnSlice = func(e *Engine, fr *Frame, s *S, in *ssa.Slice, x, lo, hi *T) {
		if isPtr(in.X) || in.Low == nil && in.High == nil {
			return
		}
		n := e.tb.Len(x)
		if in.Low != nil && !fixed(e, lo, n) || hi.op != "none" && !fixed(e, hi, n) {
			ok, why := true, ""
			if in.Low != nil && !fixed(e, lo, n) {
				ok, why = near(e, s, lo, n, true)
			}
			if ok && hi.op != "none" && !fixed(e, hi, n) {
				ok, why = near(e, s, hi, n, true)
			}
			put(fr, in, "position", ok, fmt.Sprintf("part [%v:%v] of %v %s", lo, hi, x, why))
			return
		}
		l, ok := e.lower(s.State, lo)
		ok = ok && l >= 0
		if hi.op != "none" {
			ok = ok && le(e, s, lo, hi) && le(e, s, hi, n)
		} else {
			ok = ok && le(e, s, lo, n)
		}
		if !ok {
			e.why(s, "crash "+funcName(fr.fn))
		}
		put(fr, in, "slice", ok, fmt.Sprintf("the part [%v:%v] may be outside %v", lo, hi, x))
	}
	r.OnAssert = func(e *Engine, fr *Frame, s *S, in *ssa.TypeAssert, x *T) {
		if in.CommaOk {
			return
		}
		is := e.tb.mk("is", typeKey(in.AssertedType), x)
		ok := e.Eval(s.State, is) == yes
		if c, isC := in.X.(*ssa.Call); !ok && isC && c.Call.IsInvoke() && c.Call.Method.Name() == "Copy" {
			if v := s.env[c.Call.Value]; v != nil {
				ok = e.Eval(s.State, e.tb.mk("is", typeKey(in.AssertedType), v)) == yes
			}
		}
		if !ok {
			e.why(s, "crash "+funcName(fr.fn))
		}
		put(fr, in, "assert", ok, fmt.Sprintf("%v may not be a %s", x, typeKey(in.AssertedType)))
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, args []*T) ([]Out, bool) {
		if g != nil && inRepo(g) && g == cc.StaticCallee() && !inline[g] {
			for i := range k.derefParams(g) {
				if i < len(cc.Args) && i < len(args) {
					r.OnDeref(e, fr, s, in, cc.Args[i], args[i])
				}
			}
		}
		if strings.HasPrefix(name, "(*regexp.Regexp).Find") || name == "regexp.MustCompile" {
			t := e.tb.mk("call", name, args...)
			if v, ok := in.(ssa.Value); ok && t.typ == nil {
				t.typ = v.Type()
			}
			if name != "regexp.MustCompile" && len(cc.Args) > 0 {
				if k.p.reGroups == nil {
					k.p.reGroups = map[*T]int64{}
				}
				k.p.reGroups[t] = k.p.groupsOf(cc.Args[0])
			}
			if name == "regexp.MustCompile" {
				s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
			}
			return []Out{{s, t}}, true
		}
		return nil, false
	}
	r.OnDeref = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, v ssa.Value, x *T) {
		if fr.fn != only {
			return
		}
		src := k.maybeNil(v, map[ssa.Value]bool{})
		if src == "" {
			return
		}
		ok := e.nonNil(s.State, x)
		if ex, isE := v.(*ssa.Extract); isE {
			if ta, isT := ex.Tuple.(*ssa.TypeAssert); isT {
				// the value is there, but it need not be of the type
				ok = e.Eval(s.State, e.tb.mk("is", typeKey(ta.AssertedType), x)) == yes || x.op == "alloc"
			}
		}
		if !ok {
			ok = k.correlated(e, s, v, x)
		}
		if !ok {
			e.why(s, "crash "+funcName(fr.fn))
		}
		put(fr, in, "nil", ok, fmt.Sprintf("%v may be nil: %s", x, src))
	}
	r.OnFact = func(e *Engine, s *State, t *T, val bool) {
		if t.op == "lookupok" && val {
			s.atoms[e.tb.mk("==", "", e.tb.mk("lookup", "", t.args...), e.tb.Nil())] = false
		}
	}
	e := newEngine(k.c, r)
	e.Cap = 100
	_, err := e.Run(root, func(s *S, ps []*T) {
		if f := k.init[root]; f != nil {
			f(e, s, ps)
		}
	})
	k.c.flowStats(e)
	return cs, err
}

var crashPkgs = map[string]bool{"build": true, "warn": true, "edit": true, "edit/bzlmod": true, "labels": true, "bzlenv": true, "unused_deps": true,
	"buildifier": true, "buildifier/utils": true, "buildifier/config": true, "buildozer": true, "tables": true, "file": true, "differ": true, "wspace": true, "lang": true}

func crashes(c *Ctx) {
	p := c.P
	k := &crashes1{nils: map[*ssa.Function]map[int]*nilResult{}, c: c, p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, init: map[*ssa.Function]func(*Engine, *S, []*T){}, bounds: map[*ssa.Function][2]int64{}}
	for _, g := range p.repoFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					if callee = ci.Common().StaticCallee(); callee != nil {
						k.callers[callee] = append(k.callers[callee], ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == f {
							continue
						}
						k.taken[f] = true
					}
				}
			}
		}
	}
	k.commandTable()
	c.Rule("index", "an element at a fixed position, counted from the start or from the end, is only taken of a list or string that is known to be long enough")
	c.Rule("position", "a computed position that was compared with the length, or comes from a search, is not just outside; positions in arrays are within them")
	c.Rule("slice", "a part with fixed ends, counted from the start or from the end, is only taken of a list or string that is known to be long enough")
	c.Rule("assert", "a type assertion without a check is only made of a value known to have the type")
	c.Rule("nil", "a value that may be missing (failed assertion, missing map element, nil result, unset variable) is only used where it is known to be there")
	c.Rule("arguments", "a command's function is only called with the words after the command's name, the number of which was checked against the bounds in the command's entry")
	counts := map[string][]string{}
	at := map[string]map[string]ssa.Instruction{}
	kinds := map[string]int{}
	for _, g := range p.repoFuncs() {
		if !crashPkgs[relPkg(g)] || len(g.Blocks) == 0 || k.recovered(g) {
			continue
		}
		cs, err := k.analyse(g, nil, g)
		if err != nil {
			c.Violate("undecided:"+funcName(g), p.Pos(g.Pos()), "%v", err)
			continue
		}
		for in, kind := range cs.all {
			kinds[kind]++
			c.Inst(kind, p.instrPos(in)+" "+funcName(g))
		}
		bad := cs.bad
		if len(bad) > 0 {
			// once more with the functions it calls looked into
			if cs2, err := k.analyse(g, k.callees(g), g); err == nil {
				bad = cs2.bad
			}
		}
		if len(bad) > 0 {
			bad = k.inContext(g, []*ssa.Function{g}, bad)
		}
		for in, why := range bad {
			key := cs.all[in] + " " + relPkg(g) + " " + k.describe(in)
			id := p.instrPos(in) + " " + funcName(g) + ": " + why
			if at[key] == nil {
				at[key] = map[string]ssa.Instruction{}
			}
			if at[key][id] == nil {
				at[key][id] = in
				counts[key] = append(counts[key], id)
			}
		}
	}
	for key, ids := range counts {
		sort.Strings(ids)
		if os.Getenv("SITES") != "" {
			fmt.Printf("\t%q: %d,\n", key, len(ids))
		}
		if len(ids) <= reviewedSites[key] {
			continue
		}
		for _, id := range ids {
			in := at[key][id]
			c.Violate("site:"+key+":"+funcName(in.Parent()), p.instrPos(in), "%s (%d such places, of which %d were reviewed)", id, len(ids), reviewedSites[key])
		}
	}
	c.Floor("index", 150)
	c.Floor("position", 150)
	c.Floor("slice", 45)
	c.Floor("assert", 20)
	c.Floor("nil", 600)
	k.commandCalls()
}

// recovered: functions whose failures are turned into errors by the parser, and the decoder of
// string literals (its positions follow from the bytes it has seen).
func (k *crashes1) recovered(g *ssa.Function) bool {
	for g.Parent() != nil {
		g = g.Parent()
	}
	if file := k.p.Fset.Position(g.Pos()).Filename; strings.HasSuffix(file, "parse.y") || strings.HasSuffix(file, "yaccpar") || relPkg(g) == "build" && g.Name() == "Unquote" {
		return true
	}
	if r := g.Signature.Recv(); r != nil {
		t := typeKey(r.Type())
		return strings.HasSuffix(t, "/build.input") || strings.Contains(t, "/build.yy")
	}
	return false
}

// describe: what the place takes its element from, said independently of names and lines.
func (k *crashes1) describe(in ssa.Instruction) string {
	short := func(t types.Type) string {
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	}
	var d func(v ssa.Value, n int) string
	d = func(v ssa.Value, n int) string {
		if n > 6 {
			return short(v.Type())
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				t := a.X.Type().Underlying().(*types.Pointer).Elem()
				return short(t) + "." + t.Underlying().(*types.Struct).Field(a.Field).Name()
			case *ssa.IndexAddr:
				return "element of " + d(a.X, n+1)
			case *ssa.Global:
				return a.Name()
			}
			return "variable " + short(x.Type())
		case *ssa.Field:
			return short(x.X.Type()) + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		case *ssa.Extract:
			return d(x.Tuple, n+1)
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				return "result of " + funcName(f)
			}
			if x.Call.IsInvoke() {
				return "result of " + x.Call.Method.Name()
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return "variable " + short(x.Type())
			}
			return "result " + short(x.Type())
		case *ssa.ChangeType:
			return d(x.X, n+1)
		case *ssa.ChangeInterface:
			return d(x.X, n+1)
		case *ssa.MakeInterface:
			return d(x.X, n+1)
		case *ssa.Slice:
			return d(x.X, n+1)
		case *ssa.TypeAssert:
			return d(x.X, n+1)
		}
		return "variable " + short(v.Type())
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return d(x.X, 0)
	case *ssa.Index:
		return d(x.X, 0)
	case *ssa.Lookup:
		return d(x.X, 0)
	case *ssa.Slice:
		return d(x.X, 0)
	case *ssa.TypeAssert:
		return short(x.AssertedType) + " from " + d(x.X, 0)
	case *ssa.FieldAddr:
		return d(x.X, 0)
	case ssa.CallInstruction:
		if x.Common().IsInvoke() {
			return d(x.Common().Value, 0)
		}
		return "argument of " + funcName(x.Common().StaticCallee())
	}
	return "?"
}

// derefParams: the parameters that f uses without a check as soon as it starts.
func (k *crashes1) derefParams(f *ssa.Function) map[int]bool {
	m := map[int]bool{}
	if len(f.Blocks) == 0 {
		return m
	}
	for _, in := range f.Blocks[0].Instrs {
		var v ssa.Value
		switch x := in.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Call:
			if x.Call.IsInvoke() {
				v = x.Call.Value
			}
		}
		for i, p := range f.Params {
			if v == p {
				m[i] = true
			}
		}
	}
	return m
}

func canBeNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// maybeNil: where a nil may come from when v has none of its own checks: a failed type assertion, a
// missing element of a map, a nil result of a function of this repository, or a variable that was
// not set; "" when v comes from elsewhere (parameters, fields, elements, fresh objects).
func (k *crashes1) maybeNil(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || len(seen) > 20 {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() && len(seen) > 1 {
			return "it may not have been set"
		}
	case *ssa.ChangeType:
		return k.maybeNil(x.X, seen)
	case *ssa.ChangeInterface:
		return k.maybeNil(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := k.maybeNil(e, seen); s != "" {
				return s
			}
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && !x.CommaOk && !keyOf(x.X, x.Index) {
			return "the key may be missing"
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && k.nilResults(f)[0] != nil {
			return "result of " + funcName(f)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return "the type may be another"
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return "the key may be missing"
			}
		case *ssa.Call:
			if f := t.Call.StaticCallee(); f != nil && k.nilResults(f)[x.Index] != nil {
				return "result of " + funcName(f)
			}
		}
	}
	return ""
}

// keyOf: key is an element of a list that only holds keys of the map m (collected, for instance, to
// go through the map in order).
func keyOf(m, key ssa.Value) bool {
	ld, ok := key.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	// the variable or value a map or list comes from
	origin := func(v ssa.Value) ssa.Value {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return u.X
		}
		return v
	}
	var listOf func(v ssa.Value, m ssa.Value, seen map[ssa.Value]bool) bool
	listOf = func(v ssa.Value, m ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.MakeSlice:
			n, ok := x.Len.(*ssa.Const)
			return ok && n.Int64() == 0
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !listOf(e, m, seen) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				if arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && (arr.Len() == 0 || x.High != nil && isZero(x.High)) {
					return true
				}
			}
			return false
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == al && !listOf(y.Val, m, seen) {
						return false
					}
				case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if !listOf(x.Call.Args[0], m, seen) {
					return false
				}
				els := appended(x)
				if len(els) == 0 {
					return listOf(x.Call.Args[1], m, seen)
				}
				for _, el := range els {
					ex, ok := el.(*ssa.Extract)
					if !ok || ex.Index != 1 {
						return false
					}
					nx, ok := ex.Tuple.(*ssa.Next)
					if !ok {
						return false
					}
					rg, ok := nx.Iter.(*ssa.Range)
					if !ok || origin(rg.X) != origin(m) {
						return false
					}
				}
				return true
			}
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			switch objName(f) {
			case "slices.Sorted", "slices.Collect":
				kc, ok := x.Call.Args[0].(*ssa.Call)
				return ok && objName(kc.Call.StaticCallee()) == "maps.Keys" && origin(kc.Call.Args[0]) == origin(m)
			}
			if !inRepo(f) || len(f.Blocks) == 0 {
				return false
			}
			for i, a := range x.Call.Args {
				if origin(a) == origin(m) && i < len(f.Params) {
					n := 0
					for _, b := range f.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
							n++
							if !listOf(ret.Results[0], f.Params[i], map[ssa.Value]bool{}) {
								n = -1 << 20
							}
						}
					}
					return n > 0
				}
			}
		}
		return false
	}
	return listOf(ia.X, m, map[ssa.Value]bool{})
}

func objName(f *ssa.Function) string {
	if f == nil || f.Object() == nil {
		return ""
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return ""
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "0"
}

// appended: the elements of an append written out.
func appended(x *ssa.Call) []ssa.Value {
	if len(x.Call.Args) < 2 {
		return nil
	}
	sl, ok := x.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// nilResult: what the other results are whenever this one is nil.
type nilResult struct {
	not map[int]bool // results that are then false (or, for errors, not nil)
}

// nilResults: the results of f that may be nil.
func (k *crashes1) nilResults(f *ssa.Function) map[int]*nilResult {
	if m, ok := k.nils[f]; ok {
		return m
	}
	m := map[int]*nilResult{}
	k.nils[f] = m
	if !inRepo(f) || len(f.Blocks) == 0 {
		return m
	}
	res := f.Signature.Results()
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		// one row per way into the block, as far as the results are merged there
		rows := [][]ssa.Value{ret.Results}
		for i := 0; i < len(ret.Results); i++ {
			if phi, ok := ret.Results[i].(*ssa.Phi); ok && phi.Block() == b && len(rows) == 1 {
				rows = nil
				for j := range b.Preds {
					row := append([]ssa.Value{}, ret.Results...)
					for n, v := range row {
						if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
							row[n] = ph.Edges[j]
						}
					}
					rows = append(rows, row)
				}
			}
		}
		for _, row := range rows {
			for i, v := range row {
				if !canBeNil(res.At(i).Type()) || types.TypeString(res.At(i).Type(), nil) == "error" {
					continue
				}
				c, isC := v.(*ssa.Const)
				isNil := isC && c.IsNil()
				if !isNil && k.maybeNil(v, map[ssa.Value]bool{}) == "" {
					continue
				}
				// a call passed on with all its results keeps their relation
				var fwd *nilResult
				if ex, ok := v.(*ssa.Extract); ok {
					if call, ok := ex.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
						fwd = k.nilResults(call.Call.StaticCallee())[ex.Index]
						for n, w := range row {
							if ex2, ok := w.(*ssa.Extract); !ok || ex2.Tuple != ex.Tuple || ex2.Index != n {
								fwd = nil
							}
						}
					}
				}
				not := map[int]bool{}
				for n, w := range row {
					switch {
					case n == i:
					case fwd != nil && fwd.not[n]:
						not[n] = true
					case types.TypeString(res.At(n).Type(), nil) == "error":
						if c, ok := w.(*ssa.Const); !ok || !c.IsNil() {
							if k.nonNilError(w) {
								not[n] = true
							}
						}
					case types.Identical(res.At(n).Type(), types.Typ[types.Bool]):
						if c, ok := w.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
							not[n] = true
						}
						if ex, ok := w.(*ssa.Extract); ok && ex.Index == 1 {
							if ex0, ok := v.(*ssa.Extract); ok && ex0.Tuple == ex.Tuple {
								if _, isCall := ex.Tuple.(*ssa.Call); !isCall {
									not[n] = true
								}
							}
						}
					}
				}
				if m[i] == nil {
					m[i] = &nilResult{not}
				} else {
					for n := range m[i].not {
						if !not[n] {
							delete(m[i].not, n)
						}
					}
				}
			}
		}
	}
	return m
}

// nonNilError: an error value that is made or was checked on the way.
func (k *crashes1) nonNilError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && (f.String() == "fmt.Errorf" || f.String() == "errors.New")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !k.nonNilError(e) {
				return false
			}
		}
		return true
	}
	// err != nil { return nil, err }
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, u := range *bo.Referrers() {
			br, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			t := 0
			if bo.Op == token.EQL {
				t = 1
			}
			for _, r2 := range *v.Referrers() {
				if ret, ok := r2.(*ssa.Return); ok && br.Block().Succs[t].Dominates(ret.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// correlated: another result, known on this path, rules out that v is nil.
func (k *crashes1) correlated(e *Engine, s *S, v ssa.Value, x *T) bool {
	for _, o := range e.Origins(x) {
		if e.nonNil(s.State, o) {
			continue
		}
		return k.correlated1(e, s, v, x)
	}
	return true
}

func (k *crashes1) correlated1(e *Engine, s *S, v ssa.Value, x *T) bool {
	switch y := v.(type) {
	case *ssa.ChangeInterface:
		return k.correlated1(e, s, y.X, x)
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.TypeAssert:
			return e.Eval(s.State, e.tb.mk("is", typeKey(t.AssertedType), x)) == yes
		case *ssa.Lookup:
			if x.op == "lookup" {
				return e.Eval(s.State, e.tb.mk("lookupok", "", x.args...)) == yes
			}
		case *ssa.Call:
			nr := k.nilResults(t.Call.StaticCallee())[y.Index]
			if x.op != "extract" || nr == nil {
				return false
			}
			for n := range nr.not {
				o := e.tb.mk("extract", fmt.Sprint(n), x.args[0])
				typ := t.Call.Signature().Results().At(n).Type()
				if types.Identical(typ, types.Typ[types.Bool]) {
					if e.Eval(s.State, o) == yes {
						return true
					}
				} else if e.Eval(s.State, e.tb.mk("==", "", o, e.tb.Nil())) == yes {
					return true
				}
			}
		}
	}
	return false
}

// callees: the small functions that g calls.
func (k *crashes1) callees(g *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && h != g && inRepo(h) && len(h.Blocks) > 0 && len(h.Blocks) <= 20 {
					out[h] = true
				}
			}
		}
	}
	return out
}

// inContext decides the sites of chain[0] that are not safe for all arguments, for the arguments they get.
func (k *crashes1) inContext(g *ssa.Function, chain []*ssa.Function, bad map[ssa.Instruction]string) map[ssa.Instruction]string {
	f := chain[0]
	if k.taken[g] || len(chain) > 4 {
		return bad
	}
	roots := map[*ssa.Function]bool{}
	for _, ci := range k.callers[g] {
		roots[ci.Parent()] = true
	}
	if g.Parent() != nil {
		roots[g.Parent()] = true
	}
	if len(roots) == 0 {
		return bad
	}
	inline := map[*ssa.Function]bool{}
	for _, h := range chain {
		inline[h] = true
	}
	left := map[ssa.Instruction]string{}
	for root := range roots {
		if inline[root] {
			return bad
		}
		cs, err := k.analyse(root, inline, f)
		if err != nil {
			return bad
		}
		if g.Parent() != nil && len(cs.all) == 0 {
			return bad // not called directly
		}
		still := map[ssa.Instruction]string{}
		for in, why := range cs.bad {
			if _, open := bad[in]; open {
				still[in] = why
			}
		}
		if len(still) > 0 {
			still = k.inContext(root, append(append([]*ssa.Function{}, chain...), root), still)
		}
		for in, why := range still {
			left[in] = why
		}
	}
	return left
}

// commandTable: functions stored in a table of commands are called with a number of arguments within the
// bounds stored beside them.
func (k *crashes1) commandTable() {
	p := k.p
	pk := p.Pkgs["edit"]
	for _, f := range pk.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			cl, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			st, ok := pk.TypesInfo.Types[cl].Type.Underlying().(*types.Struct)
			if !ok || !strings.HasSuffix(typeKey(pk.TypesInfo.Types[cl].Type), ".CommandInfo") {
				return true
			}
			var fn *ssa.Function
			lo, hi := int64(0), int64(0)
			for i, el := range cl.Elts {
				name := ""
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					name, el = kv.Key.(*ast.Ident).Name, kv.Value
				} else if i < st.NumFields() {
					name = st.Field(i).Name()
				}
				num := func() int64 {
					if v := pk.TypesInfo.Types[el].Value; v != nil {
						x, _ := constant.Int64Val(v)
						return x
					}
					return 0
				}
				switch name {
				case "Fn":
					if id, ok := el.(*ast.Ident); ok {
						if o, ok := pk.TypesInfo.Uses[id].(*types.Func); ok {
							fn = p.SSA.FuncValue(o)
						}
					}
				case "MinArg":
					lo = num()
				case "MaxArg":
					hi = num()
				}
			}
			if fn == nil {
				k.c.Violate("table", p.Pos(cl.Pos()), "the function of a command cannot be determined")
				return true
			}
			if k.init[fn] != nil {
				// the same function for two commands: the weaker bounds
				old := k.bounds[fn]
				if old[0] < lo {
					lo = old[0]
				}
				if old[1] == -1 || hi != -1 && old[1] > hi {
					hi = old[1]
				}
			}
			k.bounds[fn] = [2]int64{lo, hi}
			k.init[fn] = func(e *Engine, s *S, ps []*T) {
				for i, pa := range fn.Params {
					st, ok := pa.Type().Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == "Args" {
							n := e.tb.Len(e.fieldVal(s.State, ps[i], fieldKey(pa.Type(), j), st.Field(j).Type()))
							s.lo[n] = lo
							if hi >= 0 {
								s.hi[n] = hi
							}
						}
					}
				}
			}
			return true
		})
	}
}

// reviewedSites: how many places of a kind the engine cannot decide and were found right by reading:
// what they rely on is established elsewhere, as noted.
var reviewedSites = map[string]int{
	// the tokens of a string literal keep their quotes
	"slice build build.StringExpr.Token": 2,
	// brackets are constant pairs; none only for sequences without brackets, which do not use them
	"slice build variable string": 1,
	// the grammar has no empty bodies, and no empty tuple without parentheses
	"index build build.Function.Body":  2,
	"index build build.IfStmt.True":    1,
	"index build build.TupleExpr.List": 2,
	// a chunk starts with the string at i; removing duplicates keeps the first
	"index build result of build.uniq":                                     1,
	"index build variable []build.stringSortKey":                           2,
	"assert build *build.StringExpr from element of variable []build.Expr": 1,
	// operands and operators alternate
	"assert build *build.BinaryExpr from element of variable []build.Expr": 1,
	"position build variable []build.Expr":                                 1,
	// stacks: one element was pushed before
	"slice build variable []build.Expr":      2,
	"slice bzlenv bzlenv.Environment.Stack":  1,
	"index bzlenv bzlenv.Environment.Blocks": 1,
	// what a callback puts in the place of a load's names
	"assert build *build.StringExpr from variable build.Expr": 1,
	"assert build *build.Ident from variable build.Expr":      2,
	// the number of arguments is the closure's maker's
	"index edit edit.CmdEnvironment.Args": 1,
	// see the rule "arguments"
	"index edit edit.command.tokens": 20,
	"slice edit edit.command.tokens": 20,
	// the dictionary was built with such values a few lines above
	"assert edit *build.ListExpr from result of edit.DictionaryGet": 1,
	// a printed expression parses to a statement
	"index edit build.File.Stmt": 1,
	// the list of the call was counted before the package declaration was looked up and set
	"index edit build.CallExpr.List":            1,
	"nil edit result of (*build.Rule).AttrDefn": 1,
	// the copy is of a list whose element had the type
	"assert warn *build.StringExpr from result of Copy": 1,
	"assert warn *build.AssignExpr from result of Copy": 1,
	// only items with such keys are compared
	"assert warn *build.StringExpr from build.KeyValueExpr.Key": 2,
	// a finding was added just before
	"index warn variable []*warn.LinterFinding": 1,
	"index warn warn.LinterFinding.Replacement": 1,
}

// commandCalls checks the rule "arguments".
func (k *crashes1) commandCalls() {
	p, c := k.p, k.c
	fieldOf := func(t types.Type, i int) string {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		return typeKey(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
	}
	const pk = "github.com/bazelbuild/buildtools/edit."
	mentions := func(t *T, name string) bool {
		var rec func(t *T, d int) bool
		rec = func(t *T, d int) bool {
			if strings.HasSuffix(t.aux, "."+name) || t.aux == name {
				return true
			}
			for _, a := range t.args {
				if d < 12 && rec(a, d+1) {
					return true
				}
			}
			return false
		}
		return rec(t, 0)
	}
	made, called := 0, 0
	for _, g := range p.repoFuncs() {
		makes, calls := false, false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == pk+"command.tokens" {
						makes = true
					}
				case *ssa.Call:
					if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() && len(x.Call.Args) == 2 && typeKey(x.Call.Args[1].Type()) == pk+"CmdEnvironment" {
						calls = true
					}
				}
			}
		}
		if !makes && !calls {
			continue
		}
		run := func(root *ssa.Function, chain map[*ssa.Function]bool) (map[ssa.Instruction]string, error) {
			var sites map[ssa.Instruction]string
			r := &Rule{JoinFacts: true}
			r.Reset = func() { sites = map[ssa.Instruction]string{} }
			sites = map[ssa.Instruction]string{}
			r.Inline = func(fr *Frame, h *ssa.Function) (bool, bool) {
				if chain[h] {
					return true, true
				}
				for _, pa := range h.Params {
					if typeKey(pa.Type()) == pk+"CommandInfo" {
						return true, true
					}
				}
				return false, false
			}
			put := func(in ssa.Instruction, why string) {
				if sites[in] == "" {
					sites[in] = why
				}
			}
			r.OnFact = func(e *Engine, s *State, a *T, v bool) {
				if len(a.args) != 2 {
					return
				}
				x, y := a.args[0], a.args[1]
				bx, cx := lin(x)
				by, cy := lin(y)
				if a.op == "<" && !v && bx != nil && cx == -1 && cy == 0 && mentions(y, "MinArg") {
					s.ev[fmt.Sprintf("min%d", bx.id)] = "checked"
				}
				if a.op == "<" && !v && by != nil && cy == -1 && cx == 0 && mentions(x, "MaxArg") {
					s.ev[fmt.Sprintf("max%d", by.id)] = "checked"
				}
				if i, ok := isInt(y); ok && a.op == "==" && v && i == -1 && mentions(x, "MaxArg") {
					// any number of words: of the words under the first of which the entry was found
					var rec func(t *T, d int)
					rec = func(t *T, d int) {
						if t.op == "elem" {
							if z, ok := isInt(t.args[1]); ok && z == 0 {
								s.ev[fmt.Sprintf("max%d", e.tb.Len(t.args[0]).id)] = "checked"
							}
						}
						for _, a := range t.args {
							if d < 12 {
								rec(a, d+1)
							}
						}
					}
					rec(x, 0)
				}
			}
			r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
				if addr.op != "field" || addr.aux != pk+"command.tokens" || fr.fn != g {
					return
				}
				n := e.tb.Len(val)
				if l, ok := e.lower(s.State, n); !ok || l < 1 {
					put(in, "the command may have no words")
					return
				}
				lo, hi := s.ev[fmt.Sprintf("min%d", n.id)] != "", s.ev[fmt.Sprintf("max%d", n.id)] != ""
				if !lo || !hi {
					e.why(s, "command")
					put(in, "the number of words may be outside the bounds of the command's entry")
					return
				}
				put(in, "")
			}
			r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, h *ssa.Function, args []*T) ([]Out, bool) {
				if name == "os.Exit" {
					return nil, true
				}
				if cc.StaticCallee() != nil || cc.IsInvoke() || len(cc.Args) != 2 || typeKey(cc.Args[1].Type()) != pk+"CmdEnvironment" || fr.fn != g {
					return nil, false
				}
				st := cc.Args[1].Type()
				var av *T
				for i := 0; i < st.Underlying().(*types.Struct).NumFields(); i++ {
					if st.Underlying().(*types.Struct).Field(i).Name() == "Args" {
						av = e.fieldVal(s.State, args[1], fieldKey(st, i), st.Underlying().(*types.Struct).Field(i).Type())
					}
				}
				ok := false
				if fn := s.env[cc.Value]; fn != nil && av != nil && av.op == "slice" && av.args[2].op == "none" {
					if i, isC := isInt(av.args[1]); isC && i == 1 {
						words := av.args[0]
						// the function comes from the entry found under words[0]
						var rec func(t *T, d int) bool
						rec = func(t *T, d int) bool {
							if t.op == "lookup" && len(t.args) >= 2 {
								ix := t.args[1]
								if ix.op == "load" && ix.args[0].op == "elem" && fmt.Sprint(ix.args[0].args[0]) == fmt.Sprint(words) {
									if i, isC := isInt(ix.args[0].args[1]); isC && i == 0 {
										return true
									}
								}
							}
							for _, a := range append(e.Origins(t), t.args...) {
								if d < 12 && a != t && rec(a, d+1) {
									return true
								}
							}
							return false
						}
						ok = rec(fn, 0) && mentions(words, "tokens")
					}
				}
				if !ok {
					e.why(s, "command")
					put(in, fmt.Sprintf("the arguments %v may not be the words after the command's name", av))
				} else {
					put(in, "")
				}
				return nil, false
			}
			e := newEngine(c, r)
			e.Cap = 100
			_, err := e.Run(root, nil)
			c.flowStats(e)
			return sites, err
		}
		// a place that does not hold for all arguments of its function is decided in the function's callers
		var decide func(root *ssa.Function, chain map[*ssa.Function]bool) (map[ssa.Instruction]string, error)
		decide = func(root *ssa.Function, chain map[*ssa.Function]bool) (map[ssa.Instruction]string, error) {
			sites, err := run(root, chain)
			bad := false
			for _, why := range sites {
				bad = bad || why != ""
			}
			if err != nil || !bad || k.taken[root] || len(chain) > 3 || len(k.callers[root]) == 0 {
				return sites, err
			}
			chain2 := map[*ssa.Function]bool{root: true}
			for h := range chain {
				chain2[h] = true
			}
			all := map[ssa.Instruction]string{}
			for _, ci := range k.callers[root] {
				if chain2[ci.Parent()] {
					return sites, nil
				}
				up, err := decide(ci.Parent(), chain2)
				if err != nil {
					return nil, err
				}
				for in, why := range up {
					if all[in] == "" {
						all[in] = why
					}
				}
			}
			for in := range sites {
				if _, ok := all[in]; !ok {
					return sites, nil
				}
			}
			return all, nil
		}
		sites, err := decide(g, nil)
		if err != nil {
			c.Violate("undecided:"+funcName(g), p.Pos(g.Pos()), "%v", err)
			continue
		}
		for in, why := range sites {
			c.Inst("arguments", p.instrPos(in))
			if _, ok := in.(*ssa.Store); ok {
				made++
			} else {
				called++
			}
			if why != "" {
				c.Violate("arguments:"+funcName(g), p.instrPos(in), "%s", why)
			}
		}
	}
	if made == 0 || called == 0 {
		c.Violate("arguments", "", "no place where commands are read (%d) or called (%d) was recognised", made, called)
	}
}
