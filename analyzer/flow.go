package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is a path-sensitive forward dataflow analysis in the style of property simulation:
// the abstract state at a program point is a finite set of disjuncts, each a conjunction of branch
// facts over value numbers plus the rule's own property state (events). States are joined at block
// entries (identical disjuncts merge; beyond a cap the facts that are not protected are dropped),
// loops run to a fixpoint, relevant callees are analysed in their calling context, and every other
// call conservatively forgets the memory classes it may write. Nothing is executed and no solver is
// involved: branch feasibility is decided by table lookups on recorded facts only.

// State is one disjunct.
type State struct {
	atoms map[*T]bool
	eqc   map[*T]*T // known equal constant
	lo    map[*T]int64
	hi    map[*T]int64
	mem   map[*T]*T // address -> value
	epoch map[string]*T
	ev    map[string]string // property state of the rule
	note  map[string]*T     // terms remembered by the rule
}

func newState() *State {
	return &State{atoms: map[*T]bool{}, eqc: map[*T]*T{}, lo: map[*T]int64{}, hi: map[*T]int64{},
		mem: map[*T]*T{}, epoch: map[string]*T{}, ev: map[string]string{}, note: map[string]*T{}}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.atoms {
		n.atoms[k] = v
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	for k, v := range s.lo {
		n.lo[k] = v
	}
	for k, v := range s.hi {
		n.hi[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.ev {
		n.ev[k] = v
	}
	for k, v := range s.note {
		n.note[k] = v
	}
	return n
}

type deferred struct {
	call *ssa.Defer
	fn   *T
	args []*T
}

// S is a disjunct together with the environment of the current frame.
type S struct {
	*State
	env    map[ssa.Value]*T
	defers []deferred
}

func (s *S) fork() *S {
	n := &S{State: s.State.clone(), env: make(map[ssa.Value]*T, len(s.env))}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	return n
}

// Frame is one function activation in its calling context.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	parent *Frame
	site   ssa.Instruction
	depth  int
	fv     []*T
}

func (fr *Frame) onStack(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// Path renders the call chain of a frame.
func (fr *Frame) Path() string {
	var parts []string
	for f := fr; f != nil; f = f.parent {
		parts = append([]string{funcName(f.fn)}, parts...)
	}
	return strings.Join(parts, " -> ")
}

// Out is the result of a call: the state after it and the value it returned.
type Out struct {
	S   *S
	Ret *T
}

// Rule customises the analysis.
type Rule struct {
	JoinFacts bool // keep what is known about both of two values when states are joined
	// Inline forces (true,true) or forbids (false,true) the analysis of a callee in context.
	Inline func(fr *Frame, fn *ssa.Function) (inline, decided bool)
	// OnCall sees every call before it is analysed; when handled it supplies the outcomes.
	OnCall func(e *Engine, fr *Frame, s *S, in ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool)
	// AfterCall sees every outcome of an inlined call.
	AfterCall func(e *Engine, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []*T, o Out)
	OnReturn  func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T)
	OnPanic   func(e *Engine, fr *Frame, s *S, in ssa.Instruction)
	OnIndex   func(e *Engine, fr *Frame, s *S, in ssa.Instruction, base, idx *T)
	OnSlice   func(e *Engine, fr *Frame, s *S, in *ssa.Slice, x, lo, hi *T)
	OnSend    func(e *Engine, fr *Frame, s *S, in *ssa.Send, v *T)
	OnRecv    func(e *Engine, fr *Frame, s *S, in ssa.Instruction, v *T) []Out
	// OnDeref sees the uses of pointers and of interface values that fail when they are nil.
	OnDeref  func(e *Engine, fr *Frame, s *S, in ssa.Instruction, v ssa.Value, x *T)
	OnStore  func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T)
	OnAppend func(e *Engine, fr *Frame, s *S, in ssa.Instruction, c *ssa.CallCommon, list, tail *T)
	// OnEdge sees every transfer of control before (phis=false) and after the φ-functions of the target.
	OnEdge func(e *Engine, fr *Frame, s *S, from, to *ssa.BasicBlock, phis bool)
	OnFact func(e *Engine, s *State, t *T, val bool)
	// Reset is called before the analysis starts over with more facts kept apart.
	Reset    func()
	OnAssert func(e *Engine, fr *Frame, s *S, in *ssa.TypeAssert, x *T)
	// Protected facts survive widening.
	Protect func(t *T) bool
	// ProtectMem: constants stored at this address distinguish states.
	// EnvKey: variables in different classes (non-zero numbers) keep states apart
	EnvKey     func(e *Engine, s *S, k ssa.Value, v *T) int
	ProtectMem func(addr *T) bool
	NoPeel     func(fn *ssa.Function) bool // do not tell first iterations of this function's loops apart
	Split      func(*T) bool               // values that keep states apart like constants do
	// Sticky leaves: facts about them are never garbage-collected.
	Relevant map[*ssa.Function]bool
}

// Engine runs the analysis.
type Engine struct {
	P     *Prog
	tb    *Table
	R     *Rule
	mods  *ModSets
	preds map[*ssa.Function]bool // small predicate helpers, always analysed in context

	Cap      int
	MaxDepth int
	Budget   int
	steps    int
	Widened  int
	Blocks   int
	FnsSeen  map[string]bool
	sticky   map[int]bool

	live        map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	loopHead    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> back-edge sources
	loopsOK     map[*ssa.Function]bool
	implCache   map[string]bool
	arith       map[*ssa.Phi]int
	rpos        map[*ssa.Function]map[*ssa.BasicBlock]int
	rets        map[*ssa.Function][]ssa.Value
	visits      map[*ssa.Function]int
	runs        map[*ssa.Function]int
	memo        map[memoKey][]Out
	Trace       bool
	observed    map[string]bool
	newObserved bool
	C           *Ctx
	origin      map[int]map[*T]bool
}

type budgetErr struct{}

func newEngine(c *Ctx, r *Rule) *Engine {
	p := c.P
	e := &Engine{P: p, C: c, origin: map[int]map[*T]bool{}, observed: map[string]bool{}, tb: newTable(), R: r, mods: p.ModSets(), Cap: 100, MaxDepth: 12, Budget: 60_000_000,
		FnsSeen: map[string]bool{}, sticky: map[int]bool{},
		live:     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		loopHead: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, loopsOK: map[*ssa.Function]bool{},
		implCache: map[string]bool{}, arith: map[*ssa.Phi]int{},
		rpos: map[*ssa.Function]map[*ssa.BasicBlock]int{}, rets: map[*ssa.Function][]ssa.Value{}, visits: map[*ssa.Function]int{}, runs: map[*ssa.Function]int{}, memo: map[memoKey][]Out{}}
	curEngine = e
	return e
}

// Run analyses fn from an arbitrary state; init may record facts about the parameters first.
func (e *Engine) Run(fn *ssa.Function, init func(s *S, params []*T)) (outs []Out, err error) {
	if e.observed == nil {
		e.observed = map[string]bool{}
	}
	for round := 0; ; round++ {
		var save *Ctx
		if e.C != nil {
			save = e.C.save()
		}
		e.newObserved = false
		if e.R.Reset != nil {
			e.R.Reset()
		}
		outs, err = e.run1(fn, init)
		if err != nil || !e.newObserved {
			return outs, err
		}
		if e.C != nil {
			e.C.restore(save)
		}
		e.memo = map[memoKey][]Out{}
	}
}

func (e *Engine) run1(fn *ssa.Function, init func(s *S, params []*T)) (outs []Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(budgetErr); ok {
				err = fmt.Errorf("analysis of %s exceeded its budget", funcName(fn))
				return
			}
			panic(r)
		}
	}()
	s := &S{State: newState(), env: map[ssa.Value]*T{}}
	var params []*T
	for i, p := range fn.Params {
		t := e.tb.mk("param", fmt.Sprintf("%s", p.Name()), e.tb.Int(int64(i)))
		t.typ = p.Type()
		params = append(params, t)
	}
	var fv []*T
	for _, v := range fn.FreeVars {
		t := e.tb.mk("param", "&"+v.Name())
		t.typ = v.Type()
		fv = append(fv, t)
	}
	if init != nil {
		init(s, params)
	}
	fr := &Frame{fn: fn, ctx: "", fv: fv}
	return e.runFunc(fr, s, params), nil
}

// ---------------------------------------------------------------- facts

type tri int

const (
	unknown tri = iota
	yes
	no
)

func toTri(b bool) tri {
	if b {
		return yes
	}
	return no
}

// Eval decides a boolean term from the recorded facts.
func (e *Engine) Eval(s *State, t *T) tri {
	switch t.op {
	case "const":
		if t.cst.Kind() == constant.Bool {
			return toTri(constant.BoolVal(t.cst))
		}
	case "not":
		switch e.Eval(s, t.args[0]) {
		case yes:
			return no
		case no:
			return yes
		}
		return unknown
	case "==":
		return e.evalEq(s, t)
	case "<":
		return e.evalLess(s, t)
	case "bytesEqual":
		if t.args[0] == t.args[1] {
			return yes
		}
	case "is":
		if r := e.evalIs(s, t); r != unknown {
			return r
		}
	case "call":
		if t.aux == "strings.HasPrefix" || t.aux == "strings.HasSuffix" {
			if a, ok := isStr(t.args[0]); ok {
				if b, ok := isStr(t.args[1]); ok {
					if t.aux == "strings.HasPrefix" {
						return toTri(strings.HasPrefix(a, b))
					}
					return toTri(strings.HasSuffix(a, b))
				}
			}
		}
	}
	if v, ok := s.atoms[t]; ok {
		return toTri(v)
	}
	return unknown
}

func (e *Engine) nonNil(s *State, t *T) bool {
	switch t.op {
	case "alloc", "closure", "func", "global", "field", "elem", "makemap", "makeslice", "makechan", "nonnil", "const", "zero", "tuple", "mkiface":
		return true
	case "append":
		lo, ok := e.lower(s, e.tb.Len(t))
		return ok && lo > 0
	case "slice":
		return e.nonNil(s, t.args[0])
	}
	if v, ok := s.atoms[e.tb.mk("==", "", t, e.tb.Nil())]; ok && !v {
		return true
	}
	if lo, ok := s.lo[e.tb.mk("len", "", t)]; ok && lo > 0 {
		return true
	}
	return false
}

func (e *Engine) evalEq(s *State, t *T) tri {
	a, b := t.args[0], t.args[1]
	if a == b {
		return yes
	}
	if b.op == "nil" {
		if a.op == "nil" {
			return yes
		}
		if e.nonNil(s, a) {
			return no
		}
		if a.op == "zero" {
			return no
		}
	}
	if v, ok := s.atoms[t]; ok {
		return toTri(v)
	}
	ca, cb := a, b
	if c := s.eqc[a]; c != nil {
		ca = c
	}
	if c := s.eqc[b]; c != nil {
		cb = c
	}
	if ca.op == "const" && cb.op == "const" && ca.cst.Kind() == cb.cst.Kind() {
		return toTri(constant.Compare(ca.cst, token.EQL, cb.cst))
	}
	if str, ok := isStr(cb); ok {
		// len facts rule out constants of another length
		ln := e.tb.Len(a)
		if lo, ok := e.lower(s, ln); ok && lo > int64(len(str)) {
			return no
		}
		if hi, ok := e.upper(s, ln); ok && hi < int64(len(str)) {
			return no
		}
	}
	if _, ok := isInt(cb); ok || a.op == "add" || b.op == "add" {
		la, aok := e.lower(s, a)
		ha, hok := e.upper(s, a)
		lb, bok := e.lower(s, b)
		hb, hbok := e.upper(s, b)
		if aok && hbok && la > hb || bok && hok && lb > ha {
			return no
		}
		if aok && hok && bok && hbok && la == ha && lb == hb && la == lb {
			return yes
		}
		ab, ac := lin(a)
		bb, bc := lin(b)
		if ab == bb && ab != nil {
			return toTri(ac == bc)
		}
	}
	return unknown
}

func (e *Engine) lower(s *State, t *T) (int64, bool) { return e.lowerD(s, t, 0) }
func (e *Engine) upper(s *State, t *T) (int64, bool) { return e.upperD(s, t, 0) }

func (e *Engine) lowerD(s *State, t *T, d int) (int64, bool) {
	b, c := lin(t)
	if b == nil {
		return c, true
	}
	if v := s.eqc[b]; v != nil {
		if i, ok := isInt(v); ok {
			return i + c, true
		}
	}
	best, ok := s.lo[b]
	switch b.op {
	case "len":
		if !ok || best < 0 {
			best, ok = 0, true
		}
		x := b.args[0]
		if x.op == "load" && x.args[0].op == "global" && x.args[0].aux == "os.Args" && best < 1 {
			best = 1
		}
		if n := e.P.matchLen(x); n > best && (x.op != "call" || e.nonNil(s, x)) {
			best = n
		}
		if x.op == "call" && best < 1 {
			switch x.aux {
			case "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.SplitAfterN":
				if sep, isC := isStr(x.args[1]); isC && sep != "" {
					if len(x.args) == 2 {
						best = 1
					} else if n, isC := isInt(x.args[2]); isC && n != 0 {
						best = 1
					}
				}
			}
		}
	case "sum":
		if d < 4 {
			l1, o1 := e.lowerD(s, b.args[0], d+1)
			l2, o2 := e.lowerD(s, b.args[1], d+1)
			if o1 && o2 && (!ok || l1+l2 > best) {
				best, ok = l1+l2, true
			}
		}
	case "rangeidx":
		if !ok || best < 0 {
			best, ok = 0, true
		}
	case "call":
		switch b.aux {
		case "strings.Index", "strings.IndexByte", "strings.LastIndex", "bytes.Index", "strings.IndexAny", "strings.IndexRune", "bytes.IndexByte", "strings.LastIndexByte":
			if !ok || best < -1 {
				best, ok = -1, true
			}
		}
	}
	if v, isF := s.atoms[e.tb.mk("==", "", b, e.tb.Int(best))]; ok && isF && !v {
		best++
	}
	return best + c, ok
}

func (e *Engine) upperD(s *State, t *T, d int) (int64, bool) {
	b, c := lin(t)
	if b == nil {
		return c, true
	}
	if v := s.eqc[b]; v != nil {
		if i, ok := isInt(v); ok {
			return i + c, true
		}
	}
	best, ok := s.hi[b]
	switch b.op {
	case "len":
		x := b.args[0]
		if x.op == "call" && (x.aux == "strings.SplitN" || x.aux == "strings.SplitAfterN") {
			if n, isC := isInt(x.args[2]); isC && n > 0 && (!ok || n < best) {
				best, ok = n, true
			}
		}
	case "sum":
		if d < 4 {
			l1, o1 := e.upperD(s, b.args[0], d+1)
			l2, o2 := e.upperD(s, b.args[1], d+1)
			if o1 && o2 && (!ok || l1+l2 < best) {
				best, ok = l1+l2, true
			}
		}
	}
	if v, isF := s.atoms[e.tb.mk("==", "", b, e.tb.Int(best))]; ok && isF && !v {
		best--
	}
	return best + c, ok
}

func (e *Engine) evalLess(s *State, t *T) tri {
	a, b := t.args[0], t.args[1]
	if v, ok := s.atoms[t]; ok {
		return toTri(v)
	}
	ab, ac := lin(a)
	bb, bc := lin(b)
	if ab == bb && ab != nil {
		return toTri(ac < bc)
	}
	la, aok := e.lower(s, a)
	ha, hok := e.upper(s, a)
	lb, bok := e.lower(s, b)
	hb, hbok := e.upper(s, b)
	if hok && bok && ha < lb {
		return yes
	}
	if aok && hbok && la >= hb {
		return no
	}
	// a0 < b recorded and a = a0 - k (or b = b0 + k)
	for _, base := range []*T{ab} {
		if base == nil {
			continue
		}
		for d := int64(0); d <= 2; d++ {
			if v, ok := s.atoms[e.tb.mk("<", "", e.tb.addc(base, ac+d), b)]; ok && v {
				return yes
			}
			if v, ok := s.atoms[e.tb.mk("<", "", e.tb.addc(base, ac-d), b)]; ok && !v {
				return no
			}
		}
	}
	// index of a substring is below the length of the string it was found in
	if ab != nil && ab.op == "call" && ac <= 0 && len(ab.args) > 0 && (strings.HasPrefix(ab.aux, "strings.Index") || strings.HasPrefix(ab.aux, "strings.LastIndex") || strings.HasPrefix(ab.aux, "bytes.Index")) {
		if bb == e.tb.Len(ab.args[0]) && bc >= 0 && ac < 0 {
			return yes
		}
	}
	return unknown
}

func (e *Engine) implements(t types.Type, iface types.Type) bool {
	i, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return types.Identical(t, iface)
	}
	return types.Implements(t, i)
}

func (e *Engine) evalIs(s *State, t *T) tri {
	x := t.args[0]
	if x.op == "nil" {
		return no
	}
	if v, ok := s.atoms[t]; ok {
		return toTri(v)
	}
	// a recorded concrete type decides every other question
	for at, v := range s.atoms {
		if v && at.op == "is" && at.args[0] == x && at.typ != nil && !types.IsInterface(at.typ) {
			return toTri(e.implements(at.typ, t.typ))
		}
	}
	if x.typ != nil && x.op == "alloc" {
		return toTri(e.implements(types.NewPointer(x.typ), t.typ))
	}
	if x.op == "mkiface" && x.typ != nil {
		return toTri(e.implements(x.typ, t.typ))
	}
	if v, ok := s.atoms[e.tb.mk("==", "", x, e.tb.Nil())]; ok && v {
		return no
	}
	return unknown
}

// Assume adds a fact; false means the state is infeasible.
func (e *Engine) Assume(s *State, t *T, val bool) bool {
	known := e.Eval(s, t) != unknown
	ok := e.assume(s, t, val)
	if ok && !known && e.R.OnFact != nil {
		e.R.OnFact(e, s, t, val)
	}
	return ok
}

func (e *Engine) assume(s *State, t *T, val bool) bool {
	switch e.Eval(s, t) {
	case yes:
		return val
	case no:
		return !val
	}
	switch t.op {
	case "not":
		return e.Assume(s, t.args[0], !val)
	case "==":
		s.atoms[t] = val
		a, b := t.args[0], t.args[1]
		if b.op == "const" {
			if str, ok := isStr(b); ok && str == "" && !val {
				e.raise(s, e.tb.Len(a), 1)
			}
			if val {
				s.eqc[a] = b
				if str, ok := isStr(b); ok {
					ln := e.tb.Len(a)
					if !e.Assume(s, e.tb.Eq(ln, e.tb.Int(int64(len(str)))), true) {
						return false
					}
				}
			}
			if c, ok := isInt(b); ok {
				ab, ac := lin(a)
				if ab != nil && val {
					s.lo[ab], s.hi[ab] = c-ac, c-ac
					s.eqc[ab] = e.tb.Int(c - ac)
					if ab.op == "len" && c-ac == 0 {
						if ab.args[0].typ == nil || isStringType(ab.args[0].typ) {
							// empty string (or slice): harmless extra knowledge for strings only
						}
					}
				} else if ab != nil {
					if ab.op == "bin" && ab.aux == "%" && c-ac == 0 {
						if lo, ok := e.lower(s, ab.args[0]); ok && lo == 0 {
							e.raise(s, ab.args[0], 1) // zero leaves no remainder
						}
					}
					if lo, ok := e.lower(s, ab); ok && lo == c-ac {
						s.lo[ab] = lo + 1
					}
					if hi, ok := e.upper(s, ab); ok && hi == c-ac {
						s.hi[ab] = hi - 1
					}
				}
			}
		}
		if val && e.R.JoinFacts && (a.op == "len" || b.op == "len") {
			if l, ok := e.lower(s, a); ok {
				e.raise(s, b, l)
			}
			if l, ok := e.lower(s, b); ok {
				e.raise(s, a, l)
			}
		}
		return true
	case "<":
		a, b := t.args[0], t.args[1]
		ab, ac := lin(a)
		bb, bc := lin(b)
		s.atoms[t] = val
		if bb == nil && ab != nil { // ab+ac < bc
			if val {
				if h, ok := s.hi[ab]; !ok || bc-ac-1 < h {
					s.hi[ab] = bc - ac - 1
				}
			} else if l, ok := s.lo[ab]; !ok || bc-ac > l {
				s.lo[ab] = bc - ac
			}
		}
		if ab == nil && bb != nil { // ac < bb+bc
			if val {
				if l, ok := s.lo[bb]; !ok || ac-bc+1 > l {
					s.lo[bb] = ac - bc + 1
				}
			} else if h, ok := s.hi[bb]; !ok || ac-bc < h {
				s.hi[bb] = ac - bc
			}
		}
		if ab != nil && bb != nil && e.R.JoinFacts && val {
			if l, ok := e.lower(s, a); ok {
				e.raise(s, b, l+1)
			}
		}
		return true
	case "is":
		s.atoms[t] = val
		if val {
			s.atoms[e.tb.mk("==", "", t.args[0], e.tb.Nil())] = false
		}
		return true
	}
	s.atoms[t] = val
	if t.op == "call" && val && len(t.args) >= 2 {
		switch t.aux {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
			if n, ok := e.lower(s, e.tb.Len(t.args[1])); ok {
				e.raise(s, e.tb.Len(t.args[0]), n)
			}
		}
	}
	return true
}

// raise records t >= n.
func (e *Engine) raise(s *State, t *T, n int64) {
	b, c := lin(t)
	if b == nil {
		return
	}
	if l, ok := e.lower(s, b); !ok || l < n-c {
		s.lo[b] = n - c
	}
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---------------------------------------------------------------- memory

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}

// class is the alias class of an address.
func (e *Engine) class(addr *T) string {
	switch addr.op {
	case "field":
		return "F:" + addr.aux
	case "elem":
		return "E:" + addr.aux
	case "global":
		return "G:" + addr.aux
	}
	if addr.typ != nil {
		t := addr.typ
		if addr.op != "alloc" {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
		}
		return "D:" + types.TypeString(t, nil)
	}
	return "D:?"
}

func root(addr *T) *T {
	for addr.op == "field" || addr.op == "elem" {
		addr = addr.args[0]
	}
	return addr
}

func (e *Engine) private(addr *T) bool {
	r := root(addr)
	return r.op == "alloc" && !r.heap
}

func (e *Engine) Field(base *T, typ types.Type, i int) *T {
	t := e.tb.mk("field", fieldKey(typ, i), base)
	if t.typ == nil {
		pt := typ
		if p, ok := pt.Underlying().(*types.Pointer); ok {
			pt = p.Elem()
		}
		t.typ = types.NewPointer(pt.Underlying().(*types.Struct).Field(i).Type())
	}
	return t
}

func (e *Engine) fieldVal(s *State, v *T, key string, ftyp types.Type) *T {
	switch v.op {
	case "zero":
		return e.tb.Zero(ftyp)
	case "load":
		f := e.tb.mk("field", key, v.args[0])
		if f.typ == nil {
			f.typ = types.NewPointer(ftyp)
		}
		if len(v.args) == 1 && e.getEpoch(s, "F:"+key) == nil {
			l := e.tb.mk("load", "", f)
			if l.typ == nil {
				l.typ = ftyp
			}
			return l
		}
	case "struct":
		for i := 0; i < len(v.args); i++ {
			if strings.HasSuffix(key, "."+strings.Split(v.aux, ",")[i]) {
				return v.args[i]
			}
		}
	}
	t := e.tb.mk("fieldval", key, v)
	if t.typ == nil {
		t.typ = ftyp
	}
	return t
}

func (e *Engine) lookup(s *State, addr *T) *T {
	if v := s.mem[addr]; v != nil {
		return v
	}
	switch addr.op {
	case "field":
		if w := e.lookup(s, addr.args[0]); w != nil {
			ft := addr.typ.Underlying().(*types.Pointer).Elem()
			return e.fieldVal(s, w, addr.aux, ft)
		}
	case "elem":
		if w := e.lookup(s, addr.args[0]); w != nil && w.op == "zero" && addr.typ != nil {
			if p, ok := addr.typ.Underlying().(*types.Pointer); ok {
				return e.tb.Zero(p.Elem())
			}
		}
	}
	return nil
}

func (e *Engine) Load(s *State, addr *T, typ types.Type) *T {
	if v := e.lookup(s, addr); v != nil {
		return v
	}
	var t *T
	if ep := e.getEpoch(s, e.class(addr)); ep != nil {
		t = e.tb.mk("load", "", addr, ep)
	} else {
		t = e.tb.mk("load", "", addr)
	}
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func hasPrefixAddr(a, base *T) bool {
	for a != nil {
		if a == base {
			return true
		}
		if a.op != "field" && a.op != "elem" {
			return false
		}
		a = a.args[0]
	}
	return false
}

// structSnapshot captures the fields of a struct variable that were stored individually.
func (e *Engine) loadWhole(s *State, addr *T, typ types.Type) *T {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return e.Load(s, addr, typ)
	}
	any := false
	for a := range s.mem {
		if a != addr && hasPrefixAddr(a, addr) {
			any = true
		}
	}
	if !any {
		return e.Load(s, addr, typ)
	}
	var names []string
	var vals []*T
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, st.Field(i).Name())
		vals = append(vals, e.loadWhole(s, e.Field(addr, typ, i), st.Field(i).Type()))
	}
	t := e.tb.mk("struct", strings.Join(names, ","), vals...)
	t.typ = typ
	return t
}

// getEpoch returns the version of a memory class. Versions are only tracked for classes that are
// read somewhere; a first read of an untracked class makes Run start over.
func (e *Engine) getEpoch(s *State, c string) *T {
	if !e.observed[c] {
		e.observed[c] = true
		e.newObserved = true
	}
	return s.epoch[c]
}

func (e *Engine) setEpoch(s *State, c string, ep func() *T) {
	if e.observed[c] {
		s.epoch[c] = ep()
	}
}

func (e *Engine) killClass(s *State, c string, ep func() *T) {
	for a := range s.mem {
		if e.class(a) == c && !e.private(a) {
			delete(s.mem, a)
		}
	}
	// whole-struct values in shared memory go stale as well
	if strings.HasPrefix(c, "F:") {
		st := c[2:strings.LastIndex(c, ".")]
		for a := range s.mem {
			if e.class(a) == "D:"+st && !e.private(a) {
				delete(s.mem, a)
			}
		}
		e.setEpoch(s, "D:"+st, ep)
	}
	e.setEpoch(s, c, ep)
}

func (e *Engine) Store(s *S, addr, val *T, ep func() *T) {
	c := e.class(addr)
	if !e.private(addr) {
		fresh := root(addr).op == "alloc"
		for a := range s.mem {
			if a == addr || e.private(a) || e.class(a) != c {
				continue
			}
			if fresh && root(a).op == "alloc" && root(a) != root(addr) {
				continue // distinct allocations
			}
			if a.op == "elem" && addr.op == "elem" && a.args[0] == addr.args[0] {
				if i, ok := isInt(a.args[1]); ok {
					if j, ok := isInt(addr.args[1]); ok && i != j {
						continue
					}
				}
			}
			delete(s.mem, a)
		}
		if !fresh {
			e.setEpoch(s.State, c, ep)
			if strings.HasPrefix(c, "F:") {
				st := c[2:strings.LastIndex(c, ".")]
				e.setEpoch(s.State, "D:"+st, ep)
			}
		}
	}
	for a := range s.mem {
		if a != addr && hasPrefixAddr(a, addr) {
			delete(s.mem, a)
		}
	}
	s.mem[addr] = val
}

// ---------------------------------------------------------------- renaming

// subst replaces old by new in t.
func (e *Engine) subst(t, old, new *T, memo map[*T]*T) *T {
	if t == old {
		return new
	}
	if !t.hasLeaf(old.id) {
		return t
	}
	if m, ok := memo[t]; ok {
		return m
	}
	args := make([]*T, len(t.args))
	for i, a := range t.args {
		args[i] = e.subst(a, old, new, memo)
	}
	n := e.tb.mk(t.op, t.aux, args...)
	if n.typ == nil {
		n.typ = t.typ
	}
	n.fn, n.cst = t.fn, t.cst
	memo[t] = n
	return n
}

// redefine prepares the state for a new definition of the opaque leaf t (an instruction executed
// again in a loop): what is known about the previous value is kept under another name.
func (e *Engine) redefine(s *S, t *T) {
	if !s.mentionsLeaf(t.id) {
		return
	}
	old := e.tb.mk("stale", fmt.Sprintf("%d", t.id))
	old.typ, old.heap = t.typ, t.heap
	// two generations back: forget
	s.dropLeaf(old.id, e)
	memo := map[*T]*T{}
	f := func(x *T) *T { return e.subst(x, t, old, memo) }
	atoms := map[*T]bool{}
	for k, v := range s.atoms {
		atoms[f(k)] = v
	}
	s.atoms = atoms
	s.eqc = mapTT(s.eqc, f)
	s.lo = mapTI(s.lo, f)
	s.hi = mapTI(s.hi, f)
	s.mem = mapTT(s.mem, f)
	for k, v := range s.epoch {
		s.epoch[k] = f(v)
	}
	for k, v := range s.note {
		s.note[k] = f(v)
	}
	for k, v := range s.env {
		s.env[k] = f(v)
	}
	for i := range s.defers {
		d := &s.defers[i]
		d.fn = f(d.fn)
		d.args = append([]*T{}, d.args...)
		for j := range d.args {
			d.args[j] = f(d.args[j])
		}
	}
}

func mapTT(m map[*T]*T, f func(*T) *T) map[*T]*T {
	n := make(map[*T]*T, len(m))
	for k, v := range m {
		n[f(k)] = f(v)
	}
	return n
}

func mapTI(m map[*T]int64, f func(*T) *T) map[*T]int64 {
	n := make(map[*T]int64, len(m))
	for k, v := range m {
		n[f(k)] = v
	}
	return n
}

func (s *S) mentionsLeaf(id int) bool {
	for k := range s.atoms {
		if k.hasLeaf(id) {
			return true
		}
	}
	for k, v := range s.eqc {
		if k.hasLeaf(id) || v.hasLeaf(id) {
			return true
		}
	}
	for k := range s.lo {
		if k.hasLeaf(id) {
			return true
		}
	}
	for k := range s.hi {
		if k.hasLeaf(id) {
			return true
		}
	}
	for k, v := range s.mem {
		if k.hasLeaf(id) || v.hasLeaf(id) {
			return true
		}
	}
	for _, v := range s.epoch {
		if v.hasLeaf(id) {
			return true
		}
	}
	for _, v := range s.note {
		if v.hasLeaf(id) {
			return true
		}
	}
	for _, v := range s.env {
		if v.hasLeaf(id) {
			return true
		}
	}
	for _, d := range s.defers {
		for _, a := range d.args {
			if a.hasLeaf(id) {
				return true
			}
		}
	}
	return false
}

func (s *S) dropLeaf(id int, e *Engine) {
	var set []*T
	for k, v := range s.mem {
		if !k.hasLeaf(id) && v.hasLeaf(id) && e.nonNil(s.State, v) {
			set = append(set, e.tb.mk("opaque", fmt.Sprintf("lost|m%d", k.id)))
		}
	}
	defer func() {
		for _, t := range set {
			s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
		}
	}()
	for k := range s.atoms {
		if k.hasLeaf(id) {
			delete(s.atoms, k)
		}
	}
	for k, v := range s.eqc {
		if k.hasLeaf(id) || v.hasLeaf(id) {
			delete(s.eqc, k)
		}
	}
	for k := range s.lo {
		if k.hasLeaf(id) {
			delete(s.lo, k)
		}
	}
	for k := range s.hi {
		if k.hasLeaf(id) {
			delete(s.hi, k)
		}
	}
	for k, v := range s.mem {
		if k.hasLeaf(id) {
			delete(s.mem, k)
		} else if v.hasLeaf(id) {
			n := e.tb.mk("opaque", fmt.Sprintf("lost|m%d", k.id))
			for a := range s.atoms {
				if a.hasLeaf(n.id) {
					delete(s.atoms, a)
				}
			}
			s.mem[k] = n
		}
	}
	for k, v := range s.epoch {
		if v.hasLeaf(id) {
			s.epoch[k] = e.tb.mk("opaque", "lost|ep|"+k)
		}
	}
	for k, v := range s.note {
		if v.hasLeaf(id) {
			delete(s.note, k)
		}
	}
	for k, v := range s.env {
		if v.hasLeaf(id) {
			n := e.tb.mk("opaque", fmt.Sprintf("lost|%s.%s", k.Parent(), k.Name()))
			n.typ = k.Type()
			s.env[k] = n
		}
	}
	for i := range s.defers {
		d := &s.defers[i]
		d.args = append([]*T{}, d.args...)
		for j, a := range d.args {
			if a.hasLeaf(id) {
				d.args[j] = e.tb.mk("opaque", fmt.Sprintf("lost|d%d", j))
			}
		}
	}
}

// gc forgets facts about values that can no longer be observed: terms with an opaque leaf that is
// neither live (env, memory reachable from it) nor sticky.
func (e *Engine) gc(s *S, live map[ssa.Value]bool, extra []*T) {
	if live != nil {
		for v := range s.env {
			if !live[v] {
				delete(s.env, v)
			}
		}
	}
	keep := map[int]bool{}
	add := func(t *T) {
		for _, l := range t.leaves {
			keep[l] = true
		}
	}
	for _, v := range s.env {
		add(v)
	}
	for _, t := range extra {
		add(t)
	}
	for _, d := range s.defers {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	for _, v := range s.note {
		add(v)
	}
	for l := range e.sticky {
		keep[l] = true
	}
	reach := func(t *T) bool {
		for _, l := range t.leaves {
			if !keep[l] {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for a, v := range s.mem {
			if reach(a) {
				for _, l := range v.leaves {
					if !keep[l] {
						keep[l] = true
						changed = true
					}
				}
			}
		}
	}
	for a := range s.mem {
		if !reach(a) {
			delete(s.mem, a)
		}
	}
	// epochs are only needed to distinguish future loads from remembered ones; they stay as leaves
	for _, v := range s.epoch {
		add(v)
	}
	if e.R.Protect != nil {
		old := reach
		reach = func(t *T) bool { return old(t) || e.R.Protect(t) }
	}
	for k := range s.atoms {
		if !reach(k) {
			delete(s.atoms, k)
		}
	}
	for k := range s.eqc {
		if !reach(k) {
			delete(s.eqc, k)
		}
	}
	for k := range s.lo {
		if !reach(k) {
			delete(s.lo, k)
		}
	}
	for k := range s.hi {
		if !reach(k) {
			delete(s.hi, k)
		}
	}
}

func (t tri) String() string {
	switch t {
	case yes:
		return "yes"
	case no:
		return "no"
	}
	return "unknown"
}
