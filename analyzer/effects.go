package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Effects: an interprocedural, context-independent side-effect and provenance analysis.
//
// For every function it computes which memory reachable from its parameters, its captured
// variables and the package-level variables it may modify, which memory its results alias, and
// how it calls the functions it is handed. Memory is described by abstract objects: one object per
// allocation site of the function (or, for memory allocated by a callee, per call site and type),
// and "root" objects (parameter i / captured variable i / global g) at depth 0 (the memory the
// value points to), 1 (the memory that points to), 2 and 3 (everything deeper). Loads and stores
// through a local allocation are field-sensitive and flow-sensitive, so a shallow copy whose list
// was replaced by a fresh one may be modified freely, and one whose list is still shared may not.

const maxDepth = 3

type eobj struct {
	id   int
	kind string // "param", "free", "global", "alloc", "call", "func", "unknown"
	idx  int
	d    int
	g    *ssa.Global
	site ssa.Instruction
	typ  string
	fn   *ssa.Function // "func"
	bind []*eset       // "func": captured variables
}

func (o *eobj) root() bool { return o.kind == "param" || o.kind == "free" || o.kind == "global" }

// emut is one possible modification of a root object.
type emut struct {
	obj   *eobj
	typ   types.Type // type of the modified memory, nil if unknown
	cond  *eobj      // only if this function value may return a non-nil result ci
	ci    int
	field string
	site  ssa.Instruction // the modifying instruction
	via   string          // sample call chain
}

type callParam struct {
	callee *eobj // root object: the function value called
	args   []*eset
	site   ssa.Instruction
	typ    string
}

type esum struct {
	muts   map[string]*emut
	rets   []*eset
	heap   map[*eobj]map[string]*eset // contents of fresh objects (and additions to roots)
	calls  map[string]*callParam
	merged bool
}

// Effects holds the analysis of the whole program.
type Effects struct {
	p       *Prog
	objs    map[string]*eobj
	nobj    int
	sums    map[*ssa.Function]*esum
	fns     []*ssa.Function
	callers map[*ssa.Function]map[*ssa.Function]bool
	// IgnoreStore: stores not counted as modifications
	stage  int
	states map[*ssa.Function]*fstate
	Rounds int
	dynOut map[ssa.CallInstruction][]*ssa.Function
	coarse map[*ssa.Function]bool
	reachT map[string]map[string]bool
	conc   []types.Type
}

func (e *Effects) mkobj(key string, f func(*eobj)) *eobj {
	if o := e.objs[key]; o != nil {
		return o
	}
	e.nobj++
	o := &eobj{id: e.nobj}
	for len(effObjs) <= e.nobj {
		effObjs = append(effObjs, nil)
	}
	effObjs[e.nobj] = o
	f(o)
	e.objs[key] = o
	return o
}

func (e *Effects) param(i, d int) *eobj {
	return e.mkobj(fmt.Sprintf("p%d.%d", i, d), func(o *eobj) { o.kind, o.idx, o.d = "param", i, d })
}
func (e *Effects) free(i, d int) *eobj {
	return e.mkobj(fmt.Sprintf("f%d.%d", i, d), func(o *eobj) { o.kind, o.idx, o.d = "free", i, d })
}
func (e *Effects) global(g *ssa.Global, d int) *eobj {
	return e.mkobj(fmt.Sprintf("g%s.%d", g.String(), d), func(o *eobj) { o.kind, o.g, o.d = "global", g, d })
}
func (e *Effects) deeper(o *eobj) *eobj {
	d := o.d + 1
	if d > maxDepth {
		d = maxDepth
	}
	switch o.kind {
	case "param":
		return e.param(o.idx, d)
	case "free":
		return e.free(o.idx, d)
	}
	return e.global(o.g, d)
}

func (e *Effects) siteObj(kind string, in ssa.Instruction, typ string) *eobj {
	if e.coarse[in.Parent()] {
		// a very large function: one object per type
		return e.mkobj(fmt.Sprintf("coarse|%p|%s", in.Parent(), typ), func(o *eobj) { o.kind, o.typ = "call", typ })
	}
	return e.mkobj(fmt.Sprintf("%s|%p|%s", kind, in, typ), func(o *eobj) { o.kind, o.site, o.typ = kind, in, typ })
}

// hasPtr: values of the type can refer to mutable memory.
func hasPtr(t types.Type) bool {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return hasPtrU(t, t.Underlying(), 0)
	}
	return hasPtrU(t, t.Underlying(), 0)
}

func hasPtrU(orig, t types.Type, depth int) bool {
	if depth > 10 {
		return true
	}
	switch t := t.(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer || t.Kind() == types.UntypedNil
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPtrU(nil, t.Field(i).Type().Underlying(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtrU(nil, t.Elem().Underlying(), depth+1)
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if hasPtrU(nil, t.At(i).Type().Underlying(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (p *Prog) Effects() *Effects {
	if p.eff != nil {
		return p.eff
	}
	defer phase("effects")()
	e := &Effects{p: p, objs: map[string]*eobj{}, sums: map[*ssa.Function]*esum{}, dynOut: map[ssa.CallInstruction][]*ssa.Function{}, coarse: map[*ssa.Function]bool{}, reachT: map[string]map[string]bool{}, states: map[*ssa.Function]*fstate{}}
	p.eff = e
	cg := p.CallGraph()
	e.fns = p.repoFuncs()
	e.callers = map[*ssa.Function]map[*ssa.Function]bool{}
	for fn, n := range cg.Nodes {
		if fn == nil {
			continue
		}
		for _, ed := range n.Out {
			if ed.Site != nil {
				e.dynOut[ed.Site] = append(e.dynOut[ed.Site], ed.Callee.Func)
			}
		}
	}
	for _, l := range e.dynOut {
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	}
	for _, fn := range e.fns {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Alloc); ok {
					n++
				}
			}
		}
		if n > 120 {
			e.coarse[fn] = true
		}
		e.sums[fn] = &esum{muts: map[string]*emut{}, heap: map[*eobj]map[string]*eset{}, calls: map[string]*callParam{}}
	}
	// Stage 1 computes values, stage 2 (with all values known) the modifications. Callees come first.
	order := e.bottomUp()
	for stage := 1; stage <= 2; stage++ {
		e.stage = stage
		dirty := make([]bool, len(order))
		idx := map[*ssa.Function]int{}
		for i, fn := range order {
			dirty[i] = true
			idx[fn] = i
		}
		for again := true; again; {
			again = false
			for i := range order {
				if !dirty[i] {
					continue
				}
				dirty[i] = false
				e.Rounds++
				if e.Rounds > 80*len(order) {
					panic("effects analysis does not converge")
				}
				t0 := time.Now()
				ch := e.analyse(order[i])
				if d := time.Since(t0); d > 300*time.Millisecond && os.Getenv("TIMES") != "" {
					fmt.Fprintln(os.Stderr, "slow", order[i], d, stage)
				}
				if ch {
					for c := range e.callers[order[i]] {
						if j, ok := idx[c]; ok {
							dirty[j] = true
							again = again || j <= i
						}
					}
				}
			}
		}
	}
	if os.Getenv("TIMES") != "" {
		fmt.Fprintln(os.Stderr, "effects: functions", len(order), "analyses", e.Rounds)
	}
	return e
}

// bottomUp orders the functions so that, apart from recursion, callees precede their callers.
func (e *Effects) bottomUp() []*ssa.Function {
	callees := map[*ssa.Function][]*ssa.Function{}
	for fn, n := range e.p.CallGraph().Nodes {
		if fn == nil {
			continue
		}
		for _, ed := range n.Out {
			callees[fn] = append(callees[fn], ed.Callee.Func)
		}
	}
	name := map[*ssa.Function]int{}
	for i, fn := range e.fns {
		name[fn] = i
	}
	for _, l := range callees {
		sort.Slice(l, func(i, j int) bool { return name[l[i]] < name[l[j]] })
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, c := range callees[fn] {
			rec(c)
		}
		if _, ok := name[fn]; ok {
			out = append(out, fn)
		}
	}
	for _, fn := range e.fns {
		rec(fn)
	}
	return out
}

// fstate analyses one function.
type fstate struct {
	e                *Effects
	fn               *ssa.Function
	vals             map[ssa.Value]*eset
	heap             map[*eobj]map[string]*eset // flow-insensitive
	in               map[*ssa.BasicBlock]map[string]*eset
	sum              *esum
	changed          bool
	cur              map[string]*eset // flow-sensitive contents of local allocations at this point
	record, fallback bool
}

func (e *Effects) analyse(fn *ssa.Function) bool {
	s := &fstate{e: e, fn: fn, vals: map[ssa.Value]*eset{}, heap: map[*eobj]map[string]*eset{}, in: map[*ssa.BasicBlock]map[string]*eset{}, sum: e.sums[fn]}
	before := s.size()
	if e.stage == 2 {
		// values are final: only record modifications
		s = e.states[fn]
		s.record, s.fallback = true, true
		for _, b := range fn.DomPreorder() {
			s.block(b)
		}
		return s.size() != before
	}
	e.states[fn] = s
	for i, pr := range fn.Params {
		if hasPtr(pr.Type()) {
			s.vals[pr] = set1(e.param(i, 0))
		}
	}
	for i, fv := range fn.FreeVars {
		s.vals[fv] = set1(e.free(i, 0))
	}
	// first without guessing the targets of function values that are not yet known
	for phase := 0; phase < 2; phase++ {
		s.fallback = phase == 1
		for iter := 0; ; iter++ {
			s.changed = false
			for _, b := range fn.DomPreorder() {
				s.block(b)
			}
			if !s.changed {
				break
			}
			if iter > 100 {
				panic("effects analysis of " + fn.String() + " does not converge")
			}
		}
	}
	// export the heap reachable from results and roots
	keep := &eset{}
	var work []*eobj
	push := func(v *eset) {
		for o := range v.all() {
			if !keep.has(o) {
				keep.put(o)
				work = append(work, o)
			}
		}
	}
	for o := range s.heap {
		if o.root() {
			push(set1(o))
		}
	}
	for _, r := range s.sum.rets {
		push(r)
	}
	for _, c := range s.sum.calls {
		for _, a := range c.args {
			push(a)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range s.heap[o] {
			push(v)
		}
		for _, b := range o.bind {
			push(b)
		}
	}
	// a large graph of new memory is exported as one object
	nfresh := 0
	for o := range keep.all() {
		if !o.root() && o.kind != "func" {
			nfresh++
		}
	}
	if nfresh > 40 {
		s.sum.merged = true
	}
	mo := e.mkobj("merged|"+fn.String()+fmt.Sprintf("%p", fn), func(o *eobj) { o.kind = "call" })
	merge := func(v *eset) *eset {
		if !s.sum.merged {
			return v
		}
		r := &eset{}
		for o := range v.all() {
			if o.root() || o.kind == "func" {
				r.put(o)
			} else {
				r.put(mo)
			}
		}
		return r
	}
	if s.sum.merged {
		for i := range s.sum.rets {
			s.sum.rets[i] = merge(s.sum.rets[i])
		}
		for _, c := range s.sum.calls {
			for i := range c.args {
				c.args[i] = merge(c.args[i])
			}
		}
	}
	for o, fs := range s.heap {
		if !keep.has(o) {
			continue
		}
		if s.sum.merged && !o.root() && o.kind != "func" {
			o = mo
		}
		for f, v := range fs {
			v = merge(v)
			if o == mo {
				f = "*"
			}
			m := s.sum.heap[o]
			if m == nil {
				m = map[string]*eset{}
				s.sum.heap[o] = m
			}
			if m[f] == nil {
				m[f] = &eset{}
			}
			m[f].addAll(v)
		}
	}
	return s.size() != before
}

func (s *fstate) size() int {
	n := len(s.sum.muts) + len(s.sum.calls)
	for _, r := range s.sum.rets {
		n += r.len()
	}
	for _, c := range s.sum.calls {
		for _, a := range c.args {
			n += a.len()
		}
	}
	for _, m := range s.sum.heap {
		for _, v := range m {
			n += 1 + v.len()
		}
	}
	return n
}

func (s *fstate) set(v ssa.Value, t *eset) {
	if t.len() == 0 {
		return
	}
	if s.vals[v] == nil {
		s.vals[v] = &eset{}
	}
	if s.vals[v].addAll(t) {
		s.changed = true
	}
}

func (s *fstate) val(v ssa.Value) *eset {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return set1(s.e.global(v, 0))
	case *ssa.Function:
		return set1(s.e.mkobj("func|"+v.String()+fmt.Sprintf("%p", v), func(o *eobj) { o.kind, o.fn = "func", v }))
	}
	return s.vals[v]
}

// addr resolves an address to its base value and the outermost field it denotes.
func addr(v ssa.Value) (base ssa.Value, field string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b, f := addr(x.X)
		if f != "" && f != "*" {
			return b, f
		}
		if _, isAddr := isAddrVal(x.X); isAddr {
			return b, f
		}
		return x.X, fieldKey(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
			return x.X, "[]"
		}
		if _, isAddr := isAddrVal(x.X); isAddr {
			b, f := addr(x.X)
			return b, f
		}
		return x.X, "[]"
	}
	return v, "*"
}

func isAddrVal(v ssa.Value) (ssa.Value, bool) {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return v, true
	}
	return nil, false
}

func curKey(o *eobj, f string) string { return fmt.Sprintf("%d|%s", o.id, f) }

func (s *fstate) heapAdd(o *eobj, f string, v *eset) {
	if v.len() == 0 {
		return
	}
	m := s.heap[o]
	if m == nil {
		m = map[string]*eset{}
		s.heap[o] = m
	}
	if m[f] == nil {
		m[f] = &eset{}
	}
	if m[f].addAll(v) {
		s.changed = true
	}
}

// contents of an object's field in the flow-insensitive heap ("" = all fields).
func (s *fstate) contents(o *eobj, f string) *eset {
	r := &eset{}
	if o.root() {
		r.put(s.e.deeper(o))
	}
	if o.kind == "func" {
		for _, b := range o.bind {
			r.addAll(b)
		}
	}
	for k, v := range s.heap[o] {
		if f == "" || f == "*" || k == f || k == "*" {
			r.addAll(v)
		}
	}
	return r
}

// load reads a field of the objects base may point to. direct: base is the allocation itself.
func (s *fstate) load(base ssa.Value, f string) *eset {
	r := &eset{}
	a, direct := base.(*ssa.Alloc)
	for o := range s.val(base).all() {
		if direct && o.site == ssa.Instruction(a) {
			if f == "*" {
				pre := curKey(o, "")
				for k, v := range s.cur {
					if strings.HasPrefix(k, pre) {
						r.addAll(v)
					}
				}
			} else {
				r.addAll(s.cur[curKey(o, f)])
				r.addAll(s.cur[curKey(o, "*")])
			}
			continue
		}
		r.addAll(s.contents(o, f))
	}
	return r
}

// filterType drops fresh objects whose type cannot have the asserted type.
func (s *fstate) filterType(v *eset, t types.Type) *eset {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return v
	}
	want := typeKey(t)
	mt := memType(t)
	filterRoot := false
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		filterRoot = true
	}
	r := &eset{}
	for o := range v.all() {
		if o.root() && filterRoot && !s.e.mayHold(s.fn, o, mt) {
			continue
		}
		if (o.kind == "alloc" || o.kind == "call") && o.typ != "" && strings.HasPrefix(want, "*") && strings.HasPrefix(o.typ, "*") && o.typ != want {
			continue
		}
		r.put(o)
	}
	return r
}

func (s *fstate) mutate(o *eobj, typ types.Type, field string, site ssa.Instruction, via string, cond *eobj, ci int) {
	if !s.record || !o.root() || !s.e.mayHold(s.fn, o, typ) {
		return
	}
	cid := 0
	if cond != nil {
		cid = cond.id
	}
	k := fmt.Sprintf("%d|%s|%p|%d.%d", o.id, field, site, cid, ci)
	if s.sum.muts[k] == nil {
		s.sum.muts[k] = &emut{o, typ, cond, ci, field, site, via}
		s.changed = true
	}
}

// memType is the type of the memory a pointer, slice or map value denotes.
func memType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u
	}
	return t
}

// mayHold: memory of type mt can be reached from the root object.
func (e *Effects) mayHold(fn *ssa.Function, o *eobj, mt types.Type) bool {
	if mt == nil {
		return true
	}
	var rt types.Type
	switch o.kind {
	case "param":
		rt = fn.Params[o.idx].Type()
	case "free":
		rt = fn.FreeVars[o.idx].Type()
	default:
		rt = o.g.Type()
	}
	r := e.reachTypes(rt)
	return r["any"] || r[typeKey(mt)]
}

// reachTypes: the types of memory reachable from a value of the type.
func (e *Effects) reachTypes(t types.Type) map[string]bool {
	k := typeKey(t)
	if r, ok := e.reachT[k]; ok {
		return r
	}
	r := map[string]bool{}
	e.reachT[k] = r
	var visit func(t types.Type)
	seen := map[string]bool{}
	visit = func(t types.Type) {
		k := typeKey(t)
		if seen[k] {
			return
		}
		seen[k] = true
		r[k] = true
		r[typeKey(t.Underlying())] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Chan:
			visit(u.Elem())
		case *types.Map:
			visit(u.Key())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		case *types.Interface:
			if u.NumMethods() == 0 {
				r["any"] = true
				return
			}
			for _, ct := range e.concrete() {
				if types.Implements(ct, u) {
					visit(ct)
				}
			}
		}
	}
	visit(t)
	return r
}

// concrete: the named types of the repository and pointers to them.
func (e *Effects) concrete() []types.Type {
	if e.conc == nil {
		for _, sp := range e.p.SPkgs {
			for _, m := range sp.Members {
				if t, ok := m.(*ssa.Type); ok {
					if _, isI := t.Type().Underlying().(*types.Interface); isI {
						continue
					}
					if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
						continue
					}
					e.conc = append(e.conc, t.Type(), types.NewPointer(t.Type()))
				}
			}
		}
	}
	return e.conc
}

// guardedResult: v is (part of) the result of a call of a function value handed to this
// function, and block b is only reached if v is not nil.
func (s *fstate) guardedResult(v ssa.Value, b *ssa.BasicBlock) (*eobj, int) {
	idx := 0
	var c *ssa.Call
	switch x := v.(type) {
	case *ssa.Extract:
		c, _ = x.Tuple.(*ssa.Call)
		idx = x.Index
	case *ssa.Call:
		c = x
	}
	if c == nil || c.Call.IsInvoke() {
		return nil, 0
	}
	var cond *eobj
	for o := range s.val(c.Call.Value).all() {
		if !(o.kind == "param" && o.d == 0 || o.kind == "free" && o.d <= 1) || cond != nil {
			return nil, 0
		}
		cond = o
	}
	if cond == nil {
		return nil, 0
	}
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(isNilConst(bo.Y) && bo.X == v || isNilConst(bo.X) && bo.Y == v) {
			continue
		}
		if bo.Op == token.NEQ && p.Succs[0] == d || bo.Op == token.EQL && p.Succs[1] == d {
			return cond, idx
		}
	}
	return nil, 0
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// nilRet: result i of fn is nil on every return.
func (e *Effects) nilRet(fn *ssa.Function, i int) bool {
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if i >= len(r.Results) || !isNilConst(r.Results[i]) {
				return false
			}
		}
	}
	return len(fn.Blocks) > 0
}

// writeBack: the stored value comes from a local variable that was initialised from the same
// place. The variable's address may have been handed to a callback; if the callback changes what
// it is handed, that is counted where it is handed the place itself.
func writeBack(addrV, val ssa.Value) bool {
	for {
		switch x := val.(type) {
		case *ssa.TypeAssert:
			val = x.X
			continue
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				val = ta.X
				continue
			}
		case *ssa.ChangeInterface:
			val = x.X
			continue
		case *ssa.MakeInterface:
			val = x.X
			continue
		}
		break
	}
	u, ok := val.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(a) {
			continue
		}
		n++
		v := st.Val
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			break
		}
		l, ok := v.(*ssa.UnOp)
		if !ok || l.Op != token.MUL || !sameAddr(l.X, addrV) {
			return false
		}
	}
	return n > 0
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && x.Index == y.Index && sameAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	}
	return false
}

func (s *fstate) store(addrV ssa.Value, val ssa.Value, site ssa.Instruction) {
	base, f := addr(addrV)
	v := s.val(val)
	if !hasPtr(val.Type()) {
		v = nil
	}
	a, direct := base.(*ssa.Alloc)
	_, isArr := addrV.(*ssa.IndexAddr)
	nested := false
	if fa, ok := addrV.(*ssa.FieldAddr); ok {
		_, nested = isAddrVal(fa.X)
	}
	cond, ci := s.guardedResult(val, site.Block())
	wb := writeBack(addrV, val)
	for o := range s.val(base).all() {
		if direct && o.site == ssa.Instruction(a) && !isArr {
			switch {
			case f == "*":
				pre := curKey(o, "")
				for k := range s.cur {
					if strings.HasPrefix(k, pre) {
						delete(s.cur, k)
					}
				}
				if u, ok := val.(*ssa.UnOp); ok {
					// whole-struct copy: field by field
					for k, c := range s.copyFields(u.X) {
						s.cur[curKey(o, k)] = c
						s.heapAdd(o, k, c)
					}
				} else {
					s.cur[curKey(o, "*")] = v
					s.heapAdd(o, "*", v)
				}
			case nested:
				s.cur[curKey(o, f)] = union(s.cur[curKey(o, f)], v)
				s.heapAdd(o, f, v)
			default:
				// strong update; an earlier whole-object store is split lazily: keep "*" only
				// for the other fields
				if st := s.cur[curKey(o, "*")]; st.len() > 0 {
					s.splitStar(o, a, st)
				}
				s.cur[curKey(o, f)] = v
				s.heapAdd(o, f, v)
			}
			continue
		}
		if direct && o.site == ssa.Instruction(a) {
			k := curKey(o, f)
			s.cur[k] = union(s.cur[k], v)
		}
		if !wb {
			s.mutate(o, memType(base.Type()), f, site, "", cond, ci)
		}
		s.weak(o, f, v)
	}
}

// weak adds values to a field of an object that is not denoted uniquely.
func (s *fstate) weak(o *eobj, f string, v *eset) {
	if v.len() == 0 {
		return
	}
	s.heapAdd(o, f, v)
	if _, ok := o.site.(*ssa.Alloc); ok && o.kind == "alloc" {
		k := curKey(o, f)
		s.cur[k] = union(s.cur[k], v)
	}
}

// splitStar replaces the "*" entry by one entry per field.
func (s *fstate) splitStar(o *eobj, a *ssa.Alloc, st *eset) {
	pt := a.Type().Underlying().(*types.Pointer).Elem()
	stt, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	delete(s.cur, curKey(o, "*"))
	for i := 0; i < stt.NumFields(); i++ {
		if !hasPtr(stt.Field(i).Type()) {
			continue
		}
		k := curKey(o, fieldKey(pt, i))
		s.cur[k] = union(s.cur[k], st)
	}
}

// copyFields gives the per-field contents of the struct at an address.
func (s *fstate) copyFields(src ssa.Value) map[string]*eset {
	r := map[string]*eset{}
	base, f := addr(src)
	if f != "*" {
		r["*"] = s.load(base, f)
		return r
	}
	pt, ok := base.Type().Underlying().(*types.Pointer)
	if !ok {
		r["*"] = s.load(base, "*")
		return r
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		r["*"] = s.load(base, "*")
		return r
	}
	for i := 0; i < st.NumFields(); i++ {
		if !hasPtr(st.Field(i).Type()) {
			continue
		}
		k := fieldKey(pt.Elem(), i)
		if v := s.load(base, k); v.len() > 0 {
			r[k] = v
		}
	}
	return r
}

func (s *fstate) block(b *ssa.BasicBlock) {
	// join
	s.cur = map[string]*eset{}
	for _, p := range b.Preds {
		for k, v := range s.in[p] {
			s.cur[k] = union(s.cur[k], v)
		}
	}
	for _, in := range b.Instrs {
		s.instr(in)
	}
	old := s.in[b]
	if len(old) != len(s.cur) {
		s.changed = true
	} else {
		for k, v := range s.cur {
			if old[k].len() != v.len() {
				s.changed = true
				break
			}
		}
	}
	s.in[b] = s.cur
}

func (s *fstate) instr(in ssa.Instruction) {
	e := s.e
	switch in := in.(type) {
	case *ssa.Alloc:
		o := e.siteObj("alloc", in, typeKey(in.Type()))
		s.set(in, set1(o))
		pre := curKey(o, "")
		for k := range s.cur {
			if strings.HasPrefix(k, pre) {
				delete(s.cur, k)
			}
		}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		s.set(v, set1(e.siteObj("alloc", in, typeKey(v.Type()))))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := e.mkobj(fmt.Sprintf("clo|%p", in), func(o *eobj) {
			o.kind, o.fn = "func", fn
			o.bind = make([]*eset, len(in.Bindings))
			for i := range o.bind {
				o.bind[i] = &eset{}
			}
		})
		for i, b := range in.Bindings {
			if o.bind[i].addAll(s.val(b)) {
				s.changed = true
			}
		}
		s.set(in, set1(o))
		// the closure may run at any later time: its effects on captured variables happen
		if sum := e.sums[fn]; sum != nil {
			e.edge(fn, s.fn)
			s.apply(in, fn, sum, nil, o.bind, nil)
		}
	case *ssa.FieldAddr:
		s.set(in, s.val(in.X))
	case *ssa.IndexAddr:
		s.set(in, s.val(in.X))
	case *ssa.UnOp:
		switch in.Op.String() {
		case "*":
			if !hasPtr(in.Type()) {
				return
			}
			base, f := addr(in.X)
			s.set(in, s.filterType(s.load(base, f), in.Type()))
		case "<-":
			r := &eset{}
			for o := range s.val(in.X).all() {
				r.addAll(s.contents(o, "[]"))
			}
			s.set(in, r)
		}
	case *ssa.Store:
		s.store(in.Addr, in.Val, in)
	case *ssa.Phi:
		for _, x := range in.Edges {
			s.set(in, s.val(x))
		}
	case *ssa.ChangeType:
		s.set(in, s.val(in.X))
	case *ssa.ChangeInterface:
		s.set(in, s.val(in.X))
	case *ssa.MakeInterface:
		s.set(in, s.val(in.X))
	case *ssa.Convert:
		if !hasPtr(in.Type()) {
			return
		}
		if !hasPtr(in.X.Type()) { // string -> []byte
			s.set(in, set1(e.siteObj("alloc", in, typeKey(in.Type()))))
			return
		}
		s.set(in, s.val(in.X))
	case *ssa.SliceToArrayPointer:
		s.set(in, s.val(in.X))
	case *ssa.MultiConvert:
		s.set(in, s.val(in.X))
	case *ssa.Slice:
		if hasPtr(in.Type()) {
			s.set(in, s.val(in.X))
		}
	case *ssa.TypeAssert:
		if hasPtr(in.AssertedType) {
			s.set(in, s.filterType(s.val(in.X), in.AssertedType))
		}
	case *ssa.Extract:
		if hasPtr(in.Type()) {
			if c, ok := in.Tuple.(*ssa.Call); ok {
				s.set(in, s.vals[resKey{c, in.Index}.v(s)])
				return
			}
			s.set(in, s.filterType(s.val(in.Tuple), in.Type()))
		}
	case *ssa.Field:
		if hasPtr(in.Type()) {
			s.set(in, s.filterType(s.val(in.X), in.Type()))
		}
	case *ssa.Index:
		if hasPtr(in.Type()) {
			s.set(in, s.val(in.X))
		}
	case *ssa.Lookup:
		r := &eset{}
		for o := range s.val(in.X).all() {
			r.addAll(s.contents(o, "[]"))
		}
		s.set(in, r)
	case *ssa.Range:
		s.set(in, s.val(in.X))
	case *ssa.Next:
		r := &eset{}
		for o := range s.val(in.Iter).all() {
			r.addAll(s.contents(o, "[]"))
		}
		s.set(in, r)
	case *ssa.Select:
		for _, st := range in.States {
			if st.Send != nil {
				for o := range s.val(st.Chan).all() {
					s.weak(o, "[]", s.val(st.Send))
				}
			} else {
				for o := range s.val(st.Chan).all() {
					s.set(in, s.contents(o, "[]"))
				}
			}
		}
	case *ssa.Send:
		for o := range s.val(in.Chan).all() {
			s.weak(o, "[]", s.val(in.X))
		}
	case *ssa.MapUpdate:
		v := union(s.val(in.Value), s.val(in.Key))
		for o := range s.val(in.Map).all() {
			s.mutate(o, in.Map.Type(), "[]", in, "", nil, 0)
			s.weak(o, "[]", v)
		}
	case *ssa.Return:
		for len(s.sum.rets) < len(in.Results) {
			s.sum.rets = append(s.sum.rets, &eset{})
		}
		for i, r := range in.Results {
			if hasPtr(r.Type()) {
				s.sum.rets[i].addAll(s.val(r))
			}
		}
	case *ssa.Call:
		s.call(in, &in.Call, in)
	case *ssa.Go:
		s.call(in, &in.Call, nil)
	case *ssa.Defer:
		s.call(in, &in.Call, nil)
	}
}

// resKey names result i of a call.
type resKey struct {
	c *ssa.Call
	i int
}

type resVal struct {
	ssa.Value
	k resKey
}

var resVals = map[resKey]*resVal{}

func (k resKey) v(s *fstate) ssa.Value {
	if resVals[k] == nil {
		resVals[k] = &resVal{k.c, k}
	}
	return resVals[k]
}

func (s *fstate) setResult(c *ssa.Call, i, n int, v *eset) {
	if c == nil || v.len() == 0 {
		return
	}
	if n == 1 {
		s.set(c, s.filterType(v, c.Type()))
		return
	}
	s.set(resKey{c, i}.v(s), s.filterType(v, c.Type().(*types.Tuple).At(i).Type()))
}

func (e *Effects) edge(callee, caller *ssa.Function) {
	if e.callers[callee] == nil {
		e.callers[callee] = map[*ssa.Function]bool{}
	}
	e.callers[callee][caller] = true
}

// slicedShort: v is a re-slice that ends before the end of its operand, so that appending to it
// overwrites elements.
func slicedShort(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Max != nil {
			return false
		}
		if _, isArr := v.X.Type().Underlying().(*types.Pointer); isArr {
			return false
		}
		if v.High != nil {
			return true
		}
		return slicedShort(v.X, seen)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if slicedShort(x, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return slicedShort(v.X, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return slicedShort(v.Call.Args[0], seen)
		}
	}
	return false
}

var extMutArg0 = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Strings": true, "sort.Ints": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.Insert": true,
	"slices.DeleteFunc": true, "slices.Compact": true, "slices.Replace": true, "container/heap.Push": true, "container/heap.Pop": true, "container/heap.Init": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "sort.Sort$1": true}

// external methods with a pointer receiver that leave the receiver's visible state alone or are safe for concurrent use
var extPure = []string{"regexp.", "sync.", "sync/atomic.", "os.File", "flag.FlagSet", "log.Logger", "text/template.", "reflect."}

func (s *fstate) call(in ssa.CallInstruction, c *ssa.CallCommon, res *ssa.Call) {
	e := s.e
	nres := c.Signature().Results().Len()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			a0 := s.val(c.Args[0])
			n := e.siteObj("alloc", in, typeKey(res.Type()))
			cont := &eset{}
			for o := range a0.all() {
				cont.addAll(s.contents(o, "[]"))
			}
			if len(c.Args) > 1 {
				more := &eset{}
				for o := range s.val(c.Args[1]).all() {
					more.addAll(s.contents(o, "[]"))
				}
				cont.addAll(more)
				for o := range a0.all() {
					s.weak(o, "[]", more)
				}
			}
			if el, ok := res.Type().Underlying().(*types.Slice); ok && !hasPtr(el.Elem()) {
				cont = nil
			}
			s.heapAdd(n, "[]", cont)
			r := set1(n)
			r.addAll(a0)
			s.set(res, r)
			if slicedShort(c.Args[0], map[ssa.Value]bool{}) {
				for o := range a0.all() {
					s.mutate(o, memType(res.Type()), "[]", in, "", nil, 0)
				}
			}
		case "copy":
			more := &eset{}
			for o := range s.val(c.Args[1]).all() {
				more.addAll(s.contents(o, "[]"))
			}
			for o := range s.val(c.Args[0]).all() {
				s.mutate(o, memType(c.Args[0].Type()), "[]", in, "", nil, 0)
				s.weak(o, "[]", more)
			}
		case "delete", "clear":
			for o := range s.val(c.Args[0]).all() {
				s.mutate(o, memType(c.Args[0].Type()), "[]", in, "", nil, 0)
			}
		}
		return
	}
	var args []*eset
	if c.IsInvoke() {
		args = append(args, s.val(c.Value))
	}
	for _, a := range c.Args {
		if hasPtr(a.Type()) {
			args = append(args, s.val(a))
		} else {
			args = append(args, nil)
		}
	}
	if !c.IsInvoke() {
		if fn := c.StaticCallee(); fn != nil {
			if _, isClo := c.Value.(*ssa.MakeClosure); !isClo {
				s.callFn(in, fn, args, nil, res, nres)
				return
			}
		}
		// a function value
		dispatch := false
		for o := range s.val(c.Value).all() {
			switch {
			case o.kind == "func":
				s.callFn(in, o.fn, args, o.bind, res, nres)
			case o.kind == "param" && o.d == 0, o.kind == "free" && o.d <= 1:
				s.callParam(in, o, args, res, nres)
			default:
				dispatch = true
			}
		}
		if s.val(c.Value).len() > 0 && !dispatch {
			return
		}
		if !s.fallback {
			return
		}
		for _, fn := range e.dynOut[in] {
			s.callFn(in, fn, args, nil, res, nres)
		}
		return
	}
	// interface call: only implementations the receiver can be
	for _, fn := range e.dynOut[in] {
		if !inRepo(fn) {
			s.external(in, fn, args, res, nres)
			continue
		}
		s.callFn(in, fn, args, nil, res, nres)
	}
}

func (s *fstate) callFn(in ssa.CallInstruction, fn *ssa.Function, args []*eset, bind []*eset, res *ssa.Call, nres int) {
	if !inRepo(fn) || len(fn.Blocks) == 0 {
		s.external(in, fn, args, res, nres)
		return
	}
	if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") {
		if s.e.sums[fn] == nil {
			s.external(in, fn, args, res, nres)
			return
		}
	}
	sum := s.e.sums[fn]
	if sum == nil {
		s.external(in, fn, args, res, nres)
		return
	}
	s.e.edge(fn, s.fn)
	if res != nil {
		s.apply(in, fn, sum, args, bind, func(i int, v *eset) { s.setResult(res, i, nres, v) })
	} else {
		s.apply(in, fn, sum, args, bind, nil)
	}
}

// callParam: a function parameter is called; the caller of this function knows which one.
func (s *fstate) callParam(in ssa.Instruction, callee *eobj, args []*eset, res *ssa.Call, nres int) {
	k := fmt.Sprintf("%d|%p", callee.id, in)
	cp := s.sum.calls[k]
	if cp == nil {
		cp = &callParam{callee: callee, site: in, args: make([]*eset, len(args))}
		for i := range cp.args {
			cp.args[i] = &eset{}
		}
		s.sum.calls[k] = cp
		s.changed = true
	}
	all := &eset{}
	for i, a := range args {
		if i < len(cp.args) && cp.args[i].addAll(a) {
			s.changed = true
		}
		all.addAll(a)
	}
	if res != nil {
		// the result may be anything reachable from the arguments, or new
		r := s.reach(all)
		r.addAll(all)
		for i := 0; i < nres; i++ {
			o := s.e.siteObj("call", in, "cb")
			s.heapAdd(o, "*", r)
			rr := set1(o)
			rr.addAll(r)
			s.setResult(res, i, nres, rr)
		}
	}
}

// contentsOf is the memory directly pointed to by the objects.
func (s *fstate) contentsOf(v *eset) *eset {
	r := &eset{}
	for o := range v.all() {
		// inside the function a local allocation is seen as it is now
		if a, ok := o.site.(*ssa.Alloc); ok && o.kind == "alloc" && a.Parent() == s.fn {
			pre := curKey(o, "")
			for k, c := range s.cur {
				if strings.HasPrefix(k, pre) {
					r.addAll(c)
				}
			}
			if escapesAlloc(a) {
				r.addAll(s.contents(o, ""))
			}
			continue
		}
		r.addAll(s.contents(o, ""))
	}
	return r
}

// escapesAlloc: the address itself is stored, captured or merged, so that other names for older
// instances may exist.
func escapesAlloc(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Phi, *ssa.MakeClosure:
			return true
		case *ssa.Store:
			if r.Val == ssa.Value(a) {
				// stored somewhere: only matters if it can be changed through there
				continue
			}
		}
	}
	return false
}

// reach is everything reachable from the contents of the objects.
func (s *fstate) reach(v *eset) *eset {
	r := &eset{}
	work := s.contentsOf(v)
	for work.len() > 0 {
		next := &eset{}
		for o := range work.all() {
			if !r.has(o) {
				r.put(o)
				next.put(o)
			}
		}
		work = s.contentsOf(next)
		for o := range work.all() {
			if r.has(o) {
				work.del(o)
			}
		}
	}
	return r
}

type translator struct {
	s     *fstate
	args  []*eset
	bind  []*eset
	depth map[string]*eset
	in    ssa.Instruction
	fn    *ssa.Function
}

func (t *translator) obj(o *eobj) *eset {
	switch o.kind {
	case "param", "free":
		var base *eset
		if o.kind == "param" {
			if o.idx < len(t.args) {
				base = t.args[o.idx]
			}
		} else if o.idx < len(t.bind) {
			base = t.bind[o.idx]
		}
		k := fmt.Sprintf("%s%d.%d", o.kind, o.idx, o.d)
		if r, ok := t.depth[k]; ok {
			return r
		}
		r := &eset{}
		cur := base
		for i := 0; i < o.d && i < maxDepth-1; i++ {
			cur = t.s.contentsOf(cur)
		}
		if o.d < maxDepth {
			r.addAll(cur)
		} else {
			cur = t.s.contentsOf(cur)
			r.addAll(cur)
			r.addAll(t.s.reach(cur))
		}
		t.depth[k] = r
		return r
	case "global":
		return set1(o)
	case "func":
		if len(o.bind) == 0 {
			return set1(o)
		}
		n := t.s.e.mkobj(fmt.Sprintf("fclo|%p|%d", t.in, o.id), func(x *eobj) {
			x.kind, x.fn = "func", o.fn
			x.bind = make([]*eset, len(o.bind))
			for i := range x.bind {
				x.bind[i] = &eset{}
			}
		})
		if n.id == o.id {
			return set1(o)
		}
		for i, b := range o.bind {
			for x := range b.all() {
				if x.kind == "func" {
					n.bind[i].put(x) // not re-bound: recursion
					continue
				}
				if n.bind[i].addAll(t.obj(x)) {
					t.s.changed = true
				}
			}
		}
		return set1(n)
	}
	// fresh memory of the callee
	if o.typ == "" {
		return set1(t.s.e.siteObj("callm", t.in, ""))
	}
	return set1(t.s.e.siteObj("call", t.in, o.typ))
}

func (t *translator) set(v *eset) *eset {
	r := &eset{}
	for o := range v.all() {
		r.addAll(t.obj(o))
	}
	return r
}

// apply instantiates a summary at a call site.
func (s *fstate) apply(in ssa.Instruction, fn *ssa.Function, sum *esum, args, bind []*eset, result func(int, *eset)) {
	e := s.e
	t := &translator{s: s, args: args, bind: bind, depth: map[string]*eset{}, in: in, fn: fn}
	var keys []string
	if s.record {
		for k := range sum.muts {
			keys = append(keys, k)
		}
	}
	for _, k := range keys {
		m := sum.muts[k]
		via := m.via
		if via == "" {
			via = funcName(fn)
		} else if strings.Count(via, " <- ") < 6 {
			via = via + " <- " + funcName(fn)
		}
		var conds []*eobj // nil: unconditional
		if m.cond == nil {
			conds = []*eobj{nil}
		} else {
			for o := range t.obj(m.cond).all() {
				switch {
				case o.kind == "func" && e.nilRet(o.fn, m.ci):
				case o.kind == "param" && o.d == 0, o.kind == "free" && o.d <= 1:
					conds = append(conds, o)
				default:
					conds = append(conds, nil)
				}
			}
		}
		for _, cd := range conds {
			for o := range t.obj(m.obj).all() {
				s.mutate(o, m.typ, m.field, m.site, via, cd, m.ci)
			}
		}
	}
	for o, fs := range sum.heap {
		if o.kind == "func" {
			continue
		}
		dst := t.obj(o)
		for f, v := range fs {
			tv := t.set(v)
			for d := range dst.all() {
				ff := f
				if o.root() {
					ff = f
				}
				s.weak(d, ff, tv)
			}
		}
	}
	if result != nil {
		for i, r := range sum.rets {
			result(i, t.set(r))
		}
	}
	for _, cp := range sum.calls {
		var cargs []*eset
		for _, a := range cp.args {
			cargs = append(cargs, t.set(a))
		}
		callees := t.obj(cp.callee)
		for o := range callees.all() {
			switch {
			case o.kind == "func":
				if cs := s.e.sums[o.fn]; cs != nil && inRepo(o.fn) {
					s.e.edge(o.fn, s.fn)
					s.apply2(in, o.fn, cs, cargs, o.bind)
				}
			case o.kind == "param" && o.d == 0, o.kind == "free" && o.d <= 1:
				s.callParam(in, o, cargs, nil, 0)
			case o.root():
				// a function loaded from memory: every function that may be called there
				if ci, ok := cp.site.(ssa.CallInstruction); ok {
					for _, f2 := range s.e.dynOut[ci] {
						if cs := s.e.sums[f2]; cs != nil {
							s.e.edge(f2, s.fn)
							s.apply2(in, f2, cs, cargs, nil)
						}
					}
				}
			}
		}
	}
}

var applyDepth int

func (s *fstate) apply2(in ssa.Instruction, fn *ssa.Function, sum *esum, args, bind []*eset) {
	if applyDepth > 6 {
		return
	}
	applyDepth++
	s.apply(in, fn, sum, args, bind, nil)
	applyDepth--
}

// extArgType: the type of the memory the first argument of an external call denotes.
func extArgType(in ssa.CallInstruction) types.Type {
	args := in.Common().Args
	if len(args) == 0 {
		return nil
	}
	v := args[0]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	if _, isI := v.Type().Underlying().(*types.Interface); isI {
		return nil
	}
	return memType(v.Type())
}

// external models a call to a function outside the repository.
func (s *fstate) external(in ssa.CallInstruction, fn *ssa.Function, args []*eset, res *ssa.Call, nres int) {
	e := s.e
	name := fn.String()
	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}
	all := &eset{}
	for _, a := range args {
		all.addAll(a)
	}
	// callbacks
	for _, a := range args {
		for o := range a.all() {
			switch {
			case o.kind == "func" && inRepo(o.fn):
				if cs := e.sums[o.fn]; cs != nil {
					e.edge(o.fn, s.fn)
					cargs := make([]*eset, len(o.fn.Params))
					for i := range cargs {
						rest := &eset{}
						for _, a2 := range args {
							if !a2.has(o) {
								rest.addAll(a2)
								rest.addAll(s.contentsOf(a2))
							}
						}
						if hasPtr(o.fn.Params[i].Type()) {
							cargs[i] = rest
						}
					}
					s.apply2(in, o.fn, cs, cargs, o.bind)
				}
			}
		}
	}
	if extMutArg0[name] && len(args) > 0 {
		for o := range args[0].all() {
			s.mutate(o, extArgType(in), "[]", in, name, nil, 0)
		}
	}
	if sig := fn.Signature; sig.Recv() != nil && len(args) > 0 {
		if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); isP {
			tk := typeKey(sig.Recv().Type())
			pure := false
			for _, x := range extPure {
				if strings.HasPrefix(strings.TrimPrefix(tk, "*"), x) {
					pure = true
				}
			}
			if !pure {
				for o := range args[0].all() {
					s.mutate(o, memType(sig.Recv().Type()), "*", in, name, nil, 0)
				}
			}
			rest := &eset{}
			for _, a := range args[1:] {
				rest.addAll(a)
			}
			for o := range args[0].all() {
				s.weak(o, "*", rest)
			}
		}
	}
	if name == "encoding/json.Unmarshal" && len(args) > 1 {
		for o := range args[1].all() {
			s.mutate(o, nil, "*", in, name, nil, 0)
			for x := range s.contentsOf(args[1]).all() {
				s.mutate(x, nil, "*", in, name, nil, 0)
			}
		}
	}
	if res == nil {
		return
	}
	for i := 0; i < nres; i++ {
		rt := fn.Signature.Results().At(i).Type()
		if !hasPtr(rt) || typeKey(rt) == "error" {
			continue
		}
		o := e.siteObj("call", in, typeKey(rt))
		s.heapAdd(o, "*", e.holdable(rt, fn, args))
		r := set1(o)
		for j, a := range args {
			// functions like slices.Sorted, bytes.TrimSpace hand back (part of) an argument
			pi := j
			if fn.Signature.Recv() != nil {
				pi--
			}
			if pi >= 0 && pi < fn.Signature.Params().Len() && types.Identical(fn.Signature.Params().At(pi).Type(), rt) {
				r.addAll(a)
			}
			if pi < 0 && types.Identical(fn.Signature.Recv().Type(), rt) {
				r.addAll(a)
			}
		}
		s.setResult(res, i, nres, r)
	}
}

// holdable: the arguments the result of an external call can refer to, by type.
func (e *Effects) holdable(rt types.Type, fn *ssa.Function, args []*eset) *eset {
	r := e.reachTypes(rt)
	out := &eset{}
	for i, a := range args {
		var pt types.Type
		sig := fn.Signature
		j := i
		if sig.Recv() != nil {
			if i == 0 {
				pt = sig.Recv().Type()
			}
			j--
		}
		if pt == nil && j < sig.Params().Len() {
			pt = sig.Params().At(j).Type()
		}
		if pt == nil || r["any"] || r[typeKey(pt)] || r[typeKey(memType(pt))] && hasPtr(memType(pt)) {
			out.addAll(a)
		} else if _, isI := pt.Underlying().(*types.Interface); isI {
			for t := range r {
				if !basicName[t] {
					// the argument's dynamic type may be one the result holds
					out.addAll(a)
					break
				}
			}
		}
	}
	return out
}

var basicName = map[string]bool{"string": true, "bool": true, "int": true, "byte": true, "uint8": true, "rune": true, "int32": true, "int64": true,
	"[]string": true, "[]byte": true, "[]uint8": true, "[]int": true, "[][]int": true, "[]bool": true, "float64": true, "[]rune": true, "[]int32": true}

// describe names a root object for reports.
func (o *eobj) describe(fn *ssa.Function) string {
	lvl := []string{"", " (contents)", " (nested)", " (deep)"}[o.d]
	switch o.kind {
	case "param":
		if fn != nil && o.idx < len(fn.Params) {
			return "parameter " + fn.Params[o.idx].Name() + lvl
		}
		return fmt.Sprintf("parameter %d%s", o.idx, lvl)
	case "free":
		return fmt.Sprintf("captured variable %d%s", o.idx, lvl)
	case "global":
		return "package-level variable " + strings.ReplaceAll(o.g.String(), modPath+"/", "") + lvl
	}
	return o.kind
}

func typStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return strings.ReplaceAll(typeKey(t), modPath+"/", "")
}

// Muts lists the modifications of a function sorted for reporting.
func (e *Effects) Muts(fn *ssa.Function) []*emut {
	sum := e.sums[fn]
	if sum == nil {
		return nil
	}
	var out []*emut
	for _, m := range sum.muts {
		out = append(out, m)
	}
	key := func(m *emut) string {
		return fmt.Sprintf("%s|%s|%s|%s", m.obj.describe(fn), typStr(m.typ), m.field, e.p.instrPos(m.site))
	}
	sort.Slice(out, func(i, j int) bool { return key(out[i]) < key(out[j]) })
	return out
}
