package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) opaque(fr *Frame, s *S, v ssa.Value, kind string) *T {
	t := e.tb.mk("opaque", fr.ctx+"|"+fmt.Sprintf("%s.%s", v.Parent(), v.Name())+kind)
	if t.typ == nil {
		t.typ = v.Type()
	}
	e.redefine(s, t)
	return t
}

func (e *Engine) epochAt(fr *Frame, s *S, in ssa.Instruction) func() *T {
	return func() *T {
		idx := 0
		for i, x := range in.Block().Instrs {
			if x == in {
				idx = i
			}
		}
		t := e.tb.mk("opaque", fmt.Sprintf("%s|ep.%s.%d.%d", fr.ctx, in.Parent(), in.Block().Index, idx))
		e.redefine(s, t)
		return t
	}
}

func (e *Engine) val(fr *Frame, s *S, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.tb.Zero(v.Type())
		}
		c := v.Value
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			c = constant.ToInt(c)
		}
		return e.tb.Const(c)
	case *ssa.Function:
		t := e.tb.mk("func", v.String())
		t.fn = v
		return t
	case *ssa.Global:
		t := e.tb.mk("global", v.String())
		t.typ = v.Type()
		return t
	case *ssa.Builtin:
		return e.tb.mk("func", "builtin "+v.Name())
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v && i < len(fr.fv) {
				return fr.fv[i]
			}
		}
	}
	if t := s.env[v]; t != nil {
		return t
	}
	t := e.tb.mk("opaque", fr.ctx+"|"+fmt.Sprintf("%s.%s?", v.Parent(), v.Name()))
	t.typ = v.Type()
	return t
}

// ---------------------------------------------------------------- function-level precomputation

func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m := e.live[fn]; m != nil {
		return m
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, su := range b.Succs {
				for v := range in[su] {
					cur[v] = true
				}
				for _, ins := range su.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
				for k, p := range su.Preds {
					if p != b {
						continue
					}
					for _, ins := range su.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if track(ph.Edges[k]) {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			// phis of b are live-in at b's start (evaluated on entry)
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				cur[ph] = true
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	// named results live across recover are loads; nothing more to do
	e.live[fn] = in
	return in
}

func (e *Engine) loops(fn *ssa.Function) {
	if e.loopsOK[fn] {
		return
	}
	e.loopsOK[fn] = true
	for _, b := range fn.Blocks {
		for _, su := range b.Succs {
			if su.Dominates(b) {
				if e.loopHead[su] == nil {
					e.loopHead[su] = map[*ssa.BasicBlock]bool{}
				}
				e.loopHead[su][b] = true
			}
		}
	}
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, su := range b.Succs {
			if su.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- running a function

var traceFn = os.Getenv("TRACE_FN")

type cell struct {
	s     *S
	n     int
	dirty bool
	full  hash2
}

func (e *Engine) rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if m := e.rpos[fn]; m != nil {
		return m
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - 1 - i
	}
	e.rpos[fn] = m
	return m
}

type outCell struct {
	o Out
	n int
}

func (e *Engine) runFunc(fr *Frame, s *S, args []*T) []Out {
	fn := fr.fn
	e.FnsSeen[funcName(fn)] = true
	e.runs[fn]++
	e.loops(fn)
	live := e.liveIn(fn)
	order := e.rpo(fn)
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	cells := map[*ssa.BasicBlock]map[hash2]*cell{}
	dirty := map[int]*ssa.BasicBlock{}
	push := func(b, pred *ssa.BasicBlock, st *S) {
		if pred != nil {
			if e.R.OnEdge != nil {
				e.R.OnEdge(e, fr, st, pred, b, false)
			}
			e.phis(fr, st, b, pred)
			if e.R.OnEdge != nil {
				e.R.OnEdge(e, fr, st, pred, b, true)
			}
		}
		e.gc(st, live[b], fr.fv)
		m := cells[b]
		if m == nil {
			m = map[hash2]*cell{}
			cells[b] = m
		}
		level := 0
		if len(m) >= e.Cap {
			level = 1
		}
		if len(m) >= 3*e.Cap {
			level = 2
		}
		k := e.propKey(st, nil, level)
		if level > 0 {
			e.Widened++
			k.a ^= uint64(level)
		}
		c := m[k]
		if c == nil {
			m[k] = &cell{s: st, dirty: true, full: st.full()}
			if traceFn != "" && funcName(fn)+"."+fmt.Sprint(b.Index) == traceFn {
				fmt.Println(len(m), len(st.atoms), len(st.eqc), len(st.lo), len(st.hi), "mem", len(st.mem), "ep", len(st.epoch), "env", len(st.env), st.debug(e))
				if len(m) == 30 {
					for k, v := range st.mem {
						fmt.Println("   M", k, v)
					}
					for k, v := range st.epoch {
						fmt.Println("   E", k, v)
					}
					for k, v := range st.atoms {
						fmt.Println("   A", k, v)
					}
				}
			}
			dirty[order[b]] = b
			return
		}
		if f := st.full(); f == c.full {
			return
		}
		c.n++
		j := e.merge(c.s, st, fmt.Sprintf("%s|%s.%d", fr.ctx, fn, b.Index), c.n)
		if f := j.full(); f != c.full {
			if e.Trace && c.n > 200 {
				fmt.Println("unstable", funcName(fn), b.Index, c.n)
			}
			c.s, c.full, c.dirty = j, f, true
			dirty[order[b]] = b
		}
	}
	push(fn.Blocks[0], nil, s)
	outCells := map[hash2]*outCell{}
	var outOrder []hash2
	for len(dirty) > 0 {
		min := -1
		for i := range dirty {
			if min < 0 || i < min {
				min = i
			}
		}
		b := dirty[min]
		var c *cell
		for _, x := range cells[b] {
			if x.dirty {
				c = x
				break
			}
		}
		if c == nil {
			delete(dirty, min)
			continue
		}
		c.dirty = false
		e.Blocks++
		e.visits[fn]++
		states := []*S{c.s.fork()}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			var next []*S
			switch ins := ins.(type) {
			case *ssa.Jump:
				for _, st := range states {
					push(b.Succs[0], b, st)
				}
			case *ssa.If:
				for _, st := range states {
					cond := e.val(fr, st, ins.Cond)
					switch e.Eval(st.State, cond) {
					case yes:
						push(b.Succs[0], b, st)
					case no:
						push(b.Succs[1], b, st)
					default:
						f := st.fork()
						if e.Assume(f.State, cond, false) {
							push(b.Succs[1], b, f)
						}
						if e.Assume(st.State, cond, true) {
							push(b.Succs[0], b, st)
						}
					}
				}
			case *ssa.Return:
				for _, st := range states {
					var vals []*T
					for _, r := range ins.Results {
						vals = append(vals, e.structVal(fr, st, r))
					}
					if e.R.OnReturn != nil {
						e.R.OnReturn(e, fr, st, ins, vals)
					}
					ret := e.tb.mk("tuple", "", vals...)
					if len(vals) == 1 {
						ret = vals[0]
					}
					o := Out{&S{State: st.State, env: map[ssa.Value]*T{}}, ret}
					e.gc(o.S, nil, append([]*T{ret}, fr.fv...))
					k := e.propKey(o.S, ret, 0)
					if len(outOrder) >= e.Cap {
						k = e.propKey(o.S, nil, 1)
					}
					oc := outCells[k]
					if oc == nil {
						outCells[k] = &outCell{o: o}
						outOrder = append(outOrder, k)
						continue
					}
					oc.n++
					oc.o = e.mergeOuts(oc.o, o, fr, fn, oc.n)
				}
			case *ssa.Panic:
				for _, st := range states {
					if e.R.OnPanic != nil {
						e.R.OnPanic(e, fr, st, ins)
					}
				}
			default:
				for _, st := range states {
					e.steps++
					if e.steps > e.Budget {
						panic(budgetErr{})
					}
					next = append(next, e.step(fr, st, ins)...)
				}
				if len(next) > 1 {
					next = dedupe(next)
				}
				states = next
			}
			if len(states) == 0 {
				break
			}
		}
	}
	var outs []Out
	for _, k := range outOrder {
		outs = append(outs, outCells[k].o)
	}
	return outs
}

// mergeOuts joins two results of a call; the returned value is treated as one more slot.
func (e *Engine) mergeOuts(a, b Out, fr *Frame, fn *ssa.Function, n int) Out {
	if a.S.full() == b.S.full() && a.Ret == b.Ret {
		return a
	}
	where := fmt.Sprintf("%s|%s.ret", fr.ctx, fn)
	// carry the results through the merge as environment slots keyed by the function's results
	slots := e.retSlots(fn)
	x, y := a.S.fork(), b.S.fork()
	put := func(s *S, r *T) {
		if len(slots) == 1 {
			s.env[slots[0]] = r
			return
		}
		for i := range slots {
			if r.op == "tuple" && i < len(r.args) {
				s.env[slots[i]] = r.args[i]
			}
		}
	}
	put(x, a.Ret)
	put(y, b.Ret)
	m := e.merge(x, y, where, n)
	ret := a.Ret
	if len(slots) == 1 {
		ret = m.env[slots[0]]
	} else if len(slots) > 1 {
		var ts []*T
		for _, sl := range slots {
			ts = append(ts, m.env[sl])
		}
		ret = e.tb.mk("tuple", "", ts...)
	}
	m.env = map[ssa.Value]*T{}
	return Out{m, ret}
}

// retSlots are placeholder values standing for the results of fn.
func (e *Engine) retSlots(fn *ssa.Function) []ssa.Value {
	if v, ok := e.rets[fn]; ok {
		return v
	}
	var out []ssa.Value
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		out = append(out, &retSlot{name: fmt.Sprintf("ret%d", i), typ: res.At(i).Type(), fn: fn})
	}
	e.rets[fn] = out
	return out
}

type retSlot struct {
	ssa.Value
	name string
	typ  types.Type
	fn   *ssa.Function
}

func (r *retSlot) Name() string          { return r.name }
func (r *retSlot) Type() types.Type      { return r.typ }
func (r *retSlot) Parent() *ssa.Function { return r.fn }

func dedupe(in []*S) []*S {
	seen := map[hash2]bool{}
	var out []*S
	for _, s := range in {
		k := s.full()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// firstIter: the loop with header b runs while the counter ph stays below a bound that the counter's
// initial value init is known to be below, so the first iteration is told apart from the others.
func (e *Engine) firstIter(fr *Frame, s *S, b *ssa.BasicBlock, ph *ssa.Phi, init *T) bool {
	n, isC := isInt(init)
	if !isC || len(b.Instrs) == 0 || e.R.NoPeel != nil && e.R.NoPeel(fr.fn) {
		return false
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	x := cmp.X
	if add, ok := x.(*ssa.BinOp); ok && add.Block() == b && add.Op == token.ADD {
		if c, ok := add.Y.(*ssa.Const); ok && isIntType(c.Type()) {
			x = add.X
			n += c.Int64()
		}
	}
	if x != ssa.Value(ph) {
		return false
	}
	if y, ok := cmp.Y.(ssa.Instruction); ok && y.Block() == b {
		// len(x) evaluated in the loop
		c, ok := cmp.Y.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 || c.Call.IsInvoke() {
			return false
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			return false
		}
		v := e.envOrNil(s, c.Call.Args[0])
		if v == nil {
			return false
		}
		lo, ok := e.lower(s.State, e.tb.Len(v))
		return ok && lo > n
	}
	v := e.envOrNil(s, cmp.Y)
	if v == nil {
		return false
	}
	lo, ok := e.lower(s.State, v)
	return ok && lo > n
}

func (e *Engine) envOrNil(s *S, v ssa.Value) *T {
	if c, ok := v.(*ssa.Const); ok && isIntType(c.Type()) {
		return e.tb.Int(c.Int64())
	}
	return s.env[v]
}

func (e *Engine) phis(fr *Frame, s *S, b, pred *ssa.BasicBlock) {
	back := e.loopHead[b][pred]
	type pv struct {
		p *ssa.Phi
		t *T
	}
	var news []pv
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == pred {
				t := e.val(fr, s, ph.Edges[k])
				if isBoolType(ph.Type()) && t.op != "const" {
					if v := e.Eval(s.State, t); v != unknown {
						t = e.tb.Bool(v == yes)
					}
				}
				news = append(news, pv{ph, t})
				break
			}
		}
	}
	for i := range news {
		n := &news[i]
		if !back {
			// a counter gets its loop name at once
			if e.loopHead[b] != nil && isIntType(n.p.Type()) && e.arithPhi(n.p) && !e.firstIter(fr, s, b, n.p, n.t) {
				lo, lok := e.lower(s.State, n.t)
				t := e.opaque(fr, s, n.p, "φ")
				for j := range news {
					if j != i && news[j].t.hasLeaf(t.id) {
						news[j].t = e.subst(news[j].t, t, e.tb.mk("stale", fmt.Sprintf("%d", t.id)), map[*T]*T{})
					}
				}
				if lok {
					s.lo[t] = lo
				}
				n.t = t
			}
			continue
		}
		if e.keepOnBackEdge(fr, n.p, n.t) {
			continue
		}
		// loop-carried value: one name per header, transferring the simple facts
		nonnil := e.nonNil(s.State, n.t)
		lenpos := false
		if lo, ok := e.lower(s.State, e.tb.Len(n.t)); ok && lo > 0 {
			if _, isSl := n.p.Type().Underlying().(*types.Slice); isSl {
				lenpos = true
			}
		}
		lo, lok := int64(0), false
		if isIntType(n.p.Type()) {
			lo, lok = e.lower(s.State, n.t)
			if lok && lo < 0 {
				lok = false
			}
			if lok && lo > 1 {
				lo = 1
			}
		}
		t := e.opaque(fr, s, n.p, "φ")
		for j := range news {
			if j != i && news[j].t.hasLeaf(t.id) {
				// redefine renamed env only; rename pending values as well
				news[j].t = e.subst(news[j].t, t, e.tb.mk("stale", fmt.Sprintf("%d", t.id)), map[*T]*T{})
			}
		}
		if nonnil {
			s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
		}
		if lenpos {
			s.lo[e.tb.Len(t)] = 1
		}
		if lok {
			s.lo[t] = lo
		}
		n.t = t
	}
	for _, n := range news {
		s.env[n.p] = n.t
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) keepOnBackEdge(fr *Frame, p *ssa.Phi, t *T) bool {
	if t.op == "const" || t.op == "nil" {
		if isIntType(p.Type()) {
			return !e.arithPhi(p)
		}
		if isStringType(p.Type()) {
			return !e.arithPhi(p)
		}
		return true
	}
	return t.depth == 0 || t.op == "opaque" || t.op == "param" || t.op == "extract" || (t.depth <= 3 && t.op == "load")
}

// arithPhi: the loop-carried value is computed from itself (a counter), so constants must not be
// propagated around the back edge.
func (e *Engine) arithPhi(p *ssa.Phi) bool {
	if v, ok := e.arith[p]; ok {
		return v == 1
	}
	e.arith[p] = 0
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, viaOp bool) bool
	rec = func(v ssa.Value, viaOp bool) bool {
		if v == p && viaOp {
			return true
		}
		if seen[v] && !(v == p) {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if x == p && len(seen) > 1 {
				return viaOp
			}
			for _, ed := range x.Edges {
				if rec(ed, viaOp) {
					return true
				}
			}
		case *ssa.BinOp:
			return rec(x.X, true) || rec(x.Y, true)
		case *ssa.Convert:
			return rec(x.X, viaOp)
		}
		return false
	}
	r := false
	for _, ed := range p.Edges {
		if rec(ed, false) {
			r = true
		}
	}
	if r {
		e.arith[p] = 1
	}
	return r
}

// structVal is the value of v; struct variables are snapshotted field by field.
func (e *Engine) structVal(fr *Frame, s *S, v ssa.Value) *T { return e.val(fr, s, v) }

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

// ---------------------------------------------------------------- instructions

func (e *Engine) step(fr *Frame, s *S, ins ssa.Instruction) []*S {
	one := []*S{s}
	set := func(v ssa.Value, t *T) {
		if t.depth > 14 {
			t = e.opaque(fr, s, v, "deep")
		}
		s.env[v] = t
	}
	switch in := ins.(type) {
	case *ssa.DebugRef:
		return one

	case *ssa.Alloc:
		t := e.tb.mk("alloc", fr.ctx+"|"+fmt.Sprintf("%s.%s", in.Parent(), in.Name()))
		t.typ = in.Type().Underlying().(*types.Pointer).Elem()
		t.heap = in.Heap && escapes(in)
		e.redefine(s, t)
		for a := range s.mem {
			if root(a) == t {
				delete(s.mem, a)
			}
		}
		s.mem[t] = e.tb.Zero(t.typ)
		s.env[in] = t
		return one

	case *ssa.BinOp:
		x, y := e.val(fr, s, in.X), e.val(fr, s, in.Y)
		set(in, e.tb.Bin(in.Op, x, y, in.X.Type()))
		return one

	case *ssa.UnOp:
		x := e.val(fr, s, in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				if f := e.P.constFuncGlobal(g); f != nil {
					t := e.tb.mk("func", f.String())
					t.fn = f
					set(in, t)
					return one
				}
			}
			set(in, e.loadWhole(s.State, x, in.Type()))
			return one
		case token.NOT:
			set(in, e.tb.Not(x))
			return one
		case token.ARROW:
			r := e.opaque(fr, s, in, "recv")
			t := r
			if in.CommaOk {
				et := in.X.Type().Underlying().(*types.Chan).Elem()
				v := e.tb.mk("fieldval", "recv.0", r)
				v.typ = et
				t = e.tb.mk("tuple", "", v, e.tb.mk("recvok", "", r))
			}
			if e.R.OnRecv != nil {
				arg := t
				if in.CommaOk {
					arg = t.args[0]
				}
				if outs := e.R.OnRecv(e, fr, s, in, arg); outs != nil {
					var res []*S
					for _, o := range outs {
						o.S.env[in] = t
						res = append(res, o.S)
					}
					return res
				}
			}
			set(in, t)
			return one
		case token.SUB:
			if c, ok := isInt(x); ok {
				set(in, e.tb.Int(-c))
				return one
			}
		}
		set(in, e.tb.mk("un", in.Op.String(), x))
		return one

	case *ssa.ChangeType:
		set(in, e.val(fr, s, in.X))
		return one
	case *ssa.ChangeInterface:
		set(in, e.val(fr, s, in.X))
		return one
	case *ssa.Convert:
		x := e.val(fr, s, in.X)
		if isIntType(in.Type()) && isIntType(in.X.Type()) {
			set(in, x)
			return one
		}
		if isStringType(in.Type()) && isStringType(in.X.Type()) {
			set(in, x)
			return one
		}
		t := e.tb.mk("conv", typeKey(in.Type().Underlying()), x)
		t.typ = in.Type()
		set(in, t)
		return one
	case *ssa.MultiConvert:
		set(in, e.opaque(fr, s, in, ""))
		return one
	case *ssa.SliceToArrayPointer:
		set(in, e.opaque(fr, s, in, ""))
		return one

	case *ssa.MakeInterface:
		x := e.val(fr, s, in.X)
		switch in.X.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
			if x.op == "nil" {
				t := e.tb.mk("mkiface", typeKey(in.X.Type()), x)
				t.typ = in.X.Type()
				set(in, t)
				return one
			}
			// a non-nil pointer in an interface keeps its identity; its dynamic type is known
			is := e.tb.mk("is", typeKey(in.X.Type()), x)
			is.typ = in.X.Type()
			if x.op != "alloc" {
				s.atoms[is] = true
			}
			if e.nonNil(s.State, x) {
				set(in, x)
			} else if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				set(in, x)
			} else {
				set(in, x)
			}
			return one
		}
		t := e.tb.mk("mkiface", typeKey(in.X.Type()), x)
		t.typ = in.X.Type()
		set(in, t)
		return one

	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*T
		for _, b := range in.Bindings {
			bs = append(bs, e.val(fr, s, b))
		}
		t := e.tb.mk("closure", fn.String(), bs...)
		t.fn = fn
		set(in, t)
		return one

	case *ssa.MakeMap:
		t := e.tb.mk("opaque", fr.ctx+"|"+fmt.Sprintf("%s.%smap", in.Parent(), in.Name()))
		t.typ = in.Type()
		e.redefine(s, t)
		s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
		s.env[in] = t
		return one
	case *ssa.MakeChan:
		t := e.opaque(fr, s, in, "chan")
		s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
		s.env[in] = t
		return one
	case *ssa.MakeSlice:
		set(in, e.tb.mk("makeslice", "", e.val(fr, s, in.Len), e.opaque(fr, s, in, "mk")))
		return one

	case *ssa.Slice:
		x := e.val(fr, s, in.X)
		lo, hi := e.tb.Int(0), e.tb.mk("none", "")
		if in.Low != nil {
			lo = e.val(fr, s, in.Low)
		}
		if in.High != nil {
			hi = e.val(fr, s, in.High)
		}
		if e.R.OnSlice != nil {
			e.R.OnSlice(e, fr, s, in, x, lo, hi)
		}
		if c, ok := isInt(lo); ok && c == 0 && hi.op == "none" {
			if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
				set(in, x)
				return one
			}
		}
		// x[a:][b:] is x[a+b:]
		if x.op == "slice" && x.args[2].op == "none" && hi.op == "none" {
			t := e.tb.mk("slice", "", x.args[0], e.tb.Add(x.args[1], lo), hi)
			t.typ = in.Type()
			set(in, t)
			return one
		}
		t := e.tb.mk("slice", "", x, lo, hi)
		t.typ = in.Type()
		set(in, t)
		return one

	case *ssa.FieldAddr:
		x := e.val(fr, s, in.X)
		if e.R.OnDeref != nil {
			e.R.OnDeref(e, fr, s, in, in.X, x)
			if !e.Assume(s.State, e.tb.mk("==", "", x, e.tb.Nil()), false) {
				return nil
			}
		}
		set(in, e.Field(x, in.X.Type(), in.Field))
		return one
	case *ssa.Field:
		x := e.val(fr, s, in.X)
		set(in, e.fieldVal(s.State, x, fieldKey(in.X.Type(), in.Field), in.Type()))
		return one

	case *ssa.IndexAddr:
		x, i := e.val(fr, s, in.X), e.val(fr, s, in.Index)
		if e.R.OnIndex != nil {
			e.R.OnIndex(e, fr, s, in, x, i)
		}
		// elements of a re-sliced value are elements of the underlying one
		if x.op == "slice" {
			i = e.tb.Add(i, x.args[1])
			x = x.args[0]
		}
		t := e.tb.mk("elem", typeKey(in.Type()), x, i)
		if t.typ == nil {
			t.typ = in.Type()
		}
		set(in, t)
		return one
	case *ssa.Index:
		x, i := e.val(fr, s, in.X), e.val(fr, s, in.Index)
		if e.R.OnIndex != nil {
			e.R.OnIndex(e, fr, s, in, x, i)
		}
		t := e.tb.mk("elemval", "", x, i)
		if t.typ == nil {
			t.typ = in.Type()
		}
		set(in, t)
		return one

	case *ssa.Lookup:
		x, i := e.val(fr, s, in.X), e.val(fr, s, in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			if e.R.OnIndex != nil {
				e.R.OnIndex(e, fr, s, in, x, i)
			}
			if str, ok := isStr(x); ok {
				if k, ok := isInt(i); ok && k >= 0 && k < int64(len(str)) {
					set(in, e.tb.Int(int64(str[k])))
					return one
				}
			}
			t := e.tb.mk("byteat", "", x, i)
			t.typ = in.Type()
			set(in, t)
			return one
		}
		args := []*T{x, i}
		if ep := e.getEpoch(s.State, "M:"+typeKey(in.X.Type())); ep != nil {
			args = append(args, ep)
		}
		t := e.tb.mk("lookup", "", args...)
		if in.CommaOk {
			if t.typ == nil {
				t.typ = in.Type().(*types.Tuple).At(0).Type()
			}
			set(in, e.tb.mk("tuple", "", t, e.tb.mk("lookupok", "", args...)))
		} else {
			if t.typ == nil {
				t.typ = in.Type()
			}
			set(in, t)
		}
		return one

	case *ssa.MapUpdate:
		e.setEpoch(s.State, "M:"+typeKey(in.Map.Type()), e.epochAt(fr, s, in))
		return one

	case *ssa.TypeAssert:
		x := e.val(fr, s, in.X)
		is := e.tb.mk("is", typeKey(in.AssertedType), x)
		is.typ = in.AssertedType
		v := x
		if x.op == "mkiface" {
			v = x.args[0]
		} else if _, ok := in.AssertedType.Underlying().(*types.Pointer); !ok && !types.IsInterface(in.AssertedType) {
			v = e.tb.mk("unbox", typeKey(in.AssertedType), x)
			v.typ = in.AssertedType
		}
		if in.CommaOk {
			set(in, e.tb.mk("tuple", "", v, is))
			return one
		}
		if e.R.OnAssert != nil {
			e.R.OnAssert(e, fr, s, in, x)
		}
		if !e.Assume(s.State, is, true) {
			return nil
		}
		set(in, v)
		return one

	case *ssa.Extract:
		t := e.val(fr, s, in.Tuple)
		if t.op == "tuple" {
			set(in, t.args[in.Index])
			return one
		}
		x := e.tb.mk("extract", fmt.Sprint(in.Index), t)
		if x.typ == nil {
			x.typ = in.Type()
		}
		set(in, x)
		return one

	case *ssa.Range:
		set(in, e.opaque(fr, s, in, "range"))
		return one
	case *ssa.Next:
		t := e.opaque(fr, s, in, "next")
		if in.IsString {
			set(in, t)
			return one
		}
		set(in, t)
		return one

	case *ssa.Select:
		set(in, e.opaque(fr, s, in, "select"))
		return one

	case *ssa.Store:
		a, v := e.val(fr, s, in.Addr), e.val(fr, s, in.Val)
		if e.R.OnStore != nil {
			e.R.OnStore(e, fr, s, in, a, v)
		}
		e.Store(s, a, v, e.epochAt(fr, s, in))
		return one

	case *ssa.Send:
		if e.R.OnSend != nil {
			e.R.OnSend(e, fr, s, in, e.val(fr, s, in.X))
		}
		return one

	case *ssa.Defer:
		d := deferred{call: in, fn: e.val(fr, s, in.Call.Value)}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(fr, s, a))
		}
		// a defer in a loop is represented by its first and its latest execution
		n := 0
		for i := range s.defers {
			if s.defers[i].call == in {
				if n++; n == 2 {
					s.defers = append(append([]deferred{}, s.defers[:i]...), s.defers[i+1:]...)
					break
				}
			}
		}
		s.defers = append(s.defers, d)
		return one

	case *ssa.RunDefers:
		states := one
		n := len(s.defers)
		for i := n - 1; i >= 0; i-- {
			var next []*S
			for _, st := range states {
				d := st.defers[i]
				st.defers = st.defers[:i]
				for _, o := range e.call(fr, st, d.call, &d.call.Call, d.fn, d.args) {
					next = append(next, o.S)
				}
			}
			states = next
		}
		return states

	case *ssa.Go:
		f := s.fork()
		fnT := e.val(fr, f, in.Call.Value)
		var args []*T
		for _, a := range in.Call.Args {
			args = append(args, e.val(fr, f, a))
		}
		e.call(fr, f, in, &in.Call, fnT, args)
		e.havocCall(fr, s, in, &in.Call, fnT, args)
		return one

	case *ssa.Call:
		fnT := e.val(fr, s, in.Call.Value)
		var args []*T
		for _, a := range in.Call.Args {
			args = append(args, e.val(fr, s, a))
		}
		var res []*S
		for _, o := range e.call(fr, s, in, &in.Call, fnT, args) {
			if o.Ret != nil {
				r := o.Ret
				if r.depth > 14 {
					r = e.opaque(fr, o.S, in, "deep")
				}
				o.S.env[in] = r
			}
			res = append(res, o.S)
		}
		return res
	}
	panic(fmt.Sprintf("unhandled instruction %T", ins))
}

// ---------------------------------------------------------------- calls

var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "unicode": true,
	"unicode/utf8": true, "strconv": true, "bytes": true}
var notPure = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true,
	"path/filepath.EvalSymlinks": true, "strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true,
	"bytes.NewBufferString": true, "strings.NewReplacer": true}

// Terminating calls.
var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"log.Panic": true, "log.Panicf": true, "runtime.Goexit": true}

func (e *Engine) resolve(s *S, c *ssa.CallCommon, fnT *T, args []*T) (*ssa.Function, []*T, []*T) {
	if c.IsInvoke() {
		recv := fnT
		if recv.op == "mkiface" && recv.typ != nil {
			if m := e.P.method(recv.typ, c.Method); m != nil {
				return m, append([]*T{recv.args[0]}, args...), nil
			}
		}
		if recv.op == "alloc" && recv.typ != nil {
			if m := e.P.method(types.NewPointer(recv.typ), c.Method); m != nil {
				return m, append([]*T{recv}, args...), nil
			}
		}
		for at, v := range s.atoms {
			if v && at.op == "is" && at.args[0] == recv && at.typ != nil && !types.IsInterface(at.typ) {
				if m := e.P.method(at.typ, c.Method); m != nil {
					return m, append([]*T{recv}, args...), nil
				}
			}
		}
		return nil, append([]*T{recv}, args...), nil
	}
	switch fnT.op {
	case "func":
		return fnT.fn, args, nil
	case "closure":
		return fnT.fn, args, fnT.args
	}
	return nil, args, nil
}

func (e *Engine) shouldInline(fr *Frame, fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || !inRepo(fn) || fr.onStack(fn) || fr.depth >= e.MaxDepth {
		return false
	}
	if e.R.Inline != nil {
		if in, ok := e.R.Inline(fr, fn); ok {
			return in
		}
	}
	if e.R.Relevant[fn] {
		return true
	}
	return e.isPredicate(fn)
}

// isPredicate: a small loop-free helper whose result the caller branches on.
func (e *Engine) isPredicate(fn *ssa.Function) bool {
	if e.preds == nil {
		e.preds = map[*ssa.Function]bool{}
	}
	if v, ok := e.preds[fn]; ok {
		return v
	}
	r := len(fn.Blocks) <= 12 && !hasLoop(fn)
	if r {
		res := fn.Signature.Results()
		ok := false
		for i := 0; i < res.Len(); i++ {
			if b, isB := res.At(i).Type().Underlying().(*types.Basic); isB && b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0 {
				ok = true
			}
			if _, isF := res.At(i).Type().Underlying().(*types.Signature); isF {
				ok = true
			}
		}
		if len(fn.Blocks) == 1 {
			ok = true // trivial accessor
		}
		r = ok
	}
	e.preds[fn] = r
	return r
}

func (e *Engine) call(fr *Frame, s *S, in ssa.Instruction, c *ssa.CallCommon, fnT *T, args []*T) []Out {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return e.builtin(fr, s, in, c, b.Name(), args)
	}
	if e.R.OnDeref != nil && c.IsInvoke() {
		e.R.OnDeref(e, fr, s, in, c.Value, fnT)
		if !e.Assume(s.State, e.tb.mk("==", "", fnT, e.tb.Nil()), false) {
			return nil
		}
	}
	fn, args2, fv := e.resolve(s, c, fnT, args)
	name := ""
	if fn != nil {
		name = fn.String()
	} else if c.IsInvoke() {
		name = "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name()
	}
	if e.R.OnCall != nil {
		if outs, handled := e.R.OnCall(e, fr, s, in, c, name, fn, args2); handled {
			return outs
		}
	}
	if noReturn[name] {
		return nil
	}
	if e.shouldInline(fr, fn) {
		nf := &Frame{fn: fn, ctx: fmt.Sprintf("%s/%s.%d", fr.ctx, shortID(in), e.siteID(in)), parent: fr, site: in, depth: fr.depth + 1, fv: fv}
		// run the callee with the caller's environment set aside
		saved, savedDefers := s.env, s.defers
		callee := &S{State: s.State, env: map[ssa.Value]*T{}}
		// keep the caller's leaves alive during the callee
		extra := make([]*T, 0, len(saved))
		for _, t := range saved {
			extra = append(extra, t)
		}
		for _, d := range savedDefers {
			extra = append(extra, d.args...)
			extra = append(extra, d.fn)
		}
		mk := memoKey{nf.ctx, fn, callee.full(), argHash(args2, fv)}
		pinned := map[int]bool{}
		for _, t := range extra {
			for _, l := range t.leaves {
				if !pinned[l] {
					pinned[l] = true
					mk.args.add(3, uint64(l))
				}
			}
		}
		outs, hit := e.memo[mk]
		if !hit {
			release := e.pin(extra)
			outs = e.runFunc(nf, callee, args2)
			release()
			e.memo[mk] = outs
		}
		var res []Out
		for _, o := range outs {
			env := make(map[ssa.Value]*T, len(saved))
			for k, v := range saved {
				env[k] = v
			}
			ns := &S{State: o.S.State.clone(), env: env, defers: append([]deferred{}, savedDefers...)}
			e.gc(ns, nil, []*T{o.Ret})
			o2 := Out{ns, o.Ret}
			if e.R.AfterCall != nil {
				e.R.AfterCall(e, fr, in, fn, args2, o2)
			}
			res = append(res, o2)
		}
		return dedupeOuts(res)
	}
	return []Out{{s, e.opaqueCall(fr, s, in, c, name, fn, fnT, args2)}}
}

type memoKey struct {
	ctx  string
	fn   *ssa.Function
	s    hash2
	args hash2
}

func argHash(a, b []*T) hash2 {
	var h hash2
	for i, t := range a {
		h.add(1, uint64(i), uint64(t.id))
	}
	for i, t := range b {
		h.add(2, uint64(i), uint64(t.id))
	}
	return h
}

func dedupeOuts(in []Out) []Out {
	type k2 struct {
		h hash2
		r int
	}
	seen := map[k2]bool{}
	var out []Out
	for _, o := range in {
		k := k2{o.S.full(), o.Ret.id}
		if !seen[k] {
			seen[k] = true
			out = append(out, o)
		}
	}
	return out
}

func (e *Engine) pin(ts []*T) func() {
	var added []int
	for _, t := range ts {
		for _, l := range t.leaves {
			if !e.sticky[l] {
				e.sticky[l] = true
				added = append(added, l)
			}
		}
	}
	return func() {
		for _, l := range added {
			delete(e.sticky, l)
		}
	}
}

func shortID(in ssa.Instruction) string { return in.Parent().Name() }

func (e *Engine) siteID(in ssa.Instruction) int {
	idx := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			idx = i
		}
	}
	return in.Block().Index*1000 + idx
}

// opaqueCall models a callee that is not analysed in context.
func (e *Engine) opaqueCall(fr *Frame, s *S, in ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, fnT *T, args []*T) *T {
	res := c.Signature().Results()
	if fn != nil && !inRepo(fn) && fn.Pkg != nil && purePkgs[fn.Pkg.Pkg.Path()] && fn.Signature.Recv() == nil && !notPure[name] && !hasFuncArg(c) {
		if name == "bytes.Equal" {
			return e.tb.Equal(args[0], args[1])
		}
		if res.Len() == 1 {
			if name == "strings.HasPrefix" || name == "strings.HasSuffix" || name == "strings.Contains" {
			}
			t := e.tb.mk("call", name, args...)
			if t.typ == nil {
				t.typ = res.At(0).Type()
			}
			return t
		}
		t := e.tb.mk("call", name, args...)
		var ex []*T
		for i := 0; i < res.Len(); i++ {
			x := e.tb.mk("extract", fmt.Sprint(i), t)
			if x.typ == nil {
				x.typ = res.At(i).Type()
			}
			ex = append(ex, x)
		}
		return e.tb.mk("tuple", "", ex...)
	}
	if e.P.pureAccessor(c, fn) {
		n := name
		if c.IsInvoke() {
			n = c.Method.Name()
		}
		t := e.tb.mk("call", "accessor "+n, args...)
		if t.typ == nil && res.Len() == 1 {
			t.typ = res.At(0).Type()
		}
		if res.Len() == 1 {
			return t
		}
	}
	e.havocCall(fr, s, in, c, fnT, args)
	v, ok := in.(ssa.Value)
	if !ok || res.Len() == 0 {
		return e.tb.mk("none", "")
	}
	t := e.opaque(fr, s, v, "call:"+strings.ReplaceAll(name, modPath+"/", ""))
	switch name {
	case "fmt.Errorf", "errors.New":
		s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
	case "os.Getenv", "fmt.Sprintf":
	}
	if fn != nil && e.P.neverNil(fn) && res.Len() == 1 {
		s.atoms[e.tb.mk("==", "", t, e.tb.Nil())] = false
	}
	return t
}

func hasFuncArg(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// havocCall forgets everything the call may write, and analyses relevant function arguments.
func (e *Engine) havocCall(fr *Frame, s *S, in ssa.Instruction, c *ssa.CallCommon, fnT *T, args []*T) {
	m := e.mods.Call(in, c)
	ep := e.epochAt(fr, s, in)
	var epT *T
	get := func() *T {
		if epT == nil {
			epT = ep()
		}
		return epT
	}
	for cl := range m {
		e.killClass(s.State, cl, get)
	}
	// external callees may write through the pointers they receive
	fn, _, _ := e.resolve(s, c, fnT, nil)
	if fnT != nil && fnT.op == "closure" {
		for _, a := range fnT.args {
			if a.op == "alloc" {
				e.havocAddr(s, a, get)
			}
		}
	}
	ext := fn == nil && c.IsInvoke() || fn != nil && !inRepo(fn)
	if ext {
		for i, a := range args {
			if i < len(c.Args) || true {
				if a.op == "alloc" || a.op == "field" || a.op == "elem" {
					e.havocAddr(s, a, get)
				}
			}
		}
	}
	// function values handed to a callee that is not analysed may run any number of times
	for _, a := range args {
		if (a.op == "closure" || a.op == "func") && a.fn != nil && inRepo(a.fn) && e.shouldInline(fr, a.fn) {
			f := s.fork()
			var ps []*T
			for i, p := range a.fn.Params {
				t := e.tb.mk("opaque", fmt.Sprintf("%s|cb.%s.%d", fr.ctx, a.fn, i))
				t.typ = p.Type()
				ps = append(ps, t)
			}
			nf := &Frame{fn: a.fn, ctx: fmt.Sprintf("%s/%s.%d", fr.ctx, shortID(in), e.siteID(in)), parent: fr, site: in, depth: fr.depth + 1, fv: a.args}
			release := e.pin(envTerms(f))
			e.runFunc(nf, &S{State: f.State, env: map[ssa.Value]*T{}}, ps)
			release()
		}
	}
}

func envTerms(s *S) []*T {
	var out []*T
	for _, t := range s.env {
		out = append(out, t)
	}
	return out
}

func (e *Engine) havocAddr(s *S, a *T, ep func() *T) {
	for x := range s.mem {
		if hasPrefixAddr(x, a) {
			delete(s.mem, x)
		}
	}
	// make the location's new content unknown
	if a.typ != nil {
		t := e.tb.mk("opaque", fmt.Sprintf("havoc|%d|%d", a.id, ep().id))
		if a.op == "alloc" {
			t.typ = a.typ
		} else if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			t.typ = p.Elem()
		}
		s.mem[a] = t
	}
}

func (e *Engine) builtin(fr *Frame, s *S, in ssa.Instruction, c *ssa.CallCommon, name string, args []*T) []Out {
	switch name {
	case "len":
		if args[0].op == "opaque" && args[0].typ == nil {
			args[0].typ = c.Args[0].Type()
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			xs := []*T{args[0]}
			if ep := e.getEpoch(s.State, "M:"+typeKey(c.Args[0].Type())); ep != nil {
				xs = append(xs, ep)
			}
			return []Out{{s, e.tb.mk("len", "", xs...)}}
		}
		return []Out{{s, e.tb.Len(args[0])}}
	case "cap":
		return []Out{{s, e.tb.mk("cap", "", args[0])}}
	case "append":
		if len(args) == 1 {
			return []Out{{s, args[0]}}
		}
		if e.R.OnAppend != nil {
			e.R.OnAppend(e, fr, s, in, c, args[0], args[1])
		}
		t := e.tb.mk("append", "", args[0], args[1])
		if t.typ == nil {
			t.typ = c.Args[0].Type()
		}
		return []Out{{s, t}}
	case "copy":
		et := ""
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			et = typeKey(types.NewPointer(sl.Elem()))
		}
		e.killClass(s.State, "E:"+et, e.epochAt(fr, s, in))
	case "delete":
		e.setEpoch(s.State, "M:"+typeKey(c.Args[0].Type()), e.epochAt(fr, s, in))
	case "recover":
		return []Out{{s, e.tb.Nil()}}
	case "panic":
		return nil
	}
	if v, ok := in.(ssa.Value); ok && c.Signature() != nil {
		return []Out{{s, e.opaque(fr, s, v, "b:"+name)}}
	}
	return []Out{{s, e.tb.mk("none", "")}}
}

// escapes: the variable's address leaves the function by other means than a closure that is only
// called or deferred on the spot.
func escapes(a *ssa.Alloc) bool {
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if rec(r) {
					return true
				}
			case *ssa.IndexAddr:
				if rec(r) {
					return true
				}
			case *ssa.MakeClosure:
				for _, r2 := range *r.Referrers() {
					switch r2 := r2.(type) {
					case *ssa.Defer:
						if r2.Call.Value != r {
							return true
						}
					case *ssa.Call:
						if r2.Call.Value != r {
							return true
						}
					case *ssa.DebugRef:
					default:
						return true
					}
				}
				for i, b := range r.Bindings {
					if b == v && freeEscapes(r.Fn.(*ssa.Function).FreeVars[i]) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	return rec(a)
}

func freeEscapes(v *ssa.FreeVar) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
