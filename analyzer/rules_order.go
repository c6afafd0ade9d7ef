package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P16: the same inputs give the same result. The order in which a map is iterated (or in which
// goroutines deliver their results) is arbitrary, so it must not reach anything observable.
//
// Every range over a map, and every range over a list built in such an order, is an "unordered
// loop". Its effects must not depend on the order: values carried from one iteration to the next
// may only be counters, flags, extrema, and lists that are sorted before anything else reads them;
// maps are filled under the loop's key or with values that do not depend on the iteration; nothing
// is written, printed, sent, kept or returned that comes from one particular iteration.

func init() {
	register("P16", determinism)
}

// reviewedOrder: places where an unordered loop does something whose order cannot be observed.
var reviewedOrder = map[string]string{
	"unused_deps.printCommands fmt.Printf": "the printed text does not mention the element of the map; it is printed once per equal label",
	"edit.Buildozer send":                  "files are edited independently of one another; the order in which they are reported is outside the property",
	"edit.Buildozer shared channel":        "files are edited independently of one another; the order in which they are reported is outside the property",
	"warn.sortedIdents comparator":         "identifiers are ordered by their position in the file",
}

type orders struct {
	c     *Ctx
	p     *Prog
	e     *Effects
	emits map[*ssa.Function]bool
	done  map[*ssa.Function]map[*ssa.BasicBlock]bool
	bagFn map[string]bool
	loops int
}

func (o *orders) bad(fn *ssa.Function, what string, in ssa.Instruction, f string, args ...interface{}) {
	key := strings.TrimPrefix(funcName(fn), "main.") + " " + what
	if reviewedOrder[key] != "" {
		o.c.info["reviewed:"+key] = reviewedOrder[key]
		return
	}
	pos := ""
	if in != nil {
		pos = o.p.instrPos(in)
	}
	o.c.Violate("order:"+key, pos, "%s: %s", funcName(fn), fmt.Sprintf(f, args...))
}

func determinism(c *Ctx) {
	p := c.P
	o := &orders{c: c, p: p, e: p.Effects(), done: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, bagFn: map[string]bool{}}
	o.emits = p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Send, *ssa.Go:
			return true
		case ssa.CallInstruction:
			return !o.quietCall(in.Common())
		}
		return false
	})
	c.Rule("map", "the order in which a map is iterated reaches nothing that can be observed: results, written memory, output")
	c.Rule("unsorted", "a list built in an arbitrary order is sorted (by a total order) before anything else reads it")
	c.Rule("source", "no function consults the clock, a random number, an address or the process, and none merges what several goroutines deliver through one channel")
	for _, fn := range p.repoFuncs() {
		if parserMachinery(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Next:
					if in.IsString {
						continue
					}
					c.Inst("map", funcName(fn)+" "+p.instrPos(in.Iter.(*ssa.Range)))
					o.loop(fn, in.Block(), in)
				case *ssa.Select:
					if len(in.States) > 1 {
						o.bad(fn, "select", in, "which of several channels is ready first depends on timing")
					}
				case *ssa.Go:
					o.goStmt(fn, in)
				case ssa.CallInstruction:
					o.source(fn, in)
				}
			}
		}
	}
	c.Floor("map", 25)
	// self-test: the analysis must see the sorted list of collectAllWarnings and similar.
	if c.count["unsorted"] < 6 {
		c.Violate("selftest", "", "only %d lists built from maps were recognised", c.count["unsorted"])
	}
}

// ---- sources of nondeterminism other than maps

func (o *orders) source(fn *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	n := o.p.staticName(c)
	pk := ""
	if f := o.p.staticFn(c); f != nil && fnPkg(f) != nil {
		pk = fnPkg(f).Path()
	}
	o.c.Inst("source", "")
	switch {
	case n == "time.Now" || n == "time.Since" || pk == "math/rand" || pk == "math/rand/v2" || pk == "crypto/rand" ||
		n == "os.Getpid" || n == "os.Getppid" || n == "runtime.NumGoroutine":
		o.bad(fn, n, in, "calls %s, whose result differs from run to run", n)
	case n == "(*sync.Map).Range" || n == "(reflect.Value).MapKeys" || n == "(reflect.Value).MapRange":
		o.bad(fn, n, in, "%s visits the entries of a map in an arbitrary order", n)
	case pk == "maps" || strings.HasPrefix(n, "golang.org/x/exp/maps."):
		f := o.p.staticFn(c)
		base := strings.Split(f.Name(), "[")[0]
		if base == "Keys" || base == "Values" || base == "All" {
			v, _ := in.(ssa.Value)
			for _, r := range referrers(v) {
				if rc, ok := r.(ssa.CallInstruction); ok {
					if g := rc.Common().StaticCallee(); g != nil {
						gn := strings.Split(g.String(), "[")[0]
						if strings.HasPrefix(gn, "slices.Sorted") && gn != "slices.SortedFunc" {
							o.c.Inst("unsorted", o.p.instrPos(rc))
							continue
						}
						if gn == "slices.Collect" {
							o.bag(fn, nil, map[ssa.Value]bool{rc.(ssa.Value): true}, rc)
							continue
						}
						if gn == "maps.Collect" || gn == "maps.Copy" || gn == "maps.Insert" {
							continue
						}
					}
				}
				if _, ok := v.Type().Underlying().(*types.Slice); ok {
					o.bag(fn, nil, map[ssa.Value]bool{v: true}, r)
					break
				}
				o.bad(fn, n, in, "what %s yields comes in an arbitrary order and is not sorted", n)
			}
		}
	}
	// addresses printed
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			if s := constant.StringVal(k.Value); strings.Contains(s, "%p") && strings.HasPrefix(pk, "fmt") {
				o.bad(fn, "address", in, "prints an address, which differs from run to run")
			}
		}
	}
}

func referrers(v ssa.Value) []ssa.Instruction {
	if v == nil || v.Referrers() == nil {
		return nil
	}
	return *v.Referrers()
}

// goStmt: goroutines started in a loop must not share a channel they deliver results on.
func (o *orders) goStmt(fn *ssa.Function, g *ssa.Go) {
	l := loopOf(fn, g.Block())
	if l == nil {
		return
	}
	var target *ssa.Function
	switch v := g.Call.Value.(type) {
	case *ssa.MakeClosure:
		target = v.Fn.(*ssa.Function)
	case *ssa.Function:
		target = v
	}
	if target == nil {
		o.bad(fn, "goroutine", g, "starts goroutines in a loop whose code is not known")
		return
	}
	o.c.Inst("source", "goroutines "+funcName(fn))
	for t := range o.p.reachableFrom(target) {
		if !inRepo(t) {
			continue
		}
		for _, b := range t.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok {
					continue
				}
				// per-goroutine: the channel is an element of a list, or the list's element passed in,
				// selected by something the goroutine was given
				if !o.perGoroutine(s.Chan, t, g, l) {
					o.bad(fn, "shared channel", s, "goroutines started in a loop deliver their results on one channel, so the results arrive in an arbitrary order")
				}
			}
		}
	}
}

func (o *orders) perGoroutine(v ssa.Value, t *ssa.Function, g *ssa.Go, l map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return o.given(ia.Index, t, g, l)
		}
		return o.given(x.X, t, g, l) || o.given(x, t, g, l)
	case *ssa.Parameter, *ssa.FreeVar:
		return o.given(v, t, g, l)
	case *ssa.MakeChan:
		return true
	case *ssa.Lookup:
		return o.given(x.Index, t, g, l)
	}
	return false
}

// given: the value reaches the goroutine from its own iteration of the loop.
func (o *orders) given(v ssa.Value, t *ssa.Function, g *ssa.Go, l map[*ssa.BasicBlock]bool) bool {
	varies := func(a ssa.Value) bool {
		if in, ok := a.(ssa.Instruction); ok {
			return l[in.Block()]
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, q := range t.Params {
			if q == x && i < len(g.Call.Args) && t == calledFn(g) {
				return varies(g.Call.Args[i])
			}
		}
	case *ssa.FreeVar:
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == t {
			for i, q := range t.FreeVars {
				if q == x {
					return varies(mc.Bindings[i])
				}
			}
		}
	case *ssa.UnOp:
		return o.given(x.X, t, g, l)
	}
	return false
}

func calledFn(g *ssa.Go) *ssa.Function {
	switch v := g.Call.Value.(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		return v
	}
	return nil
}

// ---- loops

// natLoop: the blocks of the natural loop with the given header.
func natLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, q := range h.Preds {
		if h.Dominates(q) {
			work = append(work, q)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

// loopOf: the innermost loop containing a block.
func loopOf(fn *ssa.Function, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var best map[*ssa.BasicBlock]bool
	for _, h := range fn.Blocks {
		l := natLoop(h)
		if l != nil && l[b] && (best == nil || len(l) < len(best)) {
			best = l
		}
	}
	return best
}

func headerOf(l map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	for b := range l {
		all := true
		for q := range l {
			if !b.Dominates(q) {
				all = false
			}
		}
		if all {
			return b
		}
	}
	return nil
}

type uloop struct {
	o      *orders
	fn     *ssa.Function
	h      *ssa.BasicBlock
	in     map[*ssa.BasicBlock]bool // natural loop
	tail   map[*ssa.BasicBlock]bool // left early: blocks only reached from inside the loop
	next   *ssa.Next                // map loops
	src    map[ssa.Value]bool       // list loops: values holding the unordered list
	index  ssa.Value                // list loops: the index
	deps   map[ssa.Value]int
	webs   []map[ssa.Value]bool
	early  bool
	ranged ssa.Value
}

// loop checks one unordered loop.
func (o *orders) loop(fn *ssa.Function, h *ssa.BasicBlock, next *ssa.Next) {
	if o.done[fn] == nil {
		o.done[fn] = map[*ssa.BasicBlock]bool{}
	}
	if o.done[fn][h] {
		return
	}
	o.done[fn][h] = true
	o.loops++
	l := &uloop{o: o, fn: fn, h: h, in: natLoop(h), tail: map[*ssa.BasicBlock]bool{}, next: next, deps: map[ssa.Value]int{}}
	if next != nil {
		l.ranged = next.Iter.(*ssa.Range).X
	}
	if l.in == nil {
		// the body never repeats: it takes an arbitrary element (or only asks whether there is one)
		l.in = map[*ssa.BasicBlock]bool{h: true}
	}
	l.check()
}

func (l *uloop) check() {
	o, fn := l.o, l.fn
	// early exits: blocks dominated by the loop's body entry that are not in the loop
	var entry *ssa.BasicBlock
	var normal *ssa.BasicBlock
	if iff, ok := l.h.Instrs[len(l.h.Instrs)-1].(*ssa.If); ok {
		_ = iff
		entry, normal = l.h.Succs[0], l.h.Succs[1]
		if !l.in[entry] && l.in[normal] {
			entry, normal = normal, entry
		}
	}
	if entry == nil {
		o.bad(fn, "loop", l.h.Instrs[0], "an unordered loop of an unknown shape")
		return
	}
	for _, b := range fn.Blocks {
		if !l.in[b] && b != normal && entry.Dominates(b) && b != l.h {
			l.tail[b] = true
		}
	}
	if !l.in[entry] && entry != l.h && len(entry.Preds) == 1 {
		l.tail[entry] = true
	}
	for b := range l.in {
		for _, s := range b.Succs {
			if !l.in[s] && b != l.h {
				l.early = true
			}
		}
	}
	if !l.in[entry] {
		l.early = true
	}
	// values carried round the loop
	for _, in := range l.h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi == l.index {
			continue
		}
		l.carried(phi)
	}
	// values kept when leaving early
	for b := range l.in {
		for _, s := range b.Succs {
			if l.in[s] || l.tail[s] || b == l.h {
				continue
			}
			l.exitEdge(b, s)
		}
	}
	for b := range l.tail {
		for _, s := range b.Succs {
			if !l.tail[s] && !l.in[s] {
				l.exitEdge(b, s)
			}
		}
	}
	l.exits()
	for _, b := range fn.Blocks {
		if !l.in[b] && !l.tail[b] {
			continue
		}
		for _, in := range b.Instrs {
			l.effect(in, b)
		}
	}
	// values of the loop read after it
	for b := range l.in {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !l.dep(v) {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); isPhi && b == l.h {
				continue
			}
			if l.inWeb(v) {
				continue
			}
			for _, r := range referrers(v) {
				if rb := r.Block(); !l.in[rb] && !l.tail[rb] {
					if _, ok := r.(*ssa.Phi); ok {
						continue // exit edges
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					o.bad(fn, "last element", r, "a value of one particular iteration is used after the loop")
				}
			}
		}
	}
}

func (l *uloop) inWeb(v ssa.Value) bool {
	for _, w := range l.webs {
		if w[v] {
			return true
		}
	}
	return false
}

func (l *uloop) exitEdge(b, s *ssa.BasicBlock) {
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vals []ssa.Value
		for i, q := range s.Preds {
			if q == b {
				vals = append(vals, phi.Edges[i])
			}
		}
		for _, v := range vals {
			if l.dep(v) && !l.inWeb(v) {
				l.o.bad(l.fn, "kept element", in, "leaving the loop early keeps a value of whichever iteration came first")
			} else if l.inWeb(v) && l.early {
				l.o.bad(l.fn, "partial", in, "what the loop collected when it is left early depends on the order")
			}
		}
	}
}

// exits: what the loop returns from inside must not depend on the iteration, and must be the same everywhere.
func (l *uloop) exits() {
	tuples := map[string]ssa.Instruction{}
	for b := range l.tail {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			key := ""
			for _, v := range ret.Results {
				if l.dep(v) {
					l.o.bad(l.fn, "returned element", ret, "returns a value of whichever iteration comes first")
				}
				key += v.Name() + "|"
				if k, ok := v.(*ssa.Const); ok {
					key += k.String()
				}
			}
			tuples[key] = ret
		}
	}
	if len(tuples) > 1 {
		for _, r := range tuples {
			l.o.bad(l.fn, "first result", r, "which of several results is returned depends on the order of iteration")
			break
		}
	}
}

// dep: the value may differ between iterations of the loop.
func (l *uloop) dep(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || (!l.in[in.Block()] && !l.tail[in.Block()]) {
		return false
	}
	switch l.deps[v] {
	case 1:
		return false
	case 2:
		return true
	}
	l.deps[v] = 1
	r := l.dep1(v)
	if r {
		l.deps[v] = 2
	}
	return r
}

func (l *uloop) dep1(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Next:
		return true
	case *ssa.Extract:
		if v.Tuple == ssa.Value(l.next) && l.next != nil {
			return v.Index > 0
		}
		return l.dep(v.Tuple)
	case *ssa.Phi:
		if v.Block() == l.h {
			return true
		}
		for i, e := range v.Edges {
			if l.dep(e) || e != v.Edges[0] {
				_ = i
				return true
			}
		}
		return false
	case *ssa.Alloc:
		for _, r := range referrers(v) {
			if l.depStore(r, v) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if l.dep(v.X) {
				return true
			}
			base, _ := addr(v.X)
			return l.storedIn(base)
		}
	case *ssa.IndexAddr:
		if l.src[v.X] && v.Index == l.index {
			return true
		}
	case *ssa.Lookup:
		if l.storedIn(v.X) {
			return true
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		return false
	case *ssa.MakeSlice:
		return false
	}
	var ops []*ssa.Value
	for _, op := range v.(ssa.Instruction).Operands(ops) {
		if *op != nil && l.dep(*op) {
			return true
		}
	}
	return false
}

// depStore: an instruction that puts an iteration-dependent value into the memory at a.
func (l *uloop) depStore(r ssa.Instruction, a ssa.Value) bool {
	switch r := r.(type) {
	case *ssa.Store:
		return r.Addr == a && l.dep(r.Val)
	case *ssa.FieldAddr:
		for _, q := range referrers(r) {
			if l.depStore(q, r) {
				return true
			}
		}
	case *ssa.IndexAddr:
		if l.dep(r.Index) {
			return true
		}
		for _, q := range referrers(r) {
			if l.depStore(q, r) {
				return true
			}
		}
	}
	return false
}

// storedIn: the loop modifies the memory behind the value.
func (l *uloop) storedIn(base ssa.Value) bool {
	for b := range l.in {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if q, _ := addr(in.Addr); q == base {
					return true
				}
			case *ssa.MapUpdate:
				if in.Map == base {
					return true
				}
			}
		}
	}
	return false
}

// carried checks a value carried from one iteration to the next.
func (l *uloop) carried(phi *ssa.Phi) {
	web := map[ssa.Value]bool{phi: true}
	var back []ssa.Value
	for i, q := range l.h.Preds {
		if l.in[q] {
			back = append(back, phi.Edges[i])
		}
	}
	same := func(v ssa.Value) bool { return v == ssa.Value(phi) }
	k := l.accumulate(back, same, web, phi.Type())
	l.webs = append(l.webs, web)
	l.judge(k, phi, web, phi)
}

type accum struct {
	bag, num, flag bool
	consts         map[string]bool
	why            string
	in             ssa.Instruction
}

// accumulate: how the values are computed from the previous iteration's.
func (l *uloop) accumulate(back []ssa.Value, prev func(ssa.Value) bool, web map[ssa.Value]bool, t types.Type) *accum {
	k := &accum{consts: map[string]bool{}}
	fail := func(in ssa.Instruction, f string, args ...interface{}) {
		if k.why == "" {
			k.why, k.in = fmt.Sprintf(f, args...), in
		}
	}
	carries := map[ssa.Value]bool{}
	var carry func(v ssa.Value, seen map[ssa.Value]bool) bool
	carry = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if prev(v) || carries[v] {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.in[in.Block()] {
			return false
		}
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if carry(e, seen) {
					return true
				}
			}
		case *ssa.BinOp:
			return carry(v.X, seen) || carry(v.Y, seen)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "max" || b.Name() == "min") {
				for _, a := range v.Call.Args {
					if carry(a, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, from *ssa.Phi, edge int)
	visit = func(v ssa.Value, from *ssa.Phi, edge int) {
		if prev(v) {
			web[v] = true
			return
		}
		if seen[v] {
			return
		}
		in, isIn := v.(ssa.Instruction)
		if !isIn || !l.in[in.Block()] {
			// a constant, or a value from before the loop
			key := v.Name()
			if c, ok := v.(*ssa.Const); ok {
				key = c.String()
			}
			k.consts[key] = true
			k.flag = true
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() != l.h || web[v] {
				web[v] = true
				for i, e := range v.Edges {
					visit(e, v, i)
				}
				return
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && carry(v.Call.Args[0], map[ssa.Value]bool{}) {
					k.bag = true
					web[v] = true
					visit(v.Call.Args[0], nil, 0)
					return
				}
				if b.Name() == "max" || b.Name() == "min" {
					k.num = true
					web[v] = true
					for _, a := range v.Call.Args {
						if carry(a, map[ssa.Value]bool{}) {
							visit(a, nil, 0)
						}
					}
					return
				}
			}
		case *ssa.BinOp:
			cx, cy := carry(v.X, map[ssa.Value]bool{}), carry(v.Y, map[ssa.Value]bool{})
			if cx != cy {
				b, isBasic := v.Type().Underlying().(*types.Basic)
				comm := v.Op == token.ADD || v.Op == token.OR || v.Op == token.AND || v.Op == token.MUL || v.Op == token.XOR || (v.Op == token.SUB && cx)
				if isBasic && b.Info()&(types.IsInteger|types.IsBoolean) != 0 && comm {
					k.num = true
					web[v] = true
					if cx {
						visit(v.X, nil, 0)
					} else {
						visit(v.Y, nil, 0)
					}
					return
				}
				if isBasic && b.Info()&types.IsString != 0 {
					fail(v, "builds a text in the order of iteration")
					return
				}
			}
		}
		if !l.dep(v) {
			k.consts[v.Name()] = true
			k.flag = true
			return
		}
		// an extremum: kept only if it compares favourably with the one kept so far
		if from != nil && l.extremum(v, from, edge, web) {
			k.num = true
			return
		}
		fail(in, "keeps a value of one particular iteration (whichever comes last)")
	}
	for _, v := range back {
		visit(v, nil, 0)
	}
	return k
}

func (l *uloop) extremum(v ssa.Value, from *ssa.Phi, edge int, web map[ssa.Value]bool) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	q := from.Block().Preds[edge]
	for d := 0; q != nil && d < 3; d++ {
		if len(q.Instrs) > 0 {
			if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok {
				if b, ok := iff.Cond.(*ssa.BinOp); ok {
					switch b.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						if (b.X == v && web[b.Y]) || (b.Y == v && web[b.X]) {
							return true
						}
					}
				}
			}
		}
		if len(q.Preds) != 1 {
			break
		}
		q = q.Preds[0]
	}
	return false
}

// judge: what may be done with an accumulated value.
func (l *uloop) judge(k *accum, at ssa.Value, web map[ssa.Value]bool, in ssa.Instruction) {
	o := l.o
	if k.why != "" {
		o.bad(l.fn, "carried", k.in, "%s", k.why)
		return
	}
	n := 0
	for _, b := range []bool{k.bag, k.num, k.flag} {
		if b {
			n++
		}
	}
	if n == 0 {
		return // unchanged
	}
	if n > 1 || len(k.consts) > 1 {
		o.bad(l.fn, "carried", in, "what is carried to the next iteration depends on the order of iteration")
		return
	}
	for v := range web {
		for _, r := range referrers(v) {
			if !l.in[r.Block()] && !l.tail[r.Block()] {
				continue
			}
			if rv, ok := r.(ssa.Value); ok && web[rv] {
				continue
			}
			switch r := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.IndexAddr:
				if k.num && storesOnly(r) && r.Index == v {
					continue
				}
			case *ssa.BinOp:
				if k.num && extremumTest(r, web) {
					continue
				}
			case *ssa.Store:
				if k.bag || k.num {
					// memory accumulation: the store back
					if at == nil || l.memWeb(r, web) {
						continue
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && !l.dep(r) {
					continue
				}
			}
			o.bad(l.fn, "carried", r, "reads, inside the loop, what earlier iterations have accumulated")
		}
	}
	if k.bag {
		o.bag(l.fn, l, web, in)
	}
}

// counter: the value counts iterations in constant steps.
func (l *uloop) counter(phi *ssa.Phi) bool {
	for i, q := range l.h.Preds {
		if !l.in[q] {
			continue
		}
		b, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return false
		}
		if _, ok := b.Y.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

func storesOnly(ia *ssa.IndexAddr) bool {
	for _, r := range referrers(ia) {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
			return false
		}
	}
	return true
}

func extremumTest(b *ssa.BinOp, web map[ssa.Value]bool) bool {
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (l *uloop) memWeb(s *ssa.Store, web map[ssa.Value]bool) bool { return web[s.Val] }

// sameLoc: two addresses are the same expression.
func sameLoc(a, b ssa.Value) bool { return a == b || sameAddr(a, b) }

// effect checks one instruction of the loop.
func (l *uloop) effect(in ssa.Instruction, b *ssa.BasicBlock) {
	o, fn := l.o, l.fn
	switch in := in.(type) {
	case *ssa.MapUpdate:
		if in.Map == l.ranged && !l.isKey(in.Key) && l.dep(in.Key) {
			o.bad(fn, "grows", in, "adds entries to the map it iterates")
			return
		}
		if !l.dep(in.Value) {
			if l.early && l.in[b] && (l.dep(in.Key) || true) && l.outside(in.Map) {
				o.bad(fn, "partial", in, "how much the loop has filled in when it is left early depends on the order")
			}
			return
		}
		if l.fresh(in.Map) {
			return
		}
		if !l.isKey(in.Key) && !l.onlyKey(in.Value, in.Key) {
			o.bad(fn, "map entry", in, "which iteration's value ends up under a key depends on the order")
		} else if l.early && l.in[b] {
			o.bad(fn, "partial", in, "how much the loop has filled in when it is left early depends on the order")
		}
	case *ssa.Store:
		base, _ := addr(in.Addr)
		if l.fresh(base) || l.dep(base) {
			return
		}
		if !l.dep(in.Val) && !l.dep(in.Addr) {
			return
		}
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok && l.dep(ia.Index) {
			if l.isKey(ia.Index) {
				return
			}
			if phi, ok := ia.Index.(*ssa.Phi); ok && phi.Block() == l.h && l.counter(phi) {
				// fills consecutive elements
				if s, ok := ia.X.(*ssa.UnOp); ok && s.Op == token.MUL {
					o.memBag(fn, l, &ssa.Store{Addr: s.X, Val: ia.X})
					return
				}
				o.bag(fn, l, map[ssa.Value]bool{ia.X: true}, in)
				return
			}
			o.bad(fn, "element", in, "which iteration's value ends up at an index depends on the order")
			return
		}
		// accumulation in memory
		web := map[ssa.Value]bool{}
		prev := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sameLoc(u.X, in.Addr)
		}
		k := l.accumulate([]ssa.Value{in.Val}, prev, web, in.Val.Type())
		l.webs = append(l.webs, web)
		if k.bag && k.why == "" {
			l.judge(&accum{num: true, consts: map[string]bool{}}, nil, web, in)
			o.memBag(fn, l, in)
			return
		}
		l.judge(k, nil, web, in)
	case *ssa.Send:
		o.bad(fn, "send", in, "sends on a channel in the order of iteration")
	case *ssa.Go:
		o.bad(fn, "go", in, "starts goroutines in the order of iteration")
	case *ssa.Defer:
		o.bad(fn, "defer", in, "defers calls in the order of iteration")
	case *ssa.Call:
		l.call(in, b)
	}
}

func (l *uloop) outside(v ssa.Value) bool { return !l.fresh(v) }

// isKey: the value is the key of the iteration, so no two iterations have the same.
func (l *uloop) isKey(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return l.next != nil && x.Tuple == ssa.Value(l.next) && x.Index == 1
	case *ssa.ChangeType:
		return l.isKey(x.X)
	case *ssa.MakeInterface:
		return l.isKey(x.X)
	}
	return false
}

// onlyKey: the value is computed from the entry's key alone (and from what does not vary).
func (l *uloop) onlyKey(v, key ssa.Value) bool {
	if v == key || !l.dep(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Next, *ssa.Call, *ssa.Alloc:
		return false
	case *ssa.Extract:
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return false
		}
	case *ssa.Lookup:
		return false
	}
	var ops []*ssa.Value
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(ops) {
		if *op != nil && !l.onlyKey(*op, key) {
			return false
		}
	}
	return true
}

// fresh: memory created in the same iteration.
func (l *uloop) fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return l.in[x.Block()] || l.tail[x.Block()]
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return l.in[v.(ssa.Instruction).Block()]
	case *ssa.Slice:
		return l.fresh(x.X)
	case *ssa.FieldAddr:
		return l.fresh(x.X)
	case *ssa.IndexAddr:
		return l.fresh(x.X)
	case *ssa.MakeInterface:
		return l.fresh(x.X)
	case *ssa.ChangeType:
		return l.fresh(x.X)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && l.fresh(a) {
			return true
		}
	}
	return false
}

func (l *uloop) call(in *ssa.Call, b *ssa.BasicBlock) {
	o, fn := l.o, l.fn
	c := in.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			if !l.fresh(c.Args[0]) {
				o.bad(fn, "copy", in, "copies into memory that outlives the iteration")
			}
		case "print", "println":
			o.bad(fn, "print", in, "prints in the order of iteration")
		case "delete":
			if l.early && l.in[b] {
				o.bad(fn, "partial", in, "how much the loop has removed when it is left early depends on the order")
			}
		case "append":
			// an append that is not accumulated is a value like any other
		}
		return
	}
	name := strings.ReplaceAll(o.p.staticName(c), modPath+"/", "")
	if name == "" {
		name = "call"
	}
	// methods that only add to their receiver
	var targets []*ssa.Function
	if f := o.p.staticFn(c); f != nil {
		targets = append(targets, f)
	} else if n := o.p.CallGraph().Nodes[fn]; n != nil {
		for _, ed := range n.Out {
			if ed.Site == ssa.CallInstruction(in) {
				targets = append(targets, ed.Callee.Func)
			}
		}
	}
	if len(targets) == 0 {
		o.bad(fn, name, in, "calls something unknown in the order of iteration")
		return
	}
	for _, t := range targets {
		if !inRepo(t) {
			if o.quietCall(c) {
				if sortCall(t.String()) {
					if len(c.Args) > 0 && !l.fresh(stripIface(c.Args[0])) && !l.dep(c.Args[0]) {
						continue
					}
				}
				continue
			}
			if o.writerTo(c, func(w ssa.Value) bool { return l.fresh(stripIface(w)) }) {
				continue
			}
			o.bad(fn, name, in, "calls %s in the order of iteration", name)
			return
		}
		if o.emits[t] {
			o.bad(fn, name, in, "calls %s, which produces output, in the order of iteration", name)
			return
		}
		if sum := o.e.sums[t]; sum != nil && len(sum.calls) > 0 {
			// function values it was handed: closures made elsewhere may keep what they are given
			reach := o.p.reachableFrom(t)
			var kept *ssa.Function
			for g := range reach {
				if g.Parent() == nil || g == t || reach[g.Parent()] || !inRepo(g) {
					continue
				}
				for _, m := range o.e.Muts(g) {
					if (m.obj.kind == "free" || m.obj.kind == "global") && (kept == nil || g.String() < kept.String()) {
						kept = g
					}
				}
			}
			if kept != nil {
				o.bad(fn, name, in, "calls %s in the order of iteration, which passes things on to %s, which keeps them", name, funcName(kept))
				return
			}
		}
		for _, m := range o.e.Muts(t) {
			switch m.obj.kind {
			case "param":
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				if m.obj.idx < len(args) && (l.fresh(stripIface(args[m.obj.idx])) || l.dep(args[m.obj.idx])) {
					continue
				}
			case "global":
				if idempotentGlobal(m) {
					continue
				}
			case "unknown":
				continue
			}
			if m.obj.kind == "param" && addsOnly(m, t) {
				continue
			}
			// nothing that varies goes in: the same modification every time
			varies := false
			for _, a := range c.Args {
				varies = varies || l.dep(a)
			}
			if !varies && m.obj.kind == "param" {
				continue
			}
			o.bad(fn, name, in, "calls %s, which modifies %s, in the order of iteration", name, m.obj.describe(t))
			return
		}
	}
}

// addsOnly: the modification inserts a fixed value into a map, or removes an entry.
func addsOnly(m *emut, t *ssa.Function) bool {
	if m.site == nil || m.site.Parent() != t {
		return false
	}
	switch in := m.site.(type) {
	case *ssa.MapUpdate:
		_, ok := in.Value.(*ssa.Const)
		return ok
	case *ssa.Call:
		b, ok := in.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "delete"
	}
	return false
}

func idempotentGlobal(m *emut) bool { return false }

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

var quietPkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"errors": true, "sort": true, "slices": true, "maps": true, "bytes": true, "regexp": true, "math": true, "reflect": true, "cmp": true, "encoding/json": true,
	"regexp/syntax": true, "sync": true, "sync/atomic": true, "iter": true, "flag": false}

// quietCall: the call reads or computes, and writes nothing that can be observed later.
func (o *orders) quietCall(c *ssa.CallCommon) bool {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return true
	}
	f := o.p.staticFn(c)
	if f == nil {
		if c.IsInvoke() {
			switch c.Method.Name() {
			case "Error", "String", "Len", "Less", "Swap":
				return true
			}
			pk := c.Method.Pkg()
			if pk != nil && strings.HasPrefix(pk.Path(), modPath) {
				return true // resolved through the call graph
			}
			if pk != nil && (pk.Path() == "os" || pk.Path() == "io/fs") {
				return true // FileInfo
			}
			return false
		}
		return true // resolved through the call graph
	}
	if inRepo(f) {
		return true // judged by its own body
	}
	pk := fnPkg(f)
	if pk == nil {
		return true
	}
	n := f.String()
	switch pk.Path() {
	case "fmt":
		return strings.HasPrefix(n, "fmt.Sprint") || n == "fmt.Errorf" || strings.HasPrefix(n, "fmt.Sscan")
	case "os":
		switch n {
		case "os.ReadFile", "os.Stat", "os.Lstat", "os.Getwd", "os.IsNotExist", "os.IsExist", "os.Getenv", "os.Open", "os.ReadDir", "os.IsPathSeparator":
			return true
		}
		return strings.HasPrefix(n, "(os.FileMode)") || strings.HasPrefix(n, "(*os.PathError)")
	case "bytes", "strings":
		return !strings.HasPrefix(n, "(*bytes.Buffer).") && !strings.HasPrefix(n, "(*strings.Builder).")
	}
	if quietPkgs[pk.Path()] {
		return true
	}
	return strings.Contains(pk.Path(), "protobuf") && !strings.Contains(n, "Marshal")
}

// writerTo: the call writes to an in-memory writer satisfying pred.
func (o *orders) writerTo(c *ssa.CallCommon, pred func(ssa.Value) bool) bool {
	n := o.p.staticName(c)
	if strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder).") {
		return len(c.Args) > 0 && pred(c.Args[0])
	}
	return false
}

func sortCall(n string) bool {
	n = strings.Split(n, "[")[0]
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// ---- lists built in an arbitrary order

// bag checks that a list built in an arbitrary order is sorted before it is read.
func (o *orders) bag(fn *ssa.Function, l *uloop, web map[ssa.Value]bool, at ssa.Instruction) {
	o.c.Inst("unsorted", funcName(fn)+" "+o.p.instrPos(at))
	set := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !set[v] {
			set[v] = true
			work = append(work, v)
		}
	}
	for v := range web {
		add(v)
	}
	inLoop := func(b *ssa.BasicBlock) bool { return l != nil && (l.in[b] || l.tail[b]) }
	type use struct {
		in ssa.Instruction
		v  ssa.Value
	}
	var uses []use
	var sorts []ssa.Instruction
	dominated := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s.Block() == in.Block() {
				if instrIndex(s) < instrIndex(in) {
					return true
				}
			} else if s.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	// once to find where it is sorted, once to follow it until there
	for round := 0; round < 2; round++ {
		if round == 1 {
			set, uses = map[ssa.Value]bool{}, nil
			for v := range web {
				add(v)
			}
		}
		for len(work) > 0 {
			v := work[0]
			work = work[1:]
			for _, r := range referrers(v) {
				if inLoop(r.Block()) {
					if _, ok := r.(*ssa.Return); !ok {
						continue
					}
				}
				if round == 1 && dominated(r) {
					continue
				}
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.Phi:
					add(r)
				case *ssa.ChangeType:
					add(r)
				case *ssa.MakeInterface:
					add(r)
				case *ssa.BinOp: // comparison with nil
				case *ssa.Call:
					if b, ok := r.Call.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "append":
							add(r)
							continue
						case "len", "cap":
							continue
						}
					}
					if ok, _ := o.sorts(fn, r, v); ok {
						sorts = append(sorts, r)
						continue
					}
					uses = append(uses, use{r, v})
				default:
					uses = append(uses, use{r, v})
				}
			}
		}
	}
	for _, u := range uses {
		if dominated(u.in) {
			continue
		}
		switch in := u.in.(type) {
		case *ssa.Return:
			o.returned(fn, in, set)
			continue
		case *ssa.IndexAddr:
			if o.listLoop(fn, in, set) {
				continue
			}
		case *ssa.Call:
			if t := o.p.staticFn(in.Common()); t != nil && inRepo(t) && len(t.Blocks) > 0 {
				ok := true
				for i, a := range in.Call.Args {
					if set[a] {
						key := fmt.Sprintf("%s|%d", t, i)
						if !o.bagFn[key] {
							o.bagFn[key] = true
							o.bag(t, nil, map[ssa.Value]bool{t.Params[i]: true}, t.Blocks[0].Instrs[0])
						}
					}
				}
				if ok {
					continue
				}
			}
			if n := o.p.staticName(in.Common()); n == "slices.Contains" || strings.HasPrefix(n, "slices.Contains[") {
				continue
			}
		}
		o.bad(fn, "unsorted", u.in, "uses a list whose order is arbitrary (it was filled by iterating over a map) without sorting it")
	}
}

// sorts: the call puts the list into an order that does not depend on the one it had.
func (o *orders) sorts(fn *ssa.Function, call *ssa.Call, v ssa.Value) (bool, string) {
	t := o.p.staticFn(call.Common())
	if t == nil {
		return false, ""
	}
	n := strings.Split(t.String(), "[")[0]
	if sortCall(n) {
		switch n {
		case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
			return true, ""
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			if len(call.Call.Args) == 2 {
				o.comparator(fn, call, o.p.funcsOf(call.Call.Args[1]))
			}
			return true, ""
		case "sort.Sort", "sort.Stable":
			if ct, ok := v.(*ssa.MakeInterface); ok {
				less := o.p.SSA.LookupMethod(ct.X.Type(), nil, "Less")
				if less != nil {
					switch less.String() {
					case "(sort.StringSlice).Less", "(sort.IntSlice).Less":
						return true, ""
					}
					o.comparator(fn, call, []*ssa.Function{less})
				}
			}
			return true, ""
		}
	}
	if inRepo(t) {
		// a helper that sorts the list it is handed
		for i, a := range call.Call.Args {
			if a != v || i >= len(t.Params) {
				continue
			}
			vals := map[ssa.Value]bool{t.Params[i]: true}
			for again := true; again; {
				again = false
				for q := range vals {
					for _, r := range referrers(q) {
						switch r := r.(type) {
						case *ssa.ChangeType:
							if !vals[r] {
								vals[r], again = true, true
							}
						case *ssa.MakeInterface:
							if !vals[r] {
								vals[r], again = true, true
							}
						case *ssa.Call:
							if ok, _ := o.sorts(t, r, q); ok {
								return true, ""
							}
						}
					}
				}
			}
		}
	}
	return false, ""
}

// comparator: equal elements of an arbitrary order stay in that order, so distinct elements must
// not compare equal: the comparison must look at the elements themselves.
func (o *orders) comparator(fn *ssa.Function, call *ssa.Call, less []*ssa.Function) {
	for _, f := range less {
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, isRet := in.(*ssa.Return); isRet && len(ret.Results) == 1 && len(f.Blocks) == 1 {
					if c, isC := ret.Results[0].(*ssa.BinOp); isC && (c.Op == token.LSS || c.Op == token.GTR) && wholeElement(c.X) && wholeElement(c.Y) {
						ok = true
					}
				}
			}
		}
		if !ok {
			o.bad(fn, "comparator", call, "sorts a list of arbitrary order with a comparison that may call different elements equal")
		}
	}
	if len(less) == 0 {
		o.bad(fn, "comparator", call, "sorts a list of arbitrary order with an unknown comparison")
	}
}

func wholeElement(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			_, ok := x.X.(*ssa.IndexAddr)
			return ok
		}
	case *ssa.Parameter:
		return true
	}
	return false
}

// listLoop: an element of an unordered list is read; the loop doing so is an unordered loop too.
func (o *orders) listLoop(fn *ssa.Function, ia *ssa.IndexAddr, set map[ssa.Value]bool) bool {
	l := loopOf(fn, ia.Block())
	if l == nil {
		return false
	}
	h := headerOf(l)
	// the index counts from 0 (or -1) by one
	var idx ssa.Value = ia.Index
	var phi *ssa.Phi
	switch x := idx.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD {
			phi = p
		}
	}
	if phi == nil || phi.Block() != h {
		return false
	}
	for v := range map[ssa.Value]bool{phi: true, idx: true} {
		for _, r := range referrers(v) {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				if !set[r.X] {
					return false
				}
			case *ssa.BinOp, *ssa.Phi, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	if o.done[fn] == nil {
		o.done[fn] = map[*ssa.BasicBlock]bool{}
	}
	if o.done[fn][h] {
		return true
	}
	o.done[fn][h] = true
	o.loops++
	ul := &uloop{o: o, fn: fn, h: h, in: l, tail: map[*ssa.BasicBlock]bool{}, deps: map[ssa.Value]int{}, src: set, index: phi}
	ul.deps[idx] = 1
	ul.deps[phi] = 1
	ul.index = idx
	if idx != ssa.Value(phi) {
		// range loops: the phi is the previous index
		ul.webs = append(ul.webs, map[ssa.Value]bool{phi: true})
	}
	ul.checkList(phi)
	return true
}

func (l *uloop) checkList(phi *ssa.Phi) {
	idx := l.index
	l.index = phi
	save := idx
	l.deps[phi] = 1
	l.deps[save] = 1
	// elements are recognised through the index actually used
	l.index = save
	for _, b := range l.fn.Blocks {
		if !l.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && l.src[ia.X] && ia.Index == save {
				l.deps[ia] = 2
			}
		}
	}
	l.index = phi
	l.check()
}

// returned: the list is a result of the function: its callers must sort it.
func (o *orders) returned(fn *ssa.Function, ret *ssa.Return, set map[ssa.Value]bool) {
	for i, v := range ret.Results {
		if !set[v] {
			continue
		}
		key := fmt.Sprintf("%s|ret%d", fn, i)
		if o.bagFn[key] {
			continue
		}
		o.bagFn[key] = true
		n := o.p.CallGraph().Nodes[fn]
		sites := 0
		if n != nil {
			for _, ed := range n.In {
				call, ok := ed.Site.(*ssa.Call)
				if !ok || !inRepo(ed.Caller.Func) || len(ed.Caller.Func.Blocks) == 0 {
					continue
				}
				if ed.Caller.Func.Synthetic != "" && ed.Caller.Func.Pkg == nil {
					continue
				}
				sites++
				var res ssa.Value = call
				if fn.Signature.Results().Len() > 1 {
					res = nil
					for _, r := range referrers(call) {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
							res = ex
						}
					}
				}
				if res != nil {
					o.bag(ed.Caller.Func, nil, map[ssa.Value]bool{res: true}, call)
				}
			}
		}
		exported := fn.Object() != nil && token.IsExported(fn.Name())
		if exported || sites == 0 {
			o.bad(fn, "unsorted", ret, "returns a list whose order is arbitrary (it was filled by iterating over a map)")
		}
	}
}

// memBag: a list accumulated in memory must be sorted before it is read.
func (o *orders) memBag(fn *ssa.Function, l *uloop, st *ssa.Store) {
	o.c.Inst("unsorted", funcName(fn)+" "+o.p.instrPos(st))
	base, _ := addr(st.Addr)
	a, ok := base.(*ssa.Alloc)
	if !ok {
		o.bad(fn, "unsorted", st, "fills a list that outlives the function in the order of iteration")
		return
	}
	var sorts, uses []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && sameLoc(u.X, st.Addr) && !l.in[b] {
				isSort := false
				vals := []ssa.Value{u}
				for i := 0; i < len(vals); i++ {
					for _, r := range referrers(vals[i]) {
						switch r := r.(type) {
						case *ssa.MakeInterface:
							vals = append(vals, r)
						case *ssa.ChangeType:
							vals = append(vals, r)
						case *ssa.Call:
							if ok, _ := o.sorts(fn, r, vals[i]); ok {
								isSort = true
								sorts = append(sorts, r)
							}
						}
					}
				}
				if !isSort && !o.appendsBack(u, st.Addr) {
					uses = append(uses, in)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				for _, bd := range mc.Bindings {
					if bd == ssa.Value(a) {
						// comparators read the list while it is sorted
						sorter := false
						for _, r := range referrers(mc) {
							if rc, ok := r.(*ssa.Call); ok && sortCall(o.p.staticName(rc.Common())) {
								sorter = true
							}
						}
						if !sorter {
							uses = append(uses, in)
						}
					}
				}
			}
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if (s.Block() == u.Block() && instrIndex(s) < instrIndex(u)) || (s.Block() != u.Block() && s.Block().Dominates(u.Block())) {
				ok = true
			}
		}
		// before the loop
		if !ok && !reaches(l.h, u.Block()) {
			ok = true
		}
		if !ok {
			o.bad(fn, "unsorted", u, "uses a list whose order is arbitrary (it was filled by iterating over a map) without sorting it")
		}
	}
}

// appendsBack: the list is read only to append to it.
func (o *orders) appendsBack(u *ssa.UnOp, loc ssa.Value) bool {
	n := 0
	for _, r := range referrers(u) {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		call, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || (b.Name() != "append" && b.Name() != "len") {
			return false
		}
		if b.Name() == "len" {
			continue
		}
		if call.Call.Args[0] != ssa.Value(u) {
			return false
		}
		for _, q := range referrers(call) {
			st, ok := q.(*ssa.Store)
			if !ok || !sameLoc(st.Addr, loc) {
				return false
			}
			n++
		}
	}
	return n > 0
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		for _, s := range q.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

var _ = sort.Strings
