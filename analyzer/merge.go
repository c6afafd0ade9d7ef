package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joining disjuncts. Two states that reach the same program point with the same property state
// (the rule's events and notes, its protected facts, and the constants held by live variables) are
// merged: facts that do not hold in both are forgotten, and slots that differ get a join name.

// softNote: notes whose name starts with ~ do not keep states apart; when states are merged they are
// joined like variables, keeping track of which variables hold the same value.
func softNote(k string) bool { return strings.HasPrefix(k, "~") }

type hash2 struct{ a, b uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (h *hash2) add(vs ...uint64) {
	x, y := uint64(0x9e3779b97f4a7c15), uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		x = mix(x ^ v)
		y = mix(y*31 + v + 0x7f4a7c15)
	}
	h.a += x
	h.b += y
}

func strHash(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// discriminating values split states even when nothing else does.
func discr(t *T) bool {
	switch t.op {
	case "const", "nil", "nonnil", "func", "closure":
		return true
	case "tuple":
		for _, a := range t.args {
			if discr(a) {
				return true
			}
		}
	}
	return false
}

func discrHash(t *T) uint64 {
	if t.op == "tuple" {
		x := uint64(77)
		for _, a := range t.args {
			if discr(a) {
				x = mix(x ^ uint64(a.id) + 1)
			} else {
				x = mix(x)
			}
		}
		return x
	}
	return uint64(t.id)
}

// propKey is the property state of s; level 0 is the finest.
func (e *Engine) propKey(s *S, ret *T, level int) hash2 {
	var h hash2
	for k, v := range s.ev {
		h.add(1, strHash(k), strHash(v))
	}
	for k, v := range s.note {
		if !softNote(k) {
			h.add(2, strHash(k), uint64(v.id))
		}
	}
	for i, d := range s.defers {
		h.add(3, uint64(i), uint64(d.fn.id))
	}
	if level <= 1 && e.R.Protect != nil {
		for k, v := range s.atoms {
			if e.R.Protect(k) {
				h.add(4, uint64(k.id), b2u(v))
			}
		}
		for k, v := range s.eqc {
			if e.R.Protect(k) {
				h.add(5, uint64(k.id), uint64(v.id))
			}
		}
	}
	if level <= 1 && e.R.EnvKey != nil {
		for k, v := range s.env {
			if n := e.R.EnvKey(e, s, k, v); n != 0 {
				h.add(9, strHash(k.Name()), uint64(n))
			}
		}
	}
	if level == 0 {
		for k, v := range s.env {
			if discr(v) || e.R.Split != nil && e.R.Split(v) {
				h.add(6, strHash(k.Name()), discrHash(v))
			}
		}
		for k, v := range s.mem {
			if discr(v) && (e.R.ProtectMem != nil && e.R.ProtectMem(k) || k.op == "alloc" && !k.heap) {
				h.add(7, uint64(k.id), discrHash(v))
			}
		}
	}
	if ret != nil && (discr(ret) || e.R.Split != nil && e.R.Split(ret)) {
		h.add(8, discrHash(ret))
	}
	return h
}

// full is a hash of the whole state.
func (s *S) full() hash2 {
	var h hash2
	for k, v := range s.atoms {
		h.add(11, uint64(k.id), b2u(v))
	}
	for k, v := range s.eqc {
		h.add(12, uint64(k.id), uint64(v.id))
	}
	for k, v := range s.lo {
		h.add(13, uint64(k.id), uint64(v))
	}
	for k, v := range s.hi {
		h.add(14, uint64(k.id), uint64(v))
	}
	for k, v := range s.mem {
		h.add(15, uint64(k.id), uint64(v.id))
	}
	for k, v := range s.epoch {
		h.add(16, strHash(k), uint64(v.id))
	}
	for k, v := range s.ev {
		h.add(17, strHash(k), strHash(v))
	}
	for k, v := range s.note {
		h.add(18, strHash(k), uint64(v.id))
	}
	for k, v := range s.env {
		h.add(19, strHash(k.Name()), uint64(v.id))
	}
	for i, d := range s.defers {
		h.add(20, uint64(i), uint64(d.fn.id))
	}
	return h
}

func (e *Engine) joinName(where, slot string, typ types.Type) *T {
	t := e.tb.mk("opaque", "join|"+where+"|"+slot)
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

// merge joins b into a (same property key) and returns the result; where names the join point.
func (e *Engine) merge(a, b *S, where string, n int) *S {
	a = a.fork()
	b = b.fork()
	type slotE struct {
		name string
		j    *T
		av   *T
		bv   *T
		set  func(*T)
		self bool
	}
	// 1. find differing slots
	var slots []slotE
	fresh := map[int]bool{}
	mkSlot := func(name string, typ types.Type, av, bv *T, set func(*T)) {
		j := e.joinName(where, name, typ)
		slots = append(slots, slotE{name, j, av, bv, set, av == j})
		fresh[j.id] = true
	}
	res := &S{State: newState(), env: map[ssa.Value]*T{}}
	for k, v := range a.ev {
		res.ev[k] = v
	}
	for k, v := range a.note {
		if w := b.note[k]; w != v {
			if softNote(k) && w != nil {
				kk := k
				mkSlot("note."+k, v.typ, v, w, func(t *T) { res.note[kk] = t })
			}
			continue
		}
		res.note[k] = v
	}
	res.defers = append([]deferred{}, a.defers...)
	for i := range res.defers {
		if i >= len(b.defers) {
			continue
		}
		x, y := res.defers[i], b.defers[i]
		args := append([]*T{}, x.args...)
		res.defers[i].args = args
		for k := range args {
			if k < len(y.args) && args[k] != y.args[k] {
				kk := k
				mkSlot(fmt.Sprintf("defer%d.%d", i, k), args[k].typ, args[k], y.args[k], func(t *T) { args[kk] = t })
			}
		}
	}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			continue
		}
		if v == w {
			res.env[k] = v
			continue
		}
		kk := k
		mkSlot("env."+k.Name(), k.Type(), v, w, func(t *T) { res.env[kk] = t })
	}
	addrType := func(ad *T) types.Type {
		if ad.op == "alloc" {
			return ad.typ
		}
		if ad.typ != nil {
			if p, ok := ad.typ.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
		return nil
	}
	look := func(s *S, ad *T) *T {
		if v := s.mem[ad]; v != nil {
			return v
		}
		if t := addrType(ad); t != nil {
			return e.Load(s.State, ad, t)
		}
		return nil
	}
	memSlot := func(ad *T) {
		if res.mem[ad] != nil {
			return
		}
		v, w := look(a, ad), look(b, ad)
		if v != nil && v == w {
			res.mem[ad] = v
			return
		}
		x := ad
		mkSlot(fmt.Sprintf("mem.%d", ad.id), addrType(ad), v, w, func(t *T) { res.mem[x] = t })
	}
	for ad := range a.mem {
		memSlot(ad)
	}
	for ad := range b.mem {
		if _, ok := a.mem[ad]; !ok {
			memSlot(ad)
		}
	}
	for c, v := range a.epoch {
		if b.epoch[c] == v {
			res.epoch[c] = v
			continue
		}
		cc := c
		mkSlot("ep."+c, nil, v, b.epoch[c], func(t *T) { res.epoch[cc] = t })
	}
	for c, v := range b.epoch {
		if a.epoch[c] == nil {
			cc := c
			mkSlot("ep."+c, nil, nil, v, func(t *T) { res.epoch[cc] = t })
		}
	}
	// slots that hold the same value in a and the same value in b share one name
	sort.Slice(slots, func(i, j int) bool { return slots[i].name < slots[j].name })
	byPair := map[[2]*T]*T{}
	for i := range slots {
		sl := &slots[i]
		if sl.av == nil || sl.bv == nil {
			continue
		}
		pr := [2]*T{sl.av, sl.bv}
		if j := byPair[pr]; j != nil {
			sl.j = j
			sl.self = sl.av == j
		} else {
			byPair[pr] = sl.j
		}
	}
	// 2. facts that hold in both
	for k, v := range a.atoms {
		if w, ok := b.atoms[k]; ok && v == w {
			res.atoms[k] = v
		} else if !ok && e.Eval(b.State, k) == toTri(v) {
			res.atoms[k] = v
		}
	}
	for k, v := range b.atoms {
		if _, ok := a.atoms[k]; !ok && e.Eval(a.State, k) == toTri(v) {
			res.atoms[k] = v
		}
	}
	for k, v := range a.eqc {
		if b.eqc[k] == v {
			res.eqc[k] = v
		}
	}
	for k, v := range a.lo {
		if w, ok := e.lower(b.State, k); ok {
			if w == v || n < 4 && w > v {
				res.lo[k] = v
			} else if w > v {
				res.lo[k] = v
			} else if n < 4 {
				res.lo[k] = w
			}
		}
	}
	for k, v := range a.hi {
		if w, ok := e.upper(b.State, k); ok {
			if w <= v {
				res.hi[k] = v
			} else if n < 4 {
				res.hi[k] = w
			}
		}
	}
	if len(slots) == 0 {
		return res
	}
	// 3. a join name used for the previous visit of this point now means something else: forget
	// facts about it that b may have recorded about the older value, and terms built from it.
	type summary struct {
		nonnil bool
		lo     int64
		lok    bool
		len1   int64
		atoms  map[*T]bool // facts that hold of the value on both sides, about the common name
		los    map[*T]int64
	}
	var sums []summary
	for _, sl := range slots {
		var su summary
		if sl.av != nil && sl.bv != nil {
			su.nonnil = e.nonNil(a.State, sl.av) && e.nonNil(b.State, sl.bv)
			if sl.j.typ != nil && isIntType(sl.j.typ) {
				l1, o1 := e.lower(a.State, sl.av)
				l2, o2 := e.lower(b.State, sl.bv)
				if o1 && o2 && l1 >= 0 && l2 >= 0 {
					su.lok = true
					if l1 > 0 && l2 > 0 {
						su.lo = 1
					}
				}
			}
			if sl.j.typ != nil {
				if _, ok := sl.j.typ.Underlying().(*types.Slice); ok || isStringType(sl.j.typ) {
					l1, o1 := e.lower(a.State, e.tb.Len(sl.av))
					l2, o2 := e.lower(b.State, e.tb.Len(sl.bv))
					if o1 && o2 && l1 > 0 && l2 > 0 {
						su.len1 = 1
						if e.R.JoinFacts && n < 12 && ok {
							su.len1 = min(l1, l2)
						}
					}
				}
				switch sl.j.typ.Underlying().(type) {
				case *types.Slice, *types.Pointer, *types.Interface:
					if e.R.JoinFacts && n < 12 {
						su.atoms, su.los = e.common(a, b, sl.j, sl.av, sl.bv, fresh)
					}
				}
			}
			if e.R.JoinFacts && n < 12 && strings.HasPrefix(sl.name, "ep.") {
				su.atoms, su.los = e.common(a, b, sl.j, sl.av, sl.bv, fresh)
			}
		}
		sums = append(sums, su)
	}
	for _, sl := range slots {
		res.dropJoin(sl.j.id, e, where)
	}
	softJoin := map[string]bool{}
	joined := map[string]bool{}
	for i, sl := range slots {
		sl.set(sl.j)
		joined[sl.name] = true
		if strings.HasPrefix(sl.name, "note.~") {
			softJoin[sl.name[5:]] = true
		}
		e.addOrigin(sl.j, sl.av)
		e.addOrigin(sl.j, sl.bv)
		if sums[i].nonnil {
			res.atoms[e.tb.mk("==", "", sl.j, e.tb.Nil())] = false
		}
		if sums[i].lok {
			res.lo[sl.j] = sums[i].lo
		}
		for k, v := range sums[i].atoms {
			res.atoms[k] = v
		}
		for k, v := range sums[i].los {
			res.lo[k] = v
		}
		if ln := e.tb.Len(sl.j); sums[i].len1 > res.lo[ln] {
			res.lo[ln] = sums[i].len1
		}
	}
	// slots whose kept value still mentions a re-used join name become join slots themselves
	for changed := true; changed; {
		changed = false
		for k, v := range res.env {
			if joined["env."+k.Name()] {
				continue
			}
			if j := e.joinName(where, "env."+k.Name(), k.Type()); v != j && mentionsAny(v, fresh) {
				res.env[k] = j
				if !fresh[j.id] {
					fresh[j.id] = true
					res.dropJoin(j.id, e, where)
					res.env[k] = j
				}
				changed = true
			}
		}
		for ad, v := range res.mem {
			if mentionsAny(ad, fresh) {
				// the address now names another object
				if _, isJ := res.mem[ad]; isJ {
					delete(res.mem, ad)
				}
				continue
			}
			if joined[fmt.Sprintf("mem.%d", ad.id)] {
				continue
			}
			if j := e.joinName(where, fmt.Sprintf("mem.%d", ad.id), addrType(ad)); v != j && mentionsAny(v, fresh) {
				res.mem[ad] = j
				if !fresh[j.id] {
					fresh[j.id] = true
					res.dropJoin(j.id, e, where)
					res.mem[ad] = j
				}
				changed = true
			}
		}
	}
	for k, v := range res.note {
		if mentionsAny(v, fresh) && !softJoin[k] {
			delete(res.note, k)
		}
	}
	return res
}

// common: what is known of av in a and of bv in b alike, said of j.
func (e *Engine) common(a, b *S, j, av, bv *T, fresh map[int]bool) (map[*T]bool, map[*T]int64) {
	atoms, los := map[*T]bool{}, map[*T]int64{}
	if av.op == "nil" || av.op == "const" || bv.op == "nil" || bv.op == "const" {
		return nil, nil
	}
	usable := func(k *T) bool {
		for _, l := range k.leaves {
			if fresh[l] && !(l == j.id && av == j) {
				return false
			}
		}
		return true
	}
	toB, toJ := map[*T]*T{}, map[*T]*T{}
	for k, v := range a.atoms {
		if k.id <= av.id || !usable(k) {
			continue
		}
		kb := e.substAny(k, av, bv, toB)
		if kb == k {
			continue
		}
		if av == j {
			for _, l := range kb.leaves {
				if l == j.id {
					kb = nil
					break
				}
			}
		}
		if kb != nil && e.Eval(b.State, kb) == toTri(v) {
			atoms[e.substAny(k, av, j, toJ)] = v
		}
	}
	see := func(k *T) {
		if k.id <= av.id || !usable(k) {
			return
		}
		kb := e.substAny(k, av, bv, toB)
		if kb == k || av == j && kb.hasLeaf(j.id) {
			return
		}
		l1, o1 := e.lower(a.State, k)
		l2, o2 := e.lower(b.State, kb)
		if o1 && o2 && l1 > 0 && l2 > 0 {
			if l2 < l1 {
				l1 = l2
			}
			los[e.substAny(k, av, j, toJ)] = l1
		}
	}
	for k := range a.lo {
		see(k)
	}
	for k := range a.eqc {
		if k.op == "len" {
			see(k)
		}
	}
	return atoms, los
}

// substAny replaces old by new in t; old need not be a leaf.
func (e *Engine) substAny(t, old, new *T, memo map[*T]*T) *T {
	if t == old {
		return new
	}
	if t.id < old.id || len(t.args) == 0 {
		return t
	}
	if m, ok := memo[t]; ok {
		return m
	}
	same := true
	args := make([]*T, len(t.args))
	for i, a := range t.args {
		args[i] = e.substAny(a, old, new, memo)
		same = same && args[i] == a
	}
	n := t
	if !same {
		n = e.tb.mk(t.op, t.aux, args...)
		if n.typ == nil {
			n.typ = t.typ
		}
		n.fn, n.cst = t.fn, t.cst
	}
	memo[t] = n
	return n
}

func mentionsAny(t *T, ids map[int]bool) bool {
	for _, l := range t.leaves {
		if ids[l] {
			return true
		}
	}
	return false
}

// dropJoin forgets facts about a join name that is being re-used.
func (s *S) dropJoin(id int, e *Engine, where string) {
	for k := range s.atoms {
		if k.hasLeaf(id) {
			delete(s.atoms, k)
		}
	}
	for k, v := range s.eqc {
		if k.hasLeaf(id) || v.hasLeaf(id) {
			delete(s.eqc, k)
		}
	}
	for k := range s.lo {
		if k.hasLeaf(id) {
			delete(s.lo, k)
		}
	}
	for k := range s.hi {
		if k.hasLeaf(id) {
			delete(s.hi, k)
		}
	}
	for k, v := range s.epoch {
		if v.hasLeaf(id) && !strings.HasPrefix(v.aux, "join|"+where) {
			s.epoch[k] = e.joinName(where, "ep."+k, nil)
		}
	}
	for k, v := range s.note {
		if v.hasLeaf(id) {
			delete(s.note, k)
		}
	}
}

// addOrigin records, independently of any state, the values a join name may stand for.
func (e *Engine) addOrigin(j, v *T) {
	m := e.origin[j.id]
	if m == nil {
		m = map[*T]bool{}
		e.origin[j.id] = m
	}
	if v == nil {
		v = e.tb.mk("opaque", "unknown")
	}
	m[v] = true
}

// Origins expands join names into the values they may stand for.
func (e *Engine) Origins(t *T) []*T {
	var out []*T
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		x := t
		if t.op == "stale" {
			var id int
			fmt.Sscan(t.aux, &id)
			x = e.tb.all[id]
		}
		if m := e.origin[x.id]; m != nil {
			for v := range m {
				rec(v)
			}
			return
		}
		out = append(out, t)
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
