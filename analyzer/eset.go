package main

import (
	"iter"
	"math/bits"
	"sort"
)

// eset is a set of abstract objects, as a sparse bit set over their ids; a nil *eset is empty.
type eset struct {
	idx []uint32
	w   []uint64
	n   int
}

var effObjs []*eobj // by id

func set1(os ...*eobj) *eset {
	s := &eset{}
	for _, o := range os {
		s.put(o)
	}
	return s
}

func (s *eset) len() int {
	if s == nil {
		return 0
	}
	return s.n
}

func (s *eset) find(i uint32) (int, bool) {
	if n := len(s.idx); n == 0 || s.idx[n-1] < i {
		return n, false
	}
	k := sort.Search(len(s.idx), func(k int) bool { return s.idx[k] >= i })
	return k, k < len(s.idx) && s.idx[k] == i
}

func (s *eset) has(o *eobj) bool {
	if s == nil {
		return false
	}
	k, ok := s.find(uint32(o.id) >> 6)
	return ok && s.w[k]&(1<<(uint(o.id)&63)) != 0
}

func (s *eset) put(o *eobj) {
	i, m := uint32(o.id)>>6, uint64(1)<<(uint(o.id)&63)
	k, ok := s.find(i)
	if ok {
		if s.w[k]&m == 0 {
			s.w[k] |= m
			s.n++
		}
		return
	}
	s.idx = append(s.idx, 0)
	s.w = append(s.w, 0)
	copy(s.idx[k+1:], s.idx[k:])
	copy(s.w[k+1:], s.w[k:])
	s.idx[k], s.w[k] = i, m
	s.n++
}

func (s *eset) del(o *eobj) {
	i, m := uint32(o.id)>>6, uint64(1)<<(uint(o.id)&63)
	if k, ok := s.find(i); ok && s.w[k]&m != 0 {
		s.w[k] &^= m
		s.n--
	}
}

// all iterates over a snapshot of the set, in order of creation of the objects.
func (s *eset) all() iter.Seq[*eobj] {
	return func(yield func(*eobj) bool) {
		if s == nil {
			return
		}
		idx := append([]uint32(nil), s.idx...)
		w := append([]uint64(nil), s.w...)
		for k := 0; k < len(idx); k++ {
			for x := w[k]; x != 0; x &= x - 1 {
				if !yield(effObjs[int(idx[k])<<6+bits.TrailingZeros64(x)]) {
					return
				}
			}
		}
	}
}

func (s *eset) clone() *eset {
	if s == nil {
		return &eset{}
	}
	return &eset{idx: append([]uint32(nil), s.idx...), w: append([]uint64(nil), s.w...), n: s.n}
}

func (s *eset) addAll(t *eset) bool {
	if t == nil || t.n == 0 || s == t {
		return false
	}
	// nothing new?
	sub := true
	i := 0
	for k, x := range t.idx {
		for i < len(s.idx) && s.idx[i] < x {
			i++
		}
		if i >= len(s.idx) || s.idx[i] != x {
			if t.w[k] != 0 {
				sub = false
				break
			}
			continue
		}
		if t.w[k]&^s.w[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return false
	}
	ni := make([]uint32, 0, len(s.idx)+len(t.idx))
	nw := make([]uint64, 0, len(s.idx)+len(t.idx))
	n := 0
	i, k := 0, 0
	for i < len(s.idx) || k < len(t.idx) {
		var x uint32
		var w uint64
		switch {
		case k >= len(t.idx) || i < len(s.idx) && s.idx[i] < t.idx[k]:
			x, w = s.idx[i], s.w[i]
			i++
		case i >= len(s.idx) || t.idx[k] < s.idx[i]:
			x, w = t.idx[k], t.w[k]
			k++
		default:
			x, w = s.idx[i], s.w[i]|t.w[k]
			i++
			k++
		}
		if w != 0 {
			ni = append(ni, x)
			nw = append(nw, w)
			n += bits.OnesCount64(w)
		}
	}
	s.idx, s.w, s.n = ni, nw, n
	return true
}

func union(a, b *eset) *eset {
	if b.len() == 0 {
		return a
	}
	if a.len() == 0 {
		return b
	}
	r := a.clone()
	r.addAll(b)
	return r
}
