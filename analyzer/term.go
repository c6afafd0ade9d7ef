package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is an interned abstract value: a value number built from the operations that define it.
// Two occurrences of the same T denote the same value.
type T struct {
	id     int
	op     string
	aux    string
	args   []*T
	fn     *ssa.Function  // func, closure
	cst    constant.Value // const
	typ    types.Type     // alloc, zero: the type
	leaves []int          // ids of the opaque leaves it is built from, sorted
	depth  int
	heap   bool // alloc: its address escapes the defining function
	val    ssa.Value
}

// Table interns terms.
type Table struct {
	m   map[string]*T
	all []*T
}

func newTable() *Table { return &Table{m: map[string]*T{}} }

func isOpaqueOp(op string) bool { return op == "opaque" || op == "alloc" || op == "stale" }

func (tb *Table) mk(op, aux string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "\x00%d", a.id)
	}
	k := sb.String()
	if t := tb.m[k]; t != nil {
		return t
	}
	t := &T{id: len(tb.all), op: op, aux: aux, args: args}
	set := map[int]bool{}
	for _, a := range args {
		for _, l := range a.leaves {
			set[l] = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	if isOpaqueOp(op) {
		set[t.id] = true
	}
	for l := range set {
		t.leaves = append(t.leaves, l)
	}
	sort.Ints(t.leaves)
	tb.m[k] = t
	tb.all = append(tb.all, t)
	return t
}

func (t *T) hasLeaf(id int) bool {
	i := sort.SearchInts(t.leaves, id)
	return i < len(t.leaves) && t.leaves[i] == id
}

func (tb *Table) Const(v constant.Value) *T {
	t := tb.mk("const", v.ExactString())
	t.cst = v
	return t
}
func (tb *Table) Int(i int64) *T { return tb.Const(constant.MakeInt64(i)) }
func (tb *Table) Bool(b bool) *T { return tb.Const(constant.MakeBool(b)) }
func (tb *Table) Nil() *T        { return tb.mk("nil", "") }

// Zero is the zero value of a type.
func (tb *Table) Zero(typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tb.Bool(false)
		case u.Info()&types.IsString != 0:
			return tb.Const(constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return tb.Int(0)
		case u.Info()&types.IsFloat != 0:
			return tb.Const(constant.MakeFloat64(0))
		}
		return tb.Nil()
	case *types.Struct, *types.Array:
		t := tb.mk("zero", typ.String())
		t.typ = typ
		return t
	case *types.Tuple:
		var as []*T
		for i := 0; i < u.Len(); i++ {
			as = append(as, tb.Zero(u.At(i).Type()))
		}
		return tb.mk("tuple", "", as...)
	}
	return tb.Nil()
}

func (tb *Table) Not(t *T) *T {
	if t.op == "not" {
		return t.args[0]
	}
	if t.op == "const" && t.cst.Kind() == constant.Bool {
		return tb.Bool(!constant.BoolVal(t.cst))
	}
	return tb.mk("not", "", t)
}

func isInt(t *T) (int64, bool) {
	if t.op == "const" && t.cst.Kind() == constant.Int {
		v, ok := constant.Int64Val(t.cst)
		return v, ok
	}
	return 0, false
}

func isStr(t *T) (string, bool) {
	if t.op == "const" && t.cst.Kind() == constant.String {
		return constant.StringVal(t.cst), true
	}
	return "", false
}

// lin splits t into base + c (base nil for constants).
func lin(t *T) (*T, int64) {
	if c, ok := isInt(t); ok {
		return nil, c
	}
	if t.op == "add" {
		if c, ok := isInt(t.args[1]); ok {
			return t.args[0], c
		}
	}
	return t, 0
}

func (tb *Table) Add(a, b *T) *T {
	ab, ac := lin(a)
	bb, bc := lin(b)
	switch {
	case ab == nil && bb == nil:
		return tb.Int(ac + bc)
	case ab == nil:
		return tb.addc(bb, ac+bc)
	case bb == nil:
		return tb.addc(ab, ac+bc)
	}
	if ab.id > bb.id {
		ab, bb = bb, ab
	}
	return tb.addc(tb.mk("sum", "", ab, bb), ac+bc)
}

func (tb *Table) addc(base *T, c int64) *T {
	if c == 0 {
		return base
	}
	return tb.mk("add", "", base, tb.Int(c))
}

func (tb *Table) Eq(a, b *T) *T {
	if a.op == "const" || a.op == "nil" || (b.op != "const" && b.op != "nil" && a.id > b.id) {
		a, b = b, a
	}
	if b.op == "const" && b.cst.Kind() == constant.Bool {
		if constant.BoolVal(b.cst) {
			return a
		}
		return tb.Not(a)
	}
	// bytes.Compare(x, y) == 0 and strings.Compare are equality.
	if c, ok := isInt(b); ok && c == 0 && (a.op == "call" && (a.aux == "bytes.Compare" || a.aux == "strings.Compare")) {
		return tb.Equal(a.args[0], a.args[1])
	}
	// string(x) == string(y) is content equality.
	if a.op == "conv" && b.op == "conv" && a.aux == "string" && b.aux == "string" {
		return tb.Equal(a.args[0], b.args[0])
	}
	return tb.mk("==", "", a, b)
}

// Equal is content equality of two byte slices.
func (tb *Table) Equal(a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk("bytesEqual", "", a, b)
}

func (tb *Table) Bin(op token.Token, a, b *T, typ types.Type) *T {
	switch op {
	case token.EQL:
		return tb.foldCmp(op, a, b, tb.Eq(a, b))
	case token.NEQ:
		return tb.foldCmp(op, a, b, tb.Not(tb.Eq(a, b)))
	case token.LSS:
		return tb.foldCmp(op, a, b, tb.mk("<", "", a, b))
	case token.GTR:
		return tb.foldCmp(op, a, b, tb.mk("<", "", b, a))
	case token.LEQ:
		return tb.foldCmp(op, a, b, tb.Not(tb.mk("<", "", b, a)))
	case token.GEQ:
		return tb.foldCmp(op, a, b, tb.Not(tb.mk("<", "", a, b)))
	}
	if basic, ok := typ.Underlying().(*types.Basic); ok && basic.Info()&types.IsInteger != 0 {
		switch op {
		case token.ADD:
			return tb.Add(a, b)
		case token.SUB:
			if c, ok := isInt(b); ok {
				return tb.Add(a, tb.Int(-c))
			}
			ab, ac := lin(a)
			bb, bc := lin(b)
			if ab == bb && ab != nil {
				return tb.Int(ac - bc)
			}
			if ab != nil && ab.op == "sum" && bb != nil {
				if ab.args[0] == bb {
					return tb.addc(ab.args[1], ac-bc)
				}
				if ab.args[1] == bb {
					return tb.addc(ab.args[0], ac-bc)
				}
			}
		}
	}
	if a.op == "const" && b.op == "const" && op != token.QUO && op != token.REM && op != token.SHL && op != token.SHR && op != token.AND_NOT {
		if a.cst.Kind() == b.cst.Kind() {
			return tb.Const(constant.BinaryOp(a.cst, op, b.cst))
		}
	}
	return tb.mk("bin", op.String(), a, b)
}

func (tb *Table) foldCmp(op token.Token, a, b, t *T) *T {
	if a.op == "const" && b.op == "const" && a.cst.Kind() == b.cst.Kind() {
		if a.cst.Kind() == constant.Bool && op != token.EQL && op != token.NEQ {
			return t
		}
		return tb.Bool(constant.Compare(a.cst, op, b.cst))
	}
	if a == b {
		switch op {
		case token.EQL, token.LEQ, token.GEQ:
			return tb.Bool(true)
		default:
			return tb.Bool(false)
		}
	}
	return t
}

// Len is the length of a string, slice or map value.
func (tb *Table) Len(x *T) *T {
	switch x.op {
	case "nil":
		return tb.Int(0)
	case "const":
		if s, ok := isStr(x); ok {
			return tb.Int(int64(len(s)))
		}
	case "slice": // x, lo, hi
		lo := x.args[1]
		hi := x.args[2]
		if hi.op == "none" {
			hi = tb.Len(x.args[0])
		}
		if c, ok := isInt(lo); ok {
			return tb.Add(hi, tb.Int(-c))
		}
		return tb.Bin(token.SUB, hi, lo, types.Typ[types.Int])
	case "append":
		return tb.Add(tb.Len(x.args[0]), tb.Len(x.args[1]))
	case "makeslice":
		return x.args[0]
	case "alloc":
		if p, ok := x.typ.Underlying().(*types.Array); ok {
			return tb.Int(p.Len())
		}
	case "zero":
		if p, ok := x.typ.Underlying().(*types.Array); ok {
			return tb.Int(p.Len())
		}
	case "conv":
		if x.aux == "string" || x.aux == "[]byte" {
			return tb.Len(x.args[0])
		}
	}
	return tb.mk("len", "", x)
}

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if d > 6 {
		return "…"
	}
	short := func(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }
	switch t.op {
	case "const":
		return t.aux
	case "nil", "none":
		return t.op
	case "param":
		return t.aux
	case "global":
		return "&" + short(t.aux)
	case "func":
		return short(t.aux)
	case "load":
		return "*" + t.args[0].str(d+1)
	case "field":
		return t.args[0].str(d+1) + "." + t.aux[strings.LastIndex(t.aux, ".")+1:]
	case "fieldval":
		return t.args[0].str(d+1) + "." + t.aux[strings.LastIndex(t.aux, ".")+1:]
	case "opaque", "alloc":
		s := t.aux
		if i := strings.LastIndex(s, "|"); i >= 0 {
			s = s[i+1:]
		}
		return short(s)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	n := t.op
	if t.aux != "" {
		n += ":" + short(t.aux)
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// mentions reports whether pred holds for t or one of its subterms.
func (t *T) mentions(pred func(*T) bool) bool {
	seen := map[*T]bool{}
	var rec func(*T) bool
	rec = func(x *T) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
