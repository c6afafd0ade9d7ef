package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P13", precedence, "the tables in parse.y.go are interpreted as goyacc documents")
}

// lalr is the parser's automaton, read from the tables in the source.
type lalr struct {
	exca, act, pact, pgo, r1, r2, chk, def, tok1, tok2, tok3 []int
	last                                                     int
}

// pnode is a node of a concrete parse tree; it spans the tokens [from, to).
type pnode struct {
	prod     int // 0 for a token
	tok      int
	from, to int
	kids     []*pnode
}

func (p *Prog) intTable(pkg, name string) ([]int, error) {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil, fmt.Errorf("package %s not loaded", pkg)
	}
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if n.Name != name || i >= len(vs.Values) {
						continue
					}
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						return nil, fmt.Errorf("%s is not a literal", name)
					}
					var out []int
					for _, e := range cl.Elts {
						tv := pk.TypesInfo.Types[e]
						if tv.Value == nil {
							return nil, fmt.Errorf("%s has an element that is not a constant", name)
						}
						x, ok := constant.Int64Val(tv.Value)
						if !ok {
							return nil, fmt.Errorf("%s has an element that is not a number", name)
						}
						out = append(out, int(x))
					}
					return out, nil
				}
			}
		}
	}
	return nil, fmt.Errorf("table %s not found", name)
}

func (p *Prog) buildConst(pkg, name string) (int, bool) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.Int {
		return 0, false
	}
	x, _ := constant.Int64Val(c.Val())
	return int(x), true
}

func (p *Prog) readLALR() (*lalr, error) {
	l := &lalr{}
	for name, dst := range map[string]*[]int{"yyExca": &l.exca, "yyAct": &l.act, "yyPact": &l.pact, "yyPgo": &l.pgo,
		"yyR1": &l.r1, "yyR2": &l.r2, "yyChk": &l.chk, "yyDef": &l.def, "yyTok1": &l.tok1, "yyTok2": &l.tok2, "yyTok3": &l.tok3} {
		t, err := p.intTable("build", name)
		if err != nil {
			return nil, err
		}
		*dst = t
	}
	n, ok := p.buildConst("build", "yyLast")
	if !ok {
		return nil, fmt.Errorf("yyLast not found")
	}
	l.last = n
	return l, nil
}

func (l *lalr) token(c int) int {
	t := 0
	switch {
	case c <= 0:
		t = l.tok1[0]
	case c < len(l.tok1):
		t = l.tok1[c]
	case c >= 57344 && c < 57344+len(l.tok2):
		t = l.tok2[c-57344]
	default:
		for i := 0; i+1 < len(l.tok3); i += 2 {
			if l.tok3[i] == c {
				t = l.tok3[i+1]
			}
		}
	}
	if t == 0 {
		t = l.tok2[1]
	}
	return t
}

// parse runs the automaton over the tokens; nil if they are rejected. eof is the token that ends a file.
func (l *lalr) parse(toks []int) (root *pnode) {
	defer func() {
		if recover() != nil {
			root = nil // an index out of the tables: reject
		}
	}()
	const flag = -1000
	states := []int{0}
	var nodes []*pnode
	i := 0
	look := func() int {
		if i < len(toks) {
			return l.token(toks[i])
		}
		return l.tok1[0]
	}
	for steps := 0; steps < 100000; steps++ {
		st := states[len(states)-1]
		n := l.pact[st]
		if n > flag {
			t := look()
			n += t
			if n >= 0 && n < l.last {
				n = l.act[n]
				if l.chk[n] == t {
					states = append(states, n)
					nodes = append(nodes, &pnode{tok: toks[i], from: i, to: i + 1})
					i++
					continue
				}
			}
		}
		n = l.def[st]
		if n == -2 {
			t := look()
			x := 0
			for !(l.exca[x] == -1 && l.exca[x+1] == st) {
				x += 2
			}
			for x += 2; ; x += 2 {
				n = l.exca[x]
				if n < 0 || n == t {
					break
				}
			}
			n = l.exca[x+1]
			if n < 0 {
				return nodes[len(nodes)-1]
			}
		}
		if n == 0 {
			return nil
		}
		k := l.r2[n]
		nd := &pnode{prod: n, from: i, to: i}
		if k > 0 {
			nd.kids = append(nd.kids, nodes[len(nodes)-k:]...)
			nd.from, nd.to = nd.kids[0].from, nd.kids[k-1].to
			nodes = nodes[:len(nodes)-k]
			states = states[:len(states)-k]
		}
		nodes = append(nodes, nd)
		if i >= len(toks) && nd.to == len(toks) && nd.from == 0 {
			return nd // the whole file has been reduced
		}
		a := l.r1[n]
		g := l.pgo[a]
		j := g + states[len(states)-1] + 1
		var to int
		if j >= l.last {
			to = l.act[g]
		} else {
			to = l.act[j]
			if l.chk[to] != -a {
				to = l.act[g]
			}
		}
		states = append(states, to)
	}
	return nil
}

func (n *pnode) constituent(from, to int) bool {
	if n.from == from && n.to == to && n.to > n.from {
		return true
	}
	for _, k := range n.kids {
		if k.from <= from && k.to >= to && k.constituent(from, to) {
			return true
		}
	}
	return false
}

// form is a kind of expression, for one operator where the kind has operators.
type form struct {
	kind string // name of the node type
	op   string
	lay  []string // tokens, and "$Field" for a slot
}

func (f *form) String() string {
	if f.op != "" {
		return f.kind + " " + f.op
	}
	return f.kind
}

// binary operators by level, loosest first, as in the language specification
var specLevels = [][]string{
	{"or"}, {"and"}, {"in", "not in", "<", ">", "==", "!=", "<=", ">="},
	{"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "//", "%"},
}

// precFact is the precedence with which the printer prints a slot, or at which it parenthesizes a kind.
type precFact struct {
	val   *T
	conds map[string]bool // what the operator is compared with on the path
}

func precedence(c *Ctx) {
	p := c.P
	c.Rule("binding", "in the parser's tables every pair of operators nests as in the language: by level, and from left to right within a level")
	c.Rule("reparse", "for all nestings of up to three expressions, the tokens printed, with the parentheses the printer adds, parse back to the same nesting")
	c.Rule("parens", "on every path of the printer an opening parenthesis is written exactly if the kind's precedence is below the surrounding one, and then a closing one")
	l, err := p.readLALR()
	if err != nil {
		c.Violate("anchor:tables", "", "the parser's tables cannot be read: %v", err)
		return
	}
	// tokens
	tok := map[string]int{}
	for s, n := range map[string]string{"id": "_IDENT", "eof": "_EOF", "and": "_AND", "or": "_OR", "not": "_NOT", "in": "_IN", "is": "_IS",
		"if": "_IF", "else": "_ELSE", "for": "_FOR", "lambda": "_LAMBDA", "return": "_RETURN", "==": "_EQ", "!=": "_NE", "<=": "_LE", ">=": "_GE",
		"//": "_INT_DIV", "<<": "_BIT_LSH", ">>": "_BIT_RSH", "**": "_STAR_STAR", "(indent)": "_INDENT", "(unindent)": "_UNINDENT"} {
		v, ok := p.buildConst("build", n)
		if !ok {
			c.Violate("anchor:"+n, "", "token %s not found", n)
			return
		}
		tok[s] = v
	}
	toks := func(words []string) []int {
		var out []int
		for _, w := range words {
			switch {
			case w == "not in":
				out = append(out, tok["not"], tok["in"])
			case tok[w] != 0:
				out = append(out, tok[w])
			default:
				out = append(out, int(w[0]))
			}
		}
		return out
	}
	// the grammar alone
	type binop struct {
		op    string
		level int
	}
	var ops []binop
	for i, lv := range specLevels {
		for _, op := range lv {
			ops = append(ops, binop{op, i})
		}
	}
	check := func(words []string, from, to int) bool {
		ts := toks(append(append([]string{}, words...), "\n", "eof"))
		n := l.parse(ts)
		return n != nil && n.constituent(from, to)
	}
	width := func(op string) int { return len(toks([]string{op})) }
	for _, a := range ops {
		for _, b := range ops {
			c.Inst("binding", a.op+" "+b.op)
			words := []string{"id", a.op, "id", b.op, "id"}
			from, to := 0, 2+width(a.op)
			if b.level > a.level {
				from, to = 1+width(a.op), 3+width(a.op)+width(b.op)
			}
			if !check(words, from, to) {
				c.Violate(fmt.Sprintf("binding:%s %s", a.op, b.op), "", "x %s y %s z does not nest as in the language", a.op, b.op)
			}
		}
		for _, u := range []string{"-", "+", "~", "not"} {
			c.Inst("binding", u+" "+a.op)
			// -x op y is (-x) op y; not x op y is not (x op y) except for and, or
			words := []string{u, "id", a.op, "id"}
			from, to := 0, 2
			if u == "not" && a.level > 1 {
				from, to = 1, 3+width(a.op)
			}
			if !check(words, from, to) {
				c.Violate(fmt.Sprintf("binding:%s %s", u, a.op), "", "%s x %s y does not nest as in the language", u, a.op)
			}
			words = []string{"id", a.op, u, "id"}
			if u != "not" && !check(words, 1+width(a.op), 3+width(a.op)) {
				c.Violate(fmt.Sprintf("binding:%s %s right", u, a.op), "", "x %s %s y does not nest as in the language", a.op, u)
			}
		}
		for _, t := range []struct {
			words    []string
			from, to int
			name     string
		}{
			{[]string{"lambda", "id", ":", "id", a.op, "id"}, 3, 5 + width(a.op), "lambda"},
			{[]string{"id", a.op, "id", "if", "id", "else", "id"}, 0, 2 + width(a.op), "if"},
			{[]string{"id", "if", "id", a.op, "id", "else", "id"}, 2, 4 + width(a.op), "if-condition"},
			{[]string{"id", "if", "id", "else", "id", a.op, "id"}, 4, 6 + width(a.op), "else"},
			{[]string{"id", "=", "id", a.op, "id"}, 2, 4 + width(a.op), "assignment"},
			{[]string{"id", a.op, "id", ".", "id"}, 1 + width(a.op), 4 + width(a.op), "dot"},
			{[]string{"id", a.op, "id", "(", ")"}, 1 + width(a.op), 4 + width(a.op), "call"},
			{[]string{"id", a.op, "id", "[", "id", "]"}, 1 + width(a.op), 5 + width(a.op), "index"},
		} {
			c.Inst("binding", t.name+" "+a.op)
			if !check(t.words, t.from, t.to) {
				c.Violate(fmt.Sprintf("binding:%s %s", t.name, a.op), "", "%s does not nest as in the language", strings.Join(t.words, " "))
			}
		}
	}
	for _, u := range []string{"-", "+", "~", "not"} {
		for _, t := range [][]string{{u, "id", ".", "id"}, {u, "id", "(", ")"}, {u, "id", "[", "id", "]"}} {
			c.Inst("binding", u+" "+t[2])
			if !check(t, 1, len(t)) {
				c.Violate(fmt.Sprintf("binding:%s %s", u, t[2]), "", "%s does not nest as in the language", strings.Join(t, " "))
			}
		}
	}
	c.Inst("binding", "if if")
	if !check([]string{"id", "if", "id", "else", "id", "if", "id", "else", "id"}, 4, 9) {
		c.Violate("binding:if if", "", "conditional expressions do not nest to the right")
	}

	// the printer
	pr := p.printerPrecs(c)
	if pr == nil {
		return
	}
	var forms []*form
	add := func(kind, op string, lay ...string) { forms = append(forms, &form{kind, op, lay}) }
	add("DotExpr", "", "$X", ".", "id")
	add("IndexExpr", "", "$X", "[", "$Y", "]")
	add("SliceExpr", "", "$X", "[", "$From", ":", "$To", ":", "$Step", "]")
	add("CallExpr", "", "$X", "(", "id", ",", "$List", ")")
	for _, u := range []string{"-", "+", "~", "not"} {
		add("UnaryExpr", u, u, "$X")
	}
	var binops []string
	for _, b := range ops {
		binops = append(binops, b.op)
	}
	if check([]string{"id", "is", "id"}, 0, 3) {
		binops = append(binops, "is")
	}
	for _, b := range binops {
		add("BinaryExpr", b, "$X", b, "$Y")
	}
	add("ConditionalExpr", "", "$Then", "if", "$Test", "else", "$Else")
	add("LambdaExpr", "", "lambda", "id", ":", "$Body")
	inner := append([]*form(nil), forms...)
	add("ListExpr", "", "[", "id", ",", "$List", "]")
	add("TupleExpr", "", "(", "id", ",", "$List", ")")
	add("SetExpr", "", "{", "id", ",", "$List", "}")
	add("ParenExpr", "", "(", "$X", ")")
	add("KeyValueExpr", "", "{", "$Key", ":", "$Value", "}")
	add("Comprehension", "", "[", "$Body", "for", "id", "in", "id", "]")
	add("ForClause", "", "[", "id", "for", "id", "in", "$X", "for", "id", "in", "id", "]")
	add("ForClause", "if", "[", "id", "for", "id", "in", "$X", "if", "id", "]")
	add("IfClause", "", "[", "id", "for", "id", "in", "id", "if", "$Cond", "if", "id", "]")
	add("AssignExpr", "=", "id", "=", "$RHS")
	add("AssignExpr", "+=", "id", "+=", "$RHS")
	add("ReturnStmt", "", "return", "$Result")
	add("IfStmt", "", "if", "$Cond", ":", "id")
	add("ForStmt", "", "for", "id", "in", "$X", ":", "id")
	if v, ok := p.buildConst("build", "_AUGM"); ok {
		tok["+="] = v
	}

	type span struct{ from, to int }
	bad := map[string]string{}
	undecided := map[string]bool{}
	var expand func(f *form, fill map[string]func(out *[]string) *span) ([]string, []span, bool)
	expand = func(f *form, fill map[string]func(out *[]string) *span) ([]string, []span, bool) {
		var out []string
		var spans []span
		for _, w := range f.lay {
			if strings.HasPrefix(w, "$") {
				if g := fill[w[1:]]; g != nil {
					if sp := g(&out); sp != nil {
						spans = append(spans, *sp)
					} else {
						return nil, nil, false
					}
					continue
				}
				w = "id"
			}
			if w == "not in" {
				out = append(out, "not", "in")
				continue
			}
			out = append(out, w)
		}
		return out, spans, true
	}
	slots := func(f *form) []string {
		var s []string
		for _, w := range f.lay {
			if strings.HasPrefix(w, "$") {
				s = append(s, w[1:])
			}
		}
		return s
	}
	// place writes child into slot of parent, with parentheses if the printer adds them
	type variant struct {
		words []string
		spans []span
	}
	paren := func(parent *form, slot string, child *form, ch variant) (vs []variant) {
		outers, ok := pr.slot(parent, slot)
		if !ok {
			undecided[parent.String()+"."+slot] = true
			return nil
		}
		seen := map[bool]bool{}
		for _, outer := range outers {
			owns, never := pr.own(child)
			if never {
				seen[false] = true
			}
			for _, own := range owns {
				seen[own < outer] = true
			}
		}
		for _, withP := range []bool{false, true} {
			if !seen[withP] {
				continue
			}
			if !withP {
				vs = append(vs, ch)
				continue
			}
			v := variant{words: append(append([]string{"("}, ch.words...), ")")}
			for _, s := range ch.spans {
				v.spans = append(v.spans, span{s.from + 1, s.to + 1})
			}
			vs = append(vs, v)
		}
		return vs
	}
	build := func(parent *form, slot string, chs []variant) (vs []variant) {
		for _, ch := range chs {
			ch := ch
			var inner []span
			words, spans, ok := expand(parent, map[string]func(out *[]string) *span{slot: func(out *[]string) *span {
				off := len(*out)
				*out = append(*out, ch.words...)
				for _, s := range ch.spans {
					inner = append(inner, span{s.from + off, s.to + off})
				}
				return &span{off, off + len(ch.words)}
			}})
			if ok {
				vs = append(vs, variant{words, append(spans, inner...)})
			}
		}
		return vs
	}
	leaf := func(f *form) variant {
		w, s, _ := expand(f, nil)
		return variant{w, s}
	}
	n := 0
	try := func(what string, v variant) bool {
		n++
		ts := toks(append(append([]string{}, v.words...), "\n", "eof"))
		root := l.parse(ts)
		if root == nil {
			bad[what] = strings.Join(v.words, " ") + " is rejected"
			return false
		}
		for _, s := range v.spans {
			if !root.constituent(s.from, s.to) {
				bad[what] = strings.Join(v.words, " ") + " nests differently"
				return false
			}
		}
		return true
	}
	failed := map[string]bool{}
	for _, parent := range forms {
		for _, slot := range slots(parent) {
			for _, child := range inner {
				k := fmt.Sprintf("reparse:%s.%s:%s", parent, slot, child)
				c.Inst("reparse", k)
				for _, v := range build(parent, slot, paren(parent, slot, child, leaf(child))) {
					if !try(k, v) {
						failed[k] = true
					}
				}
			}
		}
	}
	// one operator per level is enough for the middle and inner positions of three
	rep := func(f *form) bool {
		if f.kind != "BinaryExpr" {
			return true
		}
		for _, lv := range specLevels {
			if lv[0] == f.op {
				return true
			}
		}
		return f.op == "not in"
	}
	for _, top := range forms {
		if !rep(top) {
			continue
		}
		for _, ts := range slots(top) {
			for _, mid := range inner {
				if !rep(mid) || failed[fmt.Sprintf("reparse:%s.%s:%s", top, ts, mid)] {
					continue
				}
				for _, ms := range slots(mid) {
					for _, child := range inner {
						if !rep(child) || failed[fmt.Sprintf("reparse:%s.%s:%s", mid, ms, child)] {
							continue
						}
						k := fmt.Sprintf("reparse:%s.%s:%s.%s:%s", top, ts, mid, ms, child)
						for _, v := range build(mid, ms, paren(mid, ms, child, leaf(child))) {
							for _, w := range build(top, ts, paren(top, ts, mid, v)) {
								try(k, w)
							}
						}
					}
				}
			}
		}
	}
	c.Inst("reparse", fmt.Sprintf("%d token sequences", n))
	for k := range undecided {
		c.Violate("undecided:"+k, p.Pos(pr.root.Pos()), "the precedence with which %s is printed was not found", k)
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.Violate(k, p.Pos(pr.root.Pos()), "the printed form %s", bad[k])
	}
	c.Floor("binding", 500)
	c.Floor("reparse", 800)
	c.Floor("parens", 6)
}

// printerPrecs is what the printer does about parentheses.
type printerPrecs struct {
	p     *Prog
	root  *ssa.Function
	slots map[string][]precFact // "Kind.Field"
	owns  map[string][]precFact // kind; a nil val stands for a path that never adds parentheses
	table map[string]map[string]int64
	seq   []int64 // precedences of the elements of bracketed lists
}

func (pr *printerPrecs) value(t *T, op string) (int64, bool) {
	if k, ok := isInt(t); ok {
		return k, true
	}
	b, k := lin(t)
	if b != nil && b.op == "lookup" && len(b.args) >= 2 && b.args[0].op == "load" {
		for g, m := range pr.table {
			if strings.HasSuffix(b.args[0].args[0].String(), g) {
				return m[op] + k, true
			}
		}
	}
	return 0, false
}

func (pr *printerPrecs) fits(f precFact, op string) bool {
	for k, is := range f.conds {
		if g, table := strings.CutPrefix(k, "\x00"); table {
			if _, in := pr.table[g][op]; in != is {
				return false
			}
			continue
		}
		if is != (k == op) {
			return false
		}
	}
	return true
}

func (pr *printerPrecs) slot(f *form, slot string) (out []int64, ok bool) {
	for _, fact := range pr.slots[f.kind+"."+slot] {
		if !pr.fits(fact, f.op) {
			continue
		}
		x, ok := pr.value(fact.val, f.op)
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	if out == nil {
		switch f.kind + "." + slot {
		case "CallExpr.List", "ListExpr.List", "TupleExpr.List", "SetExpr.List", "ParenExpr.X", "Comprehension.Body":
			return pr.seq, len(pr.seq) > 0
		}
	}
	return out, out != nil
}

func (pr *printerPrecs) own(f *form) (out []int64, never bool) {
	for _, fact := range pr.owns[f.kind] {
		if !pr.fits(fact, f.op) {
			continue
		}
		if fact.val == nil {
			never = true
			continue
		}
		if x, ok := pr.value(fact.val, f.op); ok {
			out = append(out, x)
		} else {
			never = true
		}
	}
	if out == nil {
		never = true
	}
	return out, never
}

func (p *Prog) stringIntMaps(pkg string) map[string]map[string]int64 {
	out := map[string]map[string]int64{}
	pk := p.Pkgs[pkg]
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if i >= len(vs.Values) {
						continue
					}
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						continue
					}
					m, ok := pk.TypesInfo.Types[cl].Type.Underlying().(*types.Map)
					if !ok || !isStringType(m.Key()) {
						continue
					}
					mm := map[string]int64{}
					for _, e := range cl.Elts {
						kv, ok := e.(*ast.KeyValueExpr)
						if !ok {
							continue
						}
						k, v := pk.TypesInfo.Types[kv.Key].Value, pk.TypesInfo.Types[kv.Value].Value
						if k == nil || v == nil || v.Kind() != constant.Int {
							continue
						}
						x, _ := constant.Int64Val(v)
						mm[constant.StringVal(k)] = x
					}
					out[n.Name] = mm
				}
			}
		}
	}
	return out
}

func (p *Prog) printerPrecs(c *Ctx) *printerPrecs {
	exprT, nodes := p.astNodes()
	if exprT == nil {
		c.Violate("anchor:Expr", "", "build.Expr not found")
		return nil
	}
	isExpr := func(t types.Type) bool { return typeKey(t) == typeKey(exprT) }
	const prn = "*" + modPath + "/build.printer"
	var members []*ssa.Function
	isMember := map[*ssa.Function]bool{}
	for _, g := range p.repoFuncs() {
		if relPkg(g) != "build" || g.Parent() != nil {
			continue
		}
		for _, pa := range g.Params {
			if typeKey(pa.Type()) == prn {
				members = append(members, g)
				isMember[g] = true
				break
			}
		}
	}
	root, arg := p.dispatcher(members, isExpr)
	if root == nil {
		c.Violate("anchor:expr", "", "no function of the printer tells node types apart")
		return nil
	}
	outer := -1
	for i, pa := range root.Params {
		if b, ok := pa.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			outer = i
		}
	}
	if outer < 0 {
		c.Violate("anchor:outerPrec", p.Pos(root.Pos()), "the printer of expressions takes no surrounding precedence")
		return nil
	}
	pr := &printerPrecs{p: p, root: root, slots: map[string][]precFact{}, owns: map[string][]precFact{}, table: p.stringIntMaps("build")}
	isNode := map[string]string{}
	for _, n := range nodes {
		isNode[typeKey(types.NewPointer(n))] = n.Obj().Name()
	}
	// calls outside the function itself
	for _, g := range members {
		if g == root || !hasLoop(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == root {
					if k, ok := ci.Common().Args[outer].(*ssa.Const); ok {
						pr.seq = append(pr.seq, k.Int64())
					} else {
						c.Violate("undecided:"+funcName(g), p.instrPos(in), "%s prints an expression with a precedence that is not a constant", funcName(g))
					}
				}
			}
		}
	}
	var args []*T
	r := &Rule{}
	r.NoPeel = func(fn *ssa.Function) bool { return true }
	r.Inline = func(fr *Frame, g *ssa.Function) (bool, bool) {
		if g.Parent() != nil {
			return true, true
		}
		if isMember[g] && g != root && !hasLoop(g) {
			return true, true
		}
		// helpers that compute a precedence
		if inRepo(g) && relPkg(g) == "build" && len(g.Blocks) > 0 && !hasLoop(g) && g.Signature.Results().Len() == 1 {
			if b, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return true, true
			}
		}
		return false, true
	}
	r.Protect = func(t *T) bool {
		switch t.op {
		case "is":
			return len(t.args) > 0 && len(args) > 0 && t.args[0] == args[arg]
		case "<":
			return len(args) > 0 && t.mentions(func(x *T) bool { return x == args[outer] })
		case "==":
			return len(args) > 0 && t.args[0].op == "load" && strings.HasSuffix(t.args[0].args[0].String(), ".Op")
		case "lookupok":
			return true
		}
		return false
	}
	kind := func(s *S) string {
		for at, is := range s.atoms {
			if is && at.op == "is" && at.args[0] == args[arg] {
				if n := isNode[at.aux]; n != "" {
					return n
				}
			}
		}
		return ""
	}
	conds := func(s *S) map[string]bool {
		m := map[string]bool{}
		for at, is := range s.atoms {
			if at.op == "==" && at.args[0].op == "load" && strings.HasSuffix(at.args[0].args[0].aux, ".Op") && at.args[0].args[0].args[0] == args[arg] {
				if k, ok := isStr(at.args[1]); ok {
					m[k] = is
				}
			}
			if at.op == "lookupok" && at.args[0].op == "load" {
				for g := range pr.table {
					if strings.HasSuffix(at.args[0].args[0].String(), g) {
						m["\x00"+g] = is
					}
				}
			}
		}
		return m
	}
	put := func(m map[string][]precFact, k string, f precFact) {
		for _, o := range m[k] {
			if o.val == f.val && fmt.Sprint(o.conds) == fmt.Sprint(f.conds) {
				return
			}
		}
		m[k] = append(m[k], f)
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, g *ssa.Function, as []*T) ([]Out, bool) {
		if g == root {
			k := kind(s)
			ch := unbox(as[arg])
			for ch.op == "load" && ch.args[0].op == "elem" {
				ch = ch.args[0].args[0]
			}
			if ch.op == "load" && ch.args[0].op == "field" && k != "" {
				fk := ch.args[0].aux
				put(pr.slots, k+fk[strings.LastIndex(fk, "."):], precFact{as[outer], conds(s)})
			}
			s.ev["child"] = "1"
			return []Out{{s, e.tb.mk("none", "")}}, true
		}
		if isMember[g] && g.Signature.Variadic() || g != nil && !inRepo(g) && len(cc.Args) > 0 && typeKey(cc.Args[0].Type()) == prn {
			for _, a := range as {
				if lit, ok := isStr(a); ok {
					if strings.HasPrefix(lit, "(") {
						if s.ev["child"] != "" {
							s.ev["open"] = "late"
						} else {
							s.ev["open"] += "1"
						}
					}
					if strings.HasPrefix(lit, ")") {
						s.ev["close"] += "1"
					}
				}
			}
			return nil, false
		}
		return nil, false
	}
	badParen := map[string]bool{}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.parent != nil {
			return
		}
		k := kind(s)
		if k == "" {
			return
		}
		need, known := false, false
		var own *T
		for at, is := range s.atoms {
			if at.op != "<" {
				continue
			}
			if at.args[1] == args[outer] {
				own, need, known = at.args[0], is, true
			} else if at.args[0] == args[outer] { // outer < t, i.e. not t-1 < outer
				own, need, known = e.tb.Add(at.args[1], e.tb.Int(-1)), !is, true
			} else if at.mentions(func(x *T) bool { return x == args[outer] }) {
				b, kk := lin(at.args[1])
				if b == args[outer] {
					own, need, known = e.tb.Add(at.args[0], e.tb.Int(-kk)), is, true
				}
			}
		}
		if known {
			c.Inst("parens", k)
		}
		put(pr.owns, k, precFact{own, conds(s)})
		okP := s.ev["open"] == "" && s.ev["close"] == ""
		if known && need {
			okP = s.ev["open"] == "1" && s.ev["close"] == "1"
		}
		if !okP {
			e.why(s, "parens "+k)
			badParen[k] = true
		}
	}
	e := newEngine(c, r)
	e.Cap = 400
	if _, err := e.Run(root, func(s *S, ps []*T) { args = ps }); err != nil {
		c.Violate("undecided:printer", p.Pos(root.Pos()), "the printer could not be analysed: %v", err)
		return nil
	}
	c.flowStats(e)
	for k := range badParen {
		c.Violate("parens:"+k, p.Pos(root.Pos()), "%s may be printed with unbalanced or missing parentheses", k)
	}
	return pr
}
