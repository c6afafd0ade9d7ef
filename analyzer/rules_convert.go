package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", convertRules,
		"the fields of the Starlark syntax tree mean what its package documents; the printer prints every field of a node (P13, P18)")
}

const starlarkSyntax = "go.starlark.net/syntax"

// convert: the conversion of a tree of the Starlark parser into a tree of package build.
type convert struct {
	c   *Ctx
	p   *Prog
	fns []*ssa.Function
	n   map[string]int
}

// nodePart: a part of a Starlark node (the name of a field, or "a.b" for a field of the node a field refers to) and the
// field of the built node that takes it.
type nodePart struct{ from, to string }

// counterpart: the type of node a Starlark node is converted to.
type counterpart struct {
	from, to string
	parts    []nodePart
	// named: the parts that are nodes with comments of their own but are kept only as text.
	named []string
	// only: the built node has the other counterpart's parts (several rows for one type of node).
	anyOf bool
}

var counterparts = []counterpart{
	{from: "File", to: "File", parts: []nodePart{{"Stmts", "Stmt"}}},
	{from: "BranchStmt", to: "BranchStmt", parts: []nodePart{{"Token", "Token"}}},
	{from: "LoadStmt", to: "LoadStmt", parts: []nodePart{{"Module", "Module"}, {"From", "From"}, {"To", "To"}}},
	{from: "AssignStmt", to: "AssignExpr", parts: []nodePart{{"Op", "Op"}, {"LHS", "LHS"}, {"RHS", "RHS"}}},
	{from: "IfStmt", to: "IfStmt", parts: []nodePart{{"Cond", "Cond"}, {"True", "True"}, {"False", "False"}}},
	{from: "DefStmt", to: "DefStmt", parts: []nodePart{{"Name.Name", "Name"}, {"Params", "Function.Params"}, {"Body", "Function.Body"}}, named: []string{"Name"}},
	{from: "ForStmt", to: "ForStmt", parts: []nodePart{{"Vars", "Vars"}, {"X", "X"}, {"Body", "Body"}}},
	{from: "ReturnStmt", to: "ReturnStmt", parts: []nodePart{{"Result", "Result"}}},
	{from: "Literal", to: "LiteralExpr", parts: []nodePart{{"Value|Raw", "Token"}}},
	{from: "Literal", to: "StringExpr", parts: []nodePart{{"Value", "Value"}}},
	{from: "Ident", to: "Ident", parts: []nodePart{{"Name", "Name"}}},
	{from: "BinaryExpr", to: "AssignExpr", parts: []nodePart{{"X", "LHS"}, {"Y", "RHS"}, {"Op", "Op"}}},
	{from: "BinaryExpr", to: "BinaryExpr", parts: []nodePart{{"X", "X"}, {"Y", "Y"}, {"Op", "Op"}}},
	{from: "UnaryExpr", to: "UnaryExpr", parts: []nodePart{{"Op", "Op"}, {"X", "X"}}},
	{from: "SliceExpr", to: "SliceExpr", parts: []nodePart{{"X", "X"}, {"Lo", "From"}, {"Hi", "To"}, {"Step", "Step"}}},
	{from: "DotExpr", to: "DotExpr", parts: []nodePart{{"X", "X"}, {"Name.Name", "Name"}}, named: []string{"Name"}},
	{from: "CallExpr", to: "CallExpr", parts: []nodePart{{"Fn", "X"}, {"Args", "List"}}},
	{from: "ListExpr", to: "ListExpr", parts: []nodePart{{"List", "List"}}},
	{from: "DictExpr", to: "DictExpr", parts: []nodePart{{"List", "List"}}},
	{from: "DictEntry", to: "KeyValueExpr", parts: []nodePart{{"Key", "Key"}, {"Value", "Value"}}},
	{from: "CondExpr", to: "ConditionalExpr", parts: []nodePart{{"True", "Then"}, {"Cond", "Test"}, {"False", "Else"}}},
	{from: "Comprehension", to: "Comprehension", parts: []nodePart{{"Body", "Body"}, {"Clauses", "Clauses"}, {"Curly", "Curly"}}},
	{from: "ParenExpr", to: "ParenExpr", parts: []nodePart{{"X", "X"}}},
	{from: "TupleExpr", to: "TupleExpr", parts: []nodePart{{"List", "List"}}},
	{from: "IndexExpr", to: "IndexExpr", parts: []nodePart{{"X", "X"}, {"Y", "Y"}}},
	{from: "LambdaExpr", to: "LambdaExpr", parts: []nodePart{{"Params", "Function.Params"}, {"Body", "Function.Body"}}},
	{from: "ForClause", to: "ForClause", parts: []nodePart{{"Vars", "Vars"}, {"X", "X"}}},
	{from: "IfClause", to: "IfClause", parts: []nodePart{{"Cond", "Cond"}}},
}

// Starlark nodes that package build has no node for: a statement that is only an expression becomes the expression;
// there are no while loops.
var noCounterpart = map[string]bool{"ExprStmt": true, "WhileStmt": true}

func convertRules(c *Ctx) {
	v := &convert{c: c, p: c.P, n: map[string]int{}}
	c.Rule("parts", "each part of a Starlark node is stored, on every path on which the node for it is built, in the field of that node that takes the same part, and nothing else is stored there")
	c.Rule("comments", "the comments of each Starlark node, and of a name kept only as text, are stored in the node built for it")
	c.Rule("case", "each kind of Starlark node is recognised, and from there on no path returns without the node being built or handed to another converting function")
	c.Rule("list", "each loop over nodes or comments adds something made of each element, and does not end early")
	c.Rule("step", "a slice with a step has a second colon")
	c.Rule("value", "the value of an integer literal is not assumed to be of one type only")
	for _, fn := range c.P.repoFuncs() {
		if relPkg(fn) == "convertast" && len(fn.Blocks) > 0 {
			v.fns = append(v.fns, fn)
		}
	}
	v.nodes()
	v.commentParts()
	v.cases()
	v.lists()
	v.values()
	c.Floor("parts", 45)
	c.Floor("comments", 30)
	c.Floor("case", 25)
	c.Floor("list", 4)
}

// syntaxType: the name of the type of the Starlark package that a type is or points to.
func syntaxType(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != starlarkSyntax {
		return ""
	}
	return n.Obj().Name()
}

// buildType: the name of the struct type of package build that a type is or points to.
func buildType(t types.Type) string {
	n := namedStruct(t)
	if n == nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			n = namedStruct(pt.Elem())
		}
	}
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/build") {
		return ""
	}
	return n.Obj().Name()
}

// origin: what a value is made of.
type origin struct {
	fields   map[string]bool // "T.F", "T.F.G": the fields of Starlark nodes it is made of
	comments map[string]bool // "T", "T.F": the nodes whose comments it is made of
	nodes    map[string]bool // "T": whole nodes, handed to a function of the converter
	vals     map[ssa.Value]bool
	via      map[string]bool // the lists the nodes were elements of
	cut      bool            // only a part of a list
}

func (v *convert) origins(val ssa.Value) *origin {
	o := &origin{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[ssa.Value]bool{}, map[string]bool{}, false}
	var rec func(x ssa.Value, inCall bool)
	rec = func(x ssa.Value, inCall bool) {
		if x == nil || o.vals[x] {
			return
		}
		o.vals[x] = true
		// a whole node
		if path := v.nodePath(x, 0); path != "" {
			if l := v.listOf(x); l != "" {
				o.via[l] = true
			}
			if strings.Contains(path, ".") {
				o.fields[path] = true
			} else {
				o.nodes[path] = true
			}
			return
		}
		switch x := x.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
		case *ssa.Parameter:
			fn := x.Parent()
			for i, q := range fn.Params {
				if q == x {
					for _, cc := range v.callers(fn) {
						if i < len(cc.Call.Args) {
							rec(cc.Call.Args[i], inCall)
						}
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, inCall)
			}
		case *ssa.UnOp:
			rec(x.X, inCall)
		case *ssa.FieldAddr, *ssa.Field:
			// a field of something else than a Starlark node
			switch y := x.(type) {
			case *ssa.FieldAddr:
				if syntaxType(y.X.Type()) != "" {
					return // a field of a node of unknown origin
				}
				if al, ok := y.X.(*ssa.Alloc); ok {
					for _, s := range v.stores(al)[deref(al.Type()).Underlying().(*types.Struct).Field(y.Field).Name()] {
						rec(s.val, inCall)
					}
					return
				}
				rec(y.X, inCall)
			case *ssa.Field:
				if syntaxType(y.X.Type()) != "" {
					return
				}
				rec(y.X, inCall)
			}
		case *ssa.IndexAddr:
			rec(x.X, inCall)
		case *ssa.Index:
			rec(x.X, inCall)
		case *ssa.Lookup:
			rec(x.X, inCall)
			rec(x.Index, inCall)
		case *ssa.Slice:
			if !trivialSlice(x) {
				o.cut = true
			}
			rec(x.X, inCall)
		case *ssa.MakeSlice:
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							rec(st.Val, inCall)
						}
					}
				}
			}
		case *ssa.Alloc:
			for _, st := range arrayStores(x) {
				rec(st, inCall)
			}
			for _, r := range *x.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == ssa.Value(x) {
						rec(r.Val, inCall)
					}
				case *ssa.FieldAddr:
					for _, r2 := range *r.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
							rec(st.Val, inCall)
						}
					}
				}
			}
		case *ssa.Call:
			cc := x.Common()
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			if name := calleeMethod(x); name == "Comments" && len(args) == 1 {
				for path := range v.paths(args[0]) {
					o.comments[strings.TrimSuffix(path, ".commentsRef")] = true
				}
				return
			}
			if f := x.Call.StaticCallee(); f != nil && relPkg(f) == "convertast" && len(f.Blocks) > 0 {
				if _, ok := x.Type().Underlying().(*types.Basic); ok {
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, res := range r.Results {
								rec(res, true)
							}
						}
					}
					return
				}
			}
			for _, a := range args {
				rec(a, true)
			}
		default:
			if in, ok := x.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						rec(*op, inCall)
					}
				}
			}
		}
	}
	rec(val, false)
	return o
}

// calleeMethod: the name of the method called, or "".
func calleeMethod(x *ssa.Call) string {
	if x.Call.IsInvoke() {
		return x.Call.Method.Name()
	}
	if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		return f.Name()
	}
	return ""
}

// trivialSlice: a slice expression that keeps everything.
func trivialSlice(x *ssa.Slice) bool {
	if x.High != nil {
		if c, ok := x.High.(*ssa.Call); !ok || calleeName(&c.Call) != "len" {
			return false
		}
	}
	if x.Low == nil {
		return true
	}
	k, ok := x.Low.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "0"
}

// callers: the calls of a function of the converter.
func (v *convert) callers(fn *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, g := range v.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok && cc.Call.StaticCallee() == fn {
					out = append(out, cc)
				}
			}
		}
	}
	return out
}

// nodePath: how a value was read from a Starlark node: "T" for the node, "T.F" for what its field holds (or an element
// of it), "T.F.G" for a field of that.
func (v *convert) nodePath(x ssa.Value, depth int) string {
	if depth > 20 {
		return ""
	}
	field := func(base ssa.Value, i int) string {
		t := syntaxType(base.Type())
		st, ok := deref(base.Type()).Underlying().(*types.Struct)
		if t == "" || !ok {
			return ""
		}
		f := st.Field(i).Name()
		if t == "Comments" || t == "Comment" {
			return t + "." + f
		}
		if b := v.nodePath(base, depth+1); strings.Count(b, ".") == 1 {
			return b + "." + f
		}
		return t + "." + f
	}
	switch x := x.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return field(a.X, a.Field)
		case *ssa.IndexAddr:
			return v.nodePath(a.X, depth+1)
		case *ssa.Alloc:
			if st := onlyStore(a); st != nil {
				return v.nodePath(st, depth+1)
			}
		}
	case *ssa.FieldAddr:
		return field(x.X, x.Field)
	case *ssa.Field:
		return field(x.X, x.Field)
	case *ssa.IndexAddr:
		return v.nodePath(x.X, depth+1)
	case *ssa.Index:
		return v.nodePath(x.X, depth+1)
	case *ssa.ChangeInterface:
		return v.nodePath(x.X, depth+1)
	case *ssa.MakeInterface:
		return v.nodePath(x.X, depth+1)
	case *ssa.ChangeType:
		return v.nodePath(x.X, depth+1)
	case *ssa.Slice:
		if trivialSlice(x) {
			return v.nodePath(x.X, depth+1)
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			return ""
		}
		if _, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
			return syntaxType(x.AssertedType)
		}
	case *ssa.Extract:
		ta, ok := x.Tuple.(*ssa.TypeAssert)
		if !ok || x.Index != 0 {
			return ""
		}
		if _, ok := ta.AssertedType.Underlying().(*types.Pointer); ok {
			return syntaxType(ta.AssertedType)
		}
	case *ssa.Parameter:
		if _, ok := x.Type().Underlying().(*types.Pointer); ok && !strings.HasPrefix(syntaxType(x.Type()), "Comment") {
			return syntaxType(x.Type())
		}
	}
	return ""
}

// listOf: the field a node was read from whose type was then found out.
func (v *convert) listOf(x ssa.Value) string {
	for i := 0; i < 20 && x != nil; i++ {
		switch y := x.(type) {
		case *ssa.UnOp:
			x = y.X
		case *ssa.FieldAddr:
			x = y.X
		case *ssa.IndexAddr:
			x = y.X
		case *ssa.MakeInterface:
			x = y.X
		case *ssa.ChangeInterface:
			x = y.X
		case *ssa.TypeAssert:
			return v.nodePath(y.X, 0)
		case *ssa.Extract:
			ta, ok := y.Tuple.(*ssa.TypeAssert)
			if !ok {
				return ""
			}
			return v.nodePath(ta.X, 0)
		default:
			return ""
		}
	}
	return ""
}

// onlyStore: the value a local variable gets, if it gets only one.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var out ssa.Value
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(al) || out != nil {
				return nil
			}
			out = r.Val
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return out
}

// paths: the nodes a value may be, through the parameters of functions of the converter.
func (v *convert) paths(x ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(x ssa.Value)
	rec = func(x ssa.Value) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if path := v.nodePath(x, 0); path != "" {
			out[path] = true
			return
		}
		switch x := x.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.MakeInterface:
			rec(x.X)
		case *ssa.ChangeInterface:
			rec(x.X)
		case *ssa.TypeAssert:
			rec(x.X)
		case *ssa.Extract:
			rec(x.Tuple)
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q == x {
					for _, cc := range v.callers(x.Parent()) {
						rec(cc.Call.Args[i])
					}
				}
			}
		case *ssa.UnOp:
			rec(x.X)
		case *ssa.IndexAddr:
			rec(x.X)
		case *ssa.Alloc:
			for _, st := range arrayStores(x) {
				rec(st)
			}
		case *ssa.Slice:
			rec(x.X)
		}
	}
	rec(x)
	return out
}

// fieldStore: a value stored in a field of a built node.
type fieldStore struct {
	st  *ssa.Store
	val ssa.Value
}

// stores: what is stored in the fields of a new node, by the name of the field ("Function.Params" for an embedded one).
func (v *convert) stores(al *ssa.Alloc) map[string][]fieldStore {
	out := map[string][]fieldStore{}
	var rec func(addr ssa.Value, prefix string, depth int)
	rec = func(addr ssa.Value, prefix string, depth int) {
		if addr.Referrers() == nil || depth > 3 {
			return
		}
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.X != addr {
					continue
				}
				st := deref(addr.Type()).Underlying().(*types.Struct)
				rec(r, prefix+"."+st.Field(r.Field).Name(), depth+1)
			case *ssa.Store:
				if r.Addr == addr && prefix != "" {
					k := prefix[1:]
					out[k] = append(out[k], fieldStore{r, r.Val})
					// a whole embedded struct
					if u, ok := r.Val.(*ssa.UnOp); ok {
						if inner, ok := u.X.(*ssa.Alloc); ok {
							for f, ss := range v.stores(inner) {
								for _, s := range ss {
									out[k+"."+f] = append(out[k+"."+f], fieldStore{r, s.val})
								}
							}
						}
					}
				}
			}
		}
	}
	rec(al, "", 0)
	// through the method that returns the address of the comments
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if cc, ok := st.Addr.(*ssa.Call); ok && calleeMethod(cc) == "Comment" {
				recv := cc.Call.Value
				if !cc.Call.IsInvoke() {
					recv = cc.Call.Args[0]
				}
				if v.origins(recv).vals[al] {
					out["Comments"] = append(out["Comments"], fieldStore{st, st.Val})
				}
			}
		}
	}
	return out
}

// nodes: each node built has the parts and the comments of the Starlark node it is built for.
func (v *convert) nodes() {
	type built struct {
		al     *ssa.Alloc
		stores map[string][]fieldStore
	}
	var all []built
	for _, fn := range v.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && buildType(al.Type()) != "" {
					all = append(all, built{al, v.stores(al)})
				}
			}
		}
	}
	covered := map[string]bool{}
	for _, cp := range counterparts {
		covered[cp.from] = true
		found := 0
		for _, bl := range all {
			if buildType(bl.al.Type()) != cp.to || !v.builtFor(bl.al, bl.stores, cp.from) {
				continue
			}
			found++
			v.node(cp, bl.al, bl.stores)
		}
		v.c.Inst("case", fmt.Sprintf("%s becomes %s (%d places)", cp.from, cp.to, found))
		v.n["case"]++
		if found == 0 {
			v.c.Violate("case:"+cp.from+":"+cp.to, v.here(), "no %s is built from the parts of a %s", cp.to, cp.from)
		}
	}
	// every kind of node is known
	if pk := v.syntaxPkg(); pk != nil {
		for _, name := range pk.Scope().Names() {
			tn, ok := pk.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			if ms.Lookup(pk, "Span") == nil || ms.Lookup(pk, "Comments") == nil {
				continue
			}
			if !covered[name] && !noCounterpart[name] {
				v.c.Violate("case:unknown:"+name, v.here(), "the node %s of the Starlark parser is not known", name)
			}
		}
	} else {
		v.c.Violate("case:package", "-", "the Starlark parser's package is not used")
	}
}

func (v *convert) here() string {
	if len(v.fns) == 0 {
		return "-"
	}
	return v.p.Pos(v.fns[0].Pos())
}

func (v *convert) syntaxPkg() *types.Package {
	for _, fn := range v.fns {
		for _, im := range fn.Pkg.Pkg.Imports() {
			if im.Path() == starlarkSyntax {
				return im
			}
		}
	}
	return nil
}

// builtFor: some field of the new node is made of a part of the Starlark node.
func (v *convert) builtFor(al *ssa.Alloc, stores map[string][]fieldStore, from string) bool {
	for f, ss := range stores {
		if f == "Comments" {
			continue
		}
		for _, s := range ss {
			o := v.origins(s.val)
			for path := range o.fields {
				if strings.HasPrefix(path, from+".") {
					return true
				}
			}
			for path := range o.via {
				if strings.HasPrefix(path, from+".") {
					return true
				}
			}
		}
	}
	return false
}

func (v *convert) node(cp counterpart, al *ssa.Alloc, stores map[string][]fieldStore) {
	where := funcName(al.Parent())
	for _, pt := range cp.parts {
		v.c.Inst("parts", cp.from+"."+pt.from+" in "+where)
		v.n["parts"]++
		key := "parts:" + cp.from + "." + pt.from + ":" + cp.to + "." + pt.to + ":" + where
		allowed := map[string]bool{}
		for _, f := range strings.Split(pt.from, "|") {
			allowed[cp.from+"."+f] = true
		}
		ss := stores[pt.to]
		hits := map[*ssa.BasicBlock]bool{}
		for _, s := range ss {
			o := v.origins(s.val)
			has := false
			elems := false
			for path := range o.via {
				elems = elems || allowed[path]
			}
			has = elems
			for path := range o.fields {
				if allowed[path] {
					has = true
				} else if t, _, _ := strings.Cut(path, "."); elems && (t == "DictEntry" || t == "ForClause" || t == "IfClause") {
					// an element converted in place
				} else {
					v.c.Violate(key+":other", v.p.instrPos(s.st), "%s goes into %s of the node for a %s", path, pt.to, cp.from)
				}
			}
			if o.cut {
				v.c.Violate(key+":cut", v.p.instrPos(s.st), "only a part of %s is kept", pt.from)
			}
			if _, scalar := s.val.Type().Underlying().(*types.Basic); scalar {
				if x := o.changed(); x != nil {
					v.c.Violate(key+":changed", v.p.instrPos(s.st), "%s of a %s is changed", pt.from, cp.from)
				}
			}
			if has {
				hits[s.st.Block()] = true
				// an addition in a loop over the part: also where the loop runs no time
				for b := s.st.Block(); b != nil; b = b.Idom() {
					if l := loopAt(b); l != nil && l.body[s.st.Block()] && v.overPart(l.over, allowed) {
						hits[b] = true
					}
				}
			} else if _, ok := s.val.(*ssa.Const); !ok && len(o.fields) == 0 && !v.emptyStart(s.val) {
				v.c.Violate(key+":unknown", v.p.instrPos(s.st), "what goes into %s of the node for a %s is not its %s", pt.to, cp.from, pt.from)
			}
		}
		if len(ss) == 0 || len(hits) == 0 {
			v.c.Violate(key, v.p.instrPos(al), "%s of a %s is not kept", pt.from, cp.from)
			continue
		}
		if !pathsPass(al.Block(), isReturn, func(b *ssa.BasicBlock) bool { return hits[b] }, nil) {
			v.c.Violate(key+":path", v.p.instrPos(al), "%s of a %s is not kept on some path", pt.from, cp.from)
		}
		// the last store is one of the part
		for _, s := range ss {
			if !hits[s.st.Block()] {
				for h := range hits {
					if reaches(h, s.st.Block()) && h != s.st.Block() {
						v.c.Violate(key+":over", v.p.instrPos(s.st), "%s of the node for a %s is overwritten", pt.to, cp.from)
						break
					}
				}
			}
		}
	}
	if cp.from == "SliceExpr" {
		v.step(al, stores)
	}
	// comments
	v.c.Inst("comments", cp.from+" in "+where)
	v.n["comments"]++
	v.commentsOf(cp, al, stores, "", "comments:"+cp.from+":"+cp.to+":"+where)
	for _, nm := range cp.named {
		v.c.Inst("comments", cp.from+"."+nm+" in "+where)
		v.n["comments"]++
		v.commentsOf(cp, al, stores, "."+nm, "comments:"+cp.from+"."+nm+":"+cp.to+":"+where)
	}
}

func (v *convert) commentsOf(cp counterpart, al *ssa.Alloc, stores map[string][]fieldStore, sub, key string) {
	hits := map[*ssa.BasicBlock]bool{}
	for f, ss := range stores {
		if f != "Comments" {
			continue
		}
		for _, s := range ss {
			o := v.origins(s.val)
			if o.comments[cp.from+sub] || sub == "" && (o.nodes[cp.from] || o.fields[cp.from+".commentsRef"]) || sub != "" && o.fields[cp.from+sub] {
				hits[s.st.Block()] = true
			} else if sub == "" {
				v.c.Violate(key+":other", v.p.instrPos(s.st), "the comments of the node for a %s are not those of the %s%s", cp.from, cp.from, sub)
			}
		}
	}
	what := cp.from
	if sub != "" {
		what += "'s " + strings.ToLower(sub[1:])
	}
	if len(hits) == 0 {
		v.c.Violate(key, v.p.instrPos(al), "the comments of a %s are not kept", what)
		return
	}
	if !pathsPass(al.Block(), isReturn, func(b *ssa.BasicBlock) bool { return hits[b] }, nil) {
		v.c.Violate(key+":path", v.p.instrPos(al), "the comments of a %s are not kept on some path", what)
	}
}

// overPart: a loop runs over one of the parts.
func (v *convert) overPart(over ssa.Value, allowed map[string]bool) bool {
	o := v.origins(over)
	for path := range o.fields {
		if allowed[path] {
			return true
		}
	}
	return false
}

// emptyStart: an empty list that is extended later.
func (v *convert) emptyStart(x ssa.Value) bool {
	switch x := x.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		return ok && at.Len() == 0
	}
	return false
}

// step: the position of the second colon, which makes the printer print the step, is set wherever there is a step.
func (v *convert) step(al *ssa.Alloc, stores map[string][]fieldStore) {
	v.c.Inst("step", "a slice built in "+funcName(al.Parent()))
	key := "step:" + funcName(al.Parent())
	hits := map[*ssa.BasicBlock]bool{}
	for f, ss := range stores {
		if f != "SecondColon" && f != "SecondColon.Byte" {
			continue
		}
		for _, s := range ss {
			if _, direct := s.st.Addr.(*ssa.FieldAddr); f == "SecondColon.Byte" && (!direct || s.st.Val != s.val) {
				continue // counted with the whole position
			}
			positions(s.val, s.st.Block(), hits, 0)
		}
	}
	noStep := func(b, t *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return false
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		x := cmp.X
		if isNilConst(x) {
			x = cmp.Y
		} else if !isNilConst(cmp.Y) {
			return false
		}
		isStep := v.origins(x).fields["SliceExpr.Step"]
		if !isStep {
			// the step of the new node
			if u, ok := x.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && buildType(fa.X.Type()) == "SliceExpr" {
					isStep = deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "Step"
				}
			}
		}
		if !isStep {
			return false
		}
		switch cmp.Op.String() {
		case "!=":
			return t == b.Succs[1]
		case "==":
			return t == b.Succs[0]
		}
		return false
	}
	// the position may be prepared before the node is built
	start := al.Block()
	for d := start; d != nil; d = d.Idom() {
		if len(hits) > 0 && dominatesAll(d, hits) {
			start = d
			break
		}
	}
	if len(hits) == 0 || !pathsPass(start, isReturn, func(b *ssa.BasicBlock) bool { return hits[b] }, noStep) {
		v.c.Violate(key, v.p.instrPos(al), "a slice with a step is built without a second colon, so the step is not printed")
	}
}

// positions: the blocks where a value becomes a position, or part of one, that is not the zero position.
func positions(x ssa.Value, b *ssa.BasicBlock, out map[*ssa.BasicBlock]bool, depth int) {
	if depth > 8 {
		return
	}
	switch x := x.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() == constant.Int && x.Value.ExactString() == "0" {
			return
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			positions(e, x.Block().Preds[i], out, depth+1)
		}
		return
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			break
		}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == ssa.Value(al) {
					positions(r.Val, r.Block(), out, depth+1)
				}
			case *ssa.FieldAddr:
				if deref(al.Type()).Underlying().(*types.Struct).Field(r.Field).Name() != "Byte" {
					continue
				}
				for _, r2 := range *r.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						positions(st.Val, st.Block(), out, depth+1)
					}
				}
			}
		}
		return
	}
	out[b] = true
}

func dominatesAll(d *ssa.BasicBlock, bs map[*ssa.BasicBlock]bool) bool {
	for b := range bs {
		if !d.Dominates(b) {
			return false
		}
	}
	return true
}

// commentParts: comments keep their place and their text.
func (v *convert) commentParts() {
	check := func(bt, field, want string) {
		found := false
		for _, fn := range v.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					al, ok := in.(*ssa.Alloc)
					if !ok || buildType(al.Type()) != bt {
						continue
					}
					ss := v.stores(al)
					if len(ss) == 0 {
						continue
					}
					for _, s := range ss[field] {
						o := v.origins(s.val)
						if o.fields[want] {
							found = true
						}
						for path := range o.fields {
							if path != want {
								v.c.Violate("comments:"+bt+"."+field+":other", v.p.instrPos(s.st), "%s goes into %s of the comments", path, field)
							}
						}
						if _, scalar := s.val.Type().Underlying().(*types.Basic); scalar && o.changed() != nil {
							v.c.Violate("comments:"+bt+"."+field+":changed", v.p.instrPos(s.st), "%s is changed", want)
						}
						if o.cut {
							v.c.Violate("comments:"+bt+"."+field+":cut", v.p.instrPos(s.st), "only a part of %s is kept", want)
						}
					}
				}
			}
		}
		v.c.Inst("comments", want)
		v.n["comments"]++
		if !found {
			v.c.Violate("comments:"+bt+"."+field, v.here(), "%s is not kept", want)
		}
	}
	check("Comments", "Before", "Comments.Before")
	check("Comments", "Suffix", "Comments.Suffix")
	check("Comments", "After", "Comments.After")
	check("Comment", "Token", "Comment.Text")
	// what takes comments and gives comments keeps all of them
	isComments := func(t types.Type) bool { return buildType(t) == "Comments" || syntaxType(t) == "Comments" }
	for _, fn := range v.fns {
		if rs := fn.Signature.Results(); rs.Len() != 1 || !isComments(rs.At(0).Type()) {
			continue
		}
		for _, q := range fn.Params {
			if !isComments(q.Type()) {
				continue
			}
			for _, f := range []string{"Before", "Suffix", "After"} {
				v.c.Inst("comments", f+" of "+q.Name()+" in "+funcName(fn))
				if !keepsField(fn, q, f) {
					v.c.Violate("comments:"+funcName(fn)+":"+q.Name()+":"+f, v.p.Pos(fn.Pos()), "%s does not keep %s of %s", funcName(fn), f, q.Name())
				}
			}
		}
	}
	// the comments of a statement that is only an expression
	v.c.Inst("comments", "ExprStmt")
	v.n["comments"]++
	found := false
	for _, fn := range v.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if buildType(x.Val.Type()) == "Comments" && v.origins(x.Val).comments["ExprStmt"] {
						found = true
					}
				}
			}
		}
	}
	if !found {
		v.c.Violate("comments:ExprStmt", v.here(), "the comments of a statement that is only an expression are not kept")
	}
}

// keepsField: what a function stores in a field of its result is made of that field of its parameter, or the whole
// parameter is handed on.
func keepsField(fn *ssa.Function, q *ssa.Parameter, field string) bool {
	isParam := func(x ssa.Value) bool {
		if x == ssa.Value(q) {
			return true
		}
		al, ok := x.(*ssa.Alloc)
		return ok && onlyInit(al) == ssa.Value(q)
	}
	name := func(t types.Type, i int) string {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		return st.Field(i).Name()
	}
	made := func(x ssa.Value) bool {
		done := map[ssa.Value]bool{}
		var rec func(x ssa.Value) bool
		rec = func(x ssa.Value) bool {
			if x == nil || done[x] {
				return false
			}
			done[x] = true
			switch y := x.(type) {
			case *ssa.FieldAddr:
				if isParam(y.X) {
					return name(y.X.Type(), y.Field) == field
				}
			case *ssa.Field:
				if isParam(y.X) {
					return name(y.X.Type(), y.Field) == field
				}
			}
			in, ok := x.(ssa.Instruction)
			if !ok {
				return false
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && rec(*op) {
					return true
				}
			}
			return false
		}
		return rec(x)
	}
	hits := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if ok && buildType(fa.X.Type()) == "Comments" && name(fa.X.Type(), fa.Field) == field {
					if made(x.Val) {
						hits[b] = true
					}
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if r == ssa.Value(q) {
						hits[b] = true
					}
					if u, ok := r.(*ssa.UnOp); ok && isParam(u.X) && !replaced(u.X, field, made) {
						hits[b] = true
					}
				}
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if a == ssa.Value(q) && buildType(x.Type()) == "Comments" {
						hits[b] = true
					}
				}
			}
		}
	}
	noComments := func(b, t *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || !(cmp.X == ssa.Value(q) && isNilConst(cmp.Y) || cmp.Y == ssa.Value(q) && isNilConst(cmp.X)) {
			return false
		}
		return cmp.Op == token.EQL && t == b.Succs[0] || cmp.Op == token.NEQ && t == b.Succs[1]
	}
	return len(hits) > 0 && pathsPass(fn.Blocks[0], isReturn, func(b *ssa.BasicBlock) bool { return hits[b] }, noComments)
}

// replaced: a field of a struct is stored to, with something that is not made of what it held.
func replaced(x ssa.Value, field string, made func(ssa.Value) bool) bool {
	for _, r := range *x.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || deref(x.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() != field {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && !made(st.Val) {
				return true
			}
		}
	}
	return false
}

// onlyInit: the value a local copy of a struct starts with.
func onlyInit(al *ssa.Alloc) ssa.Value {
	var out ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if out != nil {
				return nil
			}
			out = st.Val
		}
	}
	return out
}

// cases: where a kind of node is recognised, nothing is returned without it having been converted.
func (v *convert) cases() {
	seen := map[string]bool{}
	for _, fn := range v.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				if _, ok := ta.AssertedType.Underlying().(*types.Pointer); !ok {
					continue
				}
				t := syntaxType(ta.AssertedType)
				if t == "" {
					continue
				}
				if !ta.CommaOk || v.nodePath(ta.X, 0) != "" && !isElement(ta.X) {
					continue // it is known what the node is, or it is only looked at
				}
				seen[t] = true
				v.oneCase(fn, ta, t)
			}
		}
	}
	for _, cp := range counterparts {
		if cp.from != "File" && !seen[cp.from] {
			v.c.Violate("case:"+cp.from, v.here(), "a %s is not recognised", cp.from)
		}
	}
	if !seen["ExprStmt"] {
		v.c.Violate("case:ExprStmt", v.here(), "an ExprStmt is not recognised")
	}
}

// isElement: an element of a list.
func isElement(x ssa.Value) bool {
	u, ok := x.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.IndexAddr)
	return ok
}

// changed: the value is not the part itself but a text or a truth value made from it.
func (o *origin) changed() ssa.Value {
	for x := range o.vals {
		switch x := x.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || f.Pkg == nil {
				continue
			}
			switch f.Pkg.Pkg.Path() {
			case "strings", "bytes", "regexp", "unicode", "path", "path/filepath":
				return x
			}
		case *ssa.BinOp:
			return x
		case *ssa.UnOp:
			if x.Op == token.NOT || x.Op == token.SUB {
				return x
			}
		}
	}
	return nil
}

func (v *convert) oneCase(fn *ssa.Function, ta *ssa.TypeAssert, t string) {
	v.c.Inst("case", t+" recognised in "+funcName(fn))
	v.n["case"]++
	key := "case:" + t + ":" + funcName(fn)
	want := map[string]bool{}
	for _, cp := range counterparts {
		if cp.from == t {
			want[cp.to] = true
		}
	}
	var start *ssa.BasicBlock
	for _, r := range *ta.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		for _, r2 := range *ex.Referrers() {
			if br, ok := r2.(*ssa.If); ok {
				start = br.Block().Succs[0]
			}
		}
	}
	if start == nil {
		return // whether it is one is only asked for
	}
	hit := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if x.Heap && want[buildType(x.Type())] {
					return true
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil || relPkg(f) != "convertast" || !v.returnsNode(f) {
					continue
				}
				for _, a := range x.Call.Args {
					for path := range v.paths(a) {
						if path == t || t == "ExprStmt" && path == "ExprStmt.X" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	end := func(b *ssa.BasicBlock) bool { return isReturn(b) || !start.Dominates(b) }
	if onlyPanics(start) {
		return
	}
	if hit(start) {
		// fine
	} else if !pathsPass(start, end, hit, func(b, t *ssa.BasicBlock) bool { return onlyPanics(t) || v.kindEdge(b, t) }) {
		v.c.Violate(key+":lost", v.p.instrPos(ta), "a %s may be left out of the result", t)
	}
	// what is returned there is a node
	for _, b := range fn.Blocks {
		if !start.Dominates(b) {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, res := range r.Results {
				if isNilConst(res) {
					v.c.Violate(key+":nil", v.p.instrPos(r), "a %s may be converted to nothing", t)
				}
			}
		}
	}
}

// kindEdge: the edge is taken only for a literal that is none of the kinds that have a counterpart.
func (v *convert) kindEdge(b, t *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op.String() != "==" || t != b.Succs[1] {
		return false
	}
	if !v.origins(cmp.X).fields["Literal.Token"] {
		return false
	}
	// the last comparison: what follows only panics
	return onlyPanics(t)
}

func (v *convert) returnsNode(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	t := rs.At(0).Type()
	if buildType(t) != "" && buildType(t) != "Comments" && buildType(t) != "Comment" {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Expr"
}

// lists: loops over nodes and comments are complete.
func (v *convert) lists() {
	var keys []string
	for _, fn := range v.fns {
		for _, b := range fn.Blocks {
			l := loopAt(b)
			if l == nil {
				continue
			}
			el := sliceElem(l.over.Type())
			if el == nil || syntaxType(el) == "" {
				continue
			}
			v.n["list"]++
			k := "list:" + funcName(fn) + ":" + syntaxType(el)
			keys = append(keys, k)
			v.c.Inst("list", "loop over "+syntaxType(el)+" in "+funcName(fn))
			if x := exitsEarly(l.head, l.body); x != nil {
				v.c.Violate(k+":exit", v.p.instrPos(x.Instrs[len(x.Instrs)-1]), "the loop over the nodes can end before the last one")
			}
			if sl, ok := l.over.(*ssa.Slice); ok && !trivialSlice(sl) {
				v.c.Violate(k+":cut", v.p.instrPos(sl), "the loop does not run over all nodes")
			}
			adds := map[*ssa.BasicBlock]bool{}
			for x := range l.body {
				for _, in := range x.Instrs {
					switch y := in.(type) {
					case *ssa.Call:
						if isAppend(y) && v.ofElement(l, y.Call.Args[1:]) {
							adds[x] = true
						}
					case *ssa.Store:
						if ia, ok := y.Addr.(*ssa.IndexAddr); ok && v.ofElement(l, []ssa.Value{y.Val}) {
							if _, ok := deref(ia.X.Type()).Underlying().(*types.Array); !ok {
								adds[x] = true
							}
						}
					}
				}
			}
			skip := func(b, t *ssa.BasicBlock) bool { return onlyPanics(t) || v.otherKind(b, t) }
			if !pathsPass(l.start, func(t *ssa.BasicBlock) bool { return t == l.head }, func(t *ssa.BasicBlock) bool { return adds[t] }, skip) {
				v.c.Violate(k+":skip", v.p.instrPos(l.start.Instrs[0]), "an element of the list may be left out of the result")
			}
		}
	}
	sort.Strings(keys)
}

// otherKind: the edge of a type switch over clauses that is taken for neither of the two kinds of clauses.
func (v *convert) otherKind(b, t *ssa.BasicBlock) bool {
	neg := func(b, t *ssa.BasicBlock) (ssa.Value, string) {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || t != b.Succs[1] {
			return nil, ""
		}
		ex, ok := br.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return nil, ""
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok {
			return nil, ""
		}
		return ta.X, syntaxType(ta.AssertedType)
	}
	x, name := neg(b, t)
	if x == nil {
		return false
	}
	names := map[string]bool{name: true}
	for len(b.Preds) == 1 {
		y, n := neg(b.Preds[0], b)
		if y != x {
			break
		}
		names[n] = true
		b = b.Preds[0]
	}
	return names["ForClause"] && names["IfClause"]
}

// ofElement: one of the values is made of the element of the loop.
func (v *convert) ofElement(l *anyLoop, vals []ssa.Value) bool {
	base := v.sameSlice(l.over)
	for _, x := range vals {
		done := map[ssa.Value]bool{}
		var rec func(x ssa.Value) bool
		rec = func(x ssa.Value) bool {
			if x == nil || done[x] {
				return false
			}
			done[x] = true
			if al, ok := x.(*ssa.Alloc); ok {
				for _, st := range arrayStores(al) {
					if rec(st) {
						return true
					}
				}
				for _, ss := range v.stores(al) {
					for _, s := range ss {
						if rec(s.val) {
							return true
						}
					}
				}
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && rec(st.Val) {
						return true
					}
				}
				return false
			}
			if ia, ok := x.(*ssa.IndexAddr); ok && v.sameSlice(ia.X) == base {
				_, isConst := ia.Index.(*ssa.Const)
				return !isConst
			}
			in, ok := x.(ssa.Instruction)
			if !ok {
				return false
			}
			if ph, ok := x.(*ssa.Phi); ok && !l.body[ph.Block()] {
				return false
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && rec(*op) {
					return true
				}
			}
			return false
		}
		if rec(x) {
			return true
		}
	}
	return false
}

// sameSlice: a name for the list: the value, or the field it was read from.
func (v *convert) sameSlice(x ssa.Value) string {
	if path := v.nodePath(x, 0); path != "" {
		return path
	}
	return fmt.Sprintf("%p", x)
}

// values: an integer literal is an int64 or a big one.
func (v *convert) values() {
	for _, fn := range v.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !v.origins(ta.X).fields["Literal.Value"] {
					continue
				}
				bt, isBasic := ta.AssertedType.Underlying().(*types.Basic)
				v.c.Inst("value", ta.AssertedType.String()+" in "+funcName(fn))
				if ta.CommaOk || isBasic && bt.Info()&types.IsString != 0 {
					continue
				}
				v.c.Violate("value:"+ta.AssertedType.String()+":"+funcName(fn), v.p.instrPos(ta), "the value of a literal is assumed to be %s", ta.AssertedType)
			}
		}
	}
}
