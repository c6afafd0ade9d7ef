package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", diagRules,
		"encoding/json encodes exported fields under their tags; strings.Builder and fmt behave as documented")
}

// reads is the set of struct fields a value is computed from (through helpers, locals and variadic arguments).
type slicer struct {
	p    *Prog
	memo map[ssa.Value]bool
	out  map[string]bool
	vals map[ssa.Value]bool
}

func (p *Prog) sliceOf(vs ...ssa.Value) *slicer {
	s := &slicer{p: p, memo: map[ssa.Value]bool{}, out: map[string]bool{}, vals: map[ssa.Value]bool{}}
	for _, v := range vs {
		s.visit(v)
	}
	return s
}

func shortType(t types.Type) string {
	k := typeKey(deref(t))
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	return k
}

func (s *slicer) visit(v ssa.Value) {
	if v == nil || s.vals[v] {
		return
	}
	s.vals[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		s.field(x.X, x.Field)
		s.visit(x.X)
	case *ssa.Field:
		s.field(x.X, x.Field)
		s.visit(x.X)
	case *ssa.Alloc:
		s.stores(x)
	case *ssa.IndexAddr:
		s.visit(x.X)
	case *ssa.Index:
		s.visit(x.X)
	case *ssa.Slice:
		s.visit(x.X)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			s.visit(a)
		}
		if f := x.Call.StaticCallee(); f != nil && inRepo(f) {
			s.results(f)
		} else if x.Call.IsInvoke() || f == nil {
			s.visit(x.Call.Value)
		}
	case *ssa.MakeClosure:
		s.results(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			s.visit(b)
		}
	case *ssa.Function:
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.visit(e)
		}
	case *ssa.BinOp:
		s.visit(x.X)
		s.visit(x.Y)
	case *ssa.UnOp:
		s.visit(x.X)
	case *ssa.Convert:
		s.visit(x.X)
	case *ssa.ChangeType:
		s.visit(x.X)
	case *ssa.MakeInterface:
		s.visit(x.X)
	case *ssa.ChangeInterface:
		s.visit(x.X)
	case *ssa.TypeAssert:
		s.visit(x.X)
	case *ssa.Extract:
		s.visit(x.Tuple)
	case *ssa.Lookup:
		s.visit(x.X)
		s.visit(x.Index)
	}
}

func (s *slicer) field(x ssa.Value, i int) {
	t := deref(x.Type())
	st, ok := t.Underlying().(*types.Struct)
	if ok {
		s.out[shortType(t)+"."+st.Field(i).Name()] = true
	}
}

func (s *slicer) results(f *ssa.Function) {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				s.visit(r)
			}
		}
	}
}

// stores: what is stored at an address or below.
func (s *slicer) stores(a ssa.Value) {
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				s.visit(r.Val)
			}
		case *ssa.FieldAddr:
			s.stores(r)
		case *ssa.IndexAddr:
			if r.X == a {
				s.stores(r)
			}
		}
	}
}

// pathsPass: every path from a block to a block where end holds goes through a block where hit holds or an edge that
// skip accepts. The first block itself is a start, not an end.
func pathsPass(start *ssa.BasicBlock, end, hit func(b *ssa.BasicBlock) bool, skip func(b, t *ssa.BasicBlock) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if hit(b) {
			return true
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		if end(b) && b != start {
			return false
		}
		if isReturn(b) && end(b) {
			return false
		}
		for _, t := range b.Succs {
			if skip != nil && skip(b, t) {
				continue
			}
			if end(t) && !hit(t) {
				return false
			}
			if !rec(t) {
				return false
			}
		}
		return true
	}
	return rec(start)
}

func isReturn(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

// exitsEarly: an edge that leaves the loop from inside its body.
func exitsEarly(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	for b := range body {
		if b == h {
			continue
		}
		for _, t := range b.Succs {
			if !body[t] && !onlyPanics(t) {
				return b
			}
		}
	}
	return nil
}

func onlyPanics(b *ssa.BasicBlock) bool {
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
		return true
	}
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" && f.Name() == "Exit" {
				return true
			}
		}
	}
	return false
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// diag holds the roles the rules are about.
type diag struct {
	c                     *Ctx
	p                     *Prog
	report, file, entry   *types.Named
	find                  types.Type // *warn.Finding
	entries               string     // type of a list of entries
	fns                   []*ssa.Function
	filesList, entryField string
}

func namedStruct(t types.Type) *types.Named {
	n, ok := deref(t).(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func fieldNamed(n *types.Named, name string) (int, *types.Var) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i)
		}
	}
	return -1, nil
}

func diagRules(c *Ctx) {
	p := c.P
	c.Rule("finding-fields", "every field of a report entry is set from the field of the finding with the same name, on every path")
	c.Rule("every-finding", "the loop over the findings of a file adds an entry for each of them to the file's list")
	c.Rule("linted", "the findings of a file's report are those of the linter, run on that file in warning mode")
	c.Rule("flags", "a file is marked as formatted exactly if its formatted text is identical, as invalid if it did not parse")
	c.Rule("every-file", "the entry of every processed file reaches the report")
	c.Rule("success", "the report tells success exactly if all files are formatted and without findings")
	c.Rule("text", "the text form has a line for every finding and for every unformatted file")
	c.Rule("json", "the JSON form encodes the whole report")
	c.Rule("printed", "the report is printed before buildifier ends")
	d := &diag{c: c, p: p}
	if t := p.Type("buildifier/utils", "Diagnostics"); t != nil {
		d.report = namedStruct(t)
	}
	if t := p.Type("buildifier/utils", "FileDiagnostics"); t != nil {
		d.file = namedStruct(t)
	}
	if t := p.Type("warn", "Finding"); t != nil {
		d.find = types.NewPointer(t)
	}
	if d.report == nil || d.file == nil || d.find == nil {
		c.Violate("anchor:types", "", "the report types were not found")
		return
	}
	st := d.file.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if el := sliceElem(st.Field(i).Type()); el != nil {
			if n := namedStruct(el); n != nil && d.entry == nil {
				d.entry, d.entries, d.entryField = n, typeKey(st.Field(i).Type()), st.Field(i).Name()
			}
		}
	}
	st = d.report.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if el := sliceElem(st.Field(i).Type()); el != nil && types.Identical(deref(el), d.file) {
			d.filesList = st.Field(i).Name()
		}
	}
	if d.entry == nil || d.filesList == "" {
		c.Violate("anchor:entry", "", "the lists of the report were not found")
		return
	}
	for _, fn := range p.repoFuncs() {
		if r := relPkg(fn); r == "buildifier" || r == "buildifier/utils" {
			d.fns = append(d.fns, fn)
		}
	}
	d.fields()
	d.everyFinding()
	d.linted()
	d.flags()
	d.everyFile()
	d.success()
	d.text()
	d.json()
	d.printed()
	c.Floor("finding-fields", 9)
	c.Floor("every-finding", 1)
	c.Floor("linted", 2)
	c.Floor("flags", 3)
	c.Floor("every-file", 2)
	c.Floor("success", 2)
	c.Floor("text", 7)
	c.Floor("json", 14)
	c.Floor("printed", 1)
}

// fields: see the rule.
func (d *diag) fields() {
	R := "finding-fields"
	est := d.entry.Underlying().(*types.Struct)
	pos := map[string]string{"Line": "Line", "Column": "LineRune"}
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				t := namedStruct(al.Type())
				if t == d.entry && !d.copied(al) {
					for i := 0; i < est.NumFields(); i++ {
						name := est.Field(i).Name()
						d.c.Inst(R, funcName(fn)+" sets "+name)
						d.fieldSet(R, fn, al, i, name, "warn.Finding.", name)
					}
				}
				if t != nil && t != d.entry && d.isPosition(t) && !d.copied(al) {
					pst := t.Underlying().(*types.Struct)
					for i := 0; i < pst.NumFields(); i++ {
						name := pst.Field(i).Name()
						if from := pos[name]; from != "" {
							d.c.Inst(R, funcName(fn)+" sets "+name)
							d.fieldSet(R, fn, al, i, name, "build.Position.", from)
						}
					}
				}
			}
		}
	}
}

// copied: the local is filled by one whole-value store (a parameter or the result of a helper).
func (d *diag) copied(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			return true
		}
	}
	return false
}

func (d *diag) isPosition(t *types.Named) bool {
	st := d.entry.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(deref(st.Field(i).Type()), t) {
			return true
		}
	}
	return false
}

func (d *diag) fieldSet(rule string, fn *ssa.Function, al *ssa.Alloc, i int, name, of, from string) {
	key := rule + ":" + funcName(fn) + ":" + name
	blocks := map[*ssa.BasicBlock]bool{}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != i {
			continue
		}
		sub := map[string]ssa.Value{}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				blocks[st.Block()] = true
				sub[""] = st.Val
				d.from(key, st, st.Val, of, from)
			}
			if f2, ok := r2.(*ssa.FieldAddr); ok && f2.X == fa {
				n := deref(fa.Type()).Underlying().(*types.Struct).Field(f2.Field).Name()
				for _, r3 := range *f2.Referrers() {
					if st, ok := r3.(*ssa.Store); ok && st.Addr == f2 {
						blocks[st.Block()] = true
						d.from(key, st, st.Val, of, from)
						if w := map[string]string{"Line": "Line", "Column": "LineRune"}[n]; w != "" {
							d.from(key+"."+n, st, st.Val, "build.Position.", w)
						}
					}
				}
			}
		}
	}
	ok := len(blocks) > 0 && pathsPass(al.Block(), func(b *ssa.BasicBlock) bool { return isReturn(b) || b == al.Block() }, func(b *ssa.BasicBlock) bool { return blocks[b] }, nil)
	if !ok {
		d.c.Violate(key, d.p.instrPos(al), "the field %s of a report entry is not set on every path", name)
	}
}

func (d *diag) from(key string, in ssa.Instruction, v ssa.Value, of, from string) {
	rd := d.p.sliceOf(v).out
	bad := !rd[of+from]
	for k := range rd {
		if strings.HasPrefix(k, of) && k != of+from {
			bad = true
		}
	}
	if bad {
		d.c.Violate(key, d.p.instrPos(in), "the value is not the %s%s of what is reported (read: %s)", of, from, strings.Join(keys(rd), ", "))
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// adds: the blocks of a function where something is appended to a list of the given type that grows.
func (d *diag) adds(fn *ssa.Function, list string) map[*ssa.BasicBlock]*ssa.Call {
	out := map[*ssa.BasicBlock]*ssa.Call{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && isAppend(c) && typeKey(c.Type()) == list {
				out[b] = c
			}
		}
	}
	return out
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// grows: the result of an append takes the place of the list appended to.
func grows(c *ssa.Call) bool {
	base := c.Call.Args[0]
	var ok func(v ssa.Value, seen map[ssa.Value]bool) bool
	ok = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if ld, o := base.(*ssa.UnOp); o && r.Val == v && ld.Op == token.MUL && sameOperandAddr(ld.X, r.Addr) {
					return true
				}
			case *ssa.Phi:
				if r == base || ok(r, seen) {
					return true
				}
			}
		}
		return false
	}
	return ok(c, map[ssa.Value]bool{})
}

// everyFinding: see the rule.
func (d *diag) everyFinding() {
	R := "every-finding"
	fkey := typeKey(types.NewSlice(d.find))
	for _, fn := range d.fns {
		adds := d.adds(fn, d.entries)
		sets := map[*ssa.BasicBlock]bool{} // blocks that set the element of the loop's own index
		for _, b := range fn.Blocks {
			rg := findRange(b)
			if rg == nil || typeKey(rg.list.Type()) != fkey {
				continue
			}
			index := map[ssa.Value]bool{}
			for t := range rg.body {
				for _, in := range t.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && typeKey(ia.X.Type()) == fkey {
						index[ia.Index] = true
					}
				}
			}
			for t := range rg.body {
				for _, in := range t.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && typeKey(ia.X.Type()) == d.entries && index[ia.Index] {
						sets[t] = true
					}
				}
			}
			if len(adds)+len(sets) == 0 {
				continue
			}
			d.c.Inst(R, "loop in "+funcName(fn))
			key := R + ":" + funcName(fn)
			body := b.Succs[0]
			if x := exitsEarly(b, rg.body); x != nil {
				d.c.Violate(key+":exit", d.p.instrPos(x.Instrs[len(x.Instrs)-1]), "the loop over the findings can end before the last one")
			}
			if _, ok := rg.list.(*ssa.Parameter); !ok {
				d.c.Violate(key+":list", d.p.instrPos(b.Instrs[0]), "the loop is not over the findings passed")
			}
			ok := pathsPass(body, func(t *ssa.BasicBlock) bool { return t == b }, func(t *ssa.BasicBlock) bool { return (adds[t] != nil || sets[t]) && rg.body[t] }, nil)
			if !ok {
				d.c.Violate(key, d.p.instrPos(body.Instrs[0]), "a finding may be left out of the report")
			}
			for t, c := range adds {
				if rg.body[t] && !grows(c) {
					d.c.Violate(key+":grow", d.p.instrPos(c), "the list of entries is replaced instead of extended")
				}
			}
		}
	}
}

// linted: see the rule.
func (d *diag) linted() {
	R := "linted"
	fkey := typeKey(types.NewSlice(d.find))
	var makers []*ssa.Function
	for _, fn := range d.fns {
		if rs := fn.Signature.Results(); rs.Len() == 1 && typeKey(rs.At(0).Type()) == fkey && fn.Parent() == nil {
			makers = append(makers, fn)
		}
	}
	for _, fn := range makers {
		d.lintRun(R, fn)
	}
	isMaker := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		f := c.Call.StaticCallee()
		for _, m := range makers {
			if f == m {
				return true
			}
		}
		return f != nil && f.Name() == "FileWarnings" && relPkg(f) == "warn"
	}
	// what is passed to the functions that make a file's report
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || relPkg(f) != "buildifier/utils" || f.Signature.Results().Len() != 1 || namedStruct(f.Signature.Results().At(0).Type()) != d.file {
					continue
				}
				for _, a := range c.Call.Args {
					if typeKey(a.Type()) != fkey {
						continue
					}
					d.c.Inst(R, funcName(fn)+" passes on the findings")
					var chk func(v ssa.Value, seen map[ssa.Value]bool) bool
					chk = func(v ssa.Value, seen map[ssa.Value]bool) bool {
						if seen[v] || isMaker(v) {
							return true
						}
						seen[v] = true
						switch x := v.(type) {
						case *ssa.Phi:
							for _, e := range x.Edges {
								if !chk(e, seen) {
									return false
								}
							}
							return true
						case *ssa.Parameter:
							return d.paramFrom(x, seen, chk)
						}
						return false
					}
					if !chk(a, map[ssa.Value]bool{}) {
						d.c.Violate(R+":"+funcName(fn), d.p.instrPos(c), "the findings reported for a file are not those the linter returned")
					}
				}
			}
		}
	}
}

// paramFrom applies chk to what all callers pass for a parameter.
func (d *diag) paramFrom(x *ssa.Parameter, seen map[ssa.Value]bool, chk func(v ssa.Value, seen map[ssa.Value]bool) bool) bool {
	fn := x.Parent()
	idx, any := -1, false
	for i, pa := range fn.Params {
		if pa == x {
			idx = i
		}
	}
	for _, g := range d.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
					any = true
					if !chk(c.Call.Args[idx], seen) {
						return false
					}
				}
			}
		}
	}
	return any
}

func (d *diag) lintRun(R string, fn *ssa.Function) {
	p, c := d.p, d.c
	warnMode, ok := p.constOf("warn", "ModeWarn")
	if !ok {
		c.Violate("anchor:ModeWarn", "", "warn.ModeWarn not found")
		return
	}
	var file, mode, list *T
	r := &Rule{Relevant: map[*ssa.Function]bool{fn: true}}
	r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) {
		return relPkg(f) == "buildifier/utils" && !hasLoop(f), true
	}
	r.Protect = func(t *T) bool { return mode != nil && t.mentions(func(x *T) bool { return x == mode }) }
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, f *ssa.Function, args []*T) ([]Out, bool) {
		if !strings.HasSuffix(name, "/warn.FileWarnings") && !strings.HasSuffix(name, "/warn.FixWarnings") {
			return nil, false
		}
		if args[0] != file {
			c.Violate(R+":file:"+funcName(fn), p.instrPos(in), "the linter runs on another file")
		}
		for _, a := range args {
			if typeKey(a.typ) == "[]string" && list != nil && a != list && !(a.op == "load" && a.args[0] == list) {
				c.Violate(R+":checks:"+funcName(fn), p.instrPos(in), "the linter does not run with the configured list of checks")
			}
		}
		if strings.HasSuffix(name, "/warn.FixWarnings") {
			s.ev["fixed"] = "1"
			return nil, false
		}
		for i, a := range cc.Args {
			if n, ok := a.Type().(*types.Named); ok && n.Obj().Name() == "LintMode" {
				if m, ok := isInt(args[i]); !ok || m != warnMode {
					c.Violate(R+":mode:"+funcName(fn), p.instrPos(in), "the findings are not asked for in warning mode")
				}
			}
		}
		x := e.opaque(fr, s, in.(ssa.Value), "findings")
		x.typ = cc.Signature().Results().At(0).Type()
		return []Out{{s, x}}, true
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn != fn {
			return
		}
		c.Inst(R, "return of "+funcName(fn))
		isWarn := e.Eval(s.State, e.tb.Eq(mode, e.tb.Const(constant.MakeString("warn"))))
		isFix := e.Eval(s.State, e.tb.Eq(mode, e.tb.Const(constant.MakeString("fix"))))
		if isWarn != no && !(vals[0].op == "opaque" && vals[0].aux == "findings" || strings.Contains(vals[0].String(), "findings")) {
			c.Violate(R+":"+funcName(fn), p.instrPos(in), "with -lint=warn the findings of the linter may not be returned (%s)", vals[0])
		}
		if isFix != no && isWarn != yes && s.ev["fixed"] == "" {
			c.Violate(R+":fix:"+funcName(fn), p.instrPos(in), "with -lint=fix the fixes may not be applied")
		}
	}
	eng := newEngine(c, r)
	_, err := eng.Run(fn, func(s *S, ps []*T) {
		for i, pa := range fn.Params {
			switch typeKey(pa.Type()) {
			case "*" + modPath + "/build.File":
				file = ps[i]
			case "string":
				mode = ps[i]
			case "*[]string", "[]string":
				list = ps[i]
			}
		}
	})
	if err != nil || file == nil || mode == nil {
		c.Violate("undecided:"+funcName(fn), p.Pos(fn.Pos()), "not analysed: %v", err)
	}
	c.flowStats(eng)
}

// flags: see the rule.
func (d *diag) flags() {
	R := "flags"
	p, c := d.p, d.c
	n := 0
	for _, fn := range d.fns {
		rs := fn.Signature.Results()
		hasData := false
		for _, pa := range fn.Params {
			hasData = hasData || isByteSlice(pa.Type())
		}
		if !hasData || rs.Len() == 0 || namedStruct(rs.At(0).Type()) != d.file {
			continue
		}
		n++
		d.flagRun(R, fn)
	}
	if n == 0 {
		c.Violate("anchor:process", "", "the function that processes one file was not found")
	}
	_ = p
}

func (d *diag) flagRun(R string, fn *ssa.Function) {
	p, c := d.p, d.c
	rel := p.reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		if r := relPkg(f); r != "buildifier" && r != "buildifier/utils" {
			return false
		}
		switch x := in.(type) {
		case *ssa.Alloc:
			return namedStruct(x.Type()) == d.file
		case *ssa.FieldAddr:
			return namedStruct(x.X.Type()) == d.file
		case ssa.CallInstruction:
			return strings.HasSuffix(p.staticName(x.Common()), "buildtools/build.Format")
		}
		return false
	})
	r := &Rule{Relevant: rel}
	r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) {
		if rp := relPkg(f); rp != "buildifier" && rp != "buildifier/utils" {
			return false, true
		}
		return rel[f], true
	}
	r.Protect = func(t *T) bool {
		x := t
		if t.op == "==" {
			x = t.args[0]
		}
		return loadedField(x, cfgMode)
	}
	r.ProtectMem = func(a *T) bool {
		return a.op == "field" && (strings.HasSuffix(a.aux, cfgMode) || strings.Contains(a.aux, "FileDiagnostics."))
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, f *ssa.Function, args []*T) ([]Out, bool) {
		sig := cc.Signature()
		switch {
		case name == "os.Exit" || noReturn[name]:
			return nil, true
		case isParserSig(sig) && !cc.IsInvoke() && (f == nil || relPkg(f) == "build" || !inRepo(f)):
			ok, fail := e.forkErr(fr, s, in, sig, "parse")
			ok.S.ev["parsed"] = "1"
			ok.S.note["data"] = args[1]
			fail.S.ev["parsed"] = "0"
			return []Out{ok, fail}, true
		case strings.HasSuffix(name, "buildtools/build.Format"):
			x := e.opaque(fr, s, in.(ssa.Value), "format")
			x.typ = sig.Results().At(0).Type()
			if dt := s.note["data"]; dt != nil {
				g := s.fork()
				eq := e.tb.Equal(dt, x)
				s.atoms[eq] = true
				g.atoms[eq] = false
				s.ev["same"] = "1"
				g.ev["same"] = "0"
				return []Out{{s, x}, {g, x}}, true
			}
		}
		return nil, false
	}
	fi, _ := fieldNamed(d.file, "Formatted")
	vi, _ := fieldNamed(d.file, "Valid")
	if fi < 0 || vi < 0 {
		c.Violate("anchor:flags", "", "the flags of a file's report were not found")
		return
	}
	var eng *Engine
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn != fn {
			return
		}
		pos := p.instrPos(in)
		c.Inst(R, fmt.Sprintf("return at %s of %s, parsed %s, same %s", pos, funcName(fn), s.ev["parsed"], s.ev["same"]))
		v := vals[0]
		if !e.nonNil(s.State, v) {
			c.Violate(R+":nil:"+funcName(fn), pos, "a processed file may have no report")
			return
		}
		get := func(i int) tri {
			st := d.file.Underlying().(*types.Struct)
			x := e.Load(s.State, e.Field(v, d.file, i), st.Field(i).Type())
			return e.Eval(s.State, x)
		}
		e.why(s, "flags")
		switch {
		case s.ev["parsed"] == "0":
			if get(vi) != no || get(fi) != no {
				c.Violate(R+":invalid:"+funcName(fn), pos, "a file that did not parse may be reported as valid or formatted")
			}
		case s.ev["parsed"] == "1":
			if get(vi) != yes {
				c.Violate(R+":valid:"+funcName(fn), pos, "a file that parsed may be reported as invalid")
			}
			if fieldIs(s.State, cfgMode, "check") == no {
				return
			}
			if s.ev["same"] == "0" && get(fi) != no {
				c.Violate(R+":formatted:"+funcName(fn), pos, "in check mode a file that is not formatted may be reported as formatted")
			}
			if s.ev["same"] == "1" && get(fi) != yes {
				c.Violate(R+":unformatted:"+funcName(fn), pos, "a formatted file may be reported as not formatted")
			}
		default:
			c.Violate(R+":unparsed:"+funcName(fn), pos, "a file may be reported without having been parsed")
		}
	}
	eng = newEngine(c, r)
	if _, err := eng.Run(fn, nil); err != nil {
		c.Violate("undecided:"+funcName(fn), p.Pos(fn.Pos()), "not analysed: %v", err)
	}
	c.flowStats(eng)
}

// isNilEdge: the edge is taken when v is nil.
func isNilEdge(b, t *ssa.BasicBlock, v ssa.Value) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.X != v && cmp.Y != v {
		return false
	}
	other := cmp.Y
	if cmp.Y == v {
		other = cmp.X
	}
	if k, ok := other.(*ssa.Const); !ok || !k.IsNil() {
		return false
	}
	return cmp.Op == token.EQL && t == b.Succs[0] || cmp.Op == token.NEQ && t == b.Succs[1]
}

// everyFile: see the rule.
func (d *diag) everyFile() {
	R := "every-file"
	p, c := d.p, d.c
	filesKey := typeKey(types.NewSlice(types.NewPointer(d.file)))
	for _, fn := range d.fns {
		if relPkg(fn) != "buildifier" {
			continue
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || !inRepo(f) {
					continue
				}
				rs := f.Signature.Results()
				if rs.Len() == 0 || namedStruct(rs.At(0).Type()) != d.file || rs.Len() == 1 && relPkg(f) == "buildifier/utils" {
					continue
				}
				c.Inst(R, funcName(fn)+" gets the entry of a file")
				key := R + ":" + funcName(fn)
				var v ssa.Value = call
				if rs.Len() > 1 {
					v = nil
					for _, ref := range *call.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
							v = ex
						}
					}
				}
				if v == nil {
					c.Violate(key, p.instrPos(call), "the entry of a file is dropped")
					continue
				}
				// uses that keep it
				keep := map[*ssa.BasicBlock]bool{}
				scan := func(t *ssa.BasicBlock) {
					for k, x := range t.Instrs {
						if t == b && k <= i {
							continue
						}
						if cc, ok := x.(*ssa.Call); ok {
							if isAppend(cc) && typeKey(cc.Type()) == filesKey && p.direct(cc.Call.Args[1], v) {
								keep[t] = true
								d.reaches(key, fn, cc)
							}
							if g := cc.Call.StaticCallee(); g != nil && d.makesReport(g) {
								for _, a := range cc.Call.Args {
									if p.direct(a, v) {
										keep[t] = true
									}
								}
							}
						}
						if ret, ok := x.(*ssa.Return); ok {
							for _, rv := range ret.Results {
								if rv == v {
									keep[t] = true
								}
							}
						}
					}
				}
				for _, t := range fn.Blocks {
					scan(t)
				}
				if keep[b] {
					continue
				}
				_, body := innerLoop(b)
				end := func(t *ssa.BasicBlock) bool {
					return isReturn(t) || body != nil && !body[t] || t == b
				}
				if !pathsPass(b, end, func(t *ssa.BasicBlock) bool { return keep[t] }, func(x, t *ssa.BasicBlock) bool { return isNilEdge(x, t, v) }) {
					c.Violate(key, p.instrPos(call), "the entry of a file may not reach the report")
				}
				if h, body := innerLoop(b); h != nil {
					if x := exitsEarly(h, body); x != nil {
						c.Violate(key+":exit", p.instrPos(x.Instrs[len(x.Instrs)-1]), "the loop over the files can end before the last one")
					}
				}
			}
		}
	}
}

func (d *diag) makesReport(g *ssa.Function) bool {
	rs := g.Signature.Results()
	return rs.Len() > 0 && namedStruct(rs.At(0).Type()) == d.report
}

// direct: v is a itself, or an element of the variadic list a.
func (p *Prog) direct(a, v ssa.Value) bool {
	if a == v {
		return true
	}
	for _, e := range appendedElems(a) {
		if e == v {
			return true
		}
		if ph, ok := e.(*ssa.Phi); ok {
			for _, x := range ph.Edges {
				if x == v {
					return true
				}
			}
		}
	}
	return false
}

// reaches: the list appended to grows and is the one the report is made of.
func (d *diag) reaches(key string, fn *ssa.Function, app *ssa.Call) {
	if !grows(app) {
		d.c.Violate(key+":grow", d.p.instrPos(app), "the list of files is replaced instead of extended")
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			cc, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if g := cc.Call.StaticCallee(); g != nil && d.makesReport(g) {
				found := false
				for _, a := range cc.Call.Args {
					found = found || a == ssa.Value(app) || d.p.sliceOf(a).vals[app]
					if _, cut := a.(*ssa.Slice); cut && len(appendedElems(a)) == 0 {
						found = false
					}
				}
				if found {
					d.c.Inst("every-file", funcName(fn)+" makes the report")
				} else {
					d.c.Violate(key+":report", d.p.instrPos(cc), "the report is not made of the files' entries")
				}
			}
		}
	}
}

// success: see the rule.
func (d *diag) success() {
	R := "success"
	p, c := d.p, d.c
	filesKey := typeKey(types.NewSlice(types.NewPointer(d.file)))
	si, sv := fieldNamed(d.report, "Success")
	li, lv := fieldNamed(d.report, d.filesList)
	fi, _ := fieldNamed(d.file, "Formatted")
	ei, ev := fieldNamed(d.file, d.entryField)
	if si < 0 || fi < 0 {
		c.Violate("anchor:success", "", "the flag of the report was not found")
		return
	}
	n := 0
	for _, fn := range d.fns {
		if relPkg(fn) != "buildifier/utils" || !d.makesReport(fn) || len(fn.Params) != 1 || typeKey(fn.Params[0].Type()) != filesKey {
			continue
		}
		fn := fn
		n++
		var list *T
		r := &Rule{Relevant: map[*ssa.Function]bool{fn: true}}
		r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) { return relPkg(f) == "buildifier/utils", true }
		r.Protect = func(t *T) bool {
			return t.mentions(func(x *T) bool {
				return loadedField(x, "FileDiagnostics.Formatted") || loadedField(x, "FileDiagnostics."+d.entryField)
			})
		}
		r.Split = func(t *T) bool { return t.op == "const" }
		fmted := func(e *Engine, s *S, f *T) *T {
			return e.Load(s.State, e.Field(f, d.file, fi), types.Typ[types.Bool])
		}
		count := func(e *Engine, s *S, f *T) *T {
			return e.tb.Len(e.Load(s.State, e.Field(f, d.file, ei), ev.Type()))
		}
		judge := func(e *Engine, s *S, pos string) {
			f := s.note["cur"]
			if f == nil {
				return
			}
			ok := e.Eval(s.State, fmted(e, s, f))
			cnt := count(e, s, f)
			none := e.Eval(s.State, e.tb.Eq(cnt, e.tb.Int(0)))
			if lo, known := e.lower(s.State, cnt); none == unknown && known && lo > 0 {
				none = no
			}
			if hi, known := e.upper(s.State, cnt); none == unknown && known && hi <= 0 {
				none = yes
			}
			switch {
			case ok == no || none == no:
				s.ev["bad"] = "1"
			case ok == yes && none == yes || s.ev["bad"] != "":
			default:
				e.why(s, "success")
				c.Violate(R+":ignored:"+funcName(fn), pos, "whether a file is formatted and without findings is not looked at")
			}
			delete(s.note, "cur")
		}
		r.OnIndex = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, base, idx *T) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || typeKey(ia.X.Type()) != filesKey {
				return
			}
			judge(e, s, p.instrPos(in))
			c.Inst(R, "files looked at in "+funcName(fr.fn))
			a := e.tb.mk("elem", typeKey(ia.Type()), base, idx)
			if a.typ == nil {
				a.typ = ia.Type()
			}
			s.note["cur"] = e.Load(s.State, a, deref(ia.Type()))
			s.ev["left"] = ""
		}
		r.OnEdge = func(e *Engine, fr *Frame, s *S, from, to *ssa.BasicBlock, phis bool) {
			if phis {
				return
			}
			h, body := innerLoop(from)
			if h != nil && (to == h || !body[to]) {
				judge(e, s, p.instrPos(from.Instrs[len(from.Instrs)-1]))
			}
			if h != nil && from != h && !body[to] && s.ev["bad"] == "" {
				c.Violate(R+":exit:"+funcName(fn), p.instrPos(from.Instrs[len(from.Instrs)-1]), "the loop over the files ends before the last one although all is well so far")
			}
		}
		r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
			if fr.fn != fn {
				return
			}
			judge(e, s, p.instrPos(in))
			c.Inst(R, fmt.Sprintf("return of %s, bad %q", funcName(fn), s.ev["bad"]))
			got := e.Eval(s.State, e.Load(s.State, e.Field(vals[0], d.report, si), sv.Type()))
			if s.ev["bad"] != "" && got != no {
				c.Violate(R+":hidden:"+funcName(fn), p.instrPos(in), "success may be reported although a file is not formatted or has findings")
			}
			if s.ev["bad"] == "" && got != yes {
				c.Violate(R+":clean:"+funcName(fn), p.instrPos(in), "failure may be reported although all files are fine")
			}
			if l := e.Load(s.State, e.Field(vals[0], d.report, li), lv.Type()); l != list {
				c.Violate(R+":files:"+funcName(fn), p.instrPos(in), "the report does not hold the list of files it was made from")
			}
		}
		eng := newEngine(c, r)
		_, err := eng.Run(fn, func(s *S, ps []*T) { list = ps[0] })
		if err != nil {
			c.Violate("undecided:"+funcName(fn), p.Pos(fn.Pos()), "not analysed: %v", err)
		}
		c.flowStats(eng)
	}
	if n == 0 {
		c.Violate("anchor:NewDiagnostics", "", "the function that makes the report was not found")
	}
}

// sinkBlocks: the blocks of fn where text computed from the field is written, directly or by a helper that always does.
func (d *diag) sinkBlocks(fn *ssa.Function, want func(rd map[string]bool) bool, depth int, keep func(b *ssa.BasicBlock) bool) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !keep(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f != nil && inRepo(f) && depth < 4 && len(f.Blocks) > 0 {
					sub := d.sinkBlocks(f, want, depth+1, func(b *ssa.BasicBlock) bool { return true })
					if len(sub) > 0 && pathsPass(f.Blocks[0], isReturn, func(b *ssa.BasicBlock) bool { return sub[b] }, nil) {
						out[b] = true
					}
					continue
				}
				n := ""
				if f != nil {
					n = f.Name()
				} else if x.Call.IsInvoke() {
					n = x.Call.Method.Name()
				}
				if !strings.HasPrefix(n, "Write") && !strings.HasPrefix(n, "Fprint") && !isAppend(x) {
					continue
				}
				args := x.Call.Args
				if want(d.p.sliceOf(args...).out) {
					out[b] = true
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && isStringType(x.Type()) && want(d.p.sliceOf(x).out) {
					// text added to what was collected so far
					for _, op := range []ssa.Value{x.X, x.Y} {
						if ph, ok := op.(*ssa.Phi); ok && isStringType(ph.Type()) {
							out[b] = true
						}
					}
				}
			}
		}
	}
	return out
}

// text: see the rule.
func (d *diag) text() {
	R := "text"
	p, c := d.p, d.c
	filesKey := typeKey(types.NewSlice(types.NewPointer(d.file)))
	root := p.method2(d.report, "Format")
	if root == nil {
		c.Violate("anchor:Format", "", "the function that prints the report was not found")
		return
	}
	var fns []*ssa.Function
	for f := range p.reachableFrom(root) {
		if relPkg(f) == "buildifier/utils" {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	heads := map[string]map[*ssa.BasicBlock]*rangeLoop{"files": {}, "entries": {}}
	for _, f := range fns {
		for _, b := range f.Blocks {
			rg := findRange(b)
			if rg == nil {
				continue
			}
			switch typeKey(rg.list.Type()) {
			case filesKey:
				heads["files"][b] = rg
			case d.entries:
				heads["entries"][b] = rg
			}
		}
	}
	en := d.entry.Obj().Name()
	// all of an entry's loop
	for b, rg := range heads["entries"] {
		fn := b.Parent()
		if x := exitsEarly(b, rg.body); x != nil {
			c.Violate(R+":exit:"+funcName(fn), p.instrPos(x.Instrs[len(x.Instrs)-1]), "the loop over the findings can end before the last one")
		}
		if !p.sliceOf(rg.list).out["utils.FileDiagnostics."+d.entryField] && !p.sliceOf(rg.list).out[shortType(d.file)+"."+d.entryField] {
			if _, ok := rg.list.(*ssa.Parameter); !ok {
				c.Violate(R+":list:"+funcName(fn), p.instrPos(b.Instrs[0]), "the loop is not over the findings of the file")
			}
		}
		if _, ok := sliceBase(rg.list).(*ssa.Slice); ok {
			c.Violate(R+":list:"+funcName(fn), p.instrPos(b.Instrs[0]), "the loop is not over all findings")
		}
		for _, k := range []string{"Filename", "Start", "Line", "Category", "Message", "URL"} {
			k := k
			c.Inst(R, "finding's "+k)
			want := func(rd map[string]bool) bool {
				for x := range rd {
					if strings.HasSuffix(x, "."+k) {
						return true
					}
				}
				return false
			}
			sinks := d.sinkBlocks(fn, want, 0, func(t *ssa.BasicBlock) bool { return rg.body[t] })
			if !pathsPass(b.Succs[0], func(t *ssa.BasicBlock) bool { return t == b }, func(t *ssa.BasicBlock) bool { return sinks[t] }, nil) {
				c.Violate(R+":"+k, p.instrPos(b.Succs[0].Instrs[0]), "the %s of a finding may be missing in the text of the report", k)
			}
		}
	}
	_ = en
	if len(heads["entries"]) == 0 || len(heads["files"]) == 0 {
		c.Violate(R+":loops", p.Pos(root.Pos()), "no loop over the files and their findings was found in the text form of the report")
		return
	}
	// every file: its findings and whether it is formatted
	var entryPass func(f *ssa.Function, depth int) map[*ssa.BasicBlock]bool
	entryPass = func(f *ssa.Function, depth int) map[*ssa.BasicBlock]bool {
		out := map[*ssa.BasicBlock]bool{}
		for h := range heads["entries"] {
			if h.Parent() == f {
				out[h] = true
			}
		}
		if depth > 4 {
			return out
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok {
					if g := cc.Call.StaticCallee(); g != nil && g != f && relPkg(g) == "buildifier/utils" && len(g.Blocks) > 0 {
						sub := entryPass(g, depth+1)
						if len(sub) > 0 && pathsPass(g.Blocks[0], isReturn, func(t *ssa.BasicBlock) bool { return sub[t] }, nil) {
							out[b] = true
						}
					}
				}
			}
		}
		return out
	}
	formattedEdge := func(b, t *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return false
		}
		cond, neg := br.Cond, false
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, !neg
				continue
			}
			break
		}
		ld, ok := cond.(*ssa.UnOp)
		if !ok || !loadsField(ld, "FileDiagnostics.Formatted") {
			return false
		}
		return !neg && t == b.Succs[0] || neg && t == b.Succs[1]
	}
	for b, rg := range heads["files"] {
		fn := b.Parent()
		c.Inst(R, "files in "+funcName(fn))
		if x := exitsEarly(b, rg.body); x != nil {
			c.Violate(R+":exit:"+funcName(fn), p.instrPos(x.Instrs[len(x.Instrs)-1]), "the loop over the files can end before the last one")
		}
		if _, ok := sliceBase(rg.list).(*ssa.Slice); ok {
			c.Violate(R+":list:"+funcName(fn), p.instrPos(b.Instrs[0]), "the loop is not over all files")
		}
		pass := entryPass(fn, 0)
		end := func(t *ssa.BasicBlock) bool { return t == b }
		if !pathsPass(b.Succs[0], end, func(t *ssa.BasicBlock) bool { return pass[t] }, nil) {
			c.Violate(R+":findings:"+funcName(fn), p.instrPos(b.Succs[0].Instrs[0]), "the findings of a file may be left out of the text of the report")
		}
		want := func(rd map[string]bool) bool { return rd[shortType(d.file)+".Filename"] }
		inEntry := func(t *ssa.BasicBlock) bool {
			for h, e := range heads["entries"] {
				if h.Parent() == t.Parent() && e.body[t] {
					return true
				}
			}
			return false
		}
		if !d.reformatLine(fn, b.Succs[0], end, want, inEntry, formattedEdge, 0, func(t *ssa.BasicBlock) bool { return rg.body[t] }) {
			c.Violate(R+":reformat:"+funcName(fn), p.instrPos(b.Succs[0].Instrs[0]), "a file that is not formatted may be left out of the text of the report")
		}
	}
	d.formatRun(root, heads["files"])
}

// reformatLine: every way through writes the file name, except where the file is known to be formatted.
func (d *diag) reformatLine(fn *ssa.Function, start *ssa.BasicBlock, end func(*ssa.BasicBlock) bool, want func(map[string]bool) bool, inEntry func(*ssa.BasicBlock) bool, skip func(b, t *ssa.BasicBlock) bool, depth int, keep func(*ssa.BasicBlock) bool) bool {
	hits := map[*ssa.BasicBlock]bool{}
	entryOnly := func(b *ssa.BasicBlock) bool { return keep(b) && !inEntry(b) }
	for b := range d.sinkBlocks(fn, want, 0, entryOnly) {
		// a helper that only writes findings does not count: its writes are in a loop over entries
		hits[b] = true
	}
	for _, b := range fn.Blocks {
		if !entryOnly(b) || depth > 3 {
			continue
		}
		for _, in := range b.Instrs {
			if cc, ok := in.(*ssa.Call); ok {
				g := cc.Call.StaticCallee()
				if g != nil && g != fn && relPkg(g) == "buildifier/utils" && len(g.Blocks) > 0 && d.reformatLine(g, g.Blocks[0], isReturn, want, inEntry, skip, depth+1, func(*ssa.BasicBlock) bool { return true }) {
					hits[b] = true
				}
			}
		}
	}
	return len(hits) > 0 && pathsPass(start, end, func(t *ssa.BasicBlock) bool { return hits[t] }, skip)
}

// sliceBase: a list with loads of locals looked through.
func sliceBase(v ssa.Value) ssa.Value {
	if ch, ok := v.(*ssa.ChangeType); ok {
		return sliceBase(ch.X)
	}
	return v
}

// method2: a method of a named type.
func (p *Prog) method2(n *types.Named, name string) *ssa.Function {
	for _, t := range []types.Type{types.NewPointer(n), n} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), name); sel != nil {
			if f := p.SSA.MethodValue(sel); f != nil {
				return f
			}
		}
	}
	return nil
}

// formatRun: which form is returned for which format.
func (d *diag) formatRun(root *ssa.Function, heads map[*ssa.BasicBlock]*rangeLoop) {
	R := "text"
	p, c := d.p, d.c
	rel := p.reaching(func(f *ssa.Function, in ssa.Instruction) bool {
		if relPkg(f) != "buildifier/utils" {
			return false
		}
		if heads[in.Block()] != nil {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		return ok && strings.HasPrefix(p.staticName(ci.Common()), "encoding/json.")
	})
	var format *T
	r := &Rule{Relevant: rel}
	r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) { return rel[f], true }
	r.Protect = func(t *T) bool { return format != nil && t.mentions(func(x *T) bool { return x == format }) }
	r.OnEdge = func(e *Engine, fr *Frame, s *S, from, to *ssa.BasicBlock, phis bool) {
		if heads[to] != nil {
			s.ev["files"] = "1"
		}
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, f *ssa.Function, args []*T) ([]Out, bool) {
		if strings.HasPrefix(name, "encoding/json.") {
			s.ev["json"] = "1"
		}
		return nil, false
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn != root {
			return
		}
		is := func(k string) tri { return e.Eval(s.State, e.tb.Eq(format, e.tb.Const(constant.MakeString(k)))) }
		rd := p.sliceOf(in.Results[0])
		empty := false
		if k, ok := in.Results[0].(*ssa.Const); ok && k.Value != nil {
			empty = true
		}
		for _, k := range []string{"text", "", "json"} {
			if is(k) == no {
				continue
			}
			c.Inst(R, fmt.Sprintf("return for format %q", k))
			need := "files"
			if k == "json" {
				need = "json"
			}
			if s.ev[need] == "" || empty {
				c.Violate(fmt.Sprintf("%s:form:%s", R, k), p.instrPos(in), "with format %q the report may not be returned", k)
			}
		}
		_ = rd
	}
	eng := newEngine(c, r)
	_, err := eng.Run(root, func(s *S, ps []*T) {
		for i, pa := range root.Params {
			if typeKey(pa.Type()) == "string" {
				format = ps[i]
			}
		}
	})
	if err != nil || format == nil {
		c.Violate("undecided:"+funcName(root), p.Pos(root.Pos()), "not analysed: %v", err)
	}
	c.flowStats(eng)
}

// json: see the rule.
func (d *diag) json() {
	R := "json"
	p, c := d.p, d.c
	seen := map[*types.Named]bool{}
	var rec func(n *types.Named)
	rec = func(n *types.Named) {
		if seen[n] {
			return
		}
		seen[n] = true
		st := n.Underlying().(*types.Struct)
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if nm := ms.At(i).Obj().Name(); nm == "MarshalJSON" || nm == "MarshalText" {
					c.Violate(R+":marshal:"+n.Obj().Name(), p.Pos(ms.At(i).Obj().Pos()), "%s encodes itself: not analysed", n.Obj().Name())
				}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			c.Inst(R, n.Obj().Name()+"."+f.Name())
			key := R + ":" + n.Obj().Name() + "." + f.Name()
			if !f.Exported() {
				c.Violate(key, p.Pos(f.Pos()), "the field is not exported and thus missing in the JSON form")
			}
			want := lowerCamel(f.Name())
			if got := reflect.StructTag(st.Tag(i)).Get("json"); got != want {
				c.Violate(key, p.Pos(f.Pos()), "the field is not encoded as %q under all conditions (tag %q)", want, got)
			}
			t := f.Type()
			if el := sliceElem(t); el != nil {
				t = el
			}
			if m := namedStruct(t); m != nil && m.Obj().Pkg() == n.Obj().Pkg() {
				rec(m)
			}
		}
	}
	rec(d.report)
	// what is encoded is the whole report
	n := 0
	for _, fn := range d.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := p.staticName(&cc.Call)
				if !strings.HasPrefix(name, "encoding/json.Marshal") && name != "(*encoding/json.Encoder).Encode" {
					continue
				}
				if relPkg(fn) != "buildifier/utils" {
					continue
				}
				n++
				c.Inst(R, "encoding in "+funcName(fn))
				ok = false
				for _, a := range cc.Call.Args {
					if mi, is := a.(*ssa.MakeInterface); is && namedStruct(mi.X.Type()) == d.report {
						v := mi.X
						if ld, is := v.(*ssa.UnOp); is {
							v = ld.X
						}
						_, ok = v.(*ssa.Parameter)
						if al, is := v.(*ssa.Alloc); is && d.copied(al) {
							ok = true
						}
					}
				}
				if !ok {
					c.Violate(R+":value:"+funcName(fn), p.instrPos(cc), "what is encoded is not the whole report")
				}
			}
		}
	}
	if n == 0 {
		c.Violate("anchor:json", "", "no place that encodes the report was found")
	}
}

func lowerCamel(s string) string {
	if strings.ToUpper(s) == s {
		return strings.ToLower(s)
	}
	r := []rune(s)
	r[0] = unicode.ToLower(r[0])
	return string(r)
}

// printed: see the rule.
func (d *diag) printed() {
	R := "printed"
	p, c := d.p, d.c
	root := p.method2(d.report, "Format")
	if root == nil {
		return
	}
	for _, fn := range d.fns {
		made := map[*ssa.BasicBlock]bool{}
		var form *ssa.Call
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if cc.Call.StaticCallee() == root {
					form = cc
				}
				if g := cc.Call.StaticCallee(); g != nil && d.makesReport(g) && relPkg(fn) == "buildifier" {
					made[b] = true
				}
			}
		}
		if form == nil {
			continue
		}
		c.Inst(R, funcName(fn)+" prints the report")
		prints := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				n := p.staticName(&cc.Call)
				if (strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "io.WriteString") || strings.HasSuffix(n, ".WriteString") || strings.HasSuffix(n, ".Write")) && p.sliceOf(cc.Call.Args...).vals[form] {
					prints[b] = true
				}
			}
		}
		for b := range made {
			if !pathsPass(b, isReturn, func(t *ssa.BasicBlock) bool { return prints[t] }, nil) {
				c.Violate(R+":"+funcName(fn), p.instrPos(form), "the report may not be printed")
			}
		}
		if len(made) == 0 {
			c.Violate(R+":"+funcName(fn), p.instrPos(form), "the report printed is not made here: not analysed")
		}
		if !p.sliceOf(form.Call.Args[0]).makes(d) {
			c.Violate(R+":which:"+funcName(fn), p.instrPos(form), "the report printed is not the one of the files processed")
		}
	}
}

func (s *slicer) makes(d *diag) bool {
	for v := range s.vals {
		if c, ok := v.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && d.makesReport(g) {
				return true
			}
		}
	}
	return false
}
