package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P09", lintRunner, "a check returns its findings in its result; which comments suppress a check is decided by warn.DisabledWarning")
}

const (
	lfType = modPath + "/warn.LinterFinding"
	fType  = modPath + "/warn.Finding"
)

func (p *Prog) constOf(pkg, name string) (int64, bool) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// resultIs: the signature's only result has this type.
func resultIs(sig *types.Signature, key string) bool {
	return sig.Results().Len() == 1 && typeKey(sig.Results().At(0).Type()) == key
}

// lintRunner: what happens to every finding of every check.
func lintRunner(c *Ctx) {
	p := c.P
	root := p.Func("warn", "FileWarnings")
	modeFix, ok1 := p.constOf("warn", "ModeFix")
	if root == nil || !ok1 {
		c.Violate("anchor:FileWarnings", "", "warn.FileWarnings or warn.ModeFix not found")
		return
	}
	D, R, G := "suppression-asked", "finding-outcome", "dispatch"
	c.Rule(D, "whether a finding is suppressed is asked with the analysed file, the finding's own start line and the name of the check that produced it")
	c.Rule(R, "a suppressed finding is neither reported nor fixed; any other is reported under its check's name with its own positions and message, except that in fix mode a finding with replacements is fixed instead")
	c.Rule(G, "the check that runs for an enabled name is the one registered under that name")
	c.Rule("all-replacements", "the loop that applies a finding's replacements leaves none out")
	c.Rule("every-name", "for every name in the list of enabled checks a check is run, or the process exits")
	c.Rule("wrapper-collects", "a wrapper that runs a one-finding check on several calls returns every finding it gets")
	c.Rule("accumulate", "the list of findings only grows: it is never replaced by a later result")
	isCheck := func(sig *types.Signature) bool { return resultIs(sig, "[]*"+lfType) }
	reach := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if ok && relPkg(fn) == "warn" {
			cc := ci.Common()
			if cc.IsInvoke() {
				return false
			}
			if isCheck(cc.Signature()) && cc.StaticCallee() == nil {
				return true
			}
			n := p.staticName(cc)
			return strings.HasSuffix(n, "/warn.DisabledWarning") || n == "os.Exit"
		}
		return false
	})
	// all checks (static functions with that result) are boundaries, as are the closures that wrap them
	mkFinding := func(fn *ssa.Function) bool { return resultIs(fn.Signature, "*"+fType) }
	rel := map[*ssa.Function]bool{}
	for fn := range reach {
		if relPkg(fn) == "warn" && !isCheck(fn.Signature) {
			rel[fn] = true
		}
	}
	var fileT, modeT *T
	r := &Rule{}
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
		if relPkg(fn) != "warn" || isCheck(fn.Signature) {
			return false, true
		}
		if rel[fn] || mkFinding(fn) || fr.fn.Parent() == fn.Parent() && fn.Parent() != nil {
			return true, true
		}
		// helpers that can only build wrappers around checks
		if fn.Signature.Results().Len() == 1 {
			if sg, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature); ok && isCheck(sg) {
				return true, true
			}
		}
		return false, false
	}
	// an element and what is looked up by it stay recognisably related
	r.NoPeel = func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok {
					if m, ok := l.X.Type().Underlying().(*types.Map); ok {
						if _, ok := m.Elem().Underlying().(*types.Signature); ok {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r.Protect = func(t *T) bool {
		return modeT != nil && t.mentions(func(x *T) bool { return x == modeT || loadedField(x, "LinterFinding.Replacement") })
	}
	r.Split = func(t *T) bool { return t.op == "alloc" && t.typ != nil && typeKey(t.typ) == fType }
	var eng *Engine
	elemOf := func(s *State, t *T) bool {
		l := s.note["list"]
		return l != nil && derives(eng, t, 0, func(x *T) bool { return x.op == "elem" && x.args[0] == l })
	}
	where := ""
	finish := func(e *Engine, fr *Frame, s *S, in ssa.Instruction) {
		if s.ev["pend"] == "" {
			return
		}
		pos := p.instrPos(in)
		w := s.note["w"]
		repl := unknown
		if w != nil {
			st := deref(w.typ).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Replacement" {
					n := e.tb.Len(e.Load(s.State, e.Field(w, deref(w.typ), i), st.Field(i).Type()))
					if v := e.Eval(s.State, e.tb.Eq(n, e.tb.Int(0))); v != unknown {
						repl = toTri(v == no)
					} else if lo, ok := e.lower(s.State, n); ok && lo > 0 {
						repl = yes
					}
				}
			}
		}
		fixMode := e.Eval(s.State, e.tb.Eq(modeT, e.tb.Int(modeFix)))
		dis, rep, fix := s.ev["dis"], s.ev["rep"] != "", s.ev["fix"] != ""
		c.Inst(R, "suppressed="+dis+" fixmode="+fixMode.String()+" fixable="+repl.String())
		bad := func(key, msg string) {
			e.why(s, key)
			c.Violate(key+":"+where, pos, "%s", msg)
		}
		switch {
		case dis == "":
			bad("unasked", "a finding may be handled without asking whether it is suppressed")
		case dis == "yes" && rep:
			bad("suppressed-reported", "a suppressed finding may be reported")
		case dis == "yes" && fix:
			bad("suppressed-fixed", "a suppressed finding may be fixed")
		case dis == "no" && fixMode != yes && repl != yes && !rep, dis == "no" && fixMode == no && !rep:
			bad("dropped", "a finding that is not suppressed may be dropped")
		case dis == "no" && fixMode == yes && repl == no && !rep:
			bad("dropped-unfixable", "in fix mode a finding without replacements may be dropped")
		case dis == "no" && fixMode == yes && repl == yes && !fix && !rep:
			bad("dropped-unfixed", "in fix mode a fixable finding may be neither fixed nor reported")
		case dis == "no" && fixMode == yes && repl == yes && !fix:
			bad("unfixed", "in fix mode a fixable finding may be left unfixed")
		case dis == "no" && fixMode == yes && fix && rep:
			bad("fixed-reported", "in fix mode a fixed finding may still be reported")
		case dis == "no" && fixMode == unknown && !rep:
			bad("dropped-any", "a finding may be dropped without considering the mode")
		}
		for _, k := range []string{"pend", "dis", "rep", "fix"} {
			delete(s.ev, k)
		}
		// facts about this finding are no longer needed
		about := func(t *T) bool { return elemOf(s.State, t) }
		for k := range s.atoms {
			if about(k) {
				delete(s.atoms, k)
			}
		}
		for k := range s.eqc {
			if about(k) {
				delete(s.eqc, k)
			}
		}
		for k := range s.lo {
			if about(k) {
				delete(s.lo, k)
			}
		}
		for k := range s.hi {
			if about(k) {
				delete(s.hi, k)
			}
		}
		delete(s.note, "w")
	}
	unchecked := func(fr *Frame, s *S, in ssa.Instruction) {
		if s.ev["name"] != "" {
			delete(s.ev, "name")
			c.Violate("skipped:"+funcName(fr.fn), p.instrPos(in), "an enabled check may be skipped: nothing is run for its name")
		}
	}
	r.OnIndex = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, base, idx *T) {
		if ia, ok := in.(*ssa.IndexAddr); ok && keysOf(ia) {
			unchecked(fr, s, in)
			s.ev["name"] = "1"
			c.Inst("every-name", "names listed in "+funcName(fr.fn))
		}
		if s.note["list"] != nil && base == s.note["list"] {
			finish(e, fr, s, in)
			s.ev["pend"] = "1"
			s.ev["in"] = funcName(fr.fn)
			where = funcName(fr.fn)
		}
	}
	r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		// a replacement is applied
		if typeKey(st.Val.Type()) == modPath+"/build.Expr" && elemOf(s.State, addr) && loadedField(addr, "LinterReplacement.Old") {
			s.ev["fix"] = "1"
			c.Inst("all-replacements", "applied in "+funcName(fr.fn))
			if !everyIteration(st.Block()) {
				c.Violate("all-replacements:"+funcName(fr.fn), p.instrPos(in), "not every replacement of a fixed finding may be applied")
			}
			if !elemOf(s.State, val) || !val.mentions(func(x *T) bool {
				return loadedField(x, "LinterReplacement.New") || x.op == "field" && strings.HasSuffix(x.aux, "LinterReplacement.New")
			}) {
				c.Violate("fix-value:"+funcName(fr.fn), p.instrPos(in), "the value put into the tree is not the finding's replacement")
			}
			return
		}
		if typeKey(st.Val.Type()) != "*"+fType {
			return
		}
		if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
			return
		}
		if e.Eval(s.State, e.tb.Eq(val, e.tb.Nil())) == yes {
			return
		}
		s.ev["rep"] = "1"
		ft := deref(st.Val.Type())
		str := ft.Underlying().(*types.Struct)
		for i := 0; i < str.NumFields(); i++ {
			name := str.Field(i).Name()
			v := e.Load(s.State, e.Field(val, ft, i), str.Field(i).Type())
			switch name {
			case "Category":
				if stripEpoch(e, v) != s.note["key"] {
					e.why(s, "category "+v.String())
					c.Violate("category:"+funcName(fr.fn), p.instrPos(in), "a finding may be reported under another check's name (%s)", v)
				}
			case "Start", "End", "Message":
				if !elemOf(s.State, v) || !v.mentions(func(x *T) bool {
					return strings.HasSuffix(x.aux, "LinterFinding."+name)
				}) {
					e.why(s, "field "+name+" "+v.String())
					c.Violate("field-"+name+":"+funcName(fr.fn), p.instrPos(in), "the reported %s is not the finding's (%s)", name, v)
				}
			case "File":
				if v != fileT {
					c.Violate("field-File:"+funcName(fr.fn), p.instrPos(in), "the reported file is not the analysed one (%s)", v)
				}
			}
		}
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		switch {
		case isCheck(cc.Signature()) && !cc.IsInvoke():
			finish(e, fr, s, in)
			delete(s.ev, "name")
			x := e.opaque(fr, s, in.(ssa.Value), "findings")
			s.note["list"] = x
			s.ev["at"] = funcName(fr.fn)
			ft := e.val(fr, s, cc.Value)
			key := lookupKey(e, s.State, ft, 0)
			c.Inst(G, "check called in "+fr.Path())
			if key == nil {
				e.why(s, "dispatch "+ft.String())
				c.Violate("dispatch:"+funcName(fr.fn), p.instrPos(in), "the check called is not looked up by name (%s)", ft)
				delete(s.note, "key")
			} else {
				s.note["key"] = key
			}
			return []Out{{s, x}}, true
		case strings.HasSuffix(name, "/warn.DisabledWarning") && len(args) == 3:
			c.Inst(D, "asked in "+fr.Path())
			if args[0] != fileT {
				c.Violate("asked-file:"+funcName(fr.fn), p.instrPos(in), "suppression is asked for another file")
			}
			if !elemOf(s.State, args[1]) || !args[1].mentions(func(x *T) bool { return strings.HasSuffix(x.aux, "LinterFinding.Start") }) || !(strings.HasSuffix(args[1].aux, "Position.Line") || loadedField(args[1], "Position.Line")) {
				e.why(s, "line "+args[1].String())
				c.Violate("asked-line:"+funcName(fr.fn), p.instrPos(in), "suppression is not asked for the finding's start line (%s)", args[1])
			}
			if stripEpoch(e, args[2]) != s.note["key"] {
				c.Violate("asked-name:"+funcName(fr.fn), p.instrPos(in), "suppression is asked for another check's name (%s)", args[2])
			}
			if w := elemBase(args[1], s.note["list"]); w != nil {
				s.note["w"] = w
			}
			n := s.fork()
			s.ev["dis"], n.ev["dis"] = "yes", "no"
			return []Out{{s, e.tb.Bool(true)}, {n, e.tb.Bool(false)}}, true
		case name == "os.Exit" || noReturn[name]:
			return nil, true
		}
		return nil, false
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn == root || s.ev["in"] == funcName(fr.fn) {
			finish(e, fr, s, in)
		}
		if fr.fn == root {
			unchecked(fr, s, in)
		}
		for _, v := range vals {
			if v == s.note["list"] {
				return
			}
		}
		if s.note["list"] != nil && s.ev["at"] == funcName(fr.fn) {
			for _, k := range []string{"list", "key", "w"} {
				delete(s.note, k)
			}
			delete(s.ev, "at")
			delete(s.ev, "in")
		}
	}
	e := newEngine(c, r)
	eng = e
	if _, err := e.Run(root, func(s *S, params []*T) {
		for i, pr := range root.Params {
			switch typeKey(pr.Type()) {
			case "*" + modPath + "/build.File":
				fileT = params[i]
			case modPath + "/warn.LintMode":
				modeT = params[i]
			}
		}
	}); err != nil {
		c.Violate("budget", "", "%v", err)
		return
	}
	c.flowStats(e)
	// the accumulated list only grows
	for fn := range rel {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if ok && resultIs(ci.Call.Signature(), "[]*"+fType) && ci.Call.StaticCallee() != nil && rel[ci.Call.StaticCallee()] {
					c.Inst("accumulate", "result of "+funcName(ci.Call.StaticCallee())+" in "+funcName(fn))
					if !growsOnly(ci) {
						c.Violate("accumulate:"+funcName(fn), p.instrPos(in), "the findings of one check may replace those of the others")
					}
				}
			}
		}
	}
	// no list of names or findings is cut short
	for fn := range rel {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok {
					continue
				}
				switch typeKey(sl.X.Type()) {
				case "[]string", "[]*" + fType, "[]*" + lfType:
					c.Inst("accumulate", "slice in "+funcName(fn))
					if cutShort(sl) {
						c.Violate("cut:"+funcName(fn), p.instrPos(in), "a list of enabled checks or findings may be cut short")
					}
				}
			}
		}
	}
	wrapperCollects(c)
	suppressionScope(c)
	ruleChecks(c)
	c.Floor("every-name", 1)
	c.Floor("wrapper-collects", 1)
	c.Floor(D, 1)
	c.Floor(R, 4)
	c.Floor(G, 1)
}

// growsOnly: the value is only appended to another list of findings, or returned at once.
func growsOnly(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Return, *ssa.DebugRef:
		case *ssa.Call:
			b, ok := ref.Call.Value.(*ssa.Builtin)
			if ok && (b.Name() == "len" || b.Name() == "append" && len(ref.Call.Args) == 2 && ref.Call.Args[1] == v && ref.Call.Args[0] != v) {
				continue
			}
			if ok && b.Name() == "append" && ref.Call.Args[0] == v {
				return false
			}
			return ok
		case *ssa.IndexAddr, *ssa.Slice:
		case *ssa.Phi:
			for _, ed := range ref.Edges {
				if c, ok := ed.(*ssa.Call); ed != v && !(ok && resultIs(c.Call.Signature(), "[]*"+fType)) {
					return false
				}
			}
			if !growsOnly(ref) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// elemBase finds the element of list that t is computed from.
func elemBase(t, list *T) *T {
	if t == nil || list == nil {
		return nil
	}
	if t.op == "load" && len(t.args) > 0 && t.args[0].op == "elem" && t.args[0].args[0] == list {
		return t
	}
	for _, a := range t.args {
		if x := elemBase(a, list); x != nil {
			return x
		}
	}
	return nil
}

// lookupKey: the function value comes from a map of checks (possibly wrapped in closures); its key.
func lookupKey(e *Engine, s *State, t *T, d int) *T {
	if t == nil || d > 6 {
		return nil
	}
	if t.op == "lookup" && len(t.args) >= 2 {
		return stripEpoch(e, t.args[1])
	}
	for _, a := range t.args {
		if k := lookupKey(e, s, a, d+1); k != nil {
			return k
		}
	}
	if t.op == "alloc" {
		return lookupKey(e, s, s.mem[t], d+1)
	}
	var key *T
	if os := e.Origins(t); len(os) > 1 || len(os) == 1 && os[0] != t {
		for _, o := range os {
			k := lookupKey(e, s, o, d+1)
			if k == nil || key != nil && k != key {
				return nil
			}
			key = k
		}
	}
	return key
}

// stripEpoch names a value by the place it was read from: the element of a list in this iteration.
func stripEpoch(e *Engine, t *T) *T {
	var res *T
	for _, o := range e.Origins(t) {
		if o.op == "load" && len(o.args) > 0 {
			o = o.args[0]
		}
		if res != nil && res != o {
			return t
		}
		res = o
	}
	return res
}

// derives: t is computed from a value that satisfies pred (join names: all values they stand for).
func derives(e *Engine, t *T, d int, pred func(*T) bool) bool {
	if t == nil || d > 5 {
		return false
	}
	return t.mentions(func(x *T) bool {
		if pred(x) {
			return true
		}
		m := e.origin[x.id]
		if len(m) == 0 {
			return false
		}
		for v := range m {
			if v != x && !derives(e, v, d+1, pred) {
				return false
			}
		}
		return true
	})
}

// cutShort: the slice expression may leave out elements.
func cutShort(sl *ssa.Slice) bool {
	if k, ok := sl.Low.(*ssa.Const); sl.Low != nil && !(ok && k.Value != nil && k.Int64() == 0) {
		return true
	}
	return sl.High != nil && !lenOf(sl.High, sl.X)
}

func lenOf(v, x ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == x
}

// keysOf: the element is used to look up a check in a table of functions (here or in a function it is passed to).
func keysOf(ia *ssa.IndexAddr) bool {
	if typeKey(deref(ia.Type())) != "string" {
		return false
	}
	for _, r := range *ia.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if ok && usedAsKey(u, 0) {
			return true
		}
	}
	return false
}

func usedAsKey(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup:
			if m, ok := r.X.Type().Underlying().(*types.Map); ok && r.Index == v {
				if _, ok := m.Elem().Underlying().(*types.Signature); ok {
					return true
				}
			}
		case *ssa.Call:
			f := r.Call.StaticCallee()
			if f == nil || relPkg(f) != "warn" {
				continue
			}
			for i, a := range r.Call.Args {
				if a == v && i < len(f.Params) && usedAsKey(f.Params[i], d+1) {
					return true
				}
			}
		case *ssa.Store:
			if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
				for _, r2 := range *a.Referrers() {
					if u, ok := r2.(*ssa.UnOp); ok && usedAsKey(u, d+1) {
						return true
					}
				}
			}
		case *ssa.Phi:
			if usedAsKey(r, d+1) {
				return true
			}
		}
	}
	return false
}

// wrapperCollects: every finding of a one-finding check that a wrapper calls ends up in its result.
func wrapperCollects(c *Ctx) {
	p := c.P
	one := "*" + lfType
	for _, fn := range p.repoFuncs() {
		if relPkg(fn) != "warn" || !resultIs(fn.Signature, "[]"+one) {
			continue
		}
		calls := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok && !ci.Call.IsInvoke() && ci.Call.StaticCallee() == nil && resultIs(ci.Call.Signature(), one) {
					if _, ok := ci.Call.Value.(*ssa.Builtin); !ok {
						calls = true
					}
				}
			}
		}
		if !calls {
			continue
		}
		c.Inst("wrapper-collects", funcName(fn))
		name := funcName(fn)
		r := &Rule{}
		r.Inline = func(fr *Frame, f *ssa.Function) (bool, bool) { return f.Parent() == fn, true }
		check := func(e *Engine, s *S, in ssa.Instruction) {
			x := s.note["got"]
			if x != nil && e.Eval(s.State, e.tb.Eq(x, e.tb.Nil())) != yes {
				e.why(s, "got "+x.String())
				c.Violate("wrapper-drops:"+name, p.instrPos(in), "a finding returned by a wrapped check may be left out of the result")
			}
			delete(s.note, "got")
		}
		r.Protect = func(t *T) bool { return t.mentions(func(x *T) bool { return x.op == "opaque" && x.aux == "finding" }) }
		r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, nm string, f *ssa.Function, args []*T) ([]Out, bool) {
			if f == nil && !cc.IsInvoke() && resultIs(cc.Signature(), one) {
				check(e, s, in)
				x := e.opaque(fr, s, in.(ssa.Value), "finding")
				s.note["got"] = x
				nils := s.fork()
				e.Assume(nils.State, e.tb.Eq(x, e.tb.Nil()), true)
				delete(nils.note, "got")
				e.Assume(s.State, e.tb.Eq(x, e.tb.Nil()), false)
				return []Out{{s, x}, {nils, e.tb.Nil()}}, true
			}
			return nil, false
		}
		r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
			if val == s.note["got"] && val != nil {
				if st, ok := in.(*ssa.Store); ok {
					if _, ok := st.Addr.(*ssa.IndexAddr); ok {
						delete(s.note, "got")
						s.ev["some"] = "1"
					}
				}
			}
		}
		r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
			if fr.fn != fn {
				return
			}
			check(e, s, in)
			if s.ev["some"] != "" && len(vals) == 1 && e.Eval(s.State, e.tb.Eq(vals[0], e.tb.Nil())) == yes {
				c.Violate("wrapper-nil:"+name, p.instrPos(in), "the collected findings may be thrown away")
			}
		}
		e := newEngine(c, r)
		if _, err := e.Run(fn, func(s *S, params []*T) {}); err != nil {
			c.Violate("budget:"+name, "", "%v", err)
			continue
		}
		c.flowStats(e)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if sl, ok := in.(*ssa.Slice); ok && typeKey(sl.X.Type()) == "[]"+one && cutShort(sl) {
					c.Violate("cut:"+name, p.instrPos(in), "the collected findings may be cut short")
				}
			}
		}
	}
}
