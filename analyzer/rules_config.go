package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P23", configRules,
		"encoding/json fills the struct fields whose key the file gives and leaves the others; package flag stores a flag's default when it is registered and its value when it is parsed",
		"unexported variables of a main package that are stored to only by their initialiser hold that value")
}

type conf struct {
	c *Ctx
	p *Prog
	s *symb
}

func configRules(c *Ctx) {
	c.Rule("flag-key", "each setting of the configuration file has a flag, named like its key, that is bound to the same field and whose default is the value the field has")
	c.Rule("flags-win", "after the configuration file was read, and before the settings are validated, flags are made anew from them and the command line is parsed again")
	c.Rule("validated", "the settings are validated before a file is parsed")
	c.Rule("unchanged", "a setting is stored to only to replace a missing value by its default, and fix by pipe")
	c.Rule("used", "each setting is read, and reaches the place that acts on it")
	c.Rule("parser", "each input type selects the parser of that name, which marks the tree with that type; auto the one for the type of the file name")
	c.Rule("warnings", "no choice of warnings means the default ones, all means all")
	c.Rule("replaced", "the file given as -tables replaces every table by its own table of the same name")
	c.Rule("merged", "the file given as -add_tables adds every entry of its tables to the table of the same name, and can only set the two booleans")
	c.Rule("tables-flag", "each of the two flags for tables reads the file it names, and -tables comes before -add_tables")
	c.Rule("option", "each flag of buildozer sets the option it stands for")
	f := &conf{c, c.P, c.P.symbolic()}
	f.tables()
	f.lists()
	f.buildifier()
	f.buildozer()
	f.parsers()
	f.warnings()
	c.Floor("flag-key", 17)
	c.Floor("flags-win", 1)
	c.Floor("validated", 1)
	c.Floor("unchanged", 4)
	c.Floor("used", 20)
	c.Floor("parser", 11)
	c.Floor("warnings", 3)
	c.Floor("replaced", 9)
	c.Floor("merged", 9)
	c.Floor("tables-flag", 4)
	c.Floor("option", 15)
}

func inPkgs(paths ...string) func(g *ssa.Function) bool {
	return func(g *ssa.Function) bool {
		for _, x := range paths {
			if relPkg(g) == x {
				return true
			}
		}
		return false
	}
}

func (f *conf) root(pkg, name string) *ssa.Function {
	fn := f.p.Func(pkg, name)
	if fn == nil || len(fn.Blocks) == 0 {
		f.c.Violate("undecided:"+pkg+"."+name, "", "%s.%s is not there to be analysed", pkg, name)
		return nil
	}
	return fn
}

// row expands a vector of terms.
func at(t sterm, i int) string {
	if len(t) == 1 {
		return t[0]
	}
	if i < len(t) {
		return t[i]
	}
	return "?"
}

func rows(ts ...sterm) int {
	n := 1
	for _, t := range ts {
		if len(t) > n {
			n = len(t)
		}
	}
	return n
}

// tables: what a file of tables does to the tables.
func (f *conf) tables() {
	s := f.s
	fn := f.root("tables", "ParseAndUpdateJSONDefinitions")
	defs, _ := f.p.Type("tables", "Definitions").(*types.Named)
	if fn == nil || defs == nil {
		return
	}
	st := defs.Underlying().(*types.Struct)
	var names []string
	isMap := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		g, _ := f.p.SPkgs["tables"].Members[name].(*ssa.Global)
		if g == nil {
			f.c.Violate("replaced:"+name, f.p.Pos(st.Field(i).Pos()), "there is no table for the key %s of a tables file", name)
			continue
		}
		if tag := st.Tag(i); tag != "" && !strings.EqualFold(jsonName(tag), name) {
			f.c.Violate("replaced:key:"+name, f.p.Pos(st.Field(i).Pos()), "the key of the table %s in a tables file is %s", name, jsonName(tag))
		}
		names = append(names, name)
		_, isMap[name] = deref(g.Type()).Underlying().(*types.Map)
	}
	var mergeP, fileP *ssa.Parameter
	for _, pr := range fn.Params {
		switch b, _ := pr.Type().Underlying().(*types.Basic); {
		case b != nil && b.Kind() == types.Bool:
			mergeP = pr
		case b != nil && b.Kind() == types.String:
			fileP = pr
		}
	}
	if mergeP == nil || fileP == nil {
		f.c.Violate("undecided:tables", f.p.Pos(fn.Pos()), "the function that reads a tables file takes no name and no choice")
		return
	}
	for _, mode := range []string{"false", "true"} {
		R := map[string]string{"false": "replaced", "true": "merged"}[mode]
		done := map[string]bool{}
		read := false
		s.walk(fn, s.env(fn, map[ssa.Value]sterm{mergeP: one(mode), fileP: one("FILE")}, 0), nil, inPkgs("tables"), func(ev sevent) {
			e := ev.env()
			switch x := ev.in().(type) {
			case *ssa.Call:
				if calleeName(x.Common()) == "os.ReadFile" && s.eval(x.Call.Args[0], e)[0] == "FILE" {
					read = true
				}
			case *ssa.Store:
				if _, local := x.Addr.(*ssa.Alloc); local {
					return
				}
				addr := s.eval(x.Addr, e)
				val := s.eval(x.Val, e)
				for i := 0; i < rows(addr, val); i++ {
					a := at(addr, i)
					if strings.HasPrefix(a, "&Definitions.") {
						f.c.Violate(R+":definitions", f.p.instrPos(x), "%s changes what was read from a tables file", funcName(x.Parent()))
						continue
					}
					if !strings.HasPrefix(a, "&tables.") {
						// a pointer to a table that is not known
						if _, isM := deref(x.Addr.Type()).Underlying().(*types.Map); isM && a == "?" {
							f.c.Violate(R+":unknown", f.p.instrPos(x), "%s stores to a table, and it is not known to which", funcName(x.Parent()))
						}
						continue
					}
					name := a[len("&tables."):]
					v := at(val, i)
					if mode == "false" {
						if v != "Definitions."+name {
							f.c.Violate(R+":"+name, f.p.instrPos(x), "%s sets the table %s to something other than the file's table %s", funcName(x.Parent()), name, name)
							continue
						}
						if s.must(ev, nil) {
							done[name] = true
						}
						continue
					}
					if isMap[name] {
						want := joined(addr, func(a string) string { return "==(" + strings.TrimPrefix(a, "&") + ",nil)" })
						if v != "make" || !s.guarded(ev, func(t string) bool { return t == want }) {
							f.c.Violate(R+":"+name, f.p.instrPos(x), "%s replaces the table %s when tables are merged", funcName(x.Parent()), name)
						}
						continue
					}
					// a boolean
					ok, must := f.or(ev, x, name, v)
					if !ok {
						f.c.Violate(R+":"+name, f.p.instrPos(x), "%s sets %s to something other than itself or the file's %s", funcName(x.Parent()), name, name)
					} else if must {
						done[name] = true
					}
				}
			case *ssa.MapUpdate:
				m, k, v := s.eval(x.Map, e), s.eval(x.Key, e), s.eval(x.Value, e)
				for i := 0; i < rows(m, k, v); i++ {
					t := at(m, i)
					if !strings.HasPrefix(t, "tables.") {
						f.c.Violate(R+":unknown", f.p.instrPos(x), "%s adds to a table, and it is not known to which", funcName(x.Parent()))
						continue
					}
					name := t[len("tables."):]
					src := "Definitions." + name
					if mode == "false" || at(k, i) != "key("+src+")" || at(v, i) != "val("+src+")" && at(v, i) != src+"[key("+src+")]" {
						f.c.Violate(R+":"+name, f.p.instrPos(x), "%s adds to the table %s something other than the entries of the file's table %s", funcName(x.Parent()), name, name)
						continue
					}
					if s.must(ev, nil) {
						done[name] = true
					}
				}
			}
		})
		if !read {
			f.c.Violate(R+":file", f.p.Pos(fn.Pos()), "%s does not read the file it is given", funcName(fn))
		}
		for _, n := range names {
			f.c.Inst(R, n)
			if !done[n] {
				f.c.Violate(R+":"+n, f.p.Pos(fn.Pos()), "%s does not always bring the file's table %s into the table %s", funcName(fn), n, n)
			}
		}
	}
}

func joined(t sterm, f func(string) string) string {
	var out []string
	for _, x := range t {
		out = append(out, f(x))
	}
	return strings.Join(out, "|")
}

func jsonName(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	tag = tag[i+6:]
	if j := strings.IndexAny(tag, `",`); j >= 0 {
		tag = tag[:j]
	}
	return tag
}

// or: a store to a boolean table setting leaves it true if it was, and makes it true if the file says so.
func (f *conf) or(ev sevent, x *ssa.Store, name, v string) (ok, must bool) {
	s := f.s
	e := ev.env()
	def, glob := "Definitions."+name, "tables."+name
	if v == "true" {
		// if the file says so
		g := s.guarded(ev, func(t string) bool { return t == def })
		if !g {
			return false, false
		}
		return true, s.must(ev, func(e *senv, b, t *ssa.BasicBlock) bool {
			return s.factEdge(e, func(t string) bool { return t == "not("+def+")" || t == glob })(b, t)
		})
	}
	if v == "or("+def+","+glob+")" || v == "or("+glob+","+def+")" {
		return true, s.must(ev, nil)
	}
	phi, isPhi := x.Val.(*ssa.Phi)
	if !isPhi {
		return v == glob, false
	}
	seen := map[string]bool{}
	for i, ed := range phi.Edges {
		t := s.eval(ed, e)
		if len(t) != 1 {
			return false, false
		}
		if t[0] == "true" {
			found := false
			for _, n := range []string{def, glob} {
				if s.factEdge(e, func(t string) bool { return t == n })(phi.Block().Preds[i], phi.Block()) {
					seen[n], found = true, true
				}
			}
			if !found {
				return false, false
			}
			continue
		}
		if t[0] != def && t[0] != glob {
			return false, false
		}
		seen[t[0]] = true
	}
	return seen[def] && seen[glob], s.must(ev, nil)
}

// lists: a flag that can be given more than once adds to what is there.
func (f *conf) lists() {
	n := 0
	for _, fn := range f.p.repoFuncs() {
		if pk := relPkg(fn); pk != "buildifier/config" && pk != "buildozer" {
			continue
		}
		if fn.Name() != "Set" || fn.Signature.Recv() == nil || len(fn.Params) != 2 || len(fn.Blocks) == 0 {
			continue
		}
		if _, ok := deref(fn.Params[0].Type()).Underlying().(*types.Slice); !ok {
			continue
		}
		n++
		f.c.Inst("flag-key", funcName(fn))
		s := f.s
		ok := false
		s.walk(fn, s.env(fn, nil, 0), nil, inPkgs("buildifier/config", "buildozer"), func(ev sevent) {
			x, isStore := ev.in().(*ssa.Store)
			if !isStore || s.eval(x.Addr, ev.env())[0] != "param:"+fn.Params[0].Name() {
				return
			}
			c, isCall := x.Val.(*ssa.Call)
			if !isCall || !isAppend(c) || s.eval(c.Call.Args[0], ev.env())[0] != "*param:"+fn.Params[0].Name() {
				f.c.Violate("flag-key:list:"+funcName(fn), f.p.instrPos(x), "%s replaces the list instead of adding to it", funcName(fn))
				return
			}
			els := appendedElems(c.Call.Args[1])
			if len(els) == 1 && s.eval(els[0], ev.env())[0] == "param:"+fn.Params[1].Name() && s.must(ev, nil) {
				ok = true
			}
		})
		if !ok {
			f.c.Violate("flag-key:list:"+funcName(fn), f.p.Pos(fn.Pos()), "%s does not always add the value to the list", funcName(fn))
		}
	}
	if n < 2 {
		f.c.Violate("undecided:lists", "", "the types of flags that can be repeated are not there to be analysed")
	}
}

func (f *conf) config() (*types.Named, map[string]string) {
	n, _ := f.p.Type("buildifier/config", "Config").(*types.Named)
	if n == nil {
		f.c.Violate("undecided:Config", "", "there is no configuration type")
		return nil, nil
	}
	st := n.Underlying().(*types.Struct)
	keys := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		k := jsonName(st.Tag(i))
		if k == "" {
			k = st.Field(i).Name()
		}
		if k != "-" {
			keys[st.Field(i).Name()] = k
		}
	}
	return n, keys
}

func (f *conf) buildifier() {
	s, p := f.s, f.p
	main := f.root("buildifier", "main")
	n, keys := f.config()
	if main == nil || n == nil {
		return
	}
	into := inPkgs("buildifier", "buildifier/config", "buildifier/utils", "differ")
	st := n.Underlying().(*types.Struct)
	byKey := map[string]string{}
	norm := func(x string) string { return strings.ToLower(strings.NewReplacer("_", "", "-", "").Replace(x)) }
	for fl, k := range keys {
		byKey[norm(k)] = fl
	}
	var loads, sets, parses, validates, parsers []sevent
	used := map[string]bool{}
	flags := map[string]bool{} // fields that have one
	reads := map[string]bool{}
	nflags := 0
	seenFlag := map[ssa.Instruction]bool{}
	s.walk(main, s.env(main, nil, 0), nil, into, func(ev sevent) {
		e := ev.env()
		pos := p.instrPos(ev.in())
		fnm := funcName(ev.in().Parent())
		switch x := ev.in().(type) {
		case *ssa.UnOp, *ssa.Field:
			if !seenFlag[x] {
				for _, t := range s.eval(x.(ssa.Value), e) {
					if strings.HasPrefix(t, "Config.") {
						if relPkg(ev.in().Parent()) != "buildifier/config" || !f.registers(ev.in().Parent()) {
							reads[t[7:]] = true
						}
					}
				}
			}
		case *ssa.Call:
			name := calleeName(x.Common())
			g := x.Call.StaticCallee()
			args := make([]sterm, len(x.Call.Args))
			for i, a := range x.Call.Args {
				args[i] = s.eval(a, e)
			}
			var isCfg bool
			for _, a := range x.Call.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok && deref(mi.X.Type()) == types.Type(n) {
					isCfg = true
				}
			}
			switch {
			case (name == "encoding/json.Unmarshal" || strings.HasSuffix(name, "json.Decoder).Decode")) && isCfg:
				loads = append(loads, ev)
			case name == "os.Open" || name == "os.ReadFile":
				if relPkg(ev.in().Parent()) == "buildifier/config" {
					f.c.Inst("flags-win", "open")
					if args[0][0] != "Config.ConfigPath" {
						f.c.Violate("flags-win:file", pos, "%s reads another file than the configuration file", fnm)
					}
				}
			case g != nil && symFn(g) == "flag.FlagSet.Parse":
				if args[1][0] == "os.Args[1:]" {
					parses = append(parses, ev)
				}
			case g != nil && relPkg(g) == "buildifier/config" && f.registers(g):
				sets = append(sets, ev)
			case g != nil && symFn(g) == "buildifier/config.Config.Validate":
				validates = append(validates, ev)
			case g != nil && symFn(g) == "buildifier/utils.GetParser":
				parsers = append(parsers, ev)
				f.c.Inst("used", "type")
				if args[0][0] != "Config.InputType" {
					f.c.Violate("used:type", pos, "%s selects the parser by something other than the input type", fnm)
				}
			case g != nil && symFn(g) == "buildifier/utils.Lint":
				f.c.Inst("used", "lint")
				f.c.Inst("used", "warnings")
				if args[1][0] != "Config.Lint" {
					f.c.Violate("used:lint", pos, "%s lints in a mode other than the lint setting", fnm)
				}
				if args[2][0] != "&Config.LintWarnings" && args[2][0] != "Config.LintWarnings" {
					f.c.Violate("used:warnings", pos, "%s lints with warnings other than the validated ones", fnm)
				}
			}
			if g != nil && strings.HasPrefix(symFn(g), "flag.FlagSet.") && (strings.HasSuffix(g.Name(), "Var") || isFlagKind(g.Name())) && !seenFlag[x] {
				seenFlag[x] = true
				for i := 0; i < rows(args...); i++ {
					f.flag(ev, g.Name(), args, i, keys, byKey, norm, flags, st)
					nflags++
				}
			}
		case *ssa.Store:
			if _, local := x.Addr.(*ssa.Alloc); local {
				return
			}
			addr, val := s.eval(x.Addr, e), s.eval(x.Val, e)
			for i := 0; i < rows(addr, val); i++ {
				a, v := at(addr, i), at(val, i)
				switch {
				case strings.HasPrefix(a, "&Config."):
					f.stored(ev, x, a[8:], v, keys, len(loads) > 0)
				case a == "&build.DisableRewrites" || a == "&build.AllowSort":
					want := "Config." + a[7:]
					f.c.Inst("used", a[7:])
					if v != want || !s.must(ev, nil) {
						f.c.Violate("used:"+a[7:], pos, "%s does not always pass on the setting %s", fnm, a[7:])
					} else {
						used[a[7:]] = true
					}
				case (a == "&Differ.Cmd" || a == "&Differ.MultiDiff") && (v == "Config.DiffCommand" || v == "Config.MultiDiff"):
					want := map[string]string{"&Differ.Cmd": "Config.DiffCommand", "&Differ.MultiDiff": "Config.MultiDiff"}[a]
					f.c.Inst("used", want[7:])
					unset := func(e *senv, b, t *ssa.BasicBlock) bool {
						return s.factEdge(e, func(t string) bool { return t == `==(Config.DiffCommand,"")` })(b, t)
					}
					if v != want || !s.must(ev, unset) {
						f.c.Violate("used:"+want[7:], pos, "%s does not always pass on the setting %s", fnm, want[7:])
					} else {
						used[want[7:]] = true
					}
				}
			}
		}
	})
	for _, w := range []string{"DisableRewrites", "AllowSort", "DiffCommand", "MultiDiff"} {
		if !used[w] {
			f.c.Violate("used:"+w, p.Pos(main.Pos()), "the setting %s does not reach what it controls", w)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if keys[fl.Name()] == "" {
			continue
		}
		f.c.Inst("used", "read "+fl.Name())
		if !reads[fl.Name()] {
			f.c.Violate("used:"+fl.Name(), p.Pos(fl.Pos()), "nothing reads the setting %s", fl.Name())
		}
		if types.Identical(fl.Type(), types.NewSlice(types.Typ[types.String])) {
			continue // no flag can be bound to it
		}
		if !flags[fl.Name()] {
			f.c.Violate("flag-key:"+fl.Name(), p.Pos(fl.Pos()), "no flag is bound to the setting %s", fl.Name())
		}
	}
	if len(loads) == 0 || len(validates) == 0 || len(parsers) == 0 {
		f.c.Violate("undecided:main", p.Pos(main.Pos()), "main does not read a configuration, validate the settings and select a parser")
		return
	}
	// flags win
	for _, u := range loads {
		named := func(e *senv, b, t *ssa.BasicBlock) bool {
			return s.factEdge(e, func(t string) bool {
				return t == `==(Config.ConfigPath,"")` || t == `==(Config.ConfigPath,"off")` || t == `==(Config.ConfigPath,"example")`
			})(b, t)
		}
		if !s.must(u, named) {
			f.c.Violate("flags-win:read", p.instrPos(u.in()), "%s does not always read the configuration file", funcName(u.in().Parent()))
		}
		for _, v := range validates {
			f.c.Inst("flags-win", p.instrPos(u.in()))
			ok := false
			for _, pe := range parses {
				k, m := apart(u, v), apart(u, pe)
				if m < k || !before(u, pe) || !before(pe, v) {
					continue
				}
				// made from the settings after the file was read
				fresh := false
				for _, se := range sets {
					if apart(u, se) >= m && before(u, se) && before(se, pe) {
						fresh = true
					}
				}
				if !fresh || !f.between(u, m, k, pe, v) {
					continue
				}
				ok = true
			}
			if !ok {
				f.c.Violate("flags-win", p.instrPos(u.in()), "after %s read the configuration file the settings can be used without the flags having been parsed again", funcName(u.in().Parent()))
			}
		}
	}
	for _, pa := range parsers {
		f.c.Inst("validated", p.instrPos(pa.in()))
		ok := false
		for _, v := range validates {
			k := apart(pa, v)
			pb, vb := pa.levels[k].in.Block(), v.levels[k].in.Block()
			if !before(v, pa) || !s.mustFrom(v, k+1, nil) {
				continue
			}
			env := pa.levels[k].env
			fn := pb.Parent()
			if pb == vb || vb == fn.Blocks[0] || pathsPass(fn.Blocks[0], func(b *ssa.BasicBlock) bool { return b == pb }, func(b *ssa.BasicBlock) bool { return b == vb }, s.skips(env, nil)) {
				ok = true
			}
		}
		if !ok {
			f.c.Violate("validated", p.instrPos(pa.in()), "%s can be reached without the settings having been validated", funcName(pa.in().Parent()))
		}
	}
	f.callers(main, into, "Config.")
	// what is known as the file's name
	f.c.Inst("used", "path")
	s.fixed = map[string]string{"Config.WorkspaceRelativePath": `"PATH"`}
	named := false
	s.walk(main, s.env(main, nil, 0), nil, into, func(ev sevent) {
		x, ok := ev.in().(*ssa.Call)
		if !ok || x.Call.IsInvoke() || x.Call.StaticCallee() != nil || len(x.Call.Args) == 0 {
			return
		}
		r := x.Call.Signature().Results()
		if r.Len() != 2 || typeKey(r.At(0).Type()) != "*"+modPath+"/build.File" {
			return
		}
		named = true
		if t := s.eval(x.Call.Args[0], ev.env())[0]; t != `"PATH"` {
			f.c.Violate("used:path", p.instrPos(x), "%s can parse a file under another name than the path setting", funcName(x.Parent()))
		}
	})
	s.fixed = map[string]string{}
	if !named {
		f.c.Violate("used:path", p.Pos(main.Pos()), "the call of the selected parser is not there to be analysed")
	}
}

// between: every path from the reading of the file (u) to the validation (v) passes the parsing (pe), which lies on
// level m of the chain of u.
func (f *conf) between(u sevent, m, k int, pe, v sevent) bool {
	s := f.s
	l := pe.levels[m]
	ub, pb := u.levels[m].in.Block(), l.in.Block()
	end := isReturn
	if m == k {
		vb := v.levels[k].in.Block()
		if vb == pb {
			return true
		}
		end = func(b *ssa.BasicBlock) bool { return b == vb }
	}
	if ub != pb && !pathsPass(ub, end, func(b *ssa.BasicBlock) bool { return b == pb }, s.skips(l.env, nil)) {
		return false
	}
	return s.mustFrom(pe, m+1, nil)
}

func isFlagKind(n string) bool {
	switch n {
	case "String", "Bool", "Int":
		return true
	}
	return false
}

// registers: the function returns a flag set it made.
func (f *conf) registers(g *ssa.Function) bool {
	r := g.Signature.Results()
	return r.Len() == 1 && strings.HasSuffix(typeKey(r.At(0).Type()), "flag.FlagSet")
}

func (f *conf) flag(ev sevent, kind string, args []sterm, i int, keys, byKey map[string]string, norm func(string) string, flags map[string]bool, st *types.Struct) {
	pos := f.p.instrPos(ev.in())
	fnm := funcName(ev.in().Parent())
	if isFlagKind(kind) {
		f.c.Violate("flag-key:unbound", pos, "%s makes a flag that is bound to no setting", fnm)
		return
	}
	ptr, name := at(args[1], i), strings.Trim(at(args[2], i), `"`)
	f.c.Inst("flag-key", name)
	if !strings.HasPrefix(ptr, "&Config.") {
		f.c.Violate("flag-key:"+name, pos, "%s binds the flag %s to something other than a setting", fnm, name)
		return
	}
	field := ptr[8:]
	key := keys[field]
	want := map[string]string{"help": "Help", "version": "Version", "config": "ConfigPath"}[name]
	if want == "" {
		want = byKey[norm(name)]
	}
	if want != "" && want != field || want == "" && !strings.HasPrefix(norm(key), norm(name)) {
		f.c.Violate("flag-key:"+name, pos, "%s binds the flag %s to the setting %s", fnm, name, field)
		return
	}
	if key == "" {
		return
	}
	if kind != "Var" && at(args[3], i) != "Config."+field {
		f.c.Violate("flag-key:default:"+name, pos, "%s gives the flag %s a default other than the setting's value, so the configuration file's is lost", fnm, name)
		return
	}
	if !f.s.mustIn(ev.levels[len(ev.levels)-1], nil) {
		f.c.Violate("flag-key:"+name, pos, "%s does not always make the flag %s", fnm, name)
		return
	}
	flags[field] = true
}

// stored: a store to a setting.
func (f *conf) stored(ev sevent, x *ssa.Store, field, v string, keys map[string]string, after bool) {
	s := f.s
	// the maker of a configuration fills it
	if fa, ok := x.Addr.(*ssa.FieldAddr); ok && madeHere(fa.X) {
		return
	}
	fnm := funcName(x.Parent())
	f.c.Inst("unchanged", field+" in "+fnm)
	if keys[field] == "" {
		switch field {
		case "ConfigPath":
			if !s.guarded(ev, func(t string) bool { return t == `==(Config.ConfigPath,"")` }) {
				f.c.Violate("unchanged:"+field, f.p.instrPos(x), "%s replaces the configuration file that was named", fnm)
			}
		case "LintWarnings":
			if !strings.HasPrefix(v, "call:buildifier/config.ValidateWarnings(") || !strings.HasSuffix(v, "#0") || !s.must(ev, nil) {
				f.c.Violate("warnings:"+field, f.p.instrPos(x), "%s sets the warnings to something other than the validated ones", fnm)
			}
		}
		return
	}
	missing := "==(Config." + field + `,"")`
	ok := false
	switch {
	case field == "Mode" && v == `"fix"`, field == "Lint" && v == `"off"`, field == "InputType" && v == `"auto"`:
		ok = s.guarded(ev, func(t string) bool { return t == missing })
	case field == "Mode" && v == `"diff"`:
		ok = s.guarded(ev, func(t string) bool { return t == "Config.DiffMode" })
	case field == "Mode" && v == `"pipe"`:
		ok = s.guarded(ev, func(t string) bool { return t == `==(Config.Mode,"fix")` })
	}
	if !ok {
		f.c.Violate("unchanged:"+field, f.p.instrPos(x), "%s changes the setting %s", fnm, field)
	}
}

// madeHere: a struct allocated by a function that returns it.
func madeHere(v ssa.Value) bool {
	_, isAlloc := v.(*ssa.Alloc)
	_, isCall := v.(*ssa.Call)
	if !isAlloc && !isCall {
		return false
	}
	for _, b := range v.Parent().Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if r == v {
					return true
				}
			}
		}
	}
	return false
}

// callers: the files named by the two flags for tables are read, the one that replaces first.
func (f *conf) callers(root *ssa.Function, into func(g *ssa.Function) bool, what string) {
	s := f.s
	type tcall struct {
		ev        sevent
		i         int
		merge, ok bool
		path      string
	}
	var calls []tcall
	terms := map[string]bool{"Config.": true}
	_ = terms
	isRepl := func(t string) bool {
		return strings.Contains(t, "Config.TablesPath") || strings.Contains(t, `*flag:"tables"`)
	}
	isAdd := func(t string) bool {
		return strings.Contains(t, "Config.AddTablesPath") || strings.Contains(t, `*flag:"add_tables"`)
	}
	s.walk(root, s.env(root, nil, 0), nil, into, func(ev sevent) {
		x, ok := ev.in().(*ssa.Call)
		if !ok {
			return
		}
		g := x.Call.StaticCallee()
		if g == nil || symFn(g) != "tables.ParseAndUpdateJSONDefinitions" || len(x.Call.Args) != 2 {
			return
		}
		path, merge := s.eval(x.Call.Args[0], ev.env()), s.eval(x.Call.Args[1], ev.env())
		for i := 0; i < rows(path, merge); i++ {
			t, m := at(path, i), at(merge, i)
			f.c.Inst("tables-flag", t)
			if isRepl(t) == isAdd(t) || m != "true" && m != "false" || isAdd(t) != (m == "true") {
				f.c.Violate("tables-flag:"+funcName(x.Parent()), f.p.instrPos(x), "%s reads a tables file with the wrong effect, or one no flag names", funcName(x.Parent()))
				continue
			}
			unset := joined(path, func(t string) string { return t })
			_ = unset
			must := s.must(ev, func(e *senv, b, t *ssa.BasicBlock) bool {
				return s.factEdge(e, func(t string) bool {
					for _, y := range strings.Split(t, "|") {
						if !strings.HasPrefix(y, "==(") || !strings.HasSuffix(y, `,"")`) || !isRepl(y) && !isAdd(y) {
							return false
						}
					}
					return true
				})(b, t)
			})
			if !must {
				f.c.Violate("tables-flag:"+funcName(x.Parent()), f.p.instrPos(x), "%s does not always read the tables file a flag names", funcName(x.Parent()))
			}
			calls = append(calls, tcall{ev, i, m == "true", must, t})
		}
	})
	var repl, add []tcall
	for _, t := range calls {
		if t.merge {
			add = append(add, t)
		} else {
			repl = append(repl, t)
		}
	}
	if len(repl) == 0 || len(add) == 0 {
		f.c.Violate("tables-flag:"+funcName(root), f.p.Pos(root.Pos()), "%s has no effect for one of the flags for tables files", funcName(root))
	}
	for _, r := range repl {
		for _, a := range add {
			same := r.ev.in() == a.ev.in() && apart(r.ev, a.ev) == len(r.ev.levels)-1
			if same && r.i < a.i || !same && before(r.ev, a.ev) {
				continue
			}
			f.c.Violate("tables-flag:order:"+funcName(root), f.p.instrPos(a.ev.in()), "%s can add to the tables before it replaces them", funcName(a.ev.in().Parent()))
		}
	}
}

// buildozerOptions: what each flag of buildozer sets.
var buildozerOptions = map[string]string{
	"stdout": "Options.Stdout", "buildifier": "Options.Buildifier", "P": "Options.Parallelism", "numio": "Options.NumIO",
	"f": "Options.CommandsFiles", "k": "Options.KeepGoing", "types": "Options.FilterRuleTypes",
	"eol-comments": "Options.PreferEOLComments", "root_dir": "Options.RootDir", "quiet": "Options.Quiet",
	"edit-variables": "Options.EditVariables", "output_proto": "Options.IsPrintingProto", "output_json": "Options.IsPrintingJSON",
	"shorten_labels": "edit.ShortenLabelsFlag", "delete_with_comments": "edit.DeleteWithComments",
}

func (f *conf) buildozer() {
	s, p := f.s, f.p
	main := f.root("buildozer", "main")
	if main == nil {
		return
	}
	into := inPkgs("buildozer")
	// variables bound to a flag
	bound := map[string]string{}
	s.walk(main, s.env(main, nil, 0), nil, into, func(ev sevent) {
		if x, ok := ev.in().(*ssa.Call); ok {
			g := x.Call.StaticCallee()
			if g != nil && relPkgPath(g) == "flag" && strings.HasSuffix(g.Name(), "Var") {
				args := x.Call.Args
				if g.Signature.Recv() != nil {
					args = args[1:]
				}
				ptr, name := s.eval(args[0], ev.env()), s.eval(args[1], ev.env())
				for i := 0; i < rows(ptr, name); i++ {
					bound[strings.TrimPrefix(at(ptr, i), "&")] = strings.Trim(at(name, i), `"`)
				}
			}
		}
	})
	set := map[string]bool{}
	s.walk(main, s.env(main, nil, 0), nil, into, func(ev sevent) {
		x, ok := ev.in().(*ssa.Store)
		if !ok {
			return
		}
		if _, local := x.Addr.(*ssa.Alloc); local {
			return
		}
		addr, val := s.eval(x.Addr, ev.env()), s.eval(x.Val, ev.env())
		for i := 0; i < rows(addr, val); i++ {
			a := strings.TrimPrefix(at(addr, i), "&")
			var name string
			for n, o := range buildozerOptions {
				if o == a {
					name = n
				}
			}
			if name == "" {
				continue
			}
			v := at(val, i)
			ok := v == `*flag:"`+name+`"` || bound[v] == name
			if name == "types" {
				ok = strings.Contains(v, `"types"`) && strings.Contains(v, "buildozer.")
			}
			f.c.Inst("option", name)
			if !ok || !s.must(ev, nil) {
				f.c.Violate("option:"+name, p.instrPos(x), "%s does not set %s to the flag %s", funcName(x.Parent()), a, name)
				continue
			}
			set[name] = true
		}
	})
	var names []string
	for n := range buildozerOptions {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if bound[buildozerOptions[n]] == n {
			f.c.Inst("option", n)
			set[n] = true
		}
		if !set[n] {
			f.c.Violate("option:"+n, p.Pos(main.Pos()), "the flag %s does not set the option %s", n, buildozerOptions[n])
		}
	}
	f.callers(main, into, "")
}

func relPkgPath(g *ssa.Function) string {
	if pk := fnPkg(g); pk != nil {
		return pk.Path()
	}
	return ""
}

func (f *conf) parsers() {
	s, p := f.s, f.p
	get := f.root("buildifier/utils", "GetParser")
	parse := f.root("build", "Parse")
	kind := f.root("build", "getFileType")
	if get == nil || parse == nil || len(get.Params) != 1 {
		return
	}
	names := map[string]string{"build": "ParseBuild", "bzl": "ParseBzl", "auto": "Parse", "workspace": "ParseWorkspace", "module": "ParseModule", "default": "ParseDefault"}
	for _, k := range sortedKeys(names) {
		f.c.Inst("parser", k)
		e := s.env(get, map[ssa.Value]sterm{get.Params[0]: one(`"` + k + `"`)}, 0)
		n := 0
		for _, b := range get.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && e.live[b] {
				n++
				if t := s.eval(ret.Results[0], e); len(t) != 1 || t[0] != "func:build."+names[k] {
					f.c.Violate("parser:"+k, p.instrPos(ret), "%s can return something other than %s for the type %s", funcName(get), names[k], k)
				}
			}
		}
		if n == 0 {
			f.c.Violate("parser:"+k, p.Pos(get.Pos()), "%s returns no parser for the type %s", funcName(get), k)
		}
		if k == "auto" {
			continue
		}
		fn := f.root("build", names[k])
		kv := f.typeConst(names[k])
		if fn == nil || kv == "" {
			continue
		}
		set := false
		s.walk(fn, s.env(fn, nil, 0), nil, inPkgs("build"), func(ev sevent) {
			x, ok := ev.in().(*ssa.Store)
			if !ok || s.eval(x.Addr, ev.env())[0] != "&File.Type" {
				return
			}
			if s.eval(x.Val, ev.env())[0] != kv {
				f.c.Violate("parser:type:"+k, p.instrPos(x), "%s marks the tree with another type than %s", funcName(x.Parent()), k)
				return
			}
			if s.must(ev, func(e *senv, b, t *ssa.BasicBlock) bool {
				return s.factEdge(e, func(t string) bool { return strings.HasPrefix(t, "==(") && strings.HasSuffix(t, ",nil)") })(b, t)
			}) {
				set = true
			}
		})
		if !set {
			f.c.Violate("parser:type:"+k, p.Pos(fn.Pos()), "%s does not always mark the tree as %s", names[k], k)
		}
	}
	if kind == nil {
		return
	}
	s.opaque = map[string]bool{}
	for _, n := range names {
		s.opaque["build."+n] = true
	}
	defer func() { s.opaque = nil }()
	for _, k := range sortedKeys(names) {
		if k == "auto" {
			continue
		}
		f.c.Inst("parser", "auto "+k)
		kv := f.typeConst(names[k])
		s.fixed["call:build.getFileType(param:"+parse.Params[0].Name()+")"] = kv
		e := s.env(parse, nil, 0)
		n := 0
		for _, b := range parse.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !e.live[b] {
				continue
			}
			n++
			t := s.eval(ret.Results[0], e)
			if len(t) != 1 || !strings.HasPrefix(t[0], "call:build."+names[k]+"(") && !strings.HasPrefix(t[0], "call:(func:build."+names[k]+")(") {
				f.c.Violate("parser:auto:"+k, p.instrPos(ret), "%s can use another parser than %s for a file of that type", funcName(parse), names[k])
			}
		}
		if n == 0 {
			f.c.Violate("parser:auto:"+k, p.Pos(parse.Pos()), "%s returns nothing for a file of the type %s", funcName(parse), k)
		}
		s.fixed = map[string]string{}
	}
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// typeConst: the value of the file type a parser is named after.
func (f *conf) typeConst(parser string) string {
	name := "Type" + strings.TrimPrefix(parser, "Parse")
	k, _ := f.p.SPkgs["build"].Members[name].(*ssa.NamedConst)
	if k == nil || k.Value.Value == nil || k.Value.Value.Kind() != constant.Int {
		f.c.Violate("undecided:"+name, "", "there is no file type %s", name)
		return ""
	}
	return k.Value.Value.ExactString()
}

func (f *conf) warnings() {
	s, p := f.s, f.p
	fn := f.root("buildifier/config", "ValidateWarnings")
	val := f.root("buildifier/config", "Config.Validate")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	for _, k := range []string{"", "default", "all"} {
		f.c.Inst("warnings", `"`+k+`"`)
		want := map[string]string{"": "DEFAULT", "default": "DEFAULT", "all": "ALL"}[k]
		s.fixed["WARNINGS"] = `"` + k + `"`
		e := s.env(fn, map[ssa.Value]sterm{fn.Params[0]: one("&WARNINGS"), fn.Params[1]: one("&ALL"), fn.Params[2]: one("&DEFAULT")}, 0)
		n := 0
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && e.live[b] {
				n++
				if t := s.eval(ret.Results[0], e); len(t) != 1 || t[0] != want {
					f.c.Violate("warnings:"+k, p.instrPos(ret), "%s can return something other than the right list of warnings for %q", funcName(fn), k)
				}
			}
		}
		if n == 0 {
			f.c.Violate("warnings:"+k, p.Pos(fn.Pos()), "%s returns nothing for %q", funcName(fn), k)
		}
		s.fixed = map[string]string{}
	}
	if val == nil {
		return
	}
	for _, w := range []string{"", "WARN"} {
		f.c.Inst("warnings", "setting "+strconv.Quote(w))
		s.fixed = map[string]string{"Config.Warnings": strconv.Quote(w)}
		s.walk(val, s.env(val, nil, 0), nil, inPkgs("buildifier/config"), func(ev sevent) {
			x, ok := ev.in().(*ssa.Call)
			if !ok || x.Call.StaticCallee() != fn {
				return
			}
			want := `"WARN"`
			if w == "" {
				want = "Config.WarningsList"
			}
			if t := s.eval(x.Call.Args[0], ev.env())[0]; !strings.Contains(t, want) || strings.Contains(t, "phi(") {
				f.c.Violate("warnings:setting", p.instrPos(x), "%s can leave out warnings that were asked for", funcName(x.Parent()))
			}
		})
		s.fixed = map[string]string{}
	}
	found := false
	s.walk(val, s.env(val, nil, 0), nil, inPkgs("buildifier/config"), func(ev sevent) {
		x, ok := ev.in().(*ssa.Call)
		if !ok || x.Call.StaticCallee() != fn {
			return
		}
		found = true
		if a, d := s.eval(x.Call.Args[1], ev.env())[0], s.eval(x.Call.Args[2], ev.env())[0]; a != "&warn.AllWarnings" || d != "&warn.DefaultWarnings" {
			f.c.Violate("warnings:lists", p.instrPos(x), "%s takes %s for all warnings and %s for the default ones", funcName(x.Parent()), a, d)
		}
	})
	if !found {
		f.c.Violate("warnings:lists", p.Pos(val.Pos()), "%s does not validate the warnings", funcName(val))
	}
}
