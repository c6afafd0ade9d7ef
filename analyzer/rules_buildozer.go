package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", func(c *Ctx) { buildozerWorker(c, true) },
		"os and io behave as documented", "replaceable hooks (file.ReadFile, file.WriteFile, EditFile) are analysed with their default implementation")
	register("P08", func(c *Ctx) {
		buildozerWorker(c, false)
		buildozerCollector(c)
		buildozerMain(c)
		formatterErrors(c)
	}, "a failing write of a message to standard error is not a failure of the tool")
}

const (
	optKeep   = "edit.Options.KeepGoing"
	optStdout = "edit.Options.Stdout"
)

// boolField decides a boolean option in this state.
// formatterErrors: the formatters handed to the workers report every failure.
func formatterErrors(c *Ctx) {
	p := c.P
	c.Rule("formatter", "an implementation of the formatter buildozer calls returns an error whenever something it called failed")
	for _, fn := range p.repoFuncs() {
		if fn.Signature.Recv() == nil || fn.Name() != "Buildify" || !lastErr(fn.Signature) {
			continue
		}
		c.Inst("formatter", funcName(fn))
		bad, err := failFunc(c, fn)
		if err != nil {
			c.Violate("undecided:"+funcName(fn), p.Pos(fn.Pos()), "%v", err)
		}
		for in, why := range bad {
			c.Violate("formatter:"+why, p.instrPos(in), "%s", why)
		}
	}
	c.Floor("formatter", 1)
}

func boolField(s *State, suffix string) tri {
	for a, v := range s.mem {
		if a.op == "field" && strings.HasSuffix(a.aux, suffix) && v.op == "const" {
			return toTri(v.String() == "true")
		}
	}
	for k, v := range s.atoms {
		if loadedField(k, suffix) {
			return toTri(v)
		}
	}
	return unknown
}

func isCommandFn(sig *types.Signature) bool {
	if sig.Params().Len() < 1 || sig.Results().Len() != 2 {
		return false
	}
	last := sig.Params().At(sig.Params().Len() - 1).Type()
	return typeKey(last) == modPath+"/edit.CmdEnvironment" && typeKey(sig.Results().At(0).Type()) == "*"+modPath+"/build.File" && typeKey(sig.Results().At(1).Type()) == "error"
}

// isResultT: a struct (pointer) with a list of errors.
func isResultT(t types.Type) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == "[]error" {
			return true
		}
	}
	return false
}

// isFormatSig: ([]byte, error) from an options struct and a file.
func isFormatSig(sig *types.Signature) bool {
	if sig.Results().Len() != 2 || !isByteSlice(sig.Results().At(0).Type()) || typeKey(sig.Results().At(1).Type()) != "error" {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if typeKey(sig.Params().At(i).Type()) == "*"+modPath+"/build.File" {
			return true
		}
	}
	return false
}

func isTargetsSig(sig *types.Signature) bool {
	return sig.Results().Len() == 2 && typeKey(sig.Results().At(0).Type()) == "[]*"+modPath+"/build.Rule" && typeKey(sig.Results().At(1).Type()) == "error"
}

// hookSig: func(os.FileInfo, string) error, the pre-edit hook.
func hookSig(sig *types.Signature) bool {
	return sig.Params().Len() == 2 && sig.Results().Len() == 1 && strings.HasSuffix(typeKey(sig.Params().At(0).Type()), "FileInfo") && typeKey(sig.Results().At(0).Type()) == "error"
}

// buildozerWorker analyses what happens to one file: when it is written (P07) and what is reported (P08).
func buildozerWorker(c *Ctx, writes bool) {
	p := c.P
	root := p.Func("edit", "Buildozer")
	if root == nil {
		c.Violate("anchor:Buildozer", "", "edit.Buildozer not found")
		return
	}
	W, X := "write-conditions", "failure-reported"
	if writes {
		c.Rule(W, "a BUILD file is written only with the formatter's bytes for the tree parsed from that file's own contents, only if some command changed the tree, no command failed (unless -k), the bytes differ, the output is not redirected to stdout and the pre-edit hook succeeded")
		c.Rule("who-may-write", "no other function reachable from buildozer modifies the file system")
	} else {
		c.Rule(X, "on every path a worker that fails to read, parse, edit, format or write delivers a result with at least one error, and exactly one result per job")
		c.Rule("modified-reported", "a result is marked modified exactly when the file was written")
	}
	allowed := func(fn *ssa.Function) bool {
		switch relPkg(fn) {
		case "edit", "file", "buildozer":
			return true
		}
		return false
	}
	isTarget := func(fn *ssa.Function, in ssa.Instruction) bool {
		if !allowed(fn) {
			return false
		}
		switch in := in.(type) {
		case *ssa.Send:
			return isResultT(in.X.Type())
		case ssa.CallInstruction:
			cc := in.Common()
			n := p.staticName(cc)
			if _, ok := fsWrites[n]; ok {
				return true
			}
			sig := cc.Signature()
			return fsTemp[n] || fileWriters[n] || readCalls[n] || n == "os.Stat" || n == "os.Exit" || isCommandFn(sig) && !cc.IsInvoke() && cc.StaticCallee() == nil || isFormatSig(sig) || hookSig(sig) && !cc.IsInvoke() ||
				!cc.IsInvoke() && isParserSig(sig) || cc.IsInvoke() && cc.Method.Name() == "Write"
		}
		return false
	}
	rel := p.reaching(isTarget)
	// the commands themselves and the formatter are judged elsewhere
	cmds := map[*ssa.Function]bool{}
	for _, ent := range p.commandTable() {
		if ent.fn != nil {
			cmds[ent.fn] = true
		}
	}
	if len(cmds) < 25 {
		c.Violate("anchor:commands", "", "only %d command functions found in the command table", len(cmds))
	}
	resT := ""
	seenW := map[ssa.Instruction]bool{}
	r := &Rule{Relevant: rel}
	if !writes {
		r.Split = func(t *T) bool { return t.op == "alloc" && t.typ != nil && isResultT(t.typ) }
	}
	r.EnvKey = func(e *Engine, s *S, k ssa.Value, v *T) int {
		if writes || typeKey(k.Type()) != "[]error" {
			return 0
		}
		if lo, ok := e.lower(s.State, e.tb.Len(v)); ok && lo > 0 {
			return 2
		}
		return 1
	}
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
		if !allowed(fn) || cmds[fn] || isFormatSig(fn.Signature) {
			return false, true
		}
		return false, false
	}
	prot := func(x *T) bool { return loadedField(x, optKeep) || loadedField(x, optStdout) }
	r.Protect = func(t *T) bool {
		x := t
		if t.op == "==" || t.op == "len" {
			x = t.args[0]
		}
		if x.op == "len" {
			x = x.args[0]
		}
		return prot(x)
	}
	outcomes := func(ok, fail Out) []Out { return []Out{ok, fail} }
	reset := func(s *State) {
		for _, k := range []string{"fail", "readfail", "changed", "written", "hook", "cmdfail", "needhook", "lost", "src", "differs"} {
			delete(s.ev, k)
		}
		for _, k := range []string{"~file", "~data", "~fmt", "~path", "~parsedpath", "~why"} {
			delete(s.note, k)
		}
	}
	r.OnRecv = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, v *T) []Out {
		if v.typ == nil || v.op != "fieldval" {
			return nil
		}
		if _, ok := v.typ.Underlying().(*types.Struct); !ok {
			return nil
		}
		done := s.fork()
		ok := e.tb.mk("recvok", "", v.args[0])
		if s.ev["job"] != "" && !writes {
			c.Violate("job:"+funcName(fr.fn), p.instrPos(in), "a worker may take the next file without having delivered a result for the previous one")
		}
		s.atoms[ok] = true
		done.atoms[ok] = false
		reset(s.State)
		reset(done.State)
		delete(done.ev, "job")
		s.ev["job"] = "1"
		return []Out{{s, v}, {done, v}}
	}
	r.OnSend = func(e *Engine, fr *Frame, s *S, in *ssa.Send, v *T) {
		et := in.X.Type()
		st, ok := deref(et).Underlying().(*types.Struct)
		if !ok {
			return
		}
		errsK, modK := "", ""
		for i := 0; i < st.NumFields(); i++ {
			if typeKey(st.Field(i).Type()) == "[]error" {
				errsK = st.Field(i).Name()
			}
			if typeKey(st.Field(i).Type()) == "bool" {
				modK = st.Field(i).Name()
			}
		}
		if errsK == "" {
			return
		}
		resT = typeKey(deref(et))
		if s.ev["job"] == "" && !writes {
			c.Violate("result:"+funcName(fr.fn), p.instrPos(in), "a worker may deliver a result without a job, or two results for one job")
		}
		delete(s.ev, "job")
		if writes {
			return
		}
		field := func(name string) *T {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					if _, isP := et.Underlying().(*types.Pointer); isP {
						return e.Load(s.State, e.Field(v, deref(et), i), st.Field(i).Type())
					}
					return e.fieldVal(s.State, v, fieldKey(et, i), st.Field(i).Type())
				}
			}
			return nil
		}
		errs := field(errsK)
		failed := s.ev["fail"] != "" || s.ev["readfail"] != ""
		c.Inst(X, fmt.Sprintf("result with failures {%s}", strings.Join(onlyKeys(s.ev, "readfail", "fail", "changed", "written", "lost"), ",")))
		n := e.tb.Len(errs)
		if failed {
			if l, ok := e.lower(s.State, n); !ok || l < 1 {
				if e.Eval(s.State, e.tb.Eq(n, e.tb.Int(0))) != no {
					e.why(s, "unreported "+errs.String())
					what := "reading the file"
					if w := s.note["~why"]; w != nil {
						what = "an operation"
						if w.op == "why" {
							what = w.aux
						}
					}
					c.Violate("unreported:"+funcName(fr.fn), p.instrPos(in), "a worker may deliver a result without an error although %s failed (errors: %s)", what, errs)
				}
			}
		} else if !failed && e.Eval(s.State, e.tb.Eq(n, e.tb.Int(0))) == no {
			c.Violate("spurious", p.instrPos(in), "a worker may report an error although nothing failed")
		}
		if s.ev["lost"] != "" && !failed {
			c.Violate("lost", p.instrPos(in), "a changed tree may be dropped: the new contents differ but are neither written nor printed, and no error is reported")
		}
		if modK != "" {
			mv := field(modK)
			c.Inst("modified-reported", fmt.Sprintf("written=%v", s.ev["written"] != ""))
			want := s.ev["written"] != ""
			if got := e.Eval(s.State, mv); got == unknown || (got == yes) != want {
				c.Violate(fmt.Sprintf("modified:%v", want), p.instrPos(in), "the result's modified flag may be wrong: file written is %v, flag is %s", want, mv)
			}
		}
	}
	var eng *Engine
	setFail := func(s *State, k string) {
		s.ev["fail"] = "1"
		s.note["~why"] = eng.tb.mk("why", k)
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		sig := cc.Signature()
		where := funcName(fr.fn)
		pos := p.instrPos(in)
		v, _ := in.(ssa.Value)
		switch {
		case name == "os.Exit" || noReturn[name]:
			return nil, true
		case isCommandFn(sig) && !cc.IsInvoke() && (fn == nil || !cmds[fn]):
			// a command: fails or not, changes the tree or not
			c.Inst(map[bool]string{true: W, false: X}[writes], "commands called in "+where)
			ok, fail := e.forkErr(fr, s, in, sig, "command")
			setFail(fail.S.State, "command")
			fail.S.ev["cmdfail"] = "1"
			e.havocCall(fr, ok.S, in, cc, e.tb.mk("func", "command"), args)
			e.havocCall(fr, fail.S, in, cc, e.tb.mk("func", "command"), args)
			same := ok.S.fork()
			same.ev["x"] = "1"
			delete(same.ev, "x")
			ok.S.ev["changed"] = "1"
			fileT := sig.Results().At(0).Type()
			nilRet := e.tb.mk("tuple", "", e.tb.Nil(), e.tb.Nil())
			fx := e.tb.mk("opaque", fr.ctx+"|cmdfail"+siteStr(e, in))
			fx.typ = fileT
			e.redefine(fail.S, fx)
			errT := fail.Ret.args[1]
			both := fail.S.fork()
			both.ev["changed"] = "1"
			both.atoms[e.tb.mk("==", "", fx, e.tb.Nil())] = false
			return []Out{ok, {same, nilRet}, {both, e.tb.mk("tuple", "", fx, errT)}, {fail.S, e.tb.mk("tuple", "", e.tb.Nil(), errT)}}, true
		case isTargetsSig(sig) && fn != nil && inRepo(fn):
			ok, fail := e.forkErr(fr, s, in, sig, "target")
			setFail(fail.S.State, "target lookup")
			fail.S.ev["cmdfail"] = "1"
			return outcomes(ok, fail), true
		case isParserSig(sig) && !cc.IsInvoke() && (fn == nil || relPkg(fn) == "build"):
			ok, fail := e.forkErr(fr, s, in, sig, "parse")
			setFail(fail.S.State, "parse")
			ok.S.note["~file"] = ok.Ret.args[0]
			ok.S.note["~data"] = args[1]
			ok.S.note["~parsedpath"] = args[0]
			return outcomes(ok, fail), true
		case isFormatSig(sig):
			ok, fail := e.forkErr(fr, s, in, sig, "format")
			setFail(fail.S.State, "format")
			ok.S.note["~fmt"] = ok.Ret.args[0]
			if d := ok.S.note["~data"]; d != nil {
				f := ok.S.fork()
				eq := e.tb.Equal(d, ok.Ret.args[0])
				ok.S.atoms[eq] = true
				f.atoms[eq] = false
				f.ev["lost"] = "1"
				f.ev["differs"] = "1"
				return []Out{ok, {f, ok.Ret}, fail}, true
			}
			return outcomes(ok, fail), true
		case name == "os.Stat" || name == "os.Lstat":
			ok, fail := e.forkErr(fr, s, in, sig, "stat")
			fail.S.ev["readfail"] = "read"
			return outcomes(ok, fail), true
		case readCalls[name]:
			ok, fail := e.forkErr(fr, s, in, sig, "read")
			fail.S.ev["readfail"] = "read"
			delete(ok.S.ev, "readfail")
			if name == "os.ReadFile" {
				ok.S.note["~path"] = args[0]
				ok.S.ev["src"] = "file"
			} else {
				delete(ok.S.note, "~path")
				ok.S.ev["src"] = "stream"
			}
			return outcomes(ok, fail), true
		case hookSig(sig) && !cc.IsInvoke() && (fn == nil || relPkg(fn) == "edit"):
			ok, fail := e.forkErr(fr, s, in, sig, "hook")
			setFail(fail.S.State, "pre-edit hook")
			ok.S.ev["hook"] = "1"
			return outcomes(ok, fail), true
		case cc.IsInvoke() && cc.Method.Name() == "Write" && len(args) > 0:
			ok, fail := e.forkErr(fr, s, in, sig, "print")
			data := args[len(args)-1]
			if s.note["~fmt"] != nil && data == s.note["~fmt"] {
				setFail(fail.S.State, "write to stdout")
				delete(ok.S.ev, "lost")
				if writes {
					c.Inst(W, "formatted contents printed in "+where)
					if s.ev["cmdfail"] != "" && boolField(s.State, optKeep) != yes {
						c.Violate("print-after-failure", pos, "new contents may be printed although a command failed and -k is not given")
					}
				}
			}
			return outcomes(ok, fail), true
		}
		if pi, ok := fsWrites[name]; ok {
			seenW[in] = true
			finish := func() ([]Out, bool) {
				outOK, fail := e.forkErr(fr, s, in, sig, "fswrite")
				setFail(fail.S.State, "write")
				outOK.S.ev["written"] = "1"
				delete(outOK.S.ev, "lost")
				return outcomes(outOK, fail), true
			}
			if !writes {
				return finish()
			}
			if name != "os.WriteFile" {
				c.Violate("fs:"+name+":"+where, pos, "%s calls %s; buildozer may only write back BUILD files", where, name)
				return finish()
			}
			c.Inst(W, "os.WriteFile via "+fr.Path())
			path, data := args[pi], args[1]
			if s.note["~file"] == nil {
				c.Violate("parse", pos, "a file may be written without a successful parse")
			}
			if s.note["~fmt"] == nil || s.note["~fmt"] != data {
				c.Violate("data", pos, "the bytes written are not the formatter's result (%s)", data)
			} else if d := s.note["~data"]; d == nil || s.ev["differs"] == "" && e.Eval(s.State, e.tb.Equal(d, data)) != no {
				e.why(s, "unchg")
				c.Violate("unchanged", pos, "a file may be rewritten although its contents do not change")
			}
			if s.note["~path"] == nil || s.note["~path"] != path {
				e.why(s, "path")
				c.Violate("path", pos, "the file written (%s) may differ from the file read (%v)", path, s.note["~path"])
			}
			if s.note["~parsedpath"] != nil && s.note["~parsedpath"] != path {
				c.Violate("parsedpath", pos, "the file written (%s) may differ from the name it was parsed under (%v)", path, s.note["~parsedpath"])
			}
			if s.ev["changed"] == "" {
				c.Violate("nochange", pos, "a file may be written although no command changed it")
			}
			if s.ev["cmdfail"] != "" && boolField(s.State, optKeep) != yes {
				c.Violate("write-after-failure", pos, "a file may be written although a command failed and -k is not given")
			}
			if boolField(s.State, optStdout) != no {
				c.Violate("stdout", pos, "a file may be written although the output is to go to stdout")
			}
			if s.ev["hook"] == "" {
				e.why(s, "hook")
				c.Violate("hook", pos, "a file may be written without a successful pre-edit hook")
			}
			return finish()
		}
		if fsTemp[name] || fileWriters[name] {
			ok, fail := e.forkErr(fr, s, in, sig, "temp")
			if writes {
				c.Violate("fs:"+name+":"+where, pos, "%s calls %s", where, name)
			}
			return outcomes(ok, fail), true
		}
		_ = v
		return nil, false
	}
	nw := 0
	for fn := range p.reachableFrom(root) {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				f := g.Call.StaticCallee()
				if f == nil || !rel[f] {
					continue
				}
				nw++
				e := newEngine(c, r)
				e.Cap = 60
				eng = e
				if _, err := e.Run(f, nil); err != nil {
					c.Violate("budget", "", "%v", err)
					return
				}
				c.flowStats(e)
			}
		}
	}
	if nw == 0 {
		c.Violate("anchor:workers", "", "no goroutine that processes files is started by edit.Buildozer")
	}
	if writes {
		for fn := range p.reachableFrom(root) {
			if !allowed(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := p.staticName(ci.Common())
					if _, w := fsWrites[n]; (w || fsTemp[n]) && !seenW[in] {
						c.Violate("outside:"+funcName(fn)+":"+n, p.instrPos(in), "%s calls %s outside the worker that processes one file", funcName(fn), n)
					}
				}
			}
		}
		c.Floor(W, 3)
		whoMayWrite(c, root, "who-may-write", allowed)
	} else {
		c.Floor(X, 5)
		c.Floor("modified-reported", 2)
	}
	if resT == "" && !writes {
		c.Violate("anchor:result", "", "no result record with an error list is sent by the workers")
	}
}

// buildozerCollector: the exit status computed from the results.
func buildozerCollector(c *Ctx) {
	p := c.P
	root := p.Func("edit", "Buildozer")
	X := "exit-status"
	c.Rule(X, "the returned status is 2 if any result carries an error, else 0 if a file was modified, else 0 or 3; 1 only before any result; every error is printed")
	parses := p.reachParser()
	r := &Rule{}
	isRes := func(t types.Type) (*types.Struct, bool) {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		for i := 0; i < st.NumFields(); i++ {
			if typeKey(st.Field(i).Type()) == "[]error" {
				return st, true
			}
		}
		return nil, false
	}
	rel := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		if relPkg(fn) != "edit" && relPkg(fn) != "file" {
			return false
		}
		switch in := in.(type) {
		case *ssa.UnOp:
			if ch, ok := in.X.Type().Underlying().(*types.Chan); ok {
				_, ok := isRes(ch.Elem())
				return ok
			}
		case ssa.CallInstruction:
			n := p.staticName(in.Common())
			return n == "os.Exit"
		}
		return false
	})
	r.Relevant = rel
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
		if relPkg(fn) != "edit" && relPkg(fn) != "file" || parses[fn] && fn != root && !rel[fn] {
			return false, true
		}
		return false, false
	}
	r.Protect = func(t *T) bool { return loadedField(t, optStdout) }
	r.OnRecv = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, v *T) []Out {
		if v.typ == nil {
			v.typ = in.(ssa.Value).Type()
		}
		st, ok := isRes(v.typ)
		if !ok {
			return nil
		}
		c.Inst(X, "results received in "+funcName(fr.fn))
		if s.ev["unprinted"] != "" {
			c.Violate("unprinted", p.instrPos(in), "an error of a file may not be printed")
		}
		delete(s.ev, "unprinted")
		_, isPtr := v.typ.Underlying().(*types.Pointer)
		ptr := v.typ
		get := func(s *S, i int) *T {
			ft := st.Field(i).Type()
			if isPtr {
				return e.Load(s.State, e.Field(v, deref(ptr), i), ft)
			}
			return e.fieldVal(s.State, v, fieldKey(ptr, i), ft)
		}
		mk := func(err, mod bool) Out {
			n := s.fork()
			if isPtr {
				n.atoms[e.tb.mk("==", "", v, e.tb.Nil())] = false
			}
			for i := 0; i < st.NumFields(); i++ {
				switch typeKey(st.Field(i).Type()) {
				case "[]error":
					ln := e.tb.Len(get(n, i))
					if err {
						n.lo[ln] = 1
						n.ev["err"] = "1"
						n.ev["unprinted"] = "1"
					} else {
						e.Assume(n.State, e.tb.Eq(ln, e.tb.Int(0)), true)
					}
				case "bool":
					if mod {
						n.ev["mod"] = "1"
					}
					n.atoms[get(n, i)] = mod
				}
			}
			n.ev["recv"] = "1"
			return Out{n, v}
		}
		return []Out{mk(true, false), mk(true, true), mk(false, true), mk(false, false)}
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		switch {
		case name == "os.Exit":
			if n, ok := isInt(args[0]); ok && n == 0 {
				c.Violate("exit0:"+funcName(fr.fn), p.instrPos(in), "buildozer may exit with status 0 from inside the library")
			}
			return nil, true
		case noReturn[name]:
			return nil, true
		case strings.HasPrefix(name, "fmt.Fprint") && s.ev["unprinted"] != "" && len(args) > 0:
			if args[0].mentions(func(t *T) bool {
				return loadedField(t, "edit.Options.ErrWriter") || strings.Contains(t.aux, "rrWriter")
			}) || errWriter(cc.Args[0]) {
				delete(s.ev, "unprinted")
			}
		}
		return nil, false
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		if fr.fn != root || len(vals) != 1 {
			return
		}
		pos := p.instrPos(in)
		n, ok := isInt(vals[0])
		c.Inst(X, fmt.Sprintf("returns %s after {%s}", vals[0], strings.Join(onlyKeys(s.ev, "err", "mod", "recv"), ",")))
		if !ok {
			c.Violate("status:unknown", pos, "the status returned (%s) cannot be determined", vals[0])
			return
		}
		if s.ev["unprinted"] != "" {
			c.Violate("unprinted", pos, "an error of a file may not be printed")
		}
		switch {
		case s.ev["err"] != "":
			if n != 2 {
				c.Violate(fmt.Sprintf("status:err:%d", n), pos, "status %d although a command failed (documented: 2)", n)
			}
		case s.ev["mod"] != "":
			if n != 0 {
				c.Violate(fmt.Sprintf("status:mod:%d", n), pos, "status %d although files were changed without errors (documented: 0)", n)
			}
		case s.ev["recv"] != "":
			if n != 0 && n != 3 {
				c.Violate(fmt.Sprintf("status:none:%d", n), pos, "status %d although nothing failed (documented: 0 or 3)", n)
			}
		default:
			if n == 2 {
				c.Violate("status:start:2", pos, "status 2 before any command was executed")
			}
		}
		if n == 3 && boolField(s.State, optStdout) != no {
			c.Violate("status:3:stdout", pos, "status 3 (no changes) may be returned in -stdout mode")
		}
	}
	e := newEngine(c, r)
	e.Cap = 300
	if _, err := e.Run(root, nil); err != nil {
		c.Violate("budget", "", "%v", err)
		return
	}
	c.flowStats(e)
	c.Floor(X, 6)
}

// errWriter: the argument is loaded from the options' error writer (or is os.Stderr).
func errWriter(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		switch x := v.X.(type) {
		case *ssa.FieldAddr:
			return strings.HasSuffix(fieldKey(deref(x.X.Type()), x.Field), optErr)
		case *ssa.Global:
			return x.String() == "os.Stderr"
		}
	case *ssa.ChangeInterface:
		return errWriter(v.X)
	case *ssa.MakeInterface:
		return errWriter(v.X)
	}
	return false
}

const optErr = "edit.Options.ErrWriter"

// buildozerMain: the process status is the library's status.
func buildozerMain(c *Ctx) {
	p := c.P
	mainFn := p.Func("buildozer", "main")
	X := "main-status"
	c.Rule(X, "the process exits with the status the library returned; other exits of main are failures or follow -version; main never just returns after running commands")
	if mainFn == nil {
		c.Violate("anchor:main", "", "buildozer main not found")
		return
	}
	r := &Rule{Relevant: p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && relPkg(fn) == "buildozer" && (p.staticName(ci.Common()) == "os.Exit" || strings.HasSuffix(p.staticName(ci.Common()), "edit.Buildozer"))
	})}
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) { return relPkg(fn) == "buildozer", true }
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		switch {
		case strings.HasSuffix(name, "/edit.Buildozer"):
			x := e.opaque(fr, s, in.(ssa.Value), "status")
			s.note["status"] = x
			c.Inst(X, "library called from "+funcName(fr.fn))
			return []Out{{s, x}}, true
		case strings.HasSuffix(name, "/tables.ParseAndUpdateJSONDefinitions"):
			ok, fail := e.forkErr(fr, s, in, cc.Signature(), "tables")
			fail.S.ev["fail"] = "1"
			return []Out{ok, fail}, true
		case name == "os.Exit":
			n, isC := isInt(args[0])
			c.Inst(X, fmt.Sprintf("os.Exit(%s) in %s", args[0], funcName(fr.fn)))
			if st := s.note["status"]; st != nil {
				if args[0] != st {
					c.Violate("exit:status", p.instrPos(in), "the process status is not the status of the commands")
				}
			} else if !isC || n == 0 && s.ev["fail"] != "" {
				c.Violate("exit:tables", p.instrPos(in), "status %s after the tables could not be read", args[0])
			}
			return nil, true
		}
		return nil, false
	}
	e := newEngine(c, r)
	outs, err := e.Run(mainFn, nil)
	if err != nil {
		c.Violate("budget", "", "%v", err)
		return
	}
	for _, o := range outs {
		if o.S.note["status"] != nil || o.S.ev["fail"] != "" {
			c.Violate("exit:return", p.Pos(mainFn.Pos()), "main may return (status 0) without reporting the status of the commands")
		}
	}
	c.flowStats(e)
	c.Floor(X, 4)
	_ = constant.MakeBool
}
