package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cfgMode = "buildifier/config.Config.Mode"
const cfgFormat = "buildifier/config.Config.Format"

func init() {
	register("P01", func(c *Ctx) { buildifierRun(c, nil) },
		"os, io and exec behave as documented; the flag package delivers the flag values",
		"files named twice through different paths (symlinks, ./x and x) are out of scope")
	register("P02", func(c *Ctx) {
		c.Rule("exit-status", "on every path to process exit the status agrees with what happened")
		kinds := []string{"parse", "io", "lint", "diffcmd", "changed"}
		for _, k := range kinds {
			if k != "diffcmd" {
				// whatever else happens, the event is not forgotten
				buildifierRun(c, &scen{name: k + " among others", track: []string{k}, allow: kinds, kind: k})
			}
			// nothing else happens: the documented status
			buildifierRun(c, &scen{name: "only " + k, track: []string{k}, allow: []string{k}, kind: k, exact: true})
		}
		buildifierRun(c, &scen{name: "all files fine", exact: true})
		for _, m := range []string{"fix", "print_if_changed", "diff", "pipe"} {
			buildifierRun(c, &scen{name: "output in mode " + m, track: []string{"pending", "unprinted"}, allow: []string{"changed"}, mode: m})
		}
		c.Floor("exit-status", 20)
	},
		"a failing fmt.Fprint to stdout/stderr is not counted as an I/O failure of the tool",
		"with an explicit -format the documented status is 0 and the JSON/text report carries the result")
}

// scen restricts which fallible operations may fail and which events are tracked.
type scen struct {
	name  string
	track []string
	allow []string
	kind  string
	exact bool
	mode  string
}

func (sc *scen) allows(k string) bool { return sc == nil || has(sc.allow, k) }
func (sc *scen) tracks(k string) bool { return sc != nil && has(sc.track, k) }

func has(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// buildifierRun analyses buildifier's main: which file-system writes are reachable under which
// conditions (P01), and which exit status every outcome produces (P02).
func buildifierRun(c *Ctx, sc *scen) {
	writes := sc == nil
	p := c.P
	mainFn := p.Func("buildifier", "main")
	if mainFn == nil {
		c.Violate("anchor:main", "", "buildifier main not found")
		return
	}
	isTarget := func(name string) bool {
		if _, ok := fsWrites[name]; ok {
			return true
		}
		return fsTemp[name] || fileWriters[name] || readCalls[name] || name == "os/exec.Command" || name == "path/filepath.Walk" || name == "path/filepath.WalkDir" ||
			strings.HasSuffix(name, "buildtools/build.Format") || name == "os.Exit" || strings.HasSuffix(name, "/warn.FileWarnings") || strings.HasSuffix(name, "/warn.FixWarnings")
	}
	allowedPkg := func(fn *ssa.Function) bool {
		switch relPkg(fn) {
		case "build", "warn", "tables", "labels", "bzlenv", "wspace", "edit", "edit/bzlmod", "lang":
			return false
		}
		return true
	}
	rel := p.reaching(func(fn *ssa.Function, in ssa.Instruction) bool {
		if !allowedPkg(fn) {
			return false
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			cc := ci.Common()
			if isTarget(p.staticName(cc)) {
				return true
			}
			if !cc.IsInvoke() && isParserSig(cc.Signature()) {
				return true
			}
		}
		if _, ok := in.(*ssa.Panic); ok {
			return true
		}
		return false
	})
	readLists := map[*T]bool{} // lists whose elements are read
	recPaths := map[*T]bool{}  // file names in records received from the readers
	W := "write-conditions"
	X := "exit-status"
	if writes {
		c.Rule(W, "every reachable file-system modification is either a temporary file or a write of the formatted bytes back to the file they were read from, reached only with mode fix, a successful parse and differing contents")
		c.Rule("who-may-write", "no other function reachable from main modifies the file system")
	}
	// setEv records an event of the exit-status property; the write property needs none.
	setEv := func(s *State, k string) {
		if sc.tracks(k) {
			s.ev[k] = "1"
		}
	}
	mayMode := func(s *State, m string) bool { return fieldIs(s, cfgMode, m) != no }

	// events that cannot matter in the known mode are forgotten
	normalise := func(s *State) {
		if s.ev["changed"] != "" && !mayMode(s, "check") {
			delete(s.ev, "changed")
		}
		if s.ev["pending"] != "" && !mayMode(s, "fix") && !mayMode(s, "diff") && !mayMode(s, "print_if_changed") && !mayMode(s, "pipe") {
			delete(s.ev, "pending")
		}
		if s.ev["unprinted"] != "" && !mayMode(s, "pipe") {
			delete(s.ev, "unprinted")
		}
	}
	modeMatters := sc == nil || sc.kind == "changed" || sc.mode != ""
	r := &Rule{Relevant: rel}
	r.OnFact = func(e *Engine, s *State, t *T, val bool) {
		if t.op == "==" && loadedField(t.args[0], cfgMode) {
			normalise(s)
		}
	}
	r.ProtectMem = func(a *T) bool { return modeMatters && a.op == "field" && strings.HasSuffix(a.aux, cfgMode) }
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
		if !allowedPkg(fn) {
			return false, true
		}
		return false, false
	}
	r.Protect = func(t *T) bool {
		x := t
		if t.op == "==" {
			x = t.args[0]
		}
		if t.op == "len" {
			x = t.args[0]
		}
		return modeMatters && loadedField(x, cfgMode) || loadedField(x, cfgFormat)
	}
	checkExit := func(e *Engine, fr *Frame, s *S, code *T, in ssa.Instruction, explicit bool) {
		if writes {
			return
		}
		pos := p.instrPos(in)
		n, isC := isInt(code)
		c.Inst(X, fmt.Sprintf("%s: exit in %s, status %s, events {%s}", sc.name, funcName(fr.fn), code, strings.Join(onlyKeys(s.ev, sc.track...), ",")))
		if fieldIs(s.State, cfgFormat, "") == no {
			// the report tells everything but the failures to read or write
			if sc.kind == "io" && s.ev["io"] != "" && (isC && n == 0 || !isC && mayBeZero(e, code)) {
				c.Violate("exit0:format", pos, "exit status 0 with an explicit format although there was an I/O failure (%s)", fr.Path())
			}
			return
		}
		if !isC {
			for _, o := range e.Origins(code) {
				if m, ok := isInt(o); ok && m == 0 || !ok {
					c.Violate("exit:unknown:"+sc.name, pos, "%s: the exit status cannot be determined here (may be %s)", sc.name, o)
				}
			}
			return
		}
		if sc.mode != "" {
			if n == 0 && fieldIs(s.State, cfgMode, sc.mode) != no {
				if s.ev["pending"] != "" {
					c.Violate("lost-output:"+sc.mode, pos, "exit status 0 in mode %s although the reformatted contents of a changed file were neither written nor shown", sc.mode)
				}
				if s.ev["unprinted"] != "" && sc.mode == "pipe" {
					c.Violate("lost-output:"+sc.mode, pos, "exit status 0 in pipe mode without writing the formatted file to standard output")
				}
			}
			return
		}
		e.why(s, fmt.Sprint(sc.name, " ", n))
		happened := s.ev[sc.kind] != ""
		if sc.kind == "changed" && fieldIs(s.State, cfgMode, "check") == no {
			happened = false
		}
		what := map[string]string{"parse": "a syntax error", "io": "an I/O failure", "lint": "lint findings", "changed": "a file that needs reformatting in check mode", "diffcmd": "a failing diff command"}[sc.kind]
		if happened && n == 0 && sc.kind != "diffcmd" && !(sc.kind == "changed" && fieldIs(s.State, cfgMode, "check") != yes) {
			c.Violate("exit0:"+sc.kind, pos, "exit status 0 although there was %s (%s)", what, fr.Path())
		}
		if !sc.exact || explicit || s.ev["stat"] != "" {
			return // a constant passed to os.Exit reports the condition just detected
		}
		good := map[string][]int64{"parse": {1}, "io": {2, 3}, "lint": {4}, "changed": {4}, "diffcmd": {2, 4}, "": {0}}
		want := good[""]
		if happened {
			want = good[sc.kind]
			if sc.kind == "changed" && fieldIs(s.State, cfgMode, "check") != yes {
				want = []int64{0, 4}
			}
		}
		for _, g := range want {
			if g == n {
				return
			}
		}
		if happened {
			c.Violate(fmt.Sprintf("exit:%s:%d", sc.kind, n), pos, "exit status %d after %s and nothing else, documented status is %v", n, what, want)
		} else {
			c.Violate(fmt.Sprintf("exit:clean:%d", n), pos, "exit status %d although nothing went wrong (%s)", n, sc.name)
		}
	}
	outcomes := func(k string, ok, fail Out) []Out {
		if sc.allows(k) {
			return []Out{ok, fail}
		}
		return []Out{ok}
	}
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		sig := cc.Signature()
		where := funcName(fr.fn)
		pos := p.instrPos(in)
		if rec := s.note["rec"]; writes && rec != nil && inRepo(fn) {
			// the contents of a record go together with the name in it
			bk, bt := bytesField(rec.typ)
			sk, st := stringField(rec.typ)
			if bk != "" && sk != "" {
				data, named, other := e.fieldVal(s.State, rec, bk, bt), e.fieldVal(s.State, rec, sk, st), (*T)(nil)
				has := false
				for _, a := range args {
					has = has || a == data
				}
				for _, a := range args {
					if has && a != named && a.op == "load" && a.args[0].op == "elem" && typeKey(a.typ) == "string" && e.Eval(s.State, e.tb.Eq(a, named)) != yes {
						other = a
					}
				}
				if has {
					c.Inst(W, "contents passed on by "+where)
				}
				if other != nil {
					c.Violate("pair:"+where, pos, "the contents passed with the file name %s may be those of another file", other)
				}
			}
		}
		switch {
		case name == "os.Exit":
			_, isK := cc.Args[0].(*ssa.Const)
			checkExit(e, fr, s, args[0], in, isK)
			return nil, true
		case noReturn[name]:
			return nil, true
		case isParserSig(sig) && !cc.IsInvoke() && (fn == nil || relPkg(fn) == "build" || !inRepo(fn)):
			ok, fail := e.forkErr(fr, s, in, sig, "parse")
			setEv(fail.S.State, "parse")
			file := ok.Ret.args[0]
			setEv(ok.S.State, "unprinted")
			normalise(ok.S.State)
			ok.S.note["file"] = file
			ok.S.note["data"] = args[1]
			delete(ok.S.note, "fmt")
			return outcomes("parse", ok, fail), true
		case strings.HasSuffix(name, "buildtools/build.Format"):
			x := e.opaque(fr, s, in.(ssa.Value), "format")
			x.typ = sig.Results().At(0).Type()
			s.note["fmt"] = x
			if s.note["file"] != args[0] && writes {
				c.Violate("format-arg:"+where, pos, "the formatted tree is not the one that was parsed")
			}
			if d := s.note["data"]; d != nil {
				f := s.fork()
				eq := e.tb.Equal(d, x)
				s.atoms[eq] = true
				f.atoms[eq] = false
				if !sc.allows("changed") {
					return []Out{{s, x}}, true
				}
				setEv(f.State, "changed")
				setEv(f.State, "pending")
				normalise(f.State)
				return []Out{{s, x}, {f, x}}, true
			}
			return []Out{{s, x}}, true
		case strings.HasSuffix(name, "/warn.FileWarnings"):
			x := e.opaque(fr, s, in.(ssa.Value), "lint")
			f := s.fork()
			e.Assume(f.State, e.tb.Eq(e.tb.Len(x), e.tb.Int(0)), true)
			if !sc.allows("lint") {
				return []Out{{f, x}}, true
			}
			s.lo[e.tb.Len(x)] = 1
			setEv(s.State, "lint")
			return []Out{{s, x}, {f, x}}, true
		case name == "os.Stat" || name == "os.Lstat" || name == "path/filepath.Walk" || name == "path/filepath.WalkDir" || name == "os.ReadDir":
			if writes {
				return nil, false
			}
			e.havocCall(fr, s, in, cc, e.tb.mk("func", name), args)
			ok, fail := e.forkErr(fr, s, in, sig, "stat")
			fail.S.ev["stat"] = "1" // may or may not count as a failure
			return outcomes("io", ok, fail), true
		case readCalls[name]:
			ok, fail := e.forkErr(fr, s, in, sig, "read")
			setEv(fail.S.State, "io")
			fail.S.ev["readfail"] = "1"
			delete(ok.S.ev, "readfail")
			if writes && name == "os.ReadFile" {
				for _, o := range []Out{ok, fail} {
					o.S.note["readpath"] = args[0]
					o.S.note["readdata"] = o.Ret.args[0]
				}
			}
			if writes && len(args) > 0 && name == "os.ReadFile" && args[0].op == "load" && args[0].args[0].op == "elem" {
				for _, l := range e.Origins(args[0].args[0].args[0]) {
					readLists[l] = true
				}
			}
			return outcomes("io", ok, fail), true
		case fsTemp[name]:
			ok, fail := e.forkErr(fr, s, in, sig, "temp")
			setEv(fail.S.State, "io")
			if writes {
				c.Inst(W, "temporary file in "+where)
			}
			return outcomes("io", ok, fail), true
		case fileWriters[name]:
			ok, fail := e.forkErr(fr, s, in, sig, "write")
			f := args[0]
			if name == "(*os.File).Close" && !(f.op == "opaque" && strings.Contains(f.aux, "|temp#")) {
				fail.S.ev["stat"] = "1" // closing a file that was only read loses nothing
			} else {
				setEv(fail.S.State, "io")
			}
			isStd := f.op == "load" && f.args[0].op == "global" && (f.args[0].aux == "os.Stdout" || f.args[0].aux == "os.Stderr")
			if isStd && f.args[0].aux == "os.Stdout" && len(args) > 1 && s.note["fmt"] != nil && args[1].mentions(func(t *T) bool { return t == s.note["fmt"] }) {
				delete(ok.S.ev, "unprinted")
				delete(ok.S.ev, "pending")
			}
			if writes {
				tmp := f.op == "opaque" && strings.Contains(f.aux, "|temp#")
				c.Inst(W, fmt.Sprintf("%s in %s", name, where))
				if !isStd && !tmp && name != "(*os.File).Close" {
					c.Violate("write:"+where+":"+name, pos, "%s writes to a file that is neither a standard stream nor a temporary file", where)
				}
			}
			return outcomes("io", ok, fail), true
		case fn != nil && relPkg(fn) == "differ" && relPkg(fr.fn) != "differ":
			// handing the pair to the diff machinery counts as showing the difference
			if len(args) > 1 {
				delete(s.ev, "pending")
			}
			return nil, false
		case name == "(*os/exec.Cmd).Start" || name == "(*os/exec.Cmd).Run" || name == "(*os/exec.Cmd).Wait" || name == "(*os/exec.Cmd).Output" || name == "(*os/exec.Cmd).CombinedOutput":
			ok, fail := e.forkErr(fr, s, in, sig, "exec")
			setEv(fail.S.State, "diffcmd")
			return outcomes("diffcmd", ok, fail), true
		case name == "os/exec.Command":
			if writes {
				c.Inst(W, "subprocess in "+where)
				if relPkg(fr.fn) != "differ" {
					c.Violate("exec:"+where, pos, "%s starts a subprocess outside the diff machinery", where)
				}
			}
			return nil, false
		}
		if pi, ok := fsWrites[name]; ok {
			outOK, fail := e.forkErr(fr, s, in, sig, "fswrite")
			if name != "os.Remove" { // failing to remove a temporary file loses nothing
				setEv(fail.S.State, "io")
			}
			if !writes {
				if name == "os.WriteFile" && s.note["fmt"] != nil && args[1] == s.note["fmt"] {
					delete(outOK.S.ev, "pending")
				}
				return outcomes("io", outOK, fail), true
			}
			path := args[pi]
			if name == "os.Remove" {
				c.Inst(W, "os.Remove in "+where)
				if !isTempFileName(cc.Args[0], map[ssa.Value]bool{}) {
					c.Violate("remove:"+where, pos, "%s removes a file that is not known to be one of its own temporary files", where)
				}
				return outcomes("io", outOK, fail), true
			}
			if name != "os.WriteFile" && name != "io/ioutil.WriteFile" {
				c.Violate("fs:"+name+":"+where, pos, "%s calls %s; buildifier may only write back the input file in fix mode", where, name)
				return outcomes("io", outOK, fail), true
			}
			c.Inst(W, fmt.Sprintf("os.WriteFile in %s via %s", where, fr.Path()))
			data := args[1]
			if fieldIs(s.State, cfgMode, "fix") != yes {
				c.Violate("mode:"+where, pos, "the input file may be written although the mode is not known to be fix (path %s)", fr.Path())
			}
			if s.note["file"] == nil {
				c.Violate("parse:"+where, pos, "the input file may be written without a successful parse")
			}
			if s.note["fmt"] == nil || data != s.note["fmt"] {
				c.Violate("data:"+where, pos, "the bytes written are not the formatted file (%s)", data)
			} else if d := s.note["data"]; d == nil || e.Eval(s.State, e.tb.Equal(d, data)) != no {
				c.Violate("unchanged:"+where, pos, "the input file may be rewritten although the formatted contents are identical")
			}
			if s.ev["recverr"] != "" {
				c.Violate("err:"+where, pos, "the input file may be written although reading it failed")
			}
			for _, o := range e.Origins(path) {
				if str, ok := isStr(o); ok && str == "" {
					continue // standard input has no path; opening "" fails
				}
				if recPaths[o] {
					continue // what is sent is checked to name the file that was read
				}
				if !(o.op == "load" && o.args[0].op == "elem") {
					c.Violate("path:"+where, pos, "the file written (%s) is not the input file the contents were read from", o)
					continue
				}
				for _, l := range e.Origins(o.args[0].args[0]) {
					if !readLists[l] {
						c.Violate("path:"+where, pos, "the file written (%s) is not an element of the list of files that were read", o)
					}
				}
			}
			return outcomes("io", outOK, fail), true
		}
		return nil, false
	}
	r.OnRecv = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, v *T) []Out {
		// a record received from a reader goroutine carries the reader's error
		if v.typ == nil {
			return nil
		}
		k, et := errField(v.typ)
		if k == "" {
			return nil
		}
		ev := e.fieldVal(s.State, v, k, et)
		s.note["rec"] = v
		delete(s.ev, "recverr")
		if k, kt := stringField(v.typ); k != "" {
			recPaths[e.fieldVal(s.State, v, k, kt)] = true
		}
		f := s.fork()
		s.atoms[e.tb.Eq(ev, e.tb.Nil())] = true
		if !sc.allows("io") {
			return []Out{{s, v}}
		}
		f.atoms[e.tb.Eq(ev, e.tb.Nil())] = false
		setEv(f.State, "io")
		if writes {
			f.ev["recverr"] = "1"
		}
		return []Out{{s, v}, {f, v}}
	}
	r.OnSend = func(e *Engine, fr *Frame, s *S, in *ssa.Send, v *T) {
		if writes {
			// what is sent is what was read from the file that is named
			if k, kt := stringField(in.X.Type()); k != "" && s.note["readpath"] != nil {
				c.Inst(W, "contents sent by "+funcName(fr.fn))
				if pv := e.fieldVal(s.State, v, k, kt); pv != s.note["readpath"] {
					c.Violate("sent:"+funcName(fr.fn), p.instrPos(in), "the file named in the record is not the one that was read")
				}
				if k, kt := bytesField(in.X.Type()); k != "" && s.ev["readfail"] == "" {
					if dv := e.fieldVal(s.State, v, k, kt); dv != s.note["readdata"] {
						c.Violate("sent:"+funcName(fr.fn), p.instrPos(in), "the contents in the record are not those that were read")
					}
				}
			}
			return
		}
		k, _ := errField(in.X.Type())
		if k == "" || s.ev["readfail"] == "" {
			return
		}
		c.Inst(X, "failed read delivered by "+funcName(fr.fn))
		ev := e.fieldVal(s.State, v, k, nil)
		if e.Eval(s.State, e.tb.Eq(ev, e.tb.Nil())) != no {
			c.Violate("send:"+funcName(fr.fn), p.instrPos(in), "a failed read is delivered without its error")
		}
	}
	e := newEngine(c, r)
	e.Cap = 400
	outs, err := e.Run(mainFn, nil)
	if err != nil {
		c.Violate("budget", "", "%v", err)
		return
	}
	for _, o := range outs {
		fr := &Frame{fn: mainFn}
		checkExit(e, fr, o.S, e.tb.Int(0), mainFn.Blocks[len(mainFn.Blocks)-1].Instrs[0], false)
	}
	c.flowStats(e)
	if writes {
		c.Floor(W, 4)
		// nothing else reachable from main may write: the library packages are off limits entirely
		whoMayWrite(c, mainFn, "who-may-write", allowedPkg)
	}
}

func modeStr(s *State) string {
	for _, m := range []string{"fix", "check", "diff", "pipe", "print_if_changed"} {
		if fieldIs(s, cfgMode, m) == yes {
			return m
		}
	}
	return "other"
}

func onlyKeys(m map[string]string, ks ...string) []string {
	var out []string
	for _, k := range ks {
		if m[k] != "" {
			out = append(out, k)
		}
	}
	return out
}

func mayBeZero(e *Engine, code *T) bool {
	for _, o := range e.Origins(code) {
		if m, ok := isInt(o); ok && m == 0 || !ok {
			return true
		}
	}
	return false
}

// stringField, bytesField: the only field of a record with that type.
func fieldOfType(t types.Type, want string) (string, types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	n, k := 0, 0
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == want {
			n++
			k = i
		}
	}
	if n != 1 {
		return "", nil
	}
	return fieldKey(t, k), st.Field(k).Type()
}

func stringField(t types.Type) (string, types.Type) { return fieldOfType(t, "string") }
func bytesField(t types.Type) (string, types.Type)  { return fieldOfType(t, "[]byte") }
