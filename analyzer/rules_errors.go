package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15: no failed operation is taken for a success.
func init() {
	register("P15", failures)
}

// neverFails: calls whose error result is always nil, or describes no failed operation.
func neverFails(name string) bool {
	for _, pre := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "fmt.Print", "errors.", "fmt.Errorf", "(hash.Hash).", "context.Cause", "(context."} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return false
}

// console: the call prints to the terminal, a buffer or a writer handed in, not to a file.
func console(c *ssa.CallCommon, name string) bool {
	if !strings.HasPrefix(name, "fmt.Fprint") {
		return false
	}
	mi, ok := c.Args[0].(*ssa.MakeInterface)
	if !ok || typeKey(mi.X.Type()) != "*os.File" {
		return true
	}
	u, ok := mi.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && (g.String() == "os.Stdout" || g.String() == "os.Stderr")
}

// mayFail: the call is one of an operation that may fail.
func (p *Prog) mayFail(c *ssa.CallCommon) bool {
	if _, isB := c.Value.(*ssa.Builtin); isB && !c.IsInvoke() || !lastErr(c.Signature()) {
		return false
	}
	n := p.staticName(c)
	if neverFails(n) || console(c, n) {
		return false
	}
	f := p.staticFn(c)
	return !(f != nil && c.Signature().Results().Len() == 1 && p.neverNil(f)) // makes an error
}

// reviewedFailures: calls, per package and callee, whose failure is an answer rather than something to report.
var reviewedFailures = map[string]int{
	// is the text a string literal, a number?
	"build build.Unquote": 2, "edit build.Unquote": 4, "edit strconv.Atoi": 2,
	// callbacks of traversals ask with an error to stop
	"build function value": 2,
	// marshalling of strings, numbers and booleans does not fail
	"buildifier/utils encoding/json.Marshal": 1, "buildifier/utils encoding/json.MarshalIndent": 1,
	// the file a load statement names may not exist or not be readable: nothing is known about its symbols
	"warn build.Parse": 1, "warn function value": 1,
	// exits by itself (flag.ExitOnError)
	"buildifier (*flag.FlagSet).Parse": 2,
	// looking for a workspace, a configuration file, BUILD files: what cannot be read is not there
	"buildifier path/filepath.Abs": 1, "buildifier/config os.Getwd": 2, "buildifier/config wspace.Find": 1,
	"edit wspace.FindRepoBuildFiles": 1, "edit os.ReadDir": 1, "edit file.readFile": 2,
	"wspace os.Stat": 2, "wspace wspace.Find": 3, "wspace wspace.findContextPath": 1, "wspace path/filepath.EvalSymlinks": 1,
	"wspace wspace.relPath": 2, "unused_deps os.Stat": 1,
	// is the output a terminal?
	"differ syscall.Fstat": 1,
	// the attribute is known to exist, and the new one not to; or nothing to rename
	"edit edit.RenameAttribute": 2,
	// a jar without a label in its manifest is not a direct dependency
	"unused_deps unused_deps.jarManifestValue": 1,
	// removal of a temporary directory at the end
	"unused_deps os.RemoveAll": 1,
}

// devTools: packages that only serve the repository's own development.
var devTools = map[string]bool{"testutils": true, "generatetables": true, "warn/docs": true}

// errTests: functions that inspect an error without reporting it.
var errTests = map[string]bool{"errors.Is": true, "errors.As": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"errors.Unwrap": true}

func mentionsTerm(t, x *T, d int) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	if d > 10 {
		return false
	}
	for _, a := range t.args {
		if mentionsTerm(a, x, d+1) {
			return true
		}
	}
	return false
}

func lastErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && typeKey(sig.Results().At(n-1).Type()) == "error"
}

// failSites lists the calls in fn that may fail.
func (p *Prog) failSites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if !p.mayFail(ci.Common()) {
				continue
			}
			out = append(out, ci)
		}
	}
	return out
}

func failures(c *Ctx) {
	p := c.P
	c.Rule("failed", "on every path on which a call failed (its error is not nil), the function returns an error, exits with a non-zero status, or passes the error on (prints it, stores it, sends it)")
	got := map[string]map[ssa.Instruction]string{}
	n := 0
	for _, fn := range p.repoFuncs() {
		if parserMachinery(fn) || devTools[relPkg(fn)] {
			continue
		}
		sites := p.failSites(fn)
		if len(sites) == 0 && errParam(fn.Signature) < 0 {
			continue
		}
		bad, err := failFunc(c, fn)
		if err != nil {
			c.Violate("undecided:"+funcName(fn), p.Pos(fn.Pos()), "%v", err)
			continue
		}
		n++
		for _, ci := range sites {
			c.Inst("failed", funcName(fn)+" "+p.instrPos(ci))
		}
		for in, why := range bad {
			what := "caller"
			if ci, ok := in.(ssa.CallInstruction); ok {
				what = shorten(p.staticName(ci.Common()))
			}
			key := relPkg(fn) + " " + what
			if got[key] == nil {
				got[key] = map[ssa.Instruction]string{}
			}
			got[key][in] = why
		}
	}
	c.info["functions_analysed"] = n
	c.Rule("scanner", "a function that reads with a scanner asks it afterwards whether reading failed")
	for _, fn := range p.repoFuncs() {
		if parserMachinery(fn) || devTools[relPkg(fn)] {
			continue
		}
		var scan ssa.Instruction
		asked := false
		for g := range p.reachableFrom(fn) {
			if relPkg(g) != relPkg(fn) || !inRepo(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						switch p.staticName(ci.Common()) {
						case "(*bufio.Scanner).Scan":
							if g == fn {
								scan = in
							}
						case "(*bufio.Scanner).Err":
							asked = true
						}
					}
				}
			}
		}
		if scan != nil {
			c.Inst("scanner", funcName(fn)+" "+p.instrPos(scan))
			if !asked {
				c.Violate("scanner:"+funcName(fn), p.instrPos(scan), "%s reads with a scanner and never asks whether reading failed", funcName(fn))
			}
		}
	}
	reviewed := map[string]int{}
	for k, sites := range got {
		if os.Getenv("SITES") != "" {
			fmt.Println("SITE", k, len(sites))
		}
		reviewed[k] = len(sites)
		if len(sites) <= reviewedFailures[k] {
			continue
		}
		for in, why := range sites {
			pos := ""
			if in != nil {
				pos = p.instrPos(in)
			}
			c.Violate("failed:"+k+":"+why[:strings.Index(why, ":")], pos, "%s (%d such places, of which %d were reviewed)", why, len(sites), reviewedFailures[k])
		}
	}
	c.info["reviewed"] = reviewed
	c.Floor("failed", 90)
	if c.count["failed"] > 0 && len(got) == 0 {
		c.Violate("selftest", "", "the places that were reviewed are not found any more: the analysis does not see failures")
	}
}

// errParam: the position of a parameter through which the caller says that something failed.
func errParam(sig *types.Signature) int {
	for i := 0; i < sig.Params().Len(); i++ {
		if typeKey(sig.Params().At(i).Type()) == "error" {
			return i
		}
	}
	return -1
}

func shorten(n string) string {
	if n == "" {
		return "function value"
	}
	return strings.ReplaceAll(n, modPath+"/", "")
}

func parserMachinery(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if strings.Contains(f.String(), "yyParser") || strings.Contains(f.Name(), "yy") && relPkg(f) == "build" {
		return true
	}
	return strings.HasSuffix(relPkg(fn), "_proto") || strings.Contains(relPkg(fn), "proto")
}

func failFunc(c *Ctx, root *ssa.Function) (map[ssa.Instruction]string, error) {
	p := c.P
	bad := map[ssa.Instruction]string{}
	r := &Rule{}
	r.Reset = func() { bad = map[ssa.Instruction]string{} }
	site := map[string]ssa.Instruction{}
	terms := map[string]*T{}
	pend := func(s *S) []string {
		var ks []string
		for k := range s.ev {
			if strings.HasPrefix(k, "fail:") && s.ev[k] != "" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return ks
	}
	use := func(s *S, ts ...*T) {
		for _, k := range pend(s) {
			for _, t := range ts {
				if mentionsTerm(t, terms[k], 0) {
					delete(s.ev, k)
					break
				}
			}
		}
	}
	inside := func(fn *ssa.Function) bool {
		for ; fn != nil; fn = fn.Parent() {
			if fn == root {
				return true
			}
		}
		return false
	}
	r.Inline = func(fr *Frame, fn *ssa.Function) (bool, bool) {
		if fr.depth > 3 {
			return false, true
		}
		if fn.Parent() != nil && inside(fn) || errParam(fn.Signature) >= 0 {
			return true, true
		}
		return false, true
	}
	end := func(e *Engine, fr *Frame, s *S, in ssa.Instruction, how string) {
		for _, k := range pend(s) {
			ci := site[k]
			e.why(s, "fail "+funcName(root))
			if bad[ci] == "" {
				what := "its caller reports a failure"
				if ci != nil {
					what = shorten(p.staticName(ci.(ssa.CallInstruction).Common())) + " fails"
				}
				bad[ci] = fmt.Sprintf("%s: when %s, %s at %s", funcName(root), what, how, p.instrPos(in))
			}
		}
	}
	r.OnReturn = func(e *Engine, fr *Frame, s *S, in *ssa.Return, vals []*T) {
		use(s, vals...)
		if fr.fn != root {
			return
		}
		sig := root.Signature
		n := sig.Results().Len()
		if lastErr(sig) && e.nonNil(s.State, vals[n-1]) {
			return
		}
		end(e, fr, s, in, "the function may return without an error")
	}
	r.OnStore = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, addr, val *T) {
		if st, ok := in.(*ssa.Store); ok {
			if a, ok := st.Addr.(*ssa.Alloc); ok && typeKey(a.Type()) == "*error" {
				return
			}
		}
		use(s, val)
	}
	r.OnFact = func(e *Engine, s *State, t *T, val bool) {
		// reading to the end is no failure
		if t.op != "==" || !val || len(t.args) != 2 {
			return
		}
		for k := range s.ev {
			for i := range t.args {
				if strings.HasPrefix(k, "fail:") && t.args[i] == terms[k] && strings.Contains(fmt.Sprint(t.args[1-i]), "io.EOF") {
					delete(s.ev, k)
				}
			}
		}
	}
	r.OnSend = func(e *Engine, fr *Frame, s *S, in *ssa.Send, v *T) { use(s, v) }
	r.OnCall = func(e *Engine, fr *Frame, s *S, in ssa.Instruction, cc *ssa.CallCommon, name string, fn *ssa.Function, args []*T) ([]Out, bool) {
		if name == "os.Exit" {
			if len(args) != 1 {
				return nil, true
			}
			if i, ok := isInt(args[0]); ok && i != 0 {
				return nil, true
			}
			if e.Eval(s.State, e.tb.mk("==", "", args[0], e.tb.Int(0))) != no {
				end(e, fr, s, in, "the process may exit with status 0")
			}
			return nil, true
		}
		if cc.IsInvoke() && cc.Method.Name() == "Error" && len(args) > 0 {
			t := e.tb.mk("call", "error text", args[0])
			t.typ = types.Typ[types.String]
			return []Out{{s, t}}, true
		}
		if !errTests[name] && !(fn != nil && errParam(fn.Signature) >= 0 && e.shouldInline(fr, fn)) {
			use(s, args...)
		}
		if !p.mayFail(cc) {
			return nil, false
		}
		if fn != nil && e.shouldInline(fr, fn) {
			return nil, false
		}
		if _, isV := in.(ssa.Value); !isV {
			return nil, false // go, defer
		}
		e.havocCall(fr, s, in, cc, e.val(fr, s, cc.Value), args)
		tag := shorten(name) + siteStr(e, in)
		ok, fail := e.forkErr(fr, s, in, cc.Signature(), tag)
		k := "fail:" + tag
		var ts []*T
		if fail.Ret.op == "tuple" {
			ts = fail.Ret.args
		} else {
			ts = []*T{fail.Ret}
		}
		terms[k] = ts[len(ts)-1]
		site[k] = in
		delete(ok.S.ev, k)
		fail.S.ev[k] = "pending"
		return []Out{ok, fail}, true
	}
	e := newEngine(c, r)
	e.Cap = 60
	_, err := e.Run(root, func(s *S, params []*T) {
		if i := errParam(root.Signature); i >= 0 {
			if root.Signature.Recv() != nil {
				i++
			}
			e.Assume(s.State, e.tb.mk("==", "", params[i], e.tb.Nil()), false)
			terms["fail:caller"], site["fail:caller"] = params[i], nil
			s.ev["fail:caller"] = "pending"
		}
	})
	c.flowStats(e)
	return bad, err
}
