package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fsWrites are the standard-library calls that modify the file system (argument index of the path).
var fsWrites = map[string]int{
	"os.WriteFile": 0, "io/ioutil.WriteFile": 0, "os.Create": 0, "os.OpenFile": 0, "os.Rename": 0, "os.Remove": 0,
	"os.RemoveAll": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Chmod": 0, "os.Chown": 0, "os.Lchown": 0, "os.Chtimes": 0,
	"os.Truncate": 0, "os.Symlink": 1, "os.Link": 1, "syscall.Unlink": 0, "syscall.Rename": 0, "syscall.Open": 0,
}

var fsTemp = map[string]bool{"os.CreateTemp": true, "os.MkdirTemp": true, "io/ioutil.TempFile": true, "io/ioutil.TempDir": true}

// fileWriters are methods that write to an open file.
var fileWriters = map[string]bool{"(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).WriteAt": true,
	"(*os.File).Truncate": true, "(*os.File).Close": true, "(*os.File).Sync": true, "(*os.File).ReadFrom": true, "(*os.File).Chmod": true}

var readCalls = map[string]bool{"os.ReadFile": true, "io/ioutil.ReadFile": true, "io.ReadAll": true, "io/ioutil.ReadAll": true, "os.Open": true}

// staticName resolves the callee of a call instruction, through single-assignment function variables.
func (p *Prog) staticName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name()
	}
	if f := p.staticFn(c); f != nil {
		return f.String()
	}
	return ""
}

func (p *Prog) staticFn(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if u, ok := c.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return p.constFuncGlobal(g)
		}
	}
	return nil
}

func isParserSig(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 2 || sig.Recv() != nil {
		return false
	}
	return typeKey(sig.Params().At(0).Type()) == "string" && isByteSlice(sig.Params().At(1).Type()) &&
		typeKey(sig.Results().At(0).Type()) == "*"+modPath+"/build.File" && typeKey(sig.Results().At(1).Type()) == "error"
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// forkErr models a fallible call: one outcome with a nil error, one with a non-nil error.
// results: the ok results; the error is the last result of the signature.
func (e *Engine) forkErr(fr *Frame, s *S, in ssa.Instruction, sig *types.Signature, tag string) (ok, fail Out) {
	n := sig.Results().Len()
	f := s.fork()
	mk := func(st *S, good bool) Out {
		var ts []*T
		for i := 0; i < n; i++ {
			rt := sig.Results().At(i).Type()
			if i == n-1 {
				if good {
					ts = append(ts, e.tb.Nil())
				} else {
					x := e.tb.mk("nonnil", "error of "+tag)
					x.typ = rt
					ts = append(ts, x)
				}
				continue
			}
			x := e.tb.mk("opaque", fr.ctx+"|"+tag+"#"+strings.Repeat("r", i+1)+siteStr(e, in)+map[bool]string{true: "ok", false: "fail"}[good])
			x.typ = rt
			e.redefine(st, x)
			if good {
				if _, isP := rt.Underlying().(*types.Pointer); isP {
					st.atoms[e.tb.mk("==", "", x, e.tb.Nil())] = false
				}
			} else if _, isP := rt.Underlying().(*types.Pointer); isP {
				x = e.tb.Nil()
			}
			ts = append(ts, x)
		}
		r := ts[0]
		if n > 1 {
			r = e.tb.mk("tuple", "", ts...)
		}
		return Out{st, r}
	}
	return mk(s, true), mk(f, false)
}

func siteStr(e *Engine, in ssa.Instruction) string {
	return "@" + in.Parent().String() + "." + itoa(e.siteID(in))
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for i > 0 {
		s = string(rune('0'+i%10)) + s
		i /= 10
	}
	return s
}

// loadedField matches a load of a struct field by key suffix ("config.Config.Mode").
func loadedField(t *T, suffix string) bool {
	if t.op == "load" && len(t.args) > 0 && t.args[0].op == "field" {
		return strings.HasSuffix(t.args[0].aux, suffix)
	}
	return t.op == "fieldval" && strings.HasSuffix(t.aux, suffix)
}

// fieldIs decides whether the field is known to equal the constant string in this state.
func fieldIs(s *State, suffix, val string) tri {
	for a, v := range s.mem {
		if a.op == "field" && strings.HasSuffix(a.aux, suffix) {
			if str, ok := isStr(v); ok {
				return toTri(str == val)
			}
		}
	}
	res := unknown
	for k, c := range s.eqc {
		if loadedField(k, suffix) {
			if str, ok := isStr(c); ok {
				return toTri(str == val)
			}
		}
	}
	for k, v := range s.atoms {
		if k.op == "==" && loadedField(k.args[0], suffix) {
			if str, ok := isStr(k.args[1]); ok && str == val {
				return toTri(v)
			}
		}
	}
	return res
}
