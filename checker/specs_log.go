package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C10"] = checkC10
}

// secretFields are the fields of library structures that hold passwords or attribute values.
var secretFields = map[string]bool{
	"PasswordModifyRequest.OldPassword":      true,
	"PasswordModifyRequest.NewPassword":      true,
	"PasswordModifyResult.GeneratedPassword": true,
	"Attribute.Vals":                         true,
	"PartialAttribute.Vals":                  true,
	"EntryAttribute.Values":                  true,
	"EntryAttribute.ByteValues":              true,
	"SimpleBindRequest.Password":             true,
	"DigestMD5BindRequest.Password":          true,
	"NTLMBindRequest.Password":               true,
	"Packet.Value":                           true,
	"Packet.ByteValue":                       true,
	"Packet.Data":                            true,
	"Packet.Children":                        true,
}

// logPkgs are the packages whose functions write log messages.
var logPkgs = []string{"github.com/sirupsen/logrus", "github.com/go-logr/", "log", "log/slog", "go.uber.org/zap"}

func isLogName(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range logPkgs {
		if strings.HasPrefix(n, p) {
			rest := n[len(p):]
			if strings.HasSuffix(p, "/") || strings.HasPrefix(rest, ".") || strings.HasPrefix(rest, "/") {
				return true
			}
		}
	}
	return false
}

// logSink: the instruction hands its arguments to a log, the standard error stream or a panic.
func logSink(fn *ssa.Function, in ssa.Instruction) (args []ssa.Value, what string) {
	cc := callOf(in)
	if cc == nil {
		return nil, ""
	}
	name := calleeName(cc)
	switch {
	case isLogName(name):
		return cc.Args, short(name)
	case strings.HasPrefix(name, "fmt.Fprint") && isStderr(cc.Args[0], 0):
		return cc.Args[1:], short(name)
	case strings.HasPrefix(name, "fmt.Print") && !strings.HasPrefix(pkgPath(fn), modPath+"/cmd"):
		return cc.Args, short(name)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
		return cc.Args, b.Name()
	}
	return nil, ""
}

// isStderr: the value may be the standard error stream.
func isStderr(v ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return isStderr(v.X, depth+1)
	case *ssa.ChangeInterface:
		return isStderr(v.X, depth+1)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return g.Pkg.Pkg.Path() == "os" && g.Name() == "Stderr"
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if isStderr(e, depth+1) {
				return true
			}
		}
		return false
	case *ssa.Call:
		return strings.HasSuffix(calleeName(v.Common()), ".ErrOrStderr")
	}
	return false
}

// holdsSecret: printing a value of the type prints a field that may hold a password.
func holdsSecret(t types.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	name := ""
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return false
		}
		for _, m := range []string{"Error", "String"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, n.Obj().Pkg(), m); o != nil {
				if _, ok := o.(*types.Func); ok {
					return false
				}
			}
		}
		name = n.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsSecret(u.Elem(), depth+1)
	case *types.Slice:
		return holdsSecret(u.Elem(), depth+1)
	case *types.Array:
		return holdsSecret(u.Elem(), depth+1)
	case *types.Map:
		return holdsSecret(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if secretFields[name+"."+u.Field(i).Name()] || holdsSecret(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// textual: the type can hold text.
func textual(t types.Type, depth int) bool {
	if depth > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Uint8 || u.Kind() == types.Int32 || u.Kind() == types.UnsafePointer
	case *types.Slice:
		return textual(u.Elem(), depth+1)
	case *types.Array:
		return textual(u.Elem(), depth+1)
	case *types.Pointer:
		return textual(u.Elem(), depth+1)
	case *types.Map:
		return textual(u.Elem(), depth+1) || textual(u.Key(), depth+1)
	case *types.Chan:
		return textual(u.Elem(), depth+1)
	case *types.Interface, *types.Tuple:
		return true
	case *types.Struct:
		return true
	}
	return false
}

// textFuncs are the library functions whose results are made of their arguments.
var textFuncs = []string{"fmt.", "strings.", "bytes.", "errors.", "strconv.", "encoding/", "unicode", "path.", "path/filepath.", "regexp.", "net/url.", "html.", "text/", "sort.", "slices.", "maps.",
	"golang.org/x/text/", ldapP, "github.com/alexedwards/argon2id.", "github.com/amoghe/go-crypt.", "github.com/sirupsen/logrus.", "bufio.", "io.", "crypto/", "hash."}

func textFunc(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range textFuncs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return n == "error).Error" || strings.HasSuffix(n, ").Error") || strings.HasSuffix(n, ").String") || strings.HasSuffix(n, ").Bytes") || strings.HasSuffix(n, ").Unwrap")
}

// secretArgs are the parameters of the password functions that take passwords or hashes.
func secretArgs(name string, cc *ssa.CallCommon) []int {
	switch {
	case name == validateFn:
		return []int{0, 1}
	case name == pwPkg+".Hash", name == pwPkg+".EstimatePasswordStrength", strings.HasSuffix(name, "argon2id.CreateHash"), strings.HasSuffix(name, "go-crypt.Crypt"):
		return []int{0}
	case strings.HasSuffix(name, "argon2id.ComparePasswordAndHash"):
		return []int{0, 1}
	case cc.IsInvoke() && cc.Method.Name() == "Bind" && len(cc.Args) == 3:
		return []int{1}
	}
	return nil
}

func isPasswordAttr(v ssa.Value) bool {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return strings.EqualFold(strings.Trim(c.Value.ExactString(), `"`), "userPassword")
	}
	return true
}

type secrets struct {
	fl    *Flow
	index map[ssa.Value]map[int64]bool // lists with a secret element
	seen  map[ssa.Value]bool
}

// back marks what a secret is made of.
func (s *secrets) back(v ssa.Value, note string, depth int) {
	if v == nil || s.seen[v] || depth > 25 {
		return
	}
	s.seen[v] = true
	fl := s.fl
	fl.mark(v, nil, note)
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.back(e, note, depth+1)
		}
	case *ssa.Convert:
		s.back(v.X, note, depth+1)
	case *ssa.ChangeType:
		s.back(v.X, note, depth+1)
	case *ssa.MakeInterface:
		s.back(v.X, note, depth+1)
	case *ssa.TypeAssert:
		s.back(v.X, note, depth+1)
	case *ssa.Slice:
		s.back(v.X, note, depth+1)
	case *ssa.Extract:
		if textual(v.Type(), 0) && !isErrorType(v.Type()) {
			if c, ok := v.Tuple.(*ssa.Call); ok {
				s.backCall(c, v.Index, note, depth)
			}
		}
	case *ssa.Call:
		s.backCall(v, 0, note, depth)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		switch a := v.X.(type) {
		case *ssa.IndexAddr:
			if k, ok := constInt(a.Index); ok && !isPacketPtr(v.Type()) {
				if s.index[a.X] == nil {
					s.index[a.X] = map[int64]bool{}
				}
				s.index[a.X][k] = true
				s.back(a.X, note, depth+1)
			}
		case *ssa.FieldAddr:
			f := fieldVar(a.X.Type(), a.Field)
			if f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), modPath) && textual(f.Type(), 0) {
				fl.markField(f, nil, note)
				fl.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok {
						if b, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(b.X.Type(), b.Field) == f {
							s.back(st.Val, note, depth+1)
						}
					}
				})
			}
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
			s.backVar(a, note, depth)
		}
	case *ssa.Parameter:
		fn := v.Parent()
		for i, p := range fn.Params {
			if p == v {
				for _, c := range fl.callers[fn] {
					if i < len(c.Common().Args) {
						s.back(c.Common().Args[i], note, depth+1)
					}
				}
			}
		}
	case *ssa.BinOp:
		s.back(v.X, note, depth+1)
		s.back(v.Y, note, depth+1)
	}
}

// backVar marks a variable and what is assigned to it.
func (s *secrets) backVar(a ssa.Value, note string, depth int) {
	if s.seen[a] {
		return
	}
	s.seen[a] = true
	s.fl.mark(a, nil, note)
	if fv, ok := a.(*ssa.FreeVar); ok {
		for _, b := range s.fl.bindings[fv] {
			s.backVar(b, note, depth+1)
		}
	}
	var refs []ssa.Instruction
	if g, ok := a.(*ssa.Global); ok {
		refs = s.fl.globals[g]
	} else if a.Referrers() != nil {
		refs = *a.Referrers()
	}
	for _, in := range refs {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == a {
				s.back(in.Val, note, depth+1)
			}
		case *ssa.MakeClosure:
			for i, b := range in.Bindings {
				if b == a {
					s.backVar(in.Fn.(*ssa.Function).FreeVars[i], note, depth+1)
				}
			}
		}
	}
}

func (s *secrets) backCall(c *ssa.Call, result int, note string, depth int) {
	cc := c.Common()
	ts := s.fl.targets(c)
	for _, t := range ts {
		for _, b := range t.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && result < len(ret.Results) {
				s.back(ret.Results[result], note, depth+1)
			}
		}
	}
	name := calleeName(cc)
	if len(ts) == 0 && (strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.Trim")) {
		for _, a := range cc.Args {
			if textual(a.Type(), 0) {
				s.back(a, note, depth+1)
			}
		}
	}
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func checkC10(r *Run) {
	r.rule("log-flow", "no password, password hash, attribute value or structure that holds one reaches an argument of a log call, the standard error stream, an error of a command or a panic", 80)
	r.rule("log-front", "no log call in the request handlers gets an element of a packet that carries a password or an attribute value", 10)
	r.rule("verify-errors", "errors of password verification contain no more than the scheme of the stored value", 4)
	r.assumption("Errors returned by libraries do not quote their input, except those of fmt, errors and strconv. Output that a command line tool is asked to print is not a log.")
	r.logFlow()
	r.logFront()
	r.verifyErrors()
}

func (r *Run) logFlow() {
	fl := r.p.newFlow()
	s := &secrets{fl: fl, index: map[ssa.Value]map[int64]bool{}, seen: map[ssa.Value]bool{}}
	fl.fieldBased = true
	fl.carries = func(t types.Type) bool { return textual(t, 0) }
	fl.step = func(fl *Flow, from ssa.Value, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Extract:
			if c, ok := in.Tuple.(*ssa.Call); ok && isErrorType(in.Type()) && len(fl.targets(c)) == 0 {
				return !strings.HasPrefix(calleeName(c.Common()), "strconv.")
			}
		case *ssa.Return:
			// checked by the verify-errors rule
			return fname(in.Parent()) == validateFn
		case *ssa.IndexAddr:
			if ks := s.index[in.X]; ks != nil {
				if k, ok := constInt(in.Index); ok && !ks[k] {
					return true
				}
			}
		}
		return false
	}
	fl.lib = func(fl *Flow, c *ssa.CallCommon, name string, arg func(int) bool) bool {
		if res := c.Signature().Results(); res.Len() == 1 && isErrorType(res.At(0).Type()) {
			return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, ldapP+"NewError")
		}
		return textFunc(name)
	}
	fl.mutates = func(fl *Flow, c *ssa.CallCommon, name string, arg func(int) bool) []int {
		if strings.Contains(name, ").Write") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "io.Copy") || strings.HasPrefix(name, "io.WriteString") {
			return []int{0}
		}
		return nil
	}
	fl.cut = func(v ssa.Value) bool {
		// the output streams of the tools and the loggers
		t := types.TypeString(v.Type(), nil)
		return strings.HasSuffix(t, "os.File") || isLogName(strings.TrimLeft(t, "*")) || strings.HasSuffix(t, "net.Conn")
	}
	sources := 0
	src := func(v ssa.Value, note string) {
		sources++
		s.back(v, note, 0)
	}
	result := func(v ssa.Value, note string) {
		sources++
		if _, ok := v.Type().(*types.Tuple); !ok {
			fl.mark(v, nil, note)
			return
		}
		for _, in := range *v.Referrers() {
			if e, ok := in.(*ssa.Extract); ok && !isErrorType(e.Type()) {
				fl.mark(e, nil, note)
			}
		}
	}
	random := r.p.randomStrings()
	binder := r.p.binders()
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if !inModule(fn) {
			return
		}
		switch in := in.(type) {
		case *ssa.FieldAddr:
			if secretField(in.X.Type(), in.Field) {
				fl.mark(in, nil, "a field that may hold a password")
			}
		case *ssa.Field:
			if secretField(in.X.Type(), in.Field) {
				fl.mark(in, nil, "a field that may hold a password")
			}
		case *ssa.MakeInterface:
			if it, ok := in.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && holdsSecret(in.X.Type(), 0) {
				fl.mark(in, nil, "a structure that may hold a password")
			}
		}
		cc := callOf(in)
		if cc == nil {
			return
		}
		name := calleeName(cc)
		v, _ := in.(ssa.Value)
		switch {
		case strings.HasPrefix(name, "(*"+ldapP+"Entry).Get") && v != nil && len(cc.Args) > 1 && isPasswordAttr(cc.Args[1]):
			result(v, "a stored password")
		case strings.HasPrefix(name, "github.com/sethvargo/go-password/password.Generate") && v != nil:
			result(v, "a generated password")
		case random[name] && v != nil:
			result(v, "a generated password")
		}
		for _, i := range secretArgs(name, cc) {
			if i < len(cc.Args) {
				src(cc.Args[i], "a password")
			}
		}
	})
	for _, fn := range r.p.funcs {
		switch {
		case binder[fn] && len(fn.Params) > 2:
			src(fn.Params[2], "the password of a bind")
		case fname(fn) == validateFn && len(fn.Params) == 2:
			src(fn.Params[0], "a password")
			src(fn.Params[1], "a stored password")
		}
	}
	if sources < 8 {
		r.fail("log-flow", "", "", "sources", "the places where passwords enter the program were not found")
	}
	fl.run()
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if !inModule(fn) {
			return
		}
		args, what := logSink(fn, in)
		switch in := in.(type) {
		case *ssa.Panic:
			args, what = []ssa.Value{in.X}, "panic"
		case *ssa.Return:
			if isCommand(fn) {
				args, what = in.Results, "the error of a command"
			}
		}
		if what == "" {
			return
		}
		r.ok("log-flow")
		for _, a := range args {
			if fl.is(a) {
				chain := fl.explain(a)
				r.failAt("log-flow", in, what, "a password or a value that may contain one reaches "+what+"\n      "+strings.Join(chain, "\n      "))
				break
			}
		}
	})
}

func secretField(t types.Type, i int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Name() == "Packet" {
		return false
	}
	return secretFields[n.Obj().Name()+"."+fieldVar(t, i).Name()]
}

// isCommand: the function is the body of a command, whose error is printed.
func isCommand(fn *ssa.Function) bool {
	ps, res := fn.Signature.Params(), fn.Signature.Results()
	return ps.Len() == 2 && strings.HasSuffix(types.TypeString(ps.At(0).Type(), nil), "cobra.Command") && res.Len() == 1
}

// binders are the methods that backends provide for binds.
func (p *Program) binders() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if cc := callOf(in); cc != nil && cc.IsInvoke() && cc.Method.Name() == "Bind" && len(cc.Args) == 3 {
			for _, g := range p.implementers(cc) {
				out[g] = true
			}
		}
	})
	return out
}

// logFront checks the log calls of the request handlers with the elements of the request known.
func (r *Run) logFront() {
	all := decodeCases()
	all["ModifyPasswordExop"] = []decodeCase{{"password change", flat(2), nil}}
	for _, op := range []string{"Bind", "Add", "Modify", "ModifyPasswordExop"} {
		op := op
		for _, dc := range all[op] {
			if dc.args == nil && op != "ModifyPasswordExop" {
				continue
			}
			s := decodeSpec(r)
			s.policy = policy(s.policy, map[string]string{lsPkg + ".dumpModRequest": "inline"})
			s.models = map[string]Model{berP + "DecodePacket": func(c *Call, st *State) []*Outcome {
				return one(st, c.x.packet(st, "pw", c.sig.Results().At(0).Type(), flat(3)))
			}}
			freshPassword(r, s)
			s.pre = func(c *Call, st *State) {
				if !isLogName(c.name) {
					return
				}
				x := c.x
				x.obligation("log-front", c.in)
				for _, a := range c.args {
					if a.op == OIface {
						a = a.a[0]
					}
					v := st.snapshot(st.snapshotSlice(a), 6)
					if bad := x.secretElement(st, op, v); bad != "" {
						x.report("log-front", c.in, op, "a log call gets "+bad+": "+clip(v.String()), st)
					}
				}
			}
			for _, h := range r.p.entryHandlers(op) {
				h := h
				r.analyse("logs of "+op+" "+dc.name, s, func(x *Exec) {
					st := newState(x.u)
					x.runFn(h, x.handlerArgs(h, st, dc.s), st)
				})
			}
		}
	}
}

// secretElement finds the part of a term that is a password, a hash or an attribute value.
func (x *Exec) secretElement(st *State, op string, v *Term) string {
	switch {
	case v.op == OLen || v.op == OEq || v.op == OLt || v.op == ONot:
		return ""
	case v.op == OCall && (v.s == "argon2" || v.s == "generated"):
		return "a password or its hash"
	case v.op == OSym && x.secretPath(st, op, v.s):
		return "the element " + v.s + " of the request"
	case v.op == OInit && v.a[0].op == OFieldA && root(v.a[0]).op == OSym:
		// other fields than the content of an element are no secrets
		f := v.a[0]
		for f.op == OFieldA && f.a[0].op != OSym {
			f = f.a[0]
		}
		if f.op == OFieldA && f.s != "Data" && f.s != "Value" && f.s != "ByteValue" && f.s != "Children" {
			return ""
		}
	}
	for _, a := range v.a {
		if bad := x.secretElement(st, op, a); bad != "" {
			return bad
		}
	}
	return ""
}

func (x *Exec) secretPath(st *State, op, path string) bool {
	parts := strings.Split(path, ".")
	switch op {
	case "Bind":
		return path == "req.2" || path == "req"
	case "Add":
		return len(parts) == 5 && parts[0] == "req" && parts[3] == "1" || path == "req" || path == "req.1"
	case "Modify":
		return len(parts) == 6 && parts[0] == "req" && parts[3] == "1" && parts[4] == "1" || path == "req" || path == "req.1"
	case "ModifyPasswordExop":
		if path == "req" || path == "req.1" || path == "pw" {
			return true
		}
		return parts[0] == "pw" && typedAs(func(*Exec, *State, *Term) string { return "" }, path, 0)(x, st, x.u.Nil) != ""
	}
	return false
}

// verifyErrors: password verification puts nothing of the password and only the scheme of the stored value into errors.
func (r *Run) verifyErrors() {
	s := &Spec{id: r.id, policy: map[string]string{pwPkg + ".crypt": "inline"}, models: map[string]Model{}}
	sha1Model(s)
	r.analyse("Validate errors", s, func(x *Exec) {
		fn := x.mustFn(pwPkg, "Validate")
		u := x.u
		args := x.symArgs(fn, "password", "stored")
		pw, stored := args[0], args[1]
		for _, o := range x.runFn(fn, args, newState(u)) {
			if o.kind != KRet || o.st.isNil(u.ext(o.ret, 1)) {
				continue
			}
			x.oblig["verify-errors"]++
			var leak func(t *Term) bool
			leak = func(t *Term) bool {
				if t == pw || t == stored {
					return true
				}
				switch {
				case t.op == OSliceOf && t.a[0] == stored && t.a[2] != u.Nil:
					// up to the closing brace
					return !t.a[2].any(func(k *Term) bool { return isClosing(k, stored) })
				case t.op == OExt && t.a[0].op == OCall && !strings.HasPrefix(t.a[0].s, "strings.") && !strings.HasPrefix(t.a[0].s, "fmt.") && t.s != "0":
					return false // the error of a library
				}
				for _, a := range t.a {
					if leak(a) {
						return true
					}
				}
				return false
			}
			if e := o.st.snapshot(u.ext(o.ret, 1), 5); leak(e) {
				x.report("verify-errors", fn.Blocks[0].Instrs[0], "error", "an error of password verification contains the password or the stored value: "+clip(e.String()), o.st)
			}
		}
	})
}
