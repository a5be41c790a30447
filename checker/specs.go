package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	boltdbPkg = modPath + "/server/handler/boltdb"
	ldbPkg    = modPath + "/pkg/ldbbolt"
	lsPkg     = modPath + "/pkg/ldapserver"
	ldifPkg   = modPath + "/server/handler/ldif"
	dnPkg     = modPath + "/pkg/ldapdn"
	pwPkg     = modPath + "/pkg/ldappassword"
	entryPkg  = modPath + "/pkg/ldapentry"
	srvPkg    = modPath + "/server"
)

// symT creates a symbolic value of a type.
func (x *Exec) symT(name string, t types.Type) *Term {
	s := x.u.sym(name)
	if s.t == nil {
		s.t = t
	}
	return s
}

// runFn analyses a function from a state and returns its outcomes.
func (x *Exec) runFn(fn *ssa.Function, args []*Term, st *State) []*Outcome {
	if fn == nil {
		x.undecided("function to analyse not found")
	}
	x.p.ensureBody(fn)
	if len(fn.Blocks) == 0 {
		x.undecided("no body for %s", fn)
	}
	ctx := x.u.ctx(nil, nil, fn)
	return x.execFunc(ctx, fn, args, nil, st)
}

// symArgs makes symbolic parameters named after their position.
func (x *Exec) symArgs(fn *ssa.Function, names ...string) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		out = append(out, x.symT(n, p.Type()))
	}
	return out
}

func (x *Exec) mustFn(pkg, name string) *ssa.Function {
	f := x.p.fn(pkg, name)
	if f == nil {
		x.undecided("anchor %s.%s not found", short(pkg), name)
	}
	return f
}

// methods finds the concrete method of the dynamic type of an interface value.
func (x *Exec) methodOfValue(v *Term, name string) (*ssa.Function, *Term) {
	if v.op != OIface {
		x.undecided("receiver of %s has no known type", name)
	}
	ms := x.p.prog.MethodSets.MethodSet(v.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := x.p.prog.MethodValue(ms.At(i))
			x.p.ensureBody(f)
			return f, v.a[0]
		}
	}
	return nil, nil
}

type world struct {
	st   *State
	recv *Term // interface value
}

// build runs a constructor and WithContext, and returns the resulting receivers.
func (x *Exec) build(pkg, name string, st *State, argNames ...string) []world {
	fn := x.mustFn(pkg, name)
	args := x.symArgs(fn, argNames...)
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.assume(x.u.eq(args[i], x.u.Nil), false)
		}
	}
	var ws []world
	for _, o := range x.runFn(fn, args, st) {
		if o.kind != KRet {
			continue
		}
		h := x.u.ext(o.ret, 0)
		e := x.u.ext(o.ret, 1)
		if !o.st.assume(x.u.eq(e, x.u.Nil), true) || h.op == ONil {
			continue
		}
		ws = append(ws, x.withContext(world{o.st, h})...)
	}
	if len(ws) == 0 {
		x.undecided("constructor %s.%s yields no usable object", short(pkg), name)
	}
	return ws
}

func (x *Exec) withContext(w world) []world {
	m, recv := x.methodOfValue(w.recv, "WithContext")
	if m == nil {
		return []world{w}
	}
	ctx := x.symT("serverctx", m.Params[1].Type())
	w.st.assume(x.u.eq(ctx, x.u.Nil), false)
	x.stack = append(x.stack, []*Term{recv})
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	var ws []world
	for _, o := range x.runFn(m, []*Term{recv, ctx}, w.st) {
		if o.kind == KRet && o.ret.op == OIface {
			ws = append(ws, world{o.st, o.ret})
		}
	}
	if len(ws) == 0 {
		x.undecided("WithContext yields no usable object")
	}
	return ws
}

func (x *Exec) callMethod(w world, name string, names ...string) []*Outcome {
	m, recv := x.methodOfValue(w.recv, name)
	if m == nil {
		x.undecided("method %s not found", name)
	}
	args := []*Term{recv}
	for i, p := range m.Params[1:] {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		args = append(args, x.symT(n, p.Type()))
	}
	st := w.st.clone()
	for i, p := range m.Params[1:] {
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			st.assume(x.u.eq(args[i+1], x.u.Nil), false)
		}
	}
	return x.runFn(m, args, st)
}

func (x *Exec) typeByName(pkg, name string) types.Type {
	t := x.p.namedType(pkg, name)
	if t == nil {
		x.undecided("type %s.%s not found", short(pkg), name)
	}
	return t
}

// fieldOf is the content of a field of the symbolic object p.
func (x *Exec) fieldInit(p *Term, name string) *Term {
	return x.u.initOf(x.u.fieldA(p, name), nil)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hasSuffixAny(s string, list ...string) bool {
	for _, l := range list {
		if strings.HasSuffix(s, l) {
			return true
		}
	}
	return false
}
