package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eachInstr visits every instruction of the repository (or of the given packages).
func (p *Program) eachInstr(f func(fn *ssa.Function, in ssa.Instruction), pkgs ...string) {
	for _, fn := range p.funcs {
		if len(pkgs) > 0 {
			o := fn
			for o.Parent() != nil {
				o = o.Parent()
			}
			ok := false
			for _, k := range pkgs {
				if o.Pkg != nil && o.Pkg.Pkg.Path() == k {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

// calleeName is the full name of the called function ("" if not static).
func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return fname(f)
	}
	return ""
}

func callOf(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// fieldOf names the struct type and field of a field address or field read.
func fieldOf(v ssa.Value) (typ, field string) {
	var t types.Type
	var i int
	switch v := v.(type) {
	case *ssa.FieldAddr:
		p, ok := v.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return "", ""
		}
		t, i = p.Elem(), v.Field
	case *ssa.Field:
		t, i = v.X.Type(), v.Field
	default:
		return "", ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", ""
	}
	return types.TypeString(t, nil), st.Field(i).Name()
}

func constBool(v ssa.Value) (val, ok bool) {
	c, isC := v.(*ssa.Const)
	if !isC {
		return false, false
	}
	if c.Value == nil {
		return false, true
	}
	if c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Int {
				return 0, false
			}
			n, ok := constant.Int64Val(x.Value)
			return n, ok
		}
		return 0, false
	}
}

func scanSync(r *Run) {
	opts, db := strings.TrimSuffix(boltP, ".")+".Options", strings.TrimSuffix(boltP, ".")+".DB"
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if cc := callOf(in); cc != nil && calleeName(cc) == boltP+"Open" {
			r.ok("sync")
		}
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			return
		}
		t, f := fieldOf(fa)
		if t != opts && t != db || f != "NoSync" && f != "NoGrowSync" {
			return
		}
		for _, ref := range *fa.Referrers() {
			switch ref := ref.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if v, ok := constBool(ref.Val); ref.Addr == ssa.Value(fa) && ok && !v {
					r.ok("sync")
					continue
				}
				r.failAt("sync", ref, f, "the database is written without syncing to disk")
			default:
				r.failAt("sync", ref, f, "address of a durability switch of the database is passed on")
			}
		}
	})
}

// scanErrorCodes requires every LDAP error made by the storage code to carry a non-success code.
func scanErrorCodes(r *Run, rule string) {
	errT := strings.TrimSuffix(ldapP, ".") + ".Error"
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if cc := callOf(in); cc != nil && calleeName(cc) == ldapP+"NewError" {
			if n, ok := constInt(cc.Args[0]); ok && n != 0 {
				r.ok(rule)
			} else {
				r.failAt(rule, in, "NewError", "an error value is made with a result code that may be success")
			}
		}
		if st, ok := in.(*ssa.Store); ok {
			if t, f := fieldOf(st.Addr); t == errT && f == "ResultCode" {
				if n, ok := constInt(st.Val); ok && n != 0 {
					r.ok(rule)
				} else {
					r.failAt(rule, in, "ResultCode", "an error value is made with a result code that may be success")
				}
			}
		}
	}, ldbPkg, entryPkg, pwPkg, dnPkg, boltdbPkg)
}

// finalFields lists the names of fields that are assigned only where their object is made.
func (p *Program) finalFields() map[string]bool {
	final, not := map[string]bool{}, map[string]bool{}
	for _, f := range p.funcs {
		if !inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				final[name] = true
				for _, use := range *fa.Referrers() {
					switch use := use.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if _, made := fa.X.(*ssa.Alloc); !made || use.Addr != fa {
							not[name] = true
						}
					default:
						not[name] = true
					}
				}
			}
		}
	}
	for n := range not {
		delete(final, n)
	}
	return final
}
