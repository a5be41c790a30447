package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// why records how a value came to be marked.
type why struct {
	from ssa.Value
	note string
}

// Flow is a context-insensitive, interprocedural forward data-flow analysis over the SSA
// form of the repository: it marks every value that may hold (or point to) data from a
// set of sources.
type Flow struct {
	p          *Program
	marked     map[ssa.Value]*why
	fields     map[*types.Var]*why // fieldBased: marked struct fields
	fieldBased bool
	carries    func(t types.Type) bool                                                    // types that can hold the data
	lib        func(fl *Flow, c *ssa.CallCommon, name string, arg func(i int) bool) bool  // marks the result of a call outside the repository
	mutates    func(fl *Flow, c *ssa.CallCommon, name string, arg func(i int) bool) []int // arguments whose content becomes marked
	cut        func(v ssa.Value) bool                                                     // values that never hold the data
	step       func(fl *Flow, from ssa.Value, in ssa.Instruction) (handled bool)          // overrides for single steps
	work       []ssa.Value
	callers    map[*ssa.Function][]ssa.CallInstruction
	dynamic    []ssa.CallInstruction
	addrTaken  []*ssa.Function
	bindings   map[*ssa.FreeVar][]ssa.Value
	fieldLoads map[*types.Var][]ssa.Value
	globals    map[*ssa.Global][]ssa.Instruction
}

func (p *Program) newFlow() *Flow {
	f := &Flow{p: p, marked: map[ssa.Value]*why{}, fields: map[*types.Var]*why{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, bindings: map[*ssa.FreeVar][]ssa.Value{}, fieldLoads: map[*types.Var][]ssa.Value{}, globals: map[*ssa.Global][]ssa.Instruction{}}
	taken := map[*ssa.Function]bool{}
	p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			cc := c.Common()
			if s := cc.StaticCallee(); s != nil {
				f.callers[s] = append(f.callers[s], c)
			} else {
				f.dynamic = append(f.dynamic, c)
			}
			for _, a := range cc.Args {
				if g, ok := a.(*ssa.Function); ok {
					taken[g] = true
				}
			}
		}
		switch in := in.(type) {
		case *ssa.MakeClosure:
			g := in.Fn.(*ssa.Function)
			taken[g] = true
			for i, b := range in.Bindings {
				f.bindings[g.FreeVars[i]] = append(f.bindings[g.FreeVars[i]], b)
			}
		case *ssa.FieldAddr:
			v := fieldVar(in.X.Type(), in.Field)
			f.fieldLoads[v] = append(f.fieldLoads[v], in)
		case *ssa.Field:
			v := fieldVar(in.X.Type(), in.Field)
			f.fieldLoads[v] = append(f.fieldLoads[v], in)
		}
		for _, op := range in.Operands(nil) {
			switch o := (*op).(type) {
			case *ssa.Global:
				f.globals[o] = append(f.globals[o], in)
			case *ssa.Function:
				if c, ok := in.(ssa.CallInstruction); !ok || c.Common().StaticCallee() != o {
					taken[o] = true
				}
			}
		}
	})
	for g := range taken {
		f.addrTaken = append(f.addrTaken, g)
	}
	return f
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

// targets lists the functions of the repository a call may reach.
func (f *Flow) targets(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if s := cc.StaticCallee(); s != nil {
		if len(s.Blocks) > 0 && inModule(s) {
			return []*ssa.Function{s}
		}
		return nil
	}
	var out []*ssa.Function
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, fn := range f.p.funcs {
			if fn.Signature.Recv() == nil || fn.Name() != cc.Method.Name() || fn.Synthetic != "" {
				continue
			}
			if it != nil && types.Implements(fn.Signature.Recv().Type(), it) {
				out = append(out, fn)
			}
		}
		return out
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, fn := range f.addrTaken {
		if inModule(fn) && len(fn.Blocks) > 0 && types.Identical(sigOf(fn.Signature), sigOf(cc.Signature())) {
			out = append(out, fn)
		}
	}
	return out
}

func sigOf(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func (f *Flow) is(v ssa.Value) bool {
	if v == nil {
		return false
	}
	_, ok := f.marked[v]
	return ok
}

// mark adds a value.
func (f *Flow) mark(v ssa.Value, from ssa.Value, note string) {
	if v == nil || f.marked[v] != nil || f.cut != nil && f.cut(v) {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if !f.carries(v.Type()) {
		return
	}
	f.marked[v] = &why{from, note}
	f.work = append(f.work, v)
}

// markContent marks what an address or container points to.
func (f *Flow) markContent(v ssa.Value, from ssa.Value, note string) {
	for depth := 0; depth < 20; depth++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if f.fieldBased {
				f.markField(fieldVar(x.X.Type(), x.Field), from, note)
				return
			}
			f.mark(v, from, note)
			v = x.X
			continue
		case *ssa.IndexAddr:
			f.mark(v, from, note)
			v = x.X
			continue
		case *ssa.Slice:
			f.mark(v, from, note)
			v = x.X
			continue
		case *ssa.UnOp:
			f.mark(v, from, note)
			if x.Op == token.MUL {
				v = x.X
				continue
			}
			return
		case *ssa.ChangeType:
			f.mark(v, from, note)
			v = x.X
			continue
		case *ssa.MakeInterface:
			f.mark(v, from, note)
			v = x.X
			continue
		case *ssa.TypeAssert:
			f.mark(v, from, note)
			v = x.X
			continue
		case *ssa.Phi:
			if f.is(x) {
				return
			}
			f.mark(v, from, note)
			for _, e := range x.Edges {
				f.markContent(e, from, note)
			}
			return
		case *ssa.FreeVar:
			if f.is(x) {
				return
			}
			f.mark(v, from, note)
			for _, b := range f.bindings[x] {
				f.markContent(b, from, note)
			}
			return
		case *ssa.Parameter:
			if f.is(x) {
				return
			}
			f.mark(v, from, note)
			fn := x.Parent()
			for i, p := range fn.Params {
				if p == x {
					for _, c := range f.callers[fn] {
						if i < len(c.Common().Args) {
							f.markContent(c.Common().Args[i], x, "argument changed by "+short(fname(fn)))
						}
					}
				}
			}
			return
		}
		f.mark(v, from, note)
		return
	}
}

func (f *Flow) markField(v *types.Var, from ssa.Value, note string) {
	if f.fields[v] != nil || !f.carries(v.Type()) {
		return
	}
	f.fields[v] = &why{from, note}
	for _, l := range f.fieldLoads[v] {
		f.mark(l, from, "field "+v.Name())
	}
}

func (f *Flow) run() {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		if g, ok := v.(*ssa.Global); ok {
			for _, in := range f.globals[g] {
				f.propagate(v, in)
			}
			continue
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			for _, b := range f.bindings[fv] {
				f.mark(b, v, "captured")
			}
		}
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			f.propagate(v, in)
		}
	}
}

func (f *Flow) propagate(v ssa.Value, in ssa.Instruction) {
	if f.step != nil && f.step(f, v, in) {
		return
	}
	switch in := in.(type) {
	case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.SliceToArrayPointer, *ssa.Convert, *ssa.MultiConvert, *ssa.TypeAssert, *ssa.Extract, *ssa.Range, *ssa.Next:
		f.mark(in.(ssa.Value), v, "")
	case *ssa.UnOp:
		if in.Op == token.MUL || in.Op == token.ARROW {
			f.mark(in, v, "")
		}
	case *ssa.BinOp:
		if in.Op == token.ADD {
			f.mark(in, v, "")
		}
	case *ssa.FieldAddr:
		if !f.fieldBased {
			f.mark(in, v, "")
		}
	case *ssa.Field:
		if !f.fieldBased {
			f.mark(in, v, "")
		}
	case *ssa.IndexAddr:
		if in.X == v {
			f.mark(in, v, "")
		}
	case *ssa.Index:
		if in.X == v {
			f.mark(in, v, "")
		}
	case *ssa.Lookup:
		if in.X == v {
			f.mark(in, v, "")
		}
	case *ssa.Store:
		if in.Val == v {
			f.markContent(in.Addr, v, "stored")
		}
	case *ssa.MapUpdate:
		if in.Value == v || in.Key == v {
			f.markContent(in.Map, v, "stored in map")
		}
	case *ssa.Send:
		if in.X == v {
			f.markContent(in.Chan, v, "sent")
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if b == v {
				f.mark(g.FreeVars[i], v, "captured")
			}
		}
	case *ssa.Return:
		fn := in.Parent()
		for i, r := range in.Results {
			if r != v {
				continue
			}
			f.markResult(fn, i, len(in.Results), v)
		}
	case ssa.CallInstruction:
		f.call(v, in)
	}
}

func (f *Flow) markResult(fn *ssa.Function, i, n int, v ssa.Value) {
	give := func(c ssa.CallInstruction) {
		call, ok := c.(*ssa.Call)
		if !ok {
			return
		}
		if n == 1 {
			f.mark(call, v, "returned by "+short(fname(fn)))
			return
		}
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				f.mark(e, v, "returned by "+short(fname(fn)))
			}
		}
	}
	for _, c := range f.callers[fn] {
		give(c)
	}
	for _, c := range f.dynamic {
		for _, t := range f.targets(c) {
			if t == fn {
				give(c)
			}
		}
	}
}

func (f *Flow) call(v ssa.Value, in ssa.CallInstruction) {
	cc := in.Common()
	res, _ := in.(*ssa.Call)
	arg := func(i int) bool { return i < len(cc.Args) && f.is(cc.Args[i]) }
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			if res != nil && (arg(0) || arg(1) && f.carries(elem)) {
				f.mark(res, v, "appended")
			}
		case "copy":
			if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && arg(1) && f.carries(s.Elem()) {
				f.markContent(cc.Args[0], v, "copied")
			}
		case "min", "max":
			if res != nil {
				f.mark(res, v, "")
			}
		}
		return
	}
	ts := f.targets(in)
	for _, t := range ts {
		off := 0
		if cc.IsInvoke() {
			off = 1
			if cc.Value == v {
				f.mark(t.Params[0], v, "receiver of "+short(fname(t)))
			}
		}
		for i, a := range cc.Args {
			if a == v && i+off < len(t.Params) {
				f.mark(t.Params[i+off], v, "passed to "+short(fname(t)))
			}
		}
	}
	if len(ts) == 0 || cc.IsInvoke() {
		name := calleeName(cc)
		if res != nil && f.lib != nil && f.lib(f, cc, name, arg) {
			f.mark(res, v, "result of "+short(name))
		}
		if f.mutates != nil {
			for _, i := range f.mutates(f, cc, name, arg) {
				if i < len(cc.Args) {
					f.markContent(cc.Args[i], v, "changed by "+short(name))
				}
			}
		}
	}
}

// explain gives the chain from a source to the value.
func (f *Flow) explain(v ssa.Value) []string {
	var out []string
	for n := 0; v != nil && n < 30; n++ {
		w := f.marked[v]
		pos := f.p.pos(v.Pos())
		s := pos + ": " + v.Name() + " = " + clip(v.String())
		if w != nil && w.note != "" {
			s += " (" + w.note + ")"
		}
		out = append(out, s)
		if w == nil {
			break
		}
		v = w.from
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
