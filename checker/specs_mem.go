package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C34"] = checkC34
	props["C40"] = checkC40
}

var boltPkgPath = strings.TrimSuffix(boltP, ".")

// isBoltType: transactions, buckets and cursors.
func isBoltType(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*" + boltP + "Tx", "*" + boltP + "Bucket", "*" + boltP + "Cursor":
		return true
	}
	return false
}

// canAlias: values of the type can point into foreign memory.
func canAlias(t types.Type, depth int) bool {
	if depth > 4 {
		return true
	}
	if types.TypeString(t, nil) == "error" {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if canAlias(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return canAlias(u.Elem(), depth+1)
	case *types.Tuple:
		return true
	}
	return true
}

// aliasing functions return a view of their first argument.
func returnsView(name string) bool {
	for _, p := range []string{"bytes.Trim", "bytes.Split", "bytes.Cut", "bytes.Fields", "bytes.NewReader", "bytes.NewBuffer", "bufio.NewReader", "bufio.NewScanner", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "encoding/gob.NewDecoder", "io.LimitReader", "io.NewSectionReader", "slices.Clip", "slices.Grow", "slices.Delete", "slices.Compact", "unsafe."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// writesInto lists the functions that write to the slice given as argument i.
func writesInto(name string) int {
	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}
	for _, p := range []string{"slices.Sort", "slices.Delete", "slices.Reverse", "slices.Compact", "slices.Replace", "slices.Insert", "sort.Slice", "sort.Sort", "sort.Strings"} {
		if strings.HasPrefix(name, p) {
			return 0
		}
	}
	switch name {
	case "io.ReadFull", "io.ReadAtLeast", "(io.Reader).Read", "crypto/rand.Read":
		if name == "crypto/rand.Read" {
			return 0
		}
		return 1
	}
	if strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").Put") {
		return 1
	}
	return -1
}

func checkC34(r *Run) {
	r.rule("outlives-transaction", "no value that points into database memory, and no transaction, bucket or cursor, reaches a variable, result, field, channel or goroutine outside the transaction", 5)
	r.rule("database-memory-write", "no instruction writes through a slice that points into database memory", 0)
	r.assumption("Slices returned by the database have no spare capacity (bbolt cuts them), so appending to an unsliced one copies it.")
	fl := r.p.newFlow()
	fl.carries = func(t types.Type) bool { return canAlias(t, 0) }
	fl.step = func(fl *Flow, from ssa.Value, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Convert:
			// string <-> byte slice conversions copy
			return isStringType(in.Type()) || isStringType(in.X.Type())
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
			if isBoltType(from.Type()) {
				return true
			}
		}
		return false
	}
	fl.lib = func(fl *Flow, c *ssa.CallCommon, name string, arg func(int) bool) bool {
		if strings.HasPrefix(name, "(*"+boltP) {
			m := name[strings.LastIndex(name, ".")+1:]
			switch m {
			case "Get", "First", "Last", "Next", "Prev", "Seek", "Bucket", "Cursor", "CreateBucket", "CreateBucketIfNotExists", "Begin", "Tx", "Root":
				return true
			}
			return false
		}
		return arg(0) && returnsView(name)
	}
	inside := map[*ssa.Function]bool{}
	begins := map[*ssa.Function]bool{}
	source := map[ssa.Value]bool{}
	src := func(v ssa.Value) {
		source[v] = true
		fl.mark(v, nil, "database memory")
	}
	for _, fn := range r.p.funcs {
		for _, p := range fn.Params {
			if isBoltType(p.Type()) {
				inside[fn] = true
				src(p)
			}
		}
		for _, fv := range fn.FreeVars {
			t := fv.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok && (isBoltType(t) || isBoltType(p.Elem())) {
				inside[fn] = true
			}
		}
	}
	// callbacks run by the database inside a transaction
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		cc := callOf(in)
		if cc == nil {
			return
		}
		name := calleeName(cc)
		if !strings.HasPrefix(name, "(*"+boltP) {
			return
		}
		if strings.HasSuffix(name, "DB).Begin") {
			inside[fn], begins[fn] = true, true
		}
		for _, a := range cc.Args {
			var g *ssa.Function
			if m, ok := a.(*ssa.MakeClosure); ok {
				g = m.Fn.(*ssa.Function)
			} else if f, ok := a.(*ssa.Function); ok {
				g = f
			}
			if g == nil {
				continue
			}
			inside[g] = true
			for _, p := range g.Params {
				if fl.carries(p.Type()) {
					src(p)
				}
			}
		}
		if v, ok := in.(*ssa.Call); ok && fl.lib(fl, cc, name, func(int) bool { return true }) {
			if v.Type() != nil && v.Referrers() != nil {
				if tup, ok := v.Type().(*types.Tuple); ok {
					for _, ref := range *v.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && fl.carries(tup.At(e.Index).Type()) {
							src(e)
						}
					}
				} else {
					src(v)
				}
			}
		}
	})
	// closures inside such functions run inside the transaction as well, and so does
	// whatever is called only from there
	for changed := true; changed; {
		changed = false
		for _, fn := range r.p.funcs {
			if inside[fn] {
				continue
			}
			if fn.Parent() != nil && inside[fn.Parent()] && !begins[fn.Parent()] {
				inside[fn], changed = true, true
			}
		}
	}
	fl.run()
	inFn := func(v ssa.Value) *ssa.Function {
		if in, ok := v.(ssa.Instruction); ok {
			return in.Parent()
		}
		return v.Parent()
	}
	onlyInside := func(fn *ssa.Function) bool {
		// a helper without transaction parameters that got database memory from inside
		cs := fl.callers[fn]
		for _, c := range cs {
			if !inside[c.Parent()] {
				return false
			}
		}
		return len(cs) > 0
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range r.p.funcs {
			if !inside[fn] && onlyInside(fn) {
				inside[fn], changed = true, true
			}
		}
	}
	viol := func(rule string, pos token.Pos, fn *ssa.Function, v ssa.Value, construct, msg string) {
		r.violation(&Violation{Rule: rule, Pos: r.p.pos(pos), Func: fnLabel(fn), Construct: construct, Msg: msg, Trace: fl.explain(v)})
	}
	for v := range fl.marked {
		fn := inFn(v)
		if fn == nil {
			if _, ok := v.(*ssa.Global); ok {
				viol("outlives-transaction", v.Pos(), nil, v, v.Name(), "database memory is kept in a package variable")
			}
			continue
		}
		r.fns[fn] = true
		if inside[fn] {
			if source[v] {
				r.ok("outlives-transaction")
			}
			continue
		}
		// a helper that is called with database memory from inside and from elsewhere
		if p, ok := v.(*ssa.Parameter); ok && p.Pos().IsValid() {
			w := fl.marked[v]
			if w != nil && strings.HasPrefix(w.note, "passed to") {
				continue
			}
		}
		if derivesFromParam(fl, v) {
			continue
		}
		viol("outlives-transaction", v.Pos(), fn, v, v.Name(), "database memory, or an object tied to the transaction, is kept beyond the transaction: "+clip(v.String()))
	}
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Return:
			if begins[fn] {
				for _, x := range in.Results {
					if fl.is(x) {
						viol("outlives-transaction", in.Pos(), fn, x, "result", "database memory, or an object tied to the transaction, is returned by the function that runs the transaction")
					}
				}
			}
		case *ssa.MakeInterface:
			if types.TypeString(in.Type(), nil) == "error" && fl.is(in.X) {
				viol("outlives-transaction", in.Pos(), fn, in.X, "error", "an error value keeps database memory beyond the transaction")
			}
		case *ssa.Send:
			if fl.is(in.X) {
				viol("outlives-transaction", in.Pos(), fn, in.X, "send", "database memory is sent to another goroutine")
			}
		case *ssa.Go:
			for _, a := range append([]ssa.Value{in.Call.Value}, in.Call.Args...) {
				if fl.is(a) {
					viol("outlives-transaction", in.Pos(), fn, a, "go", "database memory is passed to another goroutine")
				}
				if m, ok := a.(*ssa.MakeClosure); ok {
					for _, b := range m.Bindings {
						if fl.is(b) {
							viol("outlives-transaction", in.Pos(), fn, b, "go", "database memory is passed to another goroutine")
						}
					}
				}
			}
		case *ssa.Store:
			ix, ok := in.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if isByteSlice(ix.X.Type()) {
				r.ok("database-memory-write")
				if fl.is(ix.X) && rawMemory(fl, ix.X, source, 0) {
					viol("database-memory-write", in.Pos(), fn, ix.X, "store", "a byte of database memory is overwritten")
				}
			}
		}
		cc := callOf(in)
		if cc == nil {
			return
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if !isByteSlice(cc.Args[0].Type()) {
					return
				}
				r.ok("database-memory-write")
				if s := shortened(cc.Args[0], 0); s != nil && fl.is(s) && rawMemory(fl, s, source, 0) {
					viol("database-memory-write", in.Pos(), fn, s, "append", "appending to a shortened slice overwrites database memory")
				}
			case "copy", "clear":
				if !isByteSlice(cc.Args[0].Type()) {
					return
				}
				r.ok("database-memory-write")
				if fl.is(cc.Args[0]) && rawMemory(fl, cc.Args[0], source, 0) {
					viol("database-memory-write", in.Pos(), fn, cc.Args[0], b.Name(), "database memory is overwritten")
				}
			}
			return
		}
		if i := writesInto(calleeName(cc)); i >= 0 && i < len(cc.Args) {
			r.ok("database-memory-write")
			if fl.is(cc.Args[i]) && rawMemory(fl, cc.Args[i], source, 0) {
				viol("database-memory-write", in.Pos(), fn, cc.Args[i], calleeName(cc), "database memory is overwritten by "+short(calleeName(cc)))
			}
		}
	}, ldbPkg, boltdbPkg)
}

// derivesFromParam: the chain of the value goes through a parameter of the same function.
func derivesFromParam(fl *Flow, v ssa.Value) bool {
	fn := v.Parent()
	for n := 0; v != nil && n < 50; n++ {
		if p, ok := v.(*ssa.Parameter); ok && p.Parent() == fn {
			return true
		}
		if v.Parent() != fn {
			return false
		}
		w := fl.marked[v]
		if w == nil {
			return false
		}
		v = w.from
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// shortened returns the slice expression v[:n] (without capacity limit) behind a value.
func shortened(v ssa.Value, depth int) ssa.Value {
	if depth > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Slice:
		if v.High != nil && v.Max == nil {
			return v
		}
		return shortened(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := shortened(e, depth+1); s != nil {
				return s
			}
		}
	case *ssa.ChangeType:
		return shortened(v.X, depth+1)
	}
	return nil
}

// rawMemory: the slice itself (not only something it contains) is database memory.
func rawMemory(fl *Flow, v ssa.Value, source map[ssa.Value]bool, depth int) bool {
	if source[v] {
		return true
	}
	if depth > 30 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return rawMemory(fl, x.X, source, depth+1)
	case *ssa.ChangeType:
		return rawMemory(fl, x.X, source, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && fl.is(e) && rawMemory(fl, e, source, depth+1) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// the result is a copy unless the first operand was shortened, which is reported there
			return false
		}
		return true
	case *ssa.Alloc, *ssa.MakeSlice:
		return false
	}
	return true
}

// createFlag is os.O_CREATE.
const createFlag = 0x40

// generator: the function belongs to a command that has nothing to do with the database.
func generator(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/idmd/gen")
}

func checkC40(r *Run) {
	r.rule("private-file", "every file mode passed to the database open call, to a call that creates a file, or to a mode change, grants nothing to group and others", 1)
	opts := boltPkgPath + ".Options"
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if cc := callOf(in); cc != nil {
			i, what := -1, ""
			switch calleeName(cc) {
			case "os.Create":
				if !generator(fn) {
					r.failAt("private-file", in, "create", "a file is created with permissions for other users")
				}
				return
			case "os.OpenFile", "os.WriteFile":
				flags := []int64{createFlag}
				if calleeName(cc) == "os.OpenFile" {
					var ok bool
					if flags, ok = r.p.constants(cc.Args[1], 0); !ok {
						flags = []int64{createFlag}
					}
				}
				for _, f := range flags {
					if f&createFlag != 0 && !generator(fn) {
						i, what = 2, "a file is created"
					}
				}
			case boltP + "Open":
				i, what = 1, "the database file is created"
			case "os.Chmod":
				i, what = 1, "a file mode is changed"
			case "(*os.File).Chmod":
				i, what = 1, "a file mode is changed"
			}
			if i < 0 {
				return
			}
			vals, ok := r.p.constants(cc.Args[i], 0)
			if !ok || len(vals) == 0 {
				r.failAt("private-file", in, "mode", what+" with a mode that is not a known constant")
				return
			}
			for _, v := range vals {
				r.ok("private-file")
				if v&0o077 != 0 {
					r.failAt("private-file", in, "mode", what+" with permissions for other users")
				}
			}
			return
		}
		if fa, ok := in.(*ssa.FieldAddr); ok {
			if t, f := fieldOf(fa); t == opts && f == "OpenFile" {
				for _, ref := range *fa.Referrers() {
					if st, ok := ref.(*ssa.Store); ok {
						if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
							continue
						}
						r.failAt("private-file", ref, "OpenFile", "the database is opened through another function, whose file mode is not known")
					}
				}
			}
		}
	})
}

// constants lists the integer constants a value can have: literals, constant package
// variables, and arguments at all call sites for parameters.
func (p *Program) constants(v ssa.Value, depth int) ([]int64, bool) {
	if depth > 8 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return []int64{n}, ok
	case *ssa.Convert:
		return p.constants(x.X, depth+1)
	case *ssa.ChangeType:
		return p.constants(x.X, depth+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if c := p.constGlobals[g.String()]; c != nil {
				n, ok := constInt(c)
				return []int64{n}, ok
			}
		}
	case *ssa.BinOp:
		a, ok1 := p.constants(x.X, depth+1)
		b, ok2 := p.constants(x.Y, depth+1)
		if !ok1 || !ok2 || len(a) != 1 || len(b) != 1 {
			return nil, false
		}
		switch x.Op {
		case token.OR:
			return []int64{a[0] | b[0]}, true
		case token.AND:
			return []int64{a[0] & b[0]}, true
		}
	case *ssa.Phi:
		var out []int64
		for _, e := range x.Edges {
			c, ok := p.constants(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, c...)
		}
		return out, true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && inModule(f) && f.Signature.Results().Len() == 1 {
			var out []int64
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					c, ok := p.constants(ret.Results[0], depth+1)
					if !ok {
						return nil, false
					}
					out = append(out, c...)
				}
			}
			return out, true
		}
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, q := range fn.Params {
			if q == x {
				idx = i
			}
		}
		var out []int64
		ok := true
		n := 0
		p.eachInstr(func(_ *ssa.Function, in ssa.Instruction) {
			cc := callOf(in)
			if cc == nil || cc.StaticCallee() != fn {
				return
			}
			n++
			c, o := p.constants(cc.Args[idx], depth+1)
			if !o {
				ok = false
			}
			out = append(out, c...)
		})
		return out, ok && n > 0
	}
	return nil, false
}
