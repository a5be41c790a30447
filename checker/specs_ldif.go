package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C08"] = checkC08
}

const treeInsert = "(*github.com/spacewander/go-suffix-tree.Tree).Insert"

// list is a list of known elements.
func (u *Universe) list(elems ...*Term) *Term {
	if len(elems) == 0 {
		return u.Nil
	}
	return u.mk(&Term{op: OAppend, a: append([]*Term{u.Nil}, elems...)})
}

// ldifRecord is one record of the analysed LDIF data.
type ldifRecord struct {
	record, entry *Term
	attrs         []*Term
}

const (
	noRecord = -1
	noEntry  = -2
)

// ldifData makes parsed LDIF data with the given number of attributes in each record.
func (x *Exec) ldifData(st *State, l *Term, shape []int) []ldifRecord {
	u := x.u
	var recs []ldifRecord
	var rs []*Term
	lt := l.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	field := func(t *types.Struct, name string) types.Type {
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == name {
				return t.Field(i).Type()
			}
		}
		x.undecided("field %s of the LDIF data not found", name)
		return nil
	}
	elem := func(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }
	deref := func(t types.Type) *types.Struct {
		return t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	}
	rt := elem(field(lt, "Entries"))
	et := field(deref(rt), "Entry")
	at := elem(field(deref(et), "Attributes"))
	for i, n := range shape {
		if n < 0 {
			// a record without an entry, or no record at all
			t := u.Nil
			if n == noEntry {
				t = x.symT(fmt.Sprintf("record%d", i), rt)
				st.assume(u.eq(t, u.Nil), false)
				st.mem[u.fieldA(t, "Entry")] = u.Nil
			}
			rs = append(rs, t)
			continue
		}
		r := ldifRecord{record: x.symT(fmt.Sprintf("record%d", i), rt), entry: x.symT(fmt.Sprintf("entry%d", i), et)}
		st.assume(u.eq(r.record, u.Nil), false)
		st.assume(u.eq(r.entry, u.Nil), false)
		for j := 0; j < n; j++ {
			a := x.symT(fmt.Sprintf("attribute%d.%d", i, j), at)
			st.assume(u.eq(a, u.Nil), false)
			r.attrs = append(r.attrs, a)
		}
		st.mem[u.fieldA(r.record, "Entry")] = r.entry
		st.mem[u.fieldA(r.entry, "Attributes")] = u.list(r.attrs...)
		recs = append(recs, r)
		rs = append(rs, r.record)
	}
	st.assume(u.eq(l, u.Nil), false)
	st.mem[u.fieldA(l, "Entries")] = u.list(rs...)
	return recs
}

// builtEntry is an entry inserted into the tree of loaded entries.
type builtEntry struct {
	st       *State
	key      *Term
	obj      *Term
	dn       *Term
	attrs    []*Term // nil: not known
	known    bool
	password *Term
	recs     []ldifRecord
}

// ptrField loads a field of the struct an object points to.
func (x *Exec) ptrField(st *State, p *Term, t types.Type, name string) (*Term, types.Type) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.load(x.u.fieldA(p, name), s.Field(i).Type()), s.Field(i).Type()
		}
	}
	return nil, nil
}

// built reads an entry of the tree of loaded entries.
func (x *Exec) built(st *State, key, v *Term, recs []ldifRecord) *builtEntry {
	b := &builtEntry{st: st, key: key, recs: recs}
	if v.op != OIface {
		return b
	}
	b.obj = v.a[0]
	if e, et := x.ptrField(st, v.a[0], v.t, "Entry"); e != nil {
		if dn, _ := x.ptrField(st, e, et, "DN"); dn != nil {
			b.dn = dn
		}
		if as, _ := x.ptrField(st, e, et, "Attributes"); as != nil {
			as = st.snapshotSlice(as)
			if as == x.u.Nil {
				b.known = true
			} else if as.op == OAppend && as.a[0] == x.u.Nil {
				b.attrs, b.known = as.a[1:], true
			}
		}
	}
	b.password, _ = x.ptrField(st, v.a[0], v.t, "UserPassword")
	return b
}

// buildTree analyses how the tree of entries is made from LDIF data of small shapes.
func (r *Run) buildTree(shapes [][]int, done func(x *Exec, at ssa.Instruction, recs []ldifRecord, bs []*builtEntry), added func(c *Call, st *State, recs []ldifRecord)) {
	for _, shape := range shapes {
		for _, withIndex := range []bool{true, false} {
			var recs []ldifRecord
			s := &Spec{id: r.id, policy: authPolicy, unroll: 12, unrollIn: []string{ldifPkg}}
			s.policy = policy(authPolicy, map[string]string{fname(r.p.treeBuilder()): "inline"})
			s.iface = func(c *Call, st *State) []*Outcome {
				if strings.HasSuffix(c.name, "Index).Add") {
					if added != nil {
						added(c, st, recs)
					}
					return one(st, c.x.typed(c.x.u.nonce(c.ctx, c.in, "indexed"), c))
				}
				return nil
			}
			s.models = map[string]Model{treeInsert: func(c *Call, st *State) []*Outcome {
				u := c.x.u
				other, refused := st.clone(), st.clone()
				for _, d := range []*State{other, refused} {
					d.mon["ldif.duplicate"] = u.True
					d.note(c.pos(), "the name is already in the tree")
				}
				old := u.nonce(c.ctx, c.in, "old")
				other.assume(u.eq(old, u.Nil), false)
				return []*Outcome{{st: st, ret: u.tuple(u.Nil, u.True)}, {st: other, ret: u.tuple(old, u.True)}, {st: refused, ret: u.tuple(u.Nil, u.False)}}
			}}
			s.pre = func(c *Call, st *State) {
				if c.name == treeInsert && len(c.args) > 2 {
					u := c.x.u
					done := []*Term{}
					if l := st.mon["ldif.inserted"]; l != nil {
						done = l.a
					}
					st.mon["ldif.inserted"] = u.tuple(append(append([]*Term{}, done...), u.tuple(st.snapshotSlice(c.args[1]), c.args[2]))...)
				}
			}
			name := fmt.Sprintf("entries from LDIF %v index=%v", shape, withIndex)
			r.analyse(name, s, func(x *Exec) {
				fn := x.mustFn(ldifPkg, r.p.treeBuilder().Name())
				st := newState(x.u)
				args := x.symArgs(fn, "ldif", "index", "options")
				recs = x.ldifData(st, args[0], shape)
				st.assume(x.u.eq(args[2], x.u.Nil), false)
				if withIndex {
					st.assume(x.u.eq(args[1], x.u.Nil), false)
				} else {
					args[1] = x.u.Nil
				}
				for _, o := range x.runFn(fn, args, st) {
					if o.kind != KRet || !o.st.isNil(x.u.ext(o.ret, 1)) {
						continue
					}
					var bs []*builtEntry
					if l := o.st.mon["ldif.inserted"]; l != nil {
						for _, e := range l.a {
							bs = append(bs, x.built(o.st, e.a[0], e.a[1], recs))
						}
					}
					done(x, fn.Blocks[0].Instrs[0], recs, bs)
				}
			})
		}
	}
}

// attrOf finds the attributes of the LDIF data that an attribute of an entry takes values or names from.
func (x *Exec) attrsIn(st *State, recs []ldifRecord, a *Term) []*Term {
	var out []*Term
	v := st.snapshot(st.load(a, pointeeOf(x, recs)), 4)
	for _, r := range recs {
		for _, q := range r.attrs {
			if a == q || v.contains(x.fieldInit(q, "Values")) || v.contains(q) {
				out = append(out, q)
			}
		}
	}
	return out
}

func pointeeOf(x *Exec, recs []ldifRecord) types.Type {
	for _, r := range recs {
		for _, a := range r.attrs {
			return a.t.Underlying().(*types.Pointer).Elem()
		}
	}
	x.undecided("attribute type not found")
	return nil
}

// notPassword: the path found that the name is not that of the password attribute.
func (x *Exec) notPassword(st *State, name *Term) bool {
	return st.refuted(x.u.eq(lower(x.u, name), x.u.str("userpassword")))
}

var ldifShapes = [][]int{{0}, {1}, {2}, {3}, {2, 2}, {noRecord, 1}, {noEntry, 1}}

func checkC08(r *Run) {
	r.rule("kept-out", "an attribute of the LDIF data becomes one of the searchable attributes of an entry only where its name was found not to be userPassword in any letter case", 8)
	r.rule("no-copy-back", "the passwords kept for binds, and the raw LDIF data, flow into no search result and no filter evaluation", 1)
	r.rule("bind-only", "a search of the middleware that serves the bind-only entries returns what the next backend returned, and nothing else", 1)
	r.assumption("LDIF data is analysed record by record for up to two records with up to three attributes; longer data behaves the same way because the loops treat all records and attributes alike.")
	r.buildTree(ldifShapes, func(x *Exec, at ssa.Instruction, recs []ldifRecord, bs []*builtEntry) {
		for _, b := range bs {
			x.oblig["kept-out"]++
			if !b.known {
				x.report("kept-out", at, "attributes", "the attributes of a loaded entry cannot be determined", b.st)
				continue
			}
			for _, a := range b.attrs {
				for _, q := range x.attrsIn(b.st, b.recs, a) {
					if !x.notPassword(b.st, x.fieldInit(q, "Name")) {
						x.report("kept-out", at, "password", "an attribute that may be a password becomes a searchable attribute of the entry", b.st)
					}
				}
			}
		}
	}, nil)
	r.copyBack("no-copy-back")
	for _, b := range backends {
		if !b.middleware {
			continue
		}
		s := &Spec{policy: authPolicy, iface: nextBackend}
		r.backendRun(b, "Search", s, func(x *Exec, m *ssa.Function, o *Outcome) {
			x.oblig["bind-only"]++
			u := x.u
			res := u.ext(o.ret, 0)
			from := func(t *Term) bool {
				return t.op == OCall && strings.HasSuffix(t.s, ".Search") && len(t.a) > 0 && isNext(t.a[0])
			}
			bad := false
			if res.op == OStruct {
				for _, f := range res.a {
					if !(f == u.Nil || f.op == OConst || f.any(from) || f.op == OField && f.a[0].any(from)) {
						bad = true
					}
				}
			} else if !(res.op == OExt && from(res.a[0])) {
				bad = true
			}
			if bad {
				x.report("bind-only", m.Blocks[0].Instrs[0], b.name, "a search result does not come from the next backend", o.st)
			}
		})
	}
}

// copyBack: passwords of loaded entries and the raw data never reach search results.
func (r *Run) copyBack(rule string) {
	fl := r.p.newFlow()
	fl.fieldBased = true
	fl.carries = func(t types.Type) bool { return types.TypeString(t, nil) != "error" && !isBool(t) }
	fl.lib = func(fl *Flow, c *ssa.CallCommon, name string, arg func(int) bool) bool {
		for i := range c.Args {
			if arg(i) && !strings.HasPrefix(name, pwPkg) {
				return true
			}
		}
		return false
	}
	fl.step = func(fl *Flow, from ssa.Value, in ssa.Instruction) bool {
		if cc := callOf(in); cc != nil && strings.HasPrefix(calleeName(cc), pwPkg+".") {
			return true
		}
		return false
	}
	n := 0
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		var v *types.Var
		var val ssa.Value
		switch in := in.(type) {
		case *ssa.FieldAddr:
			v, val = fieldVar(in.X.Type(), in.Field), in
			read := false
			for _, ref := range *in.Referrers() {
				if s, ok := ref.(*ssa.Store); !ok || s.Addr != in {
					read = true
				}
			}
			if !read {
				return
			}
		case *ssa.Field:
			v, val = fieldVar(in.X.Type(), in.Field), in
		default:
			return
		}
		if v.Pkg() == nil || v.Pkg().Path() != ldifPkg {
			return
		}
		t := types.TypeString(v.Type(), nil)
		if strings.HasSuffix(t, "ldap/v3.EntryAttribute") || strings.HasSuffix(t, "go-ldap/ldif.LDIF") {
			n++
			fl.mark(val, nil, "field "+v.Name())
		}
	})
	fl.run()
	bad := false
	for v, w := range fl.fields {
		if v.Pkg() == nil {
			continue
		}
		p := v.Pkg().Path()
		if p == strings.TrimSuffix(ldapP, ".") || p == lsPkg {
			bad = true
			var in ssa.Instruction
			if i, ok := w.from.(ssa.Instruction); ok {
				in = i
			}
			if in != nil {
				r.failAt(rule, in, "field "+v.Name(), "a password of a loaded entry or the raw LDIF data flows into the field "+v.Name()+" of results or entries")
			} else {
				r.fail(rule, "", "", "field "+v.Name(), "a password of a loaded entry or the raw LDIF data flows into the field "+v.Name()+" of results or entries")
			}
		}
	}
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		switch in := in.(type) {
		case ssa.CallInstruction:
			if strings.HasPrefix(calleeName(in.Common()), lsPkg+".") {
				for _, a := range in.Common().Args {
					if fl.is(a) {
						bad = true
						r.failAt(rule, in, short(calleeName(in.Common())), "a password of a loaded entry or the raw LDIF data is used in the evaluation of a search")
					}
				}
			}
		case *ssa.Return:
			for _, v := range in.Results {
				if fl.is(v) && strings.HasSuffix(types.TypeString(v.Type(), nil), ".ServerSearchResult") {
					bad = true
					r.failAt(rule, in, "result", "a password of a loaded entry or the raw LDIF data is part of a search result")
				}
			}
		case *ssa.Send:
			if fl.is(in.X) {
				bad = true
				r.failAt(rule, in, "send", "a password of a loaded entry or the raw LDIF data is sent to the search")
			}
		}
	})
	if n > 0 && !bad {
		r.oblig[rule] += n
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
