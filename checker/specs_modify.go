package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C17"] = checkC17
}

const (
	modAdd = iota
	modDelete
	modReplace
)

var modNames = []string{"add", "delete", "replace"}

// modChange is one change of a modify request.
type modChange struct {
	op   int
	vals int
}

// modCase is a modify request for an entry of some form.
type modCase struct {
	attrs   []int
	changes []modChange
	rdn     int
}

func (mc modCase) String() string {
	var cs []string
	for _, c := range mc.changes {
		cs = append(cs, fmt.Sprintf("%s of %d", modNames[c.op], c.vals))
	}
	return fmt.Sprintf("%s on %v, %d naming values", strings.Join(cs, ", "), mc.attrs, mc.rdn)
}

func modCases() []modCase {
	var cs []modCase
	for op := range modNames {
		for n := 0; n <= 2; n++ {
			if op == modAdd && n == 0 {
				continue // not allowed by the protocol
			}
			for _, attrs := range [][]int{{}, {2}, {1, 1}} {
				for rdn := 1; rdn <= 2; rdn++ {
					if rdn == 2 && (op == modAdd || n == 2 && len(attrs) == 2) {
						continue
					}
					cs = append(cs, modCase{attrs, []modChange{{op, n}}, rdn})
				}
			}
		}
	}
	for a := range modNames {
		for b := range modNames {
			for n := 0; n <= 1; n++ {
				for m := 0; m <= 1; m++ {
					if a == modAdd && n == 0 || b == modAdd && m == 0 {
						continue
					}
					for _, attrs := range [][]int{{}, {1}, {1, 1}} {
						cs = append(cs, modCase{attrs, []modChange{{a, n}, {b, m}}, 1})
					}
				}
			}
		}
	}
	cs = append(cs, modCase{[]int{1}, nil, 1})
	for _, t := range [][3]int{{0, 0, 0}, {0, 1, 0}, {2, 1, 0}, {1, 0, 2}} {
		cs = append(cs, modCase{[]int{1}, []modChange{{t[0], 1}, {t[1], 1}, {t[2], 1}}, 1})
	}
	return cs
}

// modAttr is an attribute of the expected entry.
type modAttr struct {
	name *Term
	vals []*Term
}

// needs is the comparison an evaluation must know the result of.
type needs struct{ a, b *Term }

// ask gives the result of a comparison without regard to letter case.
func (v *verdicts) ask(a, b *Term) bool {
	switch v.eqFold(a, b) {
	case yes:
		return true
	case no:
		return false
	}
	panic(needs{a, b})
}

// forEach calls f for each way the comparisons that f asks for can turn out.
func (v *verdicts) forEach(f func(v *verdicts)) {
	u := v.x.u
	var open *needs
	func() {
		defer func() {
			if p := recover(); p != nil {
				n, ok := p.(needs)
				if !ok {
					panic(p)
				}
				open = &n
			}
		}()
		f(v)
	}()
	if open == nil {
		return
	}
	atom := u.eq(lower(u, v.canon(open.a)), lower(u, v.canon(open.b)))
	for _, b := range []bool{true, false} {
		w := &verdicts{x: v.x, st: v.st.clone(), canon: v.canon}
		if w.st.assume(atom, b) {
			w.forEach(f)
		}
	}
}

// change is a change with its attribute and values.
type change struct {
	op   int
	typ  *Term
	vals []*Term
}

// naming is one part of the name of an entry.
type naming struct{ typ, val *Term }

// expected applies the changes by the rules of LDAP; refuse: the request must be rejected, may: it can be.
func (mc modCase) expected(v *verdicts) (attrs []modAttr, refuse, may bool) {
	u := v.x.u
	name := func(f string, a ...any) *Term { return u.sym(fmt.Sprintf(f, a...)) }
	attrs = entryAttrs(u, mc.attrs)
	var rdn []naming
	for j := 0; j < mc.rdn; j++ {
		rdn = append(rdn, naming{name("rdn%d.type", j), name("rdn%d.value", j)})
	}
	var cs []change
	for k, c := range mc.changes {
		ch := change{op: c.op, typ: name("change%d.type", k)}
		for j := 0; j < c.vals; j++ {
			ch.vals = append(ch.vals, name("change%d.v%d", k, j))
		}
		cs = append(cs, ch)
	}
	return v.changed(attrs, cs, rdn)
}

// entryAttrs lists the attributes of the entry made by entryOf.
func entryAttrs(u *Universe, vals []int) (attrs []modAttr) {
	for i, n := range vals {
		a := modAttr{name: u.sym(fmt.Sprintf("entry.a%d.name", i))}
		for j := 0; j < n; j++ {
			a.vals = append(a.vals, u.sym(fmt.Sprintf("entry.a%d.v%d", i, j)))
		}
		attrs = append(attrs, a)
	}
	return attrs
}

// find looks for a value in a list.
func (v *verdicts) find(vals []*Term, val *Term) int {
	for i, w := range vals {
		if v.ask(w, val) {
			return i
		}
	}
	return -1
}

func (v *verdicts) changed(attrs []modAttr, changes []change, rdn []naming) (res []modAttr, refuse, may bool) {
	find := v.find
	for _, c := range changes {
		typ, vals := c.typ, c.vals
		at := -1
		for i, a := range attrs {
			if v.ask(a.name, typ) {
				at = i
				break
			}
		}
		if c.op != modAdd {
			for _, n := range rdn {
				if !v.ask(typ, n.typ) {
					continue
				}
				gone := c.op == modReplace && find(vals, n.val) < 0 || c.op == modDelete && (len(vals) == 0 || find(vals, n.val) >= 0)
				if gone {
					if at >= 0 && find(attrs[at].vals, n.val) >= 0 {
						return nil, true, true
					}
					may = true
				}
			}
		}
		if at < 0 {
			if c.op == modDelete {
				may = true
			} else if len(vals) > 0 {
				attrs = append(attrs, modAttr{typ, vals})
			}
			continue
		}
		var next []*Term
		switch c.op {
		case modAdd:
			next = append(next, attrs[at].vals...)
			for _, w := range vals {
				if find(attrs[at].vals, w) < 0 {
					next = append(next, w)
				} else {
					may = true
				}
			}
		case modReplace:
			next = vals
		case modDelete:
			if len(vals) > 0 {
				for _, w := range attrs[at].vals {
					if find(vals, w) < 0 {
						next = append(next, w)
					}
				}
				for _, w := range vals {
					if find(attrs[at].vals, w) < 0 {
						may = true
					}
				}
			}
		}
		rest := append([]modAttr{}, attrs[:at]...)
		if len(next) > 0 {
			rest = append(rest, modAttr{attrs[at].name, next})
		}
		attrs = append(rest, attrs[at+1:]...)
	}
	return attrs, false, may
}

// sameAttrs: the attribute lists agree up to their order and the letter case of attribute names.
func (v *verdicts) sameAttrs(got, want []modAttr) string {
	if len(got) != len(want) {
		return fmt.Sprintf("the entry has %d attributes, %d are right", len(got), len(want))
	}
	used := map[int]bool{}
	for _, g := range got {
		hit := -1
		for i, w := range want {
			if !used[i] && v.ask(g.name, w.name) {
				hit = i
				break
			}
		}
		if hit < 0 {
			return "an attribute has a wrong name"
		}
		used[hit] = true
		w := want[hit]
		if len(g.vals) != len(w.vals) {
			return fmt.Sprintf("an attribute has %d values, %d are right", len(g.vals), len(w.vals))
		}
		left := append([]*Term{}, w.vals...)
	next:
		for _, val := range g.vals {
			for i, o := range left {
				if v.canon(o) == v.canon(val) {
					left = append(left[:i], left[i+1:]...)
					continue next
				}
			}
			return "an attribute has a wrong value"
		}
	}
	return ""
}

func checkC17(r *Run) {
	r.rule("applied", "the entry that results from a modify request has exactly the attributes and values that its changes, applied one after the other, give", 100)
	r.rule("naming", "a change that removes or replaces a naming value makes the whole request fail", 20)
	r.rule("refused", "a modify request fails only where its name is not the one of the entry, or a change cannot be applied", 10)
	r.rule("stored", "the entry stored for a modify request is the result of applying that request to the stored entry, and nothing is stored where that fails", 1)
	r.assumption("Folding of letter case by different library functions is the same function.")
	r.assumption("An entry holds no two attributes of the same name, and neither an attribute nor a change holds the same value twice.")
	f := r.p.fn(entryPkg, "ApplyModify")
	if f == nil {
		r.fail("decidable", "", "", "ApplyModify", "the function that applies modifications was not found")
		return
	}
	for _, mc := range modCases() {
		mc := mc
		s := &Spec{id: r.id, noPanic: true, unroll: 10, unrollIn: []string{entryPkg, strings.TrimSuffix(ldapP, "."), "slices"}}
		s.outside = func(c *Call, st *State) []*Outcome {
			u := c.x.u
			switch {
			case c.name == ldapP+"ParseDN":
				return stepFails(c, st, c.x.parsedDN(c, st, c.args[0]))
			case hasSuffixAny(c.name, "ldap/v3.DN).EqualFold", "ldap/v3.DN).Equal"):
				return one(st, u.call("same name", types.Typ[types.Bool]))
			}
			return foldModels(c, st)
		}
		r.analyse("modify", s, func(x *Exec) { x.applied(f, mc) })
	}
	r.modifyStored()
}

// prepareModify builds the entry, its name and the request of a case.
func (x *Exec) prepareModify(st *State, entryT, reqT types.Type, mc modCase) (e, q *Term) {
	u := x.u
	str := types.Typ[types.String]
	strs := types.NewSlice(str)
	e = x.entryOf(st, "entry", entryT, mc.attrs)
	q = x.symT("mod", reqT)
	st.assume(u.eq(q, u.Nil), false)
	dn := x.symT("mod.DN", str)
	st.mem[u.fieldA(q, "DN")] = dn
	var rdnList *types.Slice
	pt := x.typeByName(strings.TrimSuffix(ldapP, "."), "DN")
	rdnList = fieldType(pt, "RDNs").Underlying().(*types.Slice)
	rt := rdnList.Elem()
	avaList := fieldType(rt, "Attributes").Underlying().(*types.Slice)
	rdn := x.symT("rdn", rt)
	st.assume(u.eq(rdn, u.Nil), false)
	var avas []*Term
	for i := 0; i < mc.rdn; i++ {
		a := x.symT(fmt.Sprintf("rdn%d", i), avaList.Elem())
		st.assume(u.eq(a, u.Nil), false)
		st.mem[u.fieldA(a, "Type")] = x.symT(fmt.Sprintf("rdn%d.type", i), str)
		st.mem[u.fieldA(a, "Value")] = x.symT(fmt.Sprintf("rdn%d.value", i), str)
		avas = append(avas, a)
	}
	st.mem[u.fieldA(rdn, "Attributes")] = x.listOfT(avas, avaList)
	for _, n := range []*Term{u.sym("entry.DN"), dn} {
		st.mem[u.fieldA(u.call("parsed", nil, n), "RDNs")] = x.listOfT([]*Term{rdn}, rdnList)
	}
	ct := fieldType(reqT, "Changes").Underlying().(*types.Slice)
	cst, _ := isStruct(ct.Elem())
	var changes []*Term
	for k, c := range mc.changes {
		var vals []*Term
		for j := 0; j < c.vals; j++ {
			vals = append(vals, x.symT(fmt.Sprintf("change%d.v%d", k, j), str))
		}
		x.distinct(st, vals)
		el := &Term{op: OStruct, t: ct.Elem()}
		for i := 0; i < cst.NumFields(); i++ {
			switch cst.Field(i).Name() {
			case "Operation":
				el.a = append(el.a, u.mk(&Term{op: OConst, t: cst.Field(i).Type(), s: u.num(int64(c.op)).s, n: u.num(int64(c.op)).n, hasN: u.num(int64(c.op)).hasN}))
			case "Modification":
				mst, _ := isStruct(cst.Field(i).Type())
				m := &Term{op: OStruct, t: cst.Field(i).Type()}
				for j := 0; j < mst.NumFields(); j++ {
					switch mst.Field(j).Name() {
					case "Type":
						m.a = append(m.a, x.symT(fmt.Sprintf("change%d.type", k), str))
					case "Vals":
						m.a = append(m.a, x.listOfT(vals, strs))
					default:
						m.a = append(m.a, u.zero(mst.Field(j).Type()))
					}
				}
				el.a = append(el.a, u.mk(m))
			default:
				el.a = append(el.a, u.zero(cst.Field(i).Type()))
			}
		}
		changes = append(changes, u.mk(el))
	}
	st.mem[u.fieldA(q, "Changes")] = x.listOfT(changes, ct)
	var names []*Term
	for i, n := range mc.attrs {
		names = append(names, u.sym(fmt.Sprintf("entry.a%d.name", i)))
		var vals []*Term
		for j := 0; j < n; j++ {
			vals = append(vals, u.sym(fmt.Sprintf("entry.a%d.v%d", i, j)))
		}
		x.distinct(st, vals)
	}
	x.distinct(st, names)
	return e, q
}

func (x *Exec) distinct(st *State, ts []*Term) {
	u := x.u
	for i, a := range ts {
		for _, b := range ts[:i] {
			st.assume(u.eq(lower(u, a), lower(u, b)), false)
			st.assume(u.eq(a, b), false)
		}
	}
}

// fieldType finds the type of a field of a struct or a pointer to one.
func fieldType(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	panic("no field " + name)
}

// applied compares the results of a case with the expected ones.
func (x *Exec) applied(f *ssa.Function, mc modCase) {
	u := x.u
	st := newState(u)
	e, q := x.prepareModify(st, f.Params[0].Type(), f.Params[1].Type(), mc)
	at := f.Blocks[0].Instrs[0]
	canon := x.filterCanon()
	lt := fieldType(f.Params[0].Type(), "Attributes")
	vt := types.NewSlice(types.Typ[types.String])
	for _, o := range x.runFn(f, []*Term{e, q}, st) {
		if o.kind != KRet {
			continue
		}
		st := o.st
		err := u.ext(o.ret, 1)
		ok := st.isNil(err)
		if !ok && !st.notNil(err) {
			x.undecided("whether a modify request fails: %s", clip(err.String()))
		}
		v := x.verdicts(st, canon)
		sameName := v.of(u.call("same name", nil))
		if st.mon["failed"] != nil || sameName == no {
			x.oblig["refused"]++
			if ok {
				x.report("refused", at, "name", "a request succeeds although a name cannot be parsed or is not the one of the entry", st)
			}
			continue
		}
		var got []modAttr
		if ok {
			n := u.ext(o.ret, 0)
			if st.load(u.fieldA(n, "DN"), types.Typ[types.String]) != u.sym("entry.DN") {
				x.report("applied", at, "name", "a modify request changes the name stored in the entry", st)
			}
			els, known := listElems(st, st.load(u.fieldA(n, "Attributes"), lt))
			if !known {
				x.undecided("attributes of the modified entry: %s", clip(st.load(u.fieldA(n, "Attributes"), lt).String()))
			}
			for _, a := range els {
				vals, known := listElems(st, st.load(u.fieldA(a, "Values"), vt))
				if !known {
					x.undecided("values of the modified entry: %s", clip(st.load(u.fieldA(a, "Values"), vt).String()))
				}
				got = append(got, modAttr{st.load(u.fieldA(a, "Name"), types.Typ[types.String]), vals})
			}
		}
		v.forEach(func(v *verdicts) {
			want, refuse, may := mc.expected(v)
			if !ok {
				if !refuse && !may {
					x.oblig["refused"]++
					x.report("refused", at, mc.String(), fmt.Sprintf("a request (%s) fails although all its changes can be applied", mc), st)
				} else if refuse {
					x.oblig["naming"]++
				}
				return
			}
			if refuse {
				x.oblig["naming"]++
				x.report("naming", at, mc.String(), fmt.Sprintf("a request (%s) that removes the naming value succeeds", mc), st)
				return
			}
			msg := v.sameAttrs(got, want)
			x.oblig["applied"]++
			if msg != "" {
				x.report("applied", at, mc.String(), fmt.Sprintf("after a request (%s) %s", mc, msg), st)
			}
		})
	}
}

// isRequest: a value is the request, or one with its name and changes.
func (x *Exec) isRequest(t *Term) bool {
	u := x.u
	req := u.sym("req")
	has := map[*Term]bool{}
	t.any(func(t *Term) bool {
		has[t] = true
		return false
	})
	return t == req || has[x.fieldInit(req, "Changes")] || t.op != OStruct && has[req]
}

// modifyStored follows the result of applying the request into the database.
func (r *Run) modifyStored() {
	s := &Spec{}
	r.boltRun("Modify", s, func(x *Exec, o *Outcome, report func(rule, construct, msg string)) {
		u, st := x.u, o.st
		var applied []*Term
		ws := x.writeLog(st.mon["bolt.log"])
		for _, w := range ws {
			if w.del || w.bucket != "id2entry" {
				continue
			}
			x.oblig["stored"]++
			var res *Term
			w.val.any(func(t *Term) bool {
				if t.op == OCall && t.s == applyModify {
					res = t
				}
				return false
			})
			switch {
			case res == nil:
				report("stored", "result", "the stored entry is not the result of applying the request")
			case !st.isNil(u.ext(res, 1)):
				report("stored", "failure", "an entry is stored although the request was not found to apply")
			case !x.fromEntry(st, res.a[0], x.idOf(st, x.normDN(x.reqDN()))):
				report("stored", "entry", "the request is applied to something else than the stored entry")
			case len(res.a) < 2 || !x.isRequest(res.a[1]):
				report("stored", "request", "something else than the request is applied")
			}
			applied = append(applied, res)
		}
		if len(applied) > 1 {
			report("stored", "twice", "a request is applied more than once")
		}
	})
}
