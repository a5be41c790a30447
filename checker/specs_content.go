package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C46"] = checkC46
}

// contentCase is an update of an entry of some form.
type contentCase struct {
	op       string
	attrs    []int // of the stored entry, or of the add request
	old, new int   // parts of the old and new name
	drop     bool  // the old naming values shall go
}

func (cc contentCase) String() string {
	switch cc.op {
	case "Add":
		return fmt.Sprintf("add with %v", cc.attrs)
	case "ModifyDN":
		return fmt.Sprintf("rename from %d to %d naming values of %v with removal %v", cc.old, cc.new, cc.attrs, cc.drop)
	}
	return fmt.Sprintf("password change on %v", cc.attrs)
}

func contentCases() []contentCase {
	var cs []contentCase
	for _, a := range [][]int{{}, {1}, {2}, {1, 1}, {2, 1}, {1, 1, 1}} {
		cs = append(cs, contentCase{op: "Add", attrs: a, old: 1})
	}
	for _, drop := range []bool{true, false} {
		for _, a := range [][]int{{}, {1}, {2}, {1, 1}} {
			cs = append(cs, contentCase{"ModifyDN", a, 1, 1, drop})
		}
		cs = append(cs, contentCase{"ModifyDN", []int{1}, 2, 1, drop}, contentCase{"ModifyDN", []int{1}, 1, 2, drop})
	}
	for _, a := range [][]int{{}, {1}, {2}, {1, 1}} {
		cs = append(cs, contentCase{op: "ModifyPasswordExop", attrs: a, old: 1})
	}
	return cs
}

// dnParts are the parts of the name that a text stands for.
func (x *Exec) dnParts(t *Term, cc contentCase) (kind string, n int, folded bool) {
	u := x.u
	norm := t.any(func(t *Term) bool { return t.op == OCall && t.s == dnPkg+".Normalize" })
	req := u.sym("req")
	switch {
	case t == x.fieldInit(req, "NewRDN") || t.contains(u.sym("new")):
		return "new", cc.new, norm
	case t == x.fieldInit(req, "DN") || t == x.fieldInit(req, "UserIdentity") || t == u.sym("entry.DN") || t.contains(u.sym("old")):
		return "old", cc.old, norm
	}
	return "", 0, norm
}

// splitDN gives the parsed form of a name known parts.
func (x *Exec) splitDN(c *Call, st *State, cc contentCase) *Term {
	u := x.u
	text := c.args[0]
	p := x.parsedDN(c, st, text)
	kind, n, folded := x.dnParts(text, cc)
	if kind == "" {
		return p
	}
	rdnList := fieldType(p.t, "RDNs").Underlying().(*types.Slice)
	avaList := fieldType(rdnList.Elem(), "Attributes").Underlying().(*types.Slice)
	str := types.Typ[types.String]
	name := kind
	if folded {
		name = "folded " + kind
	}
	rdn := x.symT(name, rdnList.Elem())
	st.assume(u.eq(rdn, u.Nil), false)
	var avas []*Term
	for i := 0; i < n; i++ {
		typ, val := x.symT(fmt.Sprintf("%s%d.type", kind, i), str), x.symT(fmt.Sprintf("%s%d.value", kind, i), str)
		if folded {
			typ, val = lower(u, typ), lower(u, val)
		}
		a := x.symT(fmt.Sprintf("%s%d", name, i), avaList.Elem())
		st.assume(u.eq(a, u.Nil), false)
		st.mem[u.fieldA(a, "Type")] = typ
		st.mem[u.fieldA(a, "Value")] = val
		avas = append(avas, a)
	}
	st.mem[u.fieldA(rdn, "Attributes")] = x.listOfT(avas, avaList)
	rdns := []*Term{rdn}
	if text != x.fieldInit(u.sym("req"), "NewRDN") {
		parent := x.symT("parent", rdnList.Elem())
		st.assume(u.eq(parent, u.Nil), false)
		rdns = append(rdns, parent)
	}
	st.mem[u.fieldA(p, "RDNs")] = x.listOfT(rdns, rdnList)
	return p
}

// entryTerm writes down the content of an entry.
func (x *Exec) entryTerm(st *State, e *Term) *Term {
	u := x.u
	str := types.Typ[types.String]
	lt := fieldType(x.typeByName(strings.TrimSuffix(ldapP, "."), "Entry"), "Attributes")
	vt := types.NewSlice(str)
	els, ok := listElems(st, st.load(u.fieldA(e, "Attributes"), lt))
	if !ok {
		x.undecided("attributes of a stored entry: %s", clip(st.load(u.fieldA(e, "Attributes"), lt).String()))
	}
	parts := []*Term{st.load(u.fieldA(e, "DN"), str)}
	for _, a := range els {
		vals, ok := listElems(st, st.load(u.fieldA(a, "Values"), vt))
		if !ok {
			x.undecided("values of a stored entry: %s", clip(st.load(u.fieldA(a, "Values"), vt).String()))
		}
		parts = append(parts, u.call("attribute", nil, append([]*Term{st.load(u.fieldA(a, "Name"), str)}, vals...)...))
	}
	return u.call("entry", nil, parts...)
}

// contentModels describes the encoding of entries and the parsing of names.
func contentModels(cc contentCase) Model {
	return func(c *Call, st *State) []*Outcome {
		x := c.x
		u := x.u
		switch c.name {
		case ldapP + "ParseDN":
			return one(st, u.tuple(x.splitDN(c, st, cc), u.Nil))
		case ldapP + "NewEntry":
			m := c.args[1]
			if m.op != OAlloc {
				return nil
			}
			if _, ok := st.mem[u.havMark(m)]; ok {
				return nil
			}
			e := u.allocT(c.ctx, c.in, "entry", c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			al := fieldType(e.t, "Attributes").Underlying().(*types.Slice)
			st.mem[u.fieldA(e, "DN")] = c.args[0]
			var as []*Term
			for k, v := range st.mem {
				if k.op == OMapE && k.a[0] == m {
					a := u.allocT(c.ctx, c.in, fmt.Sprintf("attribute %d", k.a[1].id), al.Elem().Underlying().(*types.Pointer).Elem())
					st.mem[u.fieldA(a, "Name")] = k.a[1]
					st.mem[u.fieldA(a, "Values")] = v
					as = append(as, a)
				}
			}
			sortTerms(as)
			st.mem[u.fieldA(e, "Attributes")] = x.listOfT(as, al)
			return one(st, e)
		case "(*encoding/gob.Decoder).Decode":
			d, dst := c.args[0], c.args[1]
			if dst.op == OIface {
				dst = dst.a[0]
			}
			et := pointee(c, dst)
			if et == nil || d.op != OCall || d.s != "gob.dec" {
				return nil
			}
			pt := et
			if _, ok := et.Underlying().(*types.Pointer); !ok {
				pt = types.NewPointer(et)
			}
			if !types.Identical(pt.Underlying().(*types.Pointer).Elem(), x.typeByName(strings.TrimSuffix(ldapP, "."), "Entry")) {
				return nil
			}
			e := x.entryOf(st, "entry", pt, cc.attrs)
			var names []*Term
			for _, a := range entryAttrs(u, cc.attrs) {
				names = append(names, a.name)
				x.distinct(st, a.vals)
			}
			x.distinct(st, names)
			st.mon["decoded"] = d.a[0]
			if pt == et {
				st.mem[dst] = e
			} else {
				for _, f := range []string{"DN", "Attributes"} {
					st.mem[u.fieldA(dst, f)] = st.mem[u.fieldA(e, f)]
				}
			}
			return one(st, u.Nil) // failing steps are the matter of other properties
		case "(*encoding/gob.Encoder).Encode":
			e, v := c.args[0], c.args[1]
			if v.op == OIface {
				v = v.a[0]
			}
			if e.op != OCall || e.s != "gob.enc" {
				return nil
			}
			if v.op == OStruct {
				return nil
			}
			st.mem[u.contentOf(e.a[0])] = u.call("gobencode", nil, x.entryTerm(st, v))
			return one(st, u.Nil) // failing steps are the matter of other properties
		}
		if hasSuffixAny(c.name, "ldap/v3.DN).EqualFold", "ldap/v3.DN).Equal") {
			if c.args[0] == c.args[1] {
				return one(st, u.True)
			}
			return one(st, u.call("same name", types.Typ[types.Bool], c.args...))
		}
		return foldModels(c, st)
	}
}

func checkC46(r *Run) {
	r.rule("added", "an add stores an entry with the requested name and exactly the requested attributes and values", 6)
	r.rule("renamed", "a rename stores the entry under its new name, with the new naming values, without the old ones if that was asked for, and otherwise unchanged", 4)
	r.rule("password", "a password change stores the entry with the new password as only password, and otherwise unchanged", 4)
	r.assumption("Folding of letter case by different library functions is the same function.")
	r.assumption("A stored entry holds no two attributes of the same name and no attribute holds the same value twice.")
	for _, cc := range contentCases() {
		cc := cc
		s := storeSpec()
		s.noPanic = true
		s.policy = policy(storePolicy)
		delete(s.policy, applyModify)
		s.unrollIn = append(s.unrollIn, entryPkg, strings.TrimSuffix(ldapP, "."), "slices")
		s.outside = contentModels(cc)
		s.lists = func(x *Exec, st *State, g *Term) []*Term {
			if bucketName(g.a[0]) != "id2children" {
				return nil
			}
			return []*Term{x.u.Nil}
		}
		r.backendRunWith(backends[0], cc.op, s, func(x *Exec, st *State) {
			switch cc.op {
			case "Add":
				x.addRequest(st, cc)
			case "ModifyDN":
				st.assume(x.fieldInit(x.u.sym("req"), "DeleteOldRDN"), cc.drop)
			}
		}, func(x *Exec, m *ssa.Function, o *Outcome) { x.content(m, o, cc) })
	}
}

// addRequest prepares the attributes of an add request.
func (x *Exec) addRequest(st *State, cc contentCase) {
	u := x.u
	str := types.Typ[types.String]
	q := u.sym("req")
	lt := fieldType(x.typeByName(strings.TrimSuffix(ldapP, "."), "AddRequest"), "Attributes").Underlying().(*types.Slice)
	at, _ := isStruct(lt.Elem())
	var as []*Term
	for _, a := range entryAttrs(u, cc.attrs) {
		el := &Term{op: OStruct, t: lt.Elem()}
		for i := 0; i < at.NumFields(); i++ {
			switch at.Field(i).Name() {
			case "Type":
				el.a = append(el.a, x.typed2(a.name, str))
			case "Vals":
				for _, v := range a.vals {
					x.typed2(v, str)
				}
				el.a = append(el.a, x.listOfT(a.vals, types.NewSlice(str)))
			default:
				el.a = append(el.a, u.zero(at.Field(i).Type()))
			}
		}
		as = append(as, u.mk(el))
	}
	st.mem[u.fieldA(q, "Attributes")] = x.listOfT(as, lt)
}

// content checks what an update stored.
func (x *Exec) content(m *ssa.Function, o *Outcome, cc contentCase) {
	u, st := x.u, o.st
	rule := map[string]string{"Add": "added", "ModifyDN": "renamed", "ModifyPasswordExop": "password"}[cc.op]
	if !succeeds(x, o) {
		return
	}
	at := m.Blocks[0].Instrs[0]
	var put, name *Term
	for _, w := range x.writeLog(st.mon["bolt.log"]) {
		if w.del {
			continue
		}
		switch w.bucket {
		case "id2entry":
			put = w.val
		case "dn2id":
			name = w.key
		}
	}
	x.oblig[rule]++
	report := func(construct, msg string) {
		x.report(rule, at, cc.String()+" "+construct, fmt.Sprintf("after %s %s", cc, msg), st)
	}
	if put == nil {
		report("write", "no entry is stored")
		return
	}
	var e *Term
	put.any(func(t *Term) bool {
		if t.op == OCall && t.s == "gobencode" {
			e = t.a[0]
		}
		return false
	})
	if e == nil || e.op != OCall || e.s != "entry" {
		report("entry", "something else than an entry is stored")
		return
	}
	var got []modAttr
	for _, a := range e.a[1:] {
		got = append(got, modAttr{a.a[0], a.a[1:]})
	}
	switch dn := e.a[0]; {
	case cc.op == "Add" && dn != x.reqDN():
		report("name", "the stored entry does not have the requested name")
	case cc.op == "ModifyDN" && !st.same(dn, name):
		report("name", "the stored entry does not have its new name")
	case cc.op == "ModifyPasswordExop" && dn != u.sym("entry.DN"):
		report("name", "the stored entry has a different name")
	}
	x.verdicts(st, x.filterCanon()).forEach(func(v *verdicts) {
		msg := ""
		switch cc.op {
		case "Add":
			msg = v.samePairs(got, entryAttrs(u, cc.attrs), false)
		case "ModifyPasswordExop":
			want, _, _ := v.changed(entryAttrs(u, cc.attrs), []change{{modReplace, u.str("userPassword"), []*Term{x.fieldInit(u.sym("req"), "NewPassword")}}}, nil)
			msg = v.sameAttrs(got, want)
		case "ModifyDN":
			var cs []change
			part := func(kind string, i int) (typ, val *Term) {
				return u.sym(fmt.Sprintf("%s%d.type", kind, i)), u.sym(fmt.Sprintf("%s%d.value", kind, i))
			}
			overlap := false
			for i := 0; cc.drop && i < cc.old; i++ {
				typ, val := part("old", i)
				cs = append(cs, change{modDelete, typ, []*Term{val}})
				for j := 0; j < cc.new; j++ {
					t2, v2 := part("new", j)
					overlap = overlap || v.ask(typ, t2) && v.ask(val, v2)
				}
			}
			for i := 0; i < cc.new; i++ {
				typ, val := part("new", i)
				cs = append(cs, change{modAdd, typ, []*Term{val}})
			}
			want, _, _ := v.changed(entryAttrs(u, cc.attrs), cs, nil)
			msg = v.sameAttrs(got, want)
			if msg != "" && overlap {
				msg = v.samePairs(got, want, true)
			}
		}
		if msg != "" {
			report("content", msg)
		}
	})
}

// samePairs compares attributes value by value without regard to how they are grouped.
func (v *verdicts) samePairs(got, want []modAttr, fold bool) string {
	in := func(as []modAttr, name, val *Term) bool {
		for _, exact := range []bool{true, false} {
			for _, a := range as {
				for _, w := range a.vals {
					if (v.canon(w) == v.canon(val) || fold && !exact && v.ask(w, val)) && v.ask(a.name, name) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, a := range want {
		for _, val := range a.vals {
			if !in(got, a.name, val) {
				return "a value is missing"
			}
		}
	}
	for _, a := range got {
		for _, val := range a.vals {
			if !in(want, a.name, val) {
				return "there is a value that does not belong there"
			}
		}
	}
	return ""
}
