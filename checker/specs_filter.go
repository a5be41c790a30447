package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C19"] = checkC19
}

// tri is a truth value that may be unknown.
type tri int

const (
	no tri = iota - 1
	unknown
	yes
)

func triNot(a tri) tri { return -a }

func triAnd(vs ...tri) tri {
	r := yes
	for _, v := range vs {
		if v < r {
			r = v
		}
	}
	return r
}

func triOr(vs ...tri) tri {
	r := no
	for _, v := range vs {
		if v > r {
			r = v
		}
	}
	return r
}

func triBool(b bool) tri {
	if b {
		return yes
	}
	return no
}

// verdicts gives the truth of atoms on a path, independent of how the code computes their operands.
type verdicts struct {
	x     *Exec
	st    *State
	canon func(t *Term) *Term
}

func (x *Exec) verdicts(st *State, canon func(t *Term) *Term) *verdicts {
	v := &verdicts{x: x, st: newState(x.u), canon: canon}
	var atoms []*Term
	for a := range st.facts {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for _, a := range atoms {
		v.st.assume(canon(a), st.facts[a])
	}
	return v
}

func (v *verdicts) of(atom *Term) tri {
	b, known := v.st.decide(v.canon(atom))
	if !known {
		return unknown
	}
	return triBool(b)
}

// eqFold: two texts are equal without regard to letter case.
func (v *verdicts) eqFold(a, b *Term) tri {
	u := v.x.u
	return v.of(u.eq(lower(u, v.canon(a)), lower(u, v.canon(b))))
}

// foldModels describes the library functions that compare texts.
func foldModels(c *Call, st *State) []*Outcome {
	u := c.x.u
	str := types.Typ[types.String]
	switch c.name {
	case "(golang.org/x/text/cases.Caser).String", "(*golang.org/x/text/cases.Caser).String":
		return one(st, lower(u, c.args[1]))
	case "(golang.org/x/text/cases.Caser).Bytes", "(*golang.org/x/text/cases.Caser).Bytes":
		return one(st, u.mk(&Term{op: OConv, a: []*Term{lower(u, c.args[1])}, t: c.sig.Results().At(0).Type()}))
	case "strings.Contains", "bytes.Contains":
		return one(st, u.call("contains", types.Typ[types.Bool], c.args...))
	case "strings.Index", "bytes.Index":
		pos := u.call("indexOf", types.Typ[types.Int], c.args...)
		has := u.call("contains", types.Typ[types.Bool], c.args...)
		s2 := st.clone()
		var outs []*Outcome
		if st.assume(has, true) && st.assume(u.lt(pos, u.Zero), false) && st.assume(u.eq(pos, u.num(-1)), false) {
			outs = append(outs, &Outcome{st: st, ret: pos})
		}
		if s2.assume(has, false) {
			outs = append(outs, &Outcome{st: s2, ret: u.num(-1)})
		}
		return outs
	case "strings.CutPrefix", "strings.CutSuffix", "strings.Cut":
		has := u.call(strings.Replace(c.name, "Cut", "Has", 1), types.Typ[types.Bool], c.args...)
		kind := map[string]string{"strings.CutPrefix": "afterPrefix", "strings.CutSuffix": "beforeSuffix", "strings.Cut": "afterAny"}[c.name]
		if c.name == "strings.Cut" {
			has = u.call("contains", types.Typ[types.Bool], c.args...)
		}
		s2 := st.clone()
		var outs []*Outcome
		after := u.call(kind, str, c.args...)
		if st.assume(has, true) {
			r := u.tuple(after, u.True)
			if c.name == "strings.Cut" {
				r = u.tuple(u.call("beforeAny", str, c.args...), after, u.True)
			}
			outs = append(outs, &Outcome{st: st, ret: r})
		}
		if s2.assume(has, false) {
			r := u.tuple(c.args[0], u.False)
			if c.name == "strings.Cut" {
				r = u.tuple(c.args[0], u.EmptyS, u.False)
			}
			outs = append(outs, &Outcome{st: s2, ret: r})
		}
		return outs
	}
	return nil
}

// filterCanon gives the contents of packets and the parts of texts one name each.
func (x *Exec) filterCanon() func(t *Term) *Term {
	u := x.u
	memo := map[*Term]*Term{}
	str := types.Typ[types.String]
	text := func(p *Term) *Term { return u.call("text", str, p) }
	packetOf := func(addr *Term, field string) *Term {
		if addr.op == OInit && addr.a[0].op == OFieldA && addr.a[0].s == field {
			return addr.a[0].a[0]
		}
		return nil
	}
	var canon func(t *Term) *Term
	canon = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.op == OTA && packetOf(t.a[0], "Value") != nil:
			r = text(packetOf(t.a[0], "Value"))
		case t.op == OContent && packetOf(t.a[0], "Data") != nil:
			r = text(packetOf(t.a[0], "Data"))
		case t.op == OInit && packetOf(t.a[0], "Data") != nil:
			r = text(packetOf(t.a[0], "Data"))
		case t.op == OCall && hasSuffixAny(t.s, "asn1-ber.DecodeString"):
			r = canon(t.a[0])
		default:
			if len(t.a) > 0 {
				args := make([]*Term, len(t.a))
				for i, a := range t.a {
					args[i] = canon(a)
				}
				r = u.rebuild(t, args, t.n)
			}
			switch {
			case r.op == OConv && len(r.a) == 1 && r.a[0].op == OCall && (r.a[0].s == "text" || r.a[0].s == "lower"):
				r = r.a[0]
			case r.op == OCall && r.s == "lower" && r.a[0].op == OCall && r.a[0].s == "lower":
				r = r.a[0]
			case r.op == OCall && r.s == "strings.TrimPrefix":
				r = u.call("afterPrefix", str, r.a...)
			case r.op == OCall && r.s == "strings.TrimSuffix":
				r = u.call("beforeSuffix", str, r.a...)
			case r.op == OSliceOf:
				v, lo, hi := r.a[0], r.a[1], r.a[2]
				switch {
				case hi == u.Nil && lo.op == OLen:
					r = u.call("afterPrefix", str, v, lo.a[0])
				case hi == u.Nil && lo.op == OBin && lo.s == "+" && lo.any(func(s *Term) bool { return s.op == OCall && s.s == "indexOf" && s.a[0] == v }):
					var sub *Term
					var pos *Term
					for i := range lo.a {
						if lo.a[i].op == OLen {
							sub = lo.a[i].a[0]
						} else if lo.a[i].op == OCall && lo.a[i].s == "indexOf" {
							pos = lo.a[i]
						}
					}
					if sub != nil && pos != nil && pos.a[1] == sub {
						r = u.call("afterAny", str, v, sub)
					}
				case (lo == u.Nil || lo == u.Zero) && hi.op == OBin && hi.s == "-" && hi.a[0] == u.length(v) && hi.a[1].op == OLen:
					r = u.call("beforeSuffix", str, v, hi.a[1].a[0])
				}
			case r.op == OCall && r.s == "bytes.HasPrefix":
				r = u.call("strings.HasPrefix", r.t, r.a...)
			case r.op == OCall && r.s == "bytes.HasSuffix":
				r = u.call("strings.HasSuffix", r.t, r.a...)
			}
		}
		memo[t] = r
		return r
	}
	return canon
}

// constTables gives package variables that hold tables of constants their content.
func (x *Exec) constTables(st *State, pkgs ...string) {
	u := x.u
	for _, path := range pkgs {
		pkg := x.p.byPkg[path]
		if pkg == nil {
			continue
		}
		x.p.build(pkg)
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		ctx := u.ctx(nil, nil, init)
		tables := map[ssa.Value]map[*Term]*Term{}
		bad := map[ssa.Value]bool{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeMap:
					tables[in] = map[*Term]*Term{}
				case *ssa.MapUpdate:
					k, ok1 := in.Key.(*ssa.Const)
					v, ok2 := in.Value.(*ssa.Const)
					if t := tables[in.Map]; t != nil && ok1 && ok2 {
						t[u.constant(k)] = u.constant(v)
					} else {
						bad[in.Map] = true
					}
				case *ssa.Store:
					g, ok := in.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					addr := u.mk(&Term{op: OGlobal, s: g.String(), t: g.Type().Underlying().(*types.Pointer).Elem()})
					if ld, ok := in.Val.(*ssa.UnOp); ok {
						if h, ok := ld.X.(*ssa.Global); ok {
							for a, v := range st.mem {
								if a.op == OGlobal && a.s == h.String() {
									st.mem[addr] = v
								}
							}
						}
						continue
					}
					t, m := tables[in.Val], in.Val
					if t == nil || bad[m] || len(t) == 0 {
						continue
					}
					a := u.allocT(ctx, in, "", m.Type())
					st.mem[addr] = a
					for k, v := range t {
						st.mem[u.mk(&Term{op: OMapE, a: []*Term{a, k}})] = v
					}
				}
			}
		}
	}
}

// entryOf builds an entry with attributes of the given numbers of values.
func (x *Exec) entryOf(st *State, name string, t types.Type, vals []int) *Term {
	u := x.u
	e := x.symT(name, t)
	st.assume(u.eq(e, u.Nil), false)
	st.mem[u.fieldA(e, "DN")] = x.symT(name+".DN", types.Typ[types.String])
	et := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	var lt *types.Slice
	for i := 0; i < et.NumFields(); i++ {
		if et.Field(i).Name() == "Attributes" {
			lt = et.Field(i).Type().Underlying().(*types.Slice)
		}
	}
	var as []*Term
	for i, n := range vals {
		a := x.symT(fmt.Sprintf("%s.a%d", name, i), lt.Elem())
		st.assume(u.eq(a, u.Nil), false)
		st.mem[u.fieldA(a, "Name")] = x.symT(fmt.Sprintf("%s.a%d.name", name, i), types.Typ[types.String])
		var vs []*Term
		for j := 0; j < n; j++ {
			vs = append(vs, x.symT(fmt.Sprintf("%s.a%d.v%d", name, i, j), types.Typ[types.String]))
		}
		st.mem[u.fieldA(a, "Values")] = x.listOfT(vs, types.NewSlice(types.Typ[types.String]))
		as = append(as, a)
	}
	st.mem[u.fieldA(e, "Attributes")] = x.listOfT(as, lt)
	return e
}

func (x *Exec) listOfT(els []*Term, t types.Type) *Term {
	if len(els) == 0 {
		return x.u.Nil
	}
	return x.u.mk(&Term{op: OAppend, a: append([]*Term{x.u.Nil}, els...), t: t})
}

const (
	fAnd = iota
	fOr
	fNot
	fEqual
	fSubstrings
	fGreater
	fLess
	fPresent
	fApprox
	fExtensible
)

// filterCase is a filter of a certain form.
type filterCase struct {
	name string
	tag  int64
	s    *shape
	tags map[string]int64 // tags of inner packets
}

func filterCases() []filterCase {
	var cs []filterCase
	add := func(name string, tag int64, s *shape, tags map[string]int64) {
		cs = append(cs, filterCase{name, tag, s, tags})
	}
	for n := 0; n <= 3; n++ {
		add(fmt.Sprintf("and of %d", n), fAnd, flat(n), nil)
		add(fmt.Sprintf("or of %d", n), fOr, flat(n), nil)
		add(fmt.Sprintf("not of %d", n), fNot, flat(n), nil)
		add(fmt.Sprintf("equality with %d elements", n), fEqual, flat(n), nil)
		if n != 2 {
			add(fmt.Sprintf("substrings with %d elements", n), fSubstrings, flat(n), nil)
		}
	}
	add("substrings without components", fSubstrings, node(leaf(), flat(0)), nil)
	for a := int64(0); a <= 3; a++ {
		add(fmt.Sprintf("substrings %d", a), fSubstrings, node(leaf(), flat(1)), map[string]int64{"f.1.0": a})
		for b := int64(0); b <= 3; b++ {
			if a == 2 || b == 0 {
				continue // the initial part comes first, the final part last
			}
			add(fmt.Sprintf("substrings %d %d", a, b), fSubstrings, node(leaf(), flat(2)), map[string]int64{"f.1.0": a, "f.1.1": b})
		}
	}
	add("substrings 0 1 2", fSubstrings, node(leaf(), flat(3)), map[string]int64{"f.1.0": 0, "f.1.1": 1, "f.1.2": 2})
	add("substrings 1 1 1", fSubstrings, node(leaf(), flat(3)), map[string]int64{"f.1.0": 1, "f.1.1": 1, "f.1.2": 1})
	add("present", fPresent, flat(0), nil)
	for _, t := range []int64{fGreater, fLess, fApprox, fExtensible, 10, 31} {
		for n := 0; n <= 2; n++ {
			add(fmt.Sprintf("tag %d with %d elements", t, n), t, flat(n), nil)
		}
	}
	return cs
}

// meaning evaluates a filter by the rules of LDAP; err is set where the filter cannot be decided.
func (fc *filterCase) meaning(v *verdicts, f *Term, entry string, vals []int) (match, err tri) {
	x := v.x
	u := x.u
	str := types.Typ[types.String]
	kid := func(path string) *Term { return u.call("text", str, u.sym(path)) }
	name := func(i int) *Term { return u.sym(fmt.Sprintf("%s.a%d.name", entry, i)) }
	value := func(i, j int) *Term { return u.sym(fmt.Sprintf("%s.a%d.v%d", entry, i, j)) }
	anyValue := func(attr *Term, test func(val *Term) tri) tri {
		r := no
		for i, n := range vals {
			inner := no
			for j := 0; j < n; j++ {
				inner = triOr(inner, test(value(i, j)))
			}
			r = triOr(r, triAnd(v.eqFold(name(i), attr), inner))
		}
		return r
	}
	switch fc.tag {
	case fAnd, fOr, fNot:
		n := len(fc.s.kids)
		if fc.tag == fNot && n != 1 {
			return no, yes
		}
		all, some, bad, noneBad := yes, no, no, yes
		for i := 0; i < n; i++ {
			k := u.sym(fmt.Sprintf("f.%d", i))
			ok := v.of(u.eq(u.call("code", nil, k), u.Zero))
			h := v.of(u.call("holds", nil, k))
			all = triAnd(all, ok, h)
			some = triOr(some, triAnd(ok, h))
			bad = triOr(bad, triNot(ok))
			noneBad = triAnd(noneBad, triOr(triAnd(ok, triNot(h))))
		}
		switch fc.tag {
		case fAnd:
			// one part that does not hold decides
			fails := no
			for i := 0; i < n; i++ {
				k := u.sym(fmt.Sprintf("f.%d", i))
				fails = triOr(fails, triAnd(v.of(u.eq(u.call("code", nil, k), u.Zero)), triNot(v.of(u.call("holds", nil, k)))))
			}
			if fails == yes {
				return no, bad
			}
			return all, bad
		case fOr:
			if noneBad == yes {
				return no, no
			}
			return some, bad
		}
		return noneBad, bad // not: its part was decided and does not hold
	case fEqual:
		if len(fc.s.kids) != 2 {
			return no, yes
		}
		return anyValue(kid("f.0"), func(val *Term) tri { return v.eqFold(val, kid("f.1")) }), no
	case fPresent:
		r := no
		for i := range vals {
			r = triOr(r, v.eqFold(name(i), u.call("text", str, f)))
		}
		return r, no
	case fSubstrings:
		if len(fc.s.kids) != 2 || len(fc.s.kids[1].kids) == 0 {
			return no, yes
		}
		unknownTag := no
		m := anyValue(kid("f.0"), func(val *Term) tri {
			r := yes
			rest := lower(u, val)
			for k := range fc.s.kids[1].kids {
				p := fmt.Sprintf("f.1.%d", k)
				c := lower(u, kid(p))
				switch fc.tags[p] {
				case 0:
					r = triAnd(r, v.of(u.call("strings.HasPrefix", nil, rest, c)))
					rest = u.call("afterPrefix", str, rest, c)
				case 1:
					r = triAnd(r, v.of(u.call("contains", nil, rest, c)))
					rest = u.call("afterAny", str, rest, c)
				case 2:
					r = triAnd(r, v.of(u.call("strings.HasSuffix", nil, rest, c)))
					rest = u.call("beforeSuffix", str, rest, c)
				default:
					unknownTag = yes
					r = no
				}
			}
			return r
		})
		return m, unknownTag
	}
	return no, yes
}

func checkC19(r *Run) {
	r.rule("match", "a filter is reported to match exactly where the parts, attribute names and values that decide it by the rules of LDAP were found to", 100)
	r.rule("malformed", "a filter that is malformed, unknown or has a part that cannot be decided does not match", 20)
	r.rule("scope", "an entry is reported to be in scope exactly where its parsed name is the base, a child of it or below it, as the scope asks", 4)
	r.assumption("Folding of letter case by different library functions is the same function.")
	r.assumption("Where the code takes the text of a filter element as its decoded value or as its raw content makes no difference: the filter compiler sets both.")
	r.assumption("In a list of substring components the initial one comes first and the final one last, as the filter compiler makes them.")
	var f *ssa.Function
	for _, g := range r.p.funcs {
		if pkgPath(g) == lsPkg && g.Parent() == nil && g.Name() == "ServerApplyFilter" {
			f = g
		}
	}
	if f == nil {
		r.fail("decidable", "", "", "ServerApplyFilter", "the filter evaluation was not found")
		return
	}
	for _, fc := range filterCases() {
		fc := fc
		shapes := [][]int{{}, {1}, {2}, {1, 1}, {0, 1}}
		switch {
		case fc.tag == fAnd || fc.tag == fOr || fc.tag == fNot:
			shapes = [][]int{{1}}
		case len(fc.tags) > 1:
			shapes = [][]int{{1}, {1, 1}}
		}
		for _, vals := range shapes {
			vals := vals
			s := &Spec{id: r.id, noPanic: true, unroll: 8, unrollIn: []string{lsPkg}, outside: foldModels}
			s.recur = func(c *Call, st *State) []*Outcome {
				u := c.x.u
				var k *Term
				for _, a := range c.args {
					if a.op == OSym && strings.HasPrefix(a.s, "f.") {
						k = a
					}
				}
				if k == nil || c.sig.Results().Len() != 2 {
					return nil
				}
				res := c.sig.Results()
				return one(st, u.tuple(u.call("holds", res.At(0).Type(), k), u.call("code", res.At(1).Type(), k)))
			}
			r.analyse("filter "+fc.name, s, func(x *Exec) {
				u := x.u
				st := newState(u)
				x.constTables(st, strings.TrimSuffix(ldapP, "."), lsPkg)
				p := x.packet(st, "f", f.Params[0].Type(), fc.s)
				tag := func(p *Term, n int64) { st.mem[u.fieldA(u.fieldA(p, "Identifier"), "Tag")] = u.num(n) }
				tag(p, fc.tag)
				for k, n := range fc.tags {
					tag(u.sym(k), n)
				}
				e := x.entryOf(st, "entry", f.Params[1].Type(), vals)
				at := f.Blocks[0].Instrs[0]
				canon := x.filterCanon()
				for _, o := range x.decided(x.runFn(f, []*Term{p, e}, st)) {
					v := x.verdicts(o.st, canon)
					match, bad := fc.meaning(v, p, "entry", vals)
					got := v.of(u.ext(o.ret, 0))
					success := v.of(u.eq(u.ext(o.ret, 1), u.Zero))
					if bad == yes {
						x.oblig["malformed"]++
					} else {
						x.oblig["match"]++
					}
					msg := ""
					switch {
					case success == yes && got == yes && match != yes:
						msg = "is reported to match although its parts were not found to"
					case success == yes && got == no && match != no:
						msg = "is reported not to match although it may"
					case success == no && got == yes:
						msg = "is reported to match together with an error"
					case success == no && bad == no:
						msg = "is refused although it is well-formed"
					case success == yes && bad == yes && !(fc.tag == fOr && got == yes || fc.tag == fAnd && got == no && fc.s != nil && len(fc.s.kids) > 1 || fc.tags != nil && got == no):
						msg = "is decided although that is impossible"
					}
					if msg != "" {
						rule := "match"
						if bad == yes {
							rule = "malformed"
						}
						x.report(rule, at, fc.name, "the filter ("+fc.name+") "+msg, o.st)
					}
				}
			})
		}
	}
	r.scopeRule()
}

// decided splits results until both the answer and the success of the call are known.
func (x *Exec) decided(outs []*Outcome) []*Outcome {
	u := x.u
	var res []*Outcome
	for _, o := range outs {
		if o.kind != KRet {
			continue
		}
		for _, hit := range []bool{true, false} {
			for _, ok := range []bool{true, false} {
				st := o.st.clone()
				if st.assume(u.ext(o.ret, 0), hit) && st.assume(u.eq(u.ext(o.ret, 1), u.Zero), ok) {
					res = append(res, &Outcome{st: st, kind: KRet, ret: o.ret})
				}
			}
		}
	}
	return res
}

// scopeRule decides the evaluation of search scopes.
func (r *Run) scopeRule() {
	f := r.p.fn(lsPkg, "ServerFilterScope")
	if f == nil {
		r.fail("decidable", "", "", "ServerFilterScope", "the scope evaluation was not found")
		return
	}
	for scope := int64(0); scope <= 5; scope++ {
		scope := scope
		s := &Spec{id: r.id, noPanic: true}
		s.outside = func(c *Call, st *State) []*Outcome {
			u := c.x.u
			switch {
			case c.name == ldapP+"ParseDN":
				return stepFails(c, st, c.x.parsedDN(c, st, c.args[0]))
			case hasSuffixAny(c.name, "ldap/v3.DN).EqualFold", "ldap/v3.DN).AncestorOfFold", "ldap/v3.DN).Equal", "ldap/v3.DN).AncestorOf"):
				kind := c.name[strings.LastIndex(c.name, ".")+1:]
				return one(st, u.call(kind, types.Typ[types.Bool], c.x.nameOf(st, c.args[0]), c.x.nameOf(st, c.args[1])))
			}
			return nil
		}
		r.analyse(fmt.Sprintf("scope %d", scope), s, func(x *Exec) {
			u := x.u
			st := newState(u)
			e := x.entryOf(st, "entry", f.Params[2].Type(), nil)
			base := x.symT("base", types.Typ[types.String])
			at := f.Blocks[0].Instrs[0]
			d := u.call("parsed", nil, u.sym("entry.DN"))
			b := u.call("parsed", nil, base)
			memo := map[*Term]*Term{}
			depths := func(t *Term) *Term {
				return u.subst(t, func(t *Term) *Term {
					if t.op == OLen && t.a[0].op == OInit && t.a[0].a[0].op == OFieldA && t.a[0].a[0].s == "RDNs" {
						return u.call("depth", types.Typ[types.Int], t.a[0].a[0].a[0])
					}
					return nil
				}, memo)
			}
			for _, o := range x.decided(x.runFn(f, []*Term{base, u.num(scope), e}, st)) {
				x.oblig["scope"]++
				v := x.verdicts(o.st, depths)
				got := v.of(u.ext(o.ret, 0))
				success := v.of(u.eq(u.ext(o.ret, 1), u.Zero))
				same := func(a, b *Term) tri {
					return triOr(v.of(u.call("EqualFold", nil, a, b)), v.of(u.call("EqualFold", nil, b, a)))
				}
				neither := func(a, b *Term) bool {
					return v.of(u.call("EqualFold", nil, a, b)) == no || v.of(u.call("EqualFold", nil, b, a)) == no
				}
				eq := func(a, b *Term) tri {
					if neither(a, b) {
						return no
					}
					return same(a, b)
				}
				below := v.of(u.call("AncestorOfFold", nil, b, d))
				empty := v.of(u.eq(u.call("depth", nil, d), u.Zero))
				want := unknown
				switch scope {
				case 0:
					want = eq(d, b)
				case 1:
					want = eq(u.call("parent", nil, d), b)
					if empty == yes {
						want = no
					}
					if want == unknown {
						want = triAnd(below, v.of(u.eq(u.call("depth", nil, d), u.mk(&Term{op: OBin, s: "+", a: []*Term{u.call("depth", nil, b), u.num(1)}, t: types.Typ[types.Int]}))))
					}
				case 2:
					want = triOr(eq(d, b), below)
				default:
					want = no
				}
				msg := ""
				switch {
				case o.st.mon["failed"] != nil:
					if success != no || got != no {
						msg = "is decided although a name cannot be parsed"
					}
				case scope > 2:
					if got != no || success != no {
						msg = "is not refused"
					}
				case success != yes:
					msg = "is refused"
				case got != want || got == unknown:
					msg = fmt.Sprintf("is reported as %s although the names say %s", triName(got), triName(want))
				}
				if msg != "" {
					x.report("scope", at, fmt.Sprintf("scope %d", scope), fmt.Sprintf("scope %d %s", scope, msg), o.st)
				}
			}
		})
	}
}

func triName(t tri) string { return [...]string{"outside", "undetermined", "inside"}[t+1] }

// parsedDN is the parsed form of a name; its components have a name of their own.
func (x *Exec) parsedDN(c *Call, st *State, text *Term) *Term {
	u := x.u
	p := u.call("parsed", nil, text)
	if p.t == nil {
		p.t = c.sig.Results().At(0).Type()
	}
	st.assume(u.eq(p, u.Nil), false)
	return p
}

// nameOf recognises a parsed name or the name without its first component.
func (x *Exec) nameOf(st *State, t *Term) *Term {
	u := x.u
	if t.op == OCall && t.s == "parsed" {
		return t
	}
	v := st.load(u.fieldA(t, "RDNs"), nil)
	if v.op == OSliceOf && v.a[2] == u.Nil && v.a[1] == u.num(1) {
		if l := v.a[0]; l.op == OInit && l.a[0].op == OFieldA && l.a[0].s == "RDNs" && l.a[0].a[0].op == OCall && l.a[0].a[0].s == "parsed" {
			return u.call("parent", nil, l.a[0].a[0])
		}
	}
	return t
}
