package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C18"] = checkC18
	props["C45"] = checkC45
}

// searchCase is a search whose backend or data offers some entries.
type searchCase struct {
	name      string
	entries   [][]int // numbers of values of the attributes of each entry
	requested int
	limit     int64
	enforce   bool // the front end has to filter
}

func searchCases() []searchCase {
	var cs []searchCase
	for _, l := range []int64{0, 1, 2} {
		cs = append(cs, searchCase{fmt.Sprintf("three entries with limit %d", l), [][]int{{1}, {1}, {1}}, 0, l, true})
	}
	for n := 0; n <= 2; n++ {
		cs = append(cs, searchCase{fmt.Sprintf("two attributes with %d requested", n), [][]int{{2, 1}}, n, 0, true})
	}
	cs = append(cs, searchCase{"no attributes", [][]int{{}}, 1, 0, true})
	return cs
}

// searchRun follows one case.
type searchRun struct {
	sc    searchCase
	orig  map[string]*Term // attribute lists of the entries
	reqs  []*Term
	canon func(t *Term) *Term
}

func (sr *searchRun) entryName(k int) string { return fmt.Sprintf("e%d", k) }

// which finds the offered entry of which e is a copy with its first n attributes still there.
func (sr *searchRun) which(x *Exec, st *State, e *Term) int {
	dn := st.load(x.u.fieldA(e, "DN"), types.Typ[types.String])
	for k := range sr.sc.entries {
		if dn == x.u.sym(sr.entryName(k)+".DN") {
			return k
		}
	}
	return -1
}

// complete: the attributes of e are those of the offered entry.
func (sr *searchRun) complete(x *Exec, st *State, e *Term, k int) bool {
	u := x.u
	els, ok := listElems(st, st.load(u.fieldA(e, "Attributes"), nil))
	if !ok || len(els) != len(sr.sc.entries[k]) {
		return false
	}
	for i, a := range els {
		if sr.attribute(x, st, a, k) != i {
			return false
		}
	}
	return true
}

// attribute finds the attribute of the offered entry that a is or is a copy of.
func (sr *searchRun) attribute(x *Exec, st *State, a *Term, k int) int {
	u := x.u
	name := st.load(u.fieldA(a, "Name"), types.Typ[types.String])
	vals, ok := listElems(st, st.load(u.fieldA(a, "Values"), nil))
	if !ok {
		return -1
	}
	return sr.attributeBy(x, name, vals, k)
}

func (sr *searchRun) attributeBy(x *Exec, name *Term, vals []*Term, k int) int {
	u := x.u
	for i, n := range sr.sc.entries[k] {
		if name != u.sym(fmt.Sprintf("%s.a%d.name", sr.entryName(k), i)) || len(vals) != n {
			continue
		}
		same := true
		for j := range vals {
			same = same && vals[j] == u.sym(fmt.Sprintf("%s.a%d.v%d", sr.entryName(k), i, j))
		}
		if same {
			return i
		}
	}
	return -1
}

// requested: was the attribute asked for.
func (sr *searchRun) requested(x *Exec, v *verdicts, k, i int) tri {
	u := x.u
	if sr.sc.requested == 0 || !sr.sc.enforce {
		return yes
	}
	name := u.sym(fmt.Sprintf("%s.a%d.name", sr.entryName(k), i))
	r := no
	for _, q := range sr.reqs {
		r = triOr(r, v.of(u.eq(v.canon(q), u.str("*"))), v.eqFold(name, q))
	}
	if sr.sc.requested == 1 {
		q := v.canon(sr.reqs[0])
		r = triOr(r, v.of(u.eq(q, u.EmptyS)), v.of(u.eq(u.length(q), u.Zero)), triNot(v.of(u.lt(u.Zero, u.length(q)))))
	}
	return r
}

// models decides filter and scope of the offered entries.
func (sr *searchRun) models(filter, base, scope func(st *State, t *Term) bool) map[string]Model {
	decide := func(c *Call, st *State, kind string, e *Term, fits bool) []*Outcome {
		u := c.x.u
		code := c.x.typed2(u.nonce(c.ctx, c.in, kind+"code"), c.sig.Results().At(1).Type())
		k := sr.which(c.x, st, e)
		if k < 0 || !fits || kind == "filter" && !sr.complete(c.x, st, e, k) {
			// something else than the request asks for
			return one(st, u.tuple(c.x.typed2(u.nonce(c.ctx, c.in, kind), types.Typ[types.Bool]), u.Zero))
		}
		key := fmt.Sprintf("%s %d", kind, k)
		if d := st.mon[key]; d != nil {
			return one(st, u.tuple(d, u.Zero))
		}
		var outs []*Outcome
		for _, d := range []*Term{u.True, u.False} {
			s := st.clone()
			s.mon[key] = d
			s.note(c.pos(), fmt.Sprintf("entry %d: %s %s", k, kind, d))
			outs = append(outs, &Outcome{st: s, ret: u.tuple(d, u.Zero)})
		}
		if st.assume(u.eq(code, u.Zero), false) {
			st.mon["erred"] = u.True
			st.note(c.pos(), fmt.Sprintf("entry %d: %s cannot be decided", k, kind))
			outs = append(outs, &Outcome{st: st, ret: u.tuple(u.False, code)})
		}
		return outs
	}
	return map[string]Model{
		lsPkg + ".ServerApplyFilter": func(c *Call, st *State) []*Outcome {
			return decide(c, st, "filter", c.args[1], filter(st, c.args[0]))
		},
		lsPkg + ".ServerFilterScope": func(c *Call, st *State) []*Outcome {
			return decide(c, st, "scope", c.args[2], base(st, c.args[0]) && scope(st, c.args[1]))
		},
	}
}

func (x *Exec) typed2(t *Term, typ types.Type) *Term {
	if t.t == nil {
		t.t = typ
	}
	return t
}

// sentEntry checks an entry that goes to the client: only is C18, all is C45.
func (sr *searchRun) sentEntry(x *Exec, in ssa.Instruction, st *State, dn *Term, attrs [][]*Term, all bool) {
	u := x.u
	k := -1
	for i := range sr.sc.entries {
		if dn == u.sym(sr.entryName(i)+".DN") {
			k = i
		}
	}
	rule, arule := "selected", "attributes"
	if all {
		arule = "contents"
	}
	if k < 0 {
		if !all {
			x.oblig[rule]++
			x.report(rule, in, "name", "an entry is sent under a name that the backend did not return: "+clip(dn.String()), st)
		}
		return
	}
	v := x.verdicts(st, sr.canon)
	if !all {
		x.oblig[rule]++
		for _, kind := range []string{"filter", "scope"} {
			if sr.sc.enforce && st.mon[fmt.Sprintf("%s %d", kind, k)] != u.True {
				x.report(rule, in, kind, "an entry is sent although it was not found to match the "+kind, st)
			}
		}
		if st.mon[fmt.Sprintf("sent %d", k)] != nil {
			x.report(rule, in, "twice", "an entry is sent twice", st)
		}
		x.oblig["limit"]++
		if n, _ := st.mon["sent"].intConst2(); sr.sc.enforce && sr.sc.limit > 0 && n >= sr.sc.limit {
			x.report("limit", in, "limit", fmt.Sprintf("more than %d entries are sent", sr.sc.limit), st)
		}
	}
	seen := map[int]int{}
	for _, a := range attrs {
		i := sr.attributeBy(x, a[0], a[1:], k)
		x.oblig[arule]++
		if i < 0 {
			x.report(arule, in, "attribute", "an attribute is sent that differs from the one the backend returned", st)
			continue
		}
		seen[i]++
		if !all && sr.requested(x, v, k, i) != yes {
			x.report(arule, in, "requested", "an attribute is sent that was not found to be requested", st)
		}
		if all && seen[i] > 1 {
			x.report(arule, in, "repeated", "an attribute is sent twice", st)
		}
	}
	if all {
		for i := range sr.sc.entries[k] {
			x.oblig[arule]++
			if seen[i] == 0 && sr.requested(x, v, k, i) != no {
				x.report(arule, in, "missing", "an attribute of the entry is not sent although it may be requested", st)
			}
		}
	}
	st.mon[fmt.Sprintf("sent %d", k)] = u.True
	st.count("sent", 1)
}

func (t *Term) intConst2() (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.intConst()
}

// finished checks which entries were sent when a search succeeds.
func (sr *searchRun) finished(x *Exec, in ssa.Instruction, st *State, offered int) {
	u := x.u
	x.oblig["complete"]++
	n, _ := st.mon["sent"].intConst2()
	if sr.sc.enforce && sr.sc.limit > 0 && n >= sr.sc.limit {
		return
	}
	for k := 0; k < offered; k++ {
		if st.mon[fmt.Sprintf("sent %d", k)] != nil {
			continue
		}
		if !sr.sc.enforce || st.mon[fmt.Sprintf("filter %d", k)] != u.False && st.mon[fmt.Sprintf("scope %d", k)] != u.False {
			x.report("complete", in, "missing", fmt.Sprintf("a search succeeds although entry %d of %d was neither sent nor found to be outside of the search", k+1, offered), st)
		}
	}
}

// frontSearch analyses the search handler of the front end.
func (r *Run) frontSearch(all bool) {
	hs := r.p.entryHandlers("Search")
	if len(hs) == 0 {
		r.fail("decidable", "", "", "Search", "no handler leads to the search operation")
	}
	for _, h := range hs {
		h := h
		cases := append(searchCases(), searchCase{"filtered by the backend", [][]int{{2, 1}, {1}, {}}, 1, 1, false})
		for _, sc := range cases {
			sc := sc
			sr := &searchRun{sc: sc}
			s := decodeSpec(r)
			s.policy = policy(s.policy, map[string]string{lsPkg + ".encodeSearchResponse": "", lsPkg + ".ServerFilterAttributes": ""})
			s.outside = foldModels
			reqFilter := func(st *State, t *Term) bool {
				// compiled again from its text form, or used as it came
				return t == st.u.sym("req.6") || t.any(func(t *Term) bool { return t.op == OCall && hasSuffixAny(t.s, ".CompileFilter") }) && t.contains(st.u.sym("req.6"))
			}
			elem := func(path string) func(st *State, t *Term) bool {
				return func(st *State, t *Term) bool {
					n := 0
					t.any(func(s *Term) bool {
						if s.op == OSym {
							n++
							if s.s != path {
								n += 100
							}
						}
						return false
					})
					return n > 0 && n < 100
				}
			}
			s.models = sr.models(reqFilter, elem("req.0"), elem("req.1"))
			s.iface = func(c *Call, st *State) []*Outcome {
				if backendOp(c) != "Search" {
					return nil
				}
				x, u := c.x, c.x.u
				rt := c.sig.Results().At(0).Type()
				stt, ok := isStruct(rt)
				if !ok {
					x.undecided("search result type")
				}
				res := x.typed2(u.nonce(c.ctx, c.in, "result"), rt)
				fs := make([]*Term, stt.NumFields())
				for i := range fs {
					f := stt.Field(i)
					fs[i] = u.field(res, i, f.Name(), f.Type())
					switch f.Name() {
					case "ResultCode":
						fs[i] = u.Zero
					case "Entries":
						var es []*Term
						for k, vals := range sc.entries {
							es = append(es, x.entryOf(st, sr.entryName(k), f.Type().Underlying().(*types.Slice).Elem(), vals))
						}
						fs[i] = x.listOfT(es, f.Type())
					}
				}
				return one(st, u.tuple(u.mk(&Term{op: OStruct, t: rt, a: fs}), u.Nil))
			}
			s.pre = func(c *Call, st *State) {
				if c.name != "(net.Conn).Write" {
					return
				}
				x := c.x
				data := st.value(c.args[1])
				resp, bad := x.readResponse(st, data)
				if bad != "" {
					x.report("selected", c.in, "packet", bad, st)
					return
				}
				if resp.tag != tagSearchEntry {
					return
				}
				dn, attrs, bad := x.readEntry(st, data)
				if bad != "" {
					rule := "selected"
					if all {
						rule = "contents"
					}
					x.report(rule, c.in, "entry", bad, st)
					return
				}
				sr.sentEntry(x, c.in, st, dn, attrs, all)
			}
			r.analyse("front end: "+sc.name, s, func(x *Exec) {
				u := x.u
				sr.canon = x.filterCanon()
				st := newState(u)
				shape := node(leaf(), leaf(), leaf(), leaf(), leaf(), leaf(), leaf(), flat(sc.requested))
				args := x.handlerArgs(h, st, shape)
				sr.reqs = nil
				for i := 0; i < sc.requested; i++ {
					sr.reqs = append(sr.reqs, u.call("text", types.Typ[types.String], u.sym(fmt.Sprintf("req.7.%d", i))))
				}
				st.mem[u.fieldA(u.sym("req.3"), "Value")] = u.mk(&Term{op: OIface, a: []*Term{u.num(sc.limit)}, t: types.Typ[types.Int64]})
				st.mem[u.fieldA(u.sym("server"), "EnforceLDAP")] = u.boolean(sc.enforce)
				for _, o := range x.runFn(h, args, st) {
					if o.kind != KRet || !all || o.st.mon["erred"] != nil {
						continue
					}
					err := o.ret
					if o.ret.op == OTuple {
						err = o.ret.a[len(o.ret.a)-1]
					}
					if code, ok := o.st.load(u.fieldA(unwrap(err), "ResultCode"), types.Typ[types.Uint16]).intConst(); ok && code == 4 {
						x.oblig["complete"]++
						if n, _ := o.st.mon["sent"].intConst2(); !sc.enforce || sc.limit == 0 || n < sc.limit {
							x.report("complete", h.Blocks[0].Instrs[0], "limit", fmt.Sprintf("a search with size limit %d is cut off after %d entries", sc.limit, n), o.st)
						}
					}
					if o.st.isNil(err) {
						sr.finished(x, h.Blocks[0].Instrs[0], o.st, len(sc.entries))
					}
				}
			})
		}
	}
}

// readEntry reads a search entry packet: the name, and per attribute its type and values.
func (x *Exec) readEntry(st *State, data *Term) (*Term, [][]*Term, string) {
	kids := func(p *Term) []*Term {
		ks := st.packetField(p, "Children")
		if ks.op != OAppend || ks.a[0].op != ONil {
			return nil
		}
		return ks.a[1:]
	}
	text := func(p *Term) *Term {
		v := st.packetField(p, "Value")
		if v.op == OIface {
			v = v.a[0]
		}
		return v
	}
	top := kids(data.a[0])
	if len(top) < 2 {
		return nil, nil, "the packet is incomplete"
	}
	op := kids(top[1])
	if len(op) != 2 {
		return nil, nil, "the entry does not have a name and attributes"
	}
	if ks := st.packetField(op[1], "Children"); ks.op != OAppend && !st.isNil(ks) {
		return nil, nil, "the list of attributes is unknown: " + clip(ks.String())
	}
	var attrs [][]*Term
	for _, a := range kids(op[1]) {
		ks := kids(a)
		if len(ks) != 2 {
			return nil, nil, "an attribute does not have a type and values"
		}
		el := []*Term{text(ks[0])}
		if v := st.packetField(ks[1], "Children"); v.op != OAppend && !st.isNil(v) {
			return nil, nil, "the list of values is unknown: " + clip(v.String())
		}
		for _, v := range kids(ks[1]) {
			el = append(el, text(v))
		}
		attrs = append(attrs, el)
	}
	return text(op[0]), attrs, ""
}

func checkC18(r *Run) {
	r.rule("selected", "every entry that is sent was found to match the filter of the request and to be in its scope, and is sent once", 10)
	r.rule("attributes", "every attribute that is sent belongs to the entry and was found to be requested, unless none was named", 6)
	r.rule("limit", "no entry is sent when as many as the size limit allows were sent before", 6)
	r.rule("enforced", "where the database backend is served, the front end has to filter", 1)
	r.frontSearch(false)
	r.ldifSearch(false)
	r.enforced(false)
}

func checkC45(r *Run) {
	r.rule("complete", "a search succeeds only if every entry the backend offers was sent, found to be outside of the search, or beyond the size limit", 10)
	r.rule("contents", "an entry is sent with its own name and, once each, all of its requested attributes with all their values in order", 6)
	r.rule("filtered-once", "where an LDIF backend is served, whose entries carry requested attributes only, the front end does not filter again", 1)
	r.rule("offered", "the database backend offers, once each, the base entry (base scope), its children (one level) or itself and all its descendants (subtree)", 10)
	r.assumption("Trees are analysed with up to two children per entry on two levels.")
	r.frontSearch(true)
	r.ldifSearch(true)
	r.storeSearch()
	r.enforced(true)
}

// enforced checks which part filters the entries of a served backend.
func (r *Run) enforced(all bool) {
	sink := func(kind string, c *Call, st *State) {
		if kind != "serve" {
			return
		}
		x := c.x
		h := st.mon["serves Search"]
		if h == nil || h.op != OSym {
			return
		}
		enforce := x.u.False
		if v := st.mon["enforce"]; v != nil {
			enforce = v
		}
		switch {
		case h.s == "backend boltdb" && !all:
			x.obligation("enforced", c.in)
			if !st.holds(enforce) {
				x.report("enforced", c.in, "database", "the entries of the database backend are sent without filtering", st)
			}
		case h.s != "backend boltdb" && all:
			x.obligation("filtered-once", c.in)
			if !st.refuted(enforce) {
				x.report("filtered-once", c.in, "LDIF", "the front end filters entries again from which the LDIF backend removed attributes", st)
			}
		}
	}
	r.serveRun("", sink, nil, func(s *Spec) {
		store := s.store
		s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, addr, val *Term) {
			if store != nil {
				store(x, in, fn, st, addr, val)
			}
			if addr.op == OFieldA && addr.s == "EnforceLDAP" {
				st.mon["enforce"] = val
			}
		}
	})
}

// pageFull: the number of entries reached the size of the page that was asked for.
func pageFull(st *State, n int) bool {
	for a := range st.facts {
		full := false
		a.any(func(t *Term) bool {
			if t.op == OInit && t.a[0].op == OFieldA && t.a[0].s == "PagingSize" {
				full = st.refuted(st.u.lt(st.u.num(int64(n)), t)) || n == 0 && st.holds(st.u.eq(t, st.u.Zero))
			}
			return full
		})
		if full {
			return true
		}
	}
	return false
}

// ldifSearch analyses the search of the LDIF backend.
func (r *Run) ldifSearch(all bool) {
	for _, sc := range searchCases() {
		sc := sc
		sr := &searchRun{sc: sc}
		s := &Spec{noPanic: true, unroll: 8, unrollIn: []string{ldifPkg, lsPkg}}
		s.policy = policy(ldifSearchPolicy, map[string]string{lsPkg + ".CompileFilter": "pure", ldifPkg + ".newIndexMapRegister": "opaque", ldifPkg + ".TemplateFuncs": "opaque", ldifPkg + ".parseFilterToIndexFilter": "pure"})
		req := func(f string) func(st *State, t *Term) bool {
			return func(st *State, t *Term) bool {
				r := st.u.initOf(st.u.fieldA(st.u.sym("req"), f), nil)
				return t == r || f == "Filter" && t.contains(r) && t.any(func(t *Term) bool { return t.op == OCall && hasSuffixAny(t.s, ".CompileFilter") })
			}
		}
		s.models = sr.models(req("Filter"), req("BaseDN"), req("Scope"))
		s.outside = func(c *Call, st *State) []*Outcome {
			if pagingTable(c.name) && hasSuffixAny(c.name, ".Get", ".Load", ".Pop") {
				u := c.x.u
				s2 := st.clone()
				return []*Outcome{{st: st, ret: u.tuple(u.call("active paging", nil), u.True)}, {st: s2, ret: u.tuple(u.Nil, u.False)}}
			}
			return foldModels(c, st)
		}
		s.iface = nextBackend
		s.follow = func(c *Call, st *State) bool { return false }
		s.recv = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch *Term) *Term {
			u := x.u
			n := int64(0)
			if t := st.mon["received"]; t != nil {
				n, _ = t.intConst()
			}
			if n >= int64(len(sc.entries)) {
				st.mon["end"] = u.True
				return u.Nil
			}
			st.mon["received"] = u.num(n + 1)
			return st.mon[fmt.Sprintf("record %d", n)]
		}
		r.backendRunWith(backends[1], "Search", s, func(x *Exec, st *State) {
			u := x.u
			sr.canon = x.filterCanon()
			et := types.NewPointer(x.typeByName(strings.TrimSuffix(ldapP, "."), "Entry"))
			for k, vals := range sc.entries {
				e := x.entryOf(st, sr.entryName(k), et, vals)
				rec := u.alloc(u.ctx(nil, nil, nil), nil, fmt.Sprintf("record %d", k))
				st.mem[u.fieldA(rec, "Entry")] = e
				st.mon[fmt.Sprintf("record %d", k)] = rec
			}
			q := u.sym("req")
			sr.reqs = nil
			for i := 0; i < sc.requested; i++ {
				sr.reqs = append(sr.reqs, x.symT(fmt.Sprintf("asked%d", i), types.Typ[types.String]))
			}
			st.mem[u.fieldA(q, "Attributes")] = x.listOfT(sr.reqs, types.NewSlice(types.Typ[types.String]))
			st.mem[u.fieldA(q, "SizeLimit")] = u.num(sc.limit)
		}, func(x *Exec, m *ssa.Function, o *Outcome) {
			at := m.Blocks[0].Instrs[0]
			u, st := x.u, o.st
			if !st.isNil(u.ext(o.ret, 1)) {
				return
			}
			for a, v := range st.facts {
				if v && a.op == OEq && a.contains(u.Nil) && a.contains(u.call("active paging", nil)) {
					return // the table holds channels
				}
			}
			res := u.ext(o.ret, 0)
			if res.op == ONonce || res.op == OCall {
				return // passed on from another backend
			}
			els, ok := []*Term(nil), false
			if stt, isS := isStruct(res.t); isS && res.op == OStruct {
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == "Entries" {
						els, ok = listElems(st, res.a[i])
					}
				}
			}
			if !ok {
				x.undecided("entries of the search result: %s", clip(res.String()))
			}
			n := len(els)
			for _, e := range els {
				dn := st.load(u.fieldA(e, "DN"), types.Typ[types.String])
				as, ok := listElems(st, st.load(u.fieldA(e, "Attributes"), nil))
				if !ok {
					x.undecided("attributes of a search result %s (length %s)", clip(st.load(u.fieldA(e, "Attributes"), nil).String()), clip(st.length(st.load(u.fieldA(e, "Attributes"), nil)).String()))
				}
				var attrs [][]*Term
				for _, a := range as {
					vals, ok := listElems(st, st.load(u.fieldA(a, "Values"), nil))
					if !ok {
						x.undecided("values of a search result")
					}
					attrs = append(attrs, append([]*Term{st.load(u.fieldA(a, "Name"), types.Typ[types.String])}, vals...))
				}
				sr.sentEntry(x, at, st, dn, attrs, all)
			}
			if !all {
				return
			}
			received, _ := st.mon["received"].intConst2()
			if st.mon["end"] != nil {
				received = int64(len(sc.entries))
			} else if !(sc.limit > 0 && int64(n) >= sc.limit) && !pageFull(st, n) {
				x.oblig["complete"]++
				x.report("complete", at, "early end", fmt.Sprintf("a search ends with %d entries before all were looked at, without a limit that asks for it", n), st)
			}
			sr.finished(x, at, st, int(received))
		})
	}
}

// storeSearch analyses the search of the database backend: the entries it offers.
func (r *Run) storeSearch() {
	for scope := int64(0); scope <= 2; scope++ {
		scope := scope
		s := storeSpec()
		s.noPanic = true
		s.lists = treeLists
		s.pre = func(c *Call, st *State) {
			if v := st.mon["bolt.ver"]; v != nil && st.mon["bolt.base"] == nil {
				st.mon["bolt.base"] = v
			}
		}
		s.outside = func(c *Call, st *State) []*Outcome {
			if c.name == "errors.Is" && c.args[1].any(func(t *Term) bool { return t.op == OGlobal }) {
				// errors of libraries are not the errors this repository defines
				return one(st, c.x.u.boolean(c.args[0].contains(c.args[1])))
			}
			return nil
		}
		s.recur = func(c *Call, st *State) []*Outcome { return c.x.inlineCall(c, st) }
		r.backendRunWith(backends[0], "Search", s, func(x *Exec, st *State) {
			u := x.u
			st.mem[u.fieldA(u.sym("req"), "Scope")] = u.num(scope)
		}, func(x *Exec, m *ssa.Function, o *Outcome) {
			u, st := x.u, o.st
			if !st.isNil(u.ext(o.ret, 1)) {
				return
			}
			at := m.Blocks[0].Instrs[0]
			var els []*Term
			ok := false
			if res := u.ext(o.ret, 0); res.op == OStruct {
				if stt, isS := isStruct(res.t); isS {
					for i := 0; i < stt.NumFields(); i++ {
						if stt.Field(i).Name() == "Entries" {
							els, ok = listElems(st, res.a[i])
						}
					}
				}
			}
			if !ok {
				x.undecided("entries of the search result: %s", clip(o.ret.String()))
			}
			name := x.normDN(x.fieldInit(u.sym("req"), "BaseDN"))
			x.oblig["offered"]++
			if x.absent(st, name) {
				if len(els) > 0 {
					x.report("offered", at, "absent", "entries are returned although the base of the search does not exist", st)
				}
				return
			}
			var want []*Term
			var add func(id *Term, self bool, levels int64)
			add = func(id *Term, self bool, levels int64) {
				if self {
					want = append(want, id)
				}
				if levels == 0 {
					return
				}
				v, read := x.listOf(st, id)
				if !read {
					x.report("offered", at, "not read", fmt.Sprintf("a search with scope %d does not look at the children of an entry in its scope", scope), st)
					return
				}
				segs, _ := u.segments(v)
				for _, seg := range segs {
					if seg.op == OLE64 {
						add(seg.a[0], true, levels-1)
					}
				}
			}
			root := x.idOf(st, name)
			switch scope {
			case 0:
				add(root, true, 0)
			case 1:
				add(root, false, 1)
			case 2:
				add(root, true, 3)
			}
			for _, id := range want {
				n := 0
				e := u.call("gobdecode", nil, x.startGet(st, "id2entry", x.le(id)))
				for _, el := range els {
					if el == e {
						n++
					}
				}
				if n != 1 {
					x.report("offered", at, "entry", fmt.Sprintf("an entry in scope %d is returned %d times: %s", scope, n, clip(id.String())), st)
				}
			}
			if len(els) != len(want) {
				x.report("offered", at, "number", fmt.Sprintf("%d entries are returned for scope %d instead of %d", len(els), scope, len(want)), st)
			}
		})
	}
}

// treeLists gives the first two levels of a tree up to two children each.
func treeLists(x *Exec, st *State, g *Term) []*Term {
	if bucketName(g.a[0]) != "id2children" {
		return nil
	}
	u := x.u
	if depth(g.a[1]) > 1 {
		return []*Term{u.Nil}
	}
	return childLists(x, st, g)[:4]
}

// depth counts the steps from a parent to a child in a key.
func depth(t *Term) int {
	d := 0
	for _, a := range t.a {
		d = max(d, depth(a))
	}
	if t.op == OCall && t.s == "child" {
		d++
	}
	return d
}
