package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C20"] = checkC20
}

// ftree is a filter; the leaves are named by their path.
type ftree struct {
	tag  int64
	kids []*ftree
	subs []int64 // tags of the components of a substring filter
}

func (f *ftree) String() string {
	switch f.tag {
	case fAnd, fOr, fNot:
		s := "(" + map[int64]string{fAnd: "&", fOr: "|", fNot: "!"}[f.tag]
		for _, k := range f.kids {
			s += k.String()
		}
		return s + ")"
	case fEqual:
		return "(=)"
	case fPresent:
		return "(=*)"
	case fSubstrings:
		return "(" + strings.Trim(strings.ReplaceAll(fmt.Sprint(f.subs), " ", "*"), "[]") + "*)"
	}
	return fmt.Sprintf("(tag %d)", f.tag)
}

func (f *ftree) shape() *shape {
	switch f.tag {
	case fEqual, fGreater, fLess, fApprox:
		return flat(2)
	case fSubstrings:
		return node(leaf(), flat(len(f.subs)))
	}
	s := &shape{}
	for _, k := range f.kids {
		s.kids = append(s.kids, k.shape())
	}
	return s
}

func (f *ftree) each(path string, do func(f *ftree, path string)) {
	do(f, path)
	for i, k := range f.kids {
		k.each(fmt.Sprintf("%s.%d", path, i), do)
	}
}

// holds evaluates the filter where the given leaves hold.
func (f *ftree) holds(path string, leaves map[string]bool) bool {
	kid := func(i int) bool { return f.kids[i].holds(fmt.Sprintf("%s.%d", path, i), leaves) }
	switch f.tag {
	case fAnd:
		for i := range f.kids {
			if !kid(i) {
				return false
			}
		}
		return true
	case fOr:
		for i := range f.kids {
			if kid(i) {
				return true
			}
		}
		return false
	case fNot:
		return !kid(0)
	}
	return leaves[path]
}

func filterTrees() []*ftree {
	eq := func() *ftree { return &ftree{tag: fEqual} }
	pres := func() *ftree { return &ftree{tag: fPresent} }
	ge := func() *ftree { return &ftree{tag: fGreater} }
	sub := func(tags ...int64) *ftree { return &ftree{tag: fSubstrings, subs: tags} }
	and := func(k ...*ftree) *ftree { return &ftree{tag: fAnd, kids: k} }
	or := func(k ...*ftree) *ftree { return &ftree{tag: fOr, kids: k} }
	not := func(k *ftree) *ftree { return &ftree{tag: fNot, kids: []*ftree{k}} }
	return []*ftree{
		eq(), pres(), ge(), sub(0), sub(1), sub(2), sub(0, 2), sub(1, 1), {tag: fExtensible}, {tag: fLess}, {tag: fApprox},
		not(eq()), not(pres()), not(not(eq())), and(eq()), or(eq()), or(pres()),
		and(eq(), eq()), or(eq(), eq()), or(eq(), pres()), or(eq(), sub(1)), and(eq(), sub(0)),
		and(eq(), not(eq())), or(eq(), not(eq())), or(not(eq()), eq()), and(not(eq()), eq()),
		and(eq(), ge()), or(eq(), ge()), or(ge(), eq()), or(eq(), sub(0, 2)), and(sub(0, 2), eq()),
		or(eq(), &ftree{tag: fExtensible}), or(eq(), &ftree{tag: fLess}), or(eq(), &ftree{tag: fApprox}),
		and(eq(), or(eq(), eq())), or(eq(), and(eq(), eq())), or(and(eq(), eq()), eq()), and(or(eq(), eq()), eq()),
		or(eq(), and(not(eq()))), or(and(not(eq())), eq()), and(or(eq(), not(eq())), eq()), or(eq(), or(not(eq()), eq())),
		or(eq(), and(ge(), eq())), or(and(eq(), not(eq())), eq()), or(and(eq(), pres()), and(eq(), not(eq()))),
		and(eq(), and(eq(), not(eq()))), not(or(eq(), eq())), not(and(eq(), eq())), and(not(or(eq(), eq())), eq()),
		and(eq(), eq(), eq()), or(eq(), eq(), eq()), or(eq(), eq(), not(eq())), or(eq(), pres(), sub(2)),
		or(eq(), or(eq(), or(eq(), ge()))), and(eq(), or(eq(), and(eq(), eq()))), or(and(eq(), or(eq(), eq())), eq()),
	}
}

// constModels computes library functions of constants.
func constModels(c *Call, st *State) []*Outcome {
	u := c.x.u
	text := func(i int) (string, bool) { return c.args[i].strConst() }
	switch c.name {
	case "strings.Contains":
		a, ok1 := text(0)
		b, ok2 := text(1)
		if ok1 && ok2 {
			return one(st, u.boolean(strings.Contains(a, b)))
		}
	case "strings.ContainsRune", "strings.IndexByte":
		a, ok1 := text(0)
		b, ok2 := c.args[1].intConst()
		if ok1 && ok2 && c.name == "strings.ContainsRune" {
			return one(st, u.boolean(strings.ContainsRune(a, rune(b))))
		}
		if ok1 && ok2 {
			return one(st, u.num(int64(strings.IndexByte(a, byte(b)))))
		}
	case "strings.Join":
		return textModels(c, st)
	case "strings.Split":
		a, ok1 := text(0)
		b, ok2 := text(1)
		if ok1 && ok2 {
			var els []*Term
			for _, s := range strings.Split(a, b) {
				els = append(els, u.str(s))
			}
			return one(st, c.x.listOfT(els, c.sig.Results().At(0).Type()))
		}
	case "strconv.FormatInt", "strconv.Itoa", "strconv.FormatUint":
		if n, ok := c.args[0].intConst(); ok {
			if len(c.args) > 1 {
				if b, ok := c.args[1].intConst(); !ok || b != 10 {
					return nil
				}
			}
			return one(st, u.str(strconv.FormatInt(n, 10)))
		}
	case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
		if a, ok := text(0); ok {
			n, err := strconv.ParseInt(a, 10, 64)
			if err == nil {
				return one(st, u.tuple(u.num(n), u.Nil))
			}
		}
	case "fmt.Sprintf":
		f, ok := text(0)
		els, ok2 := listElems(st, c.args[1])
		if !ok || !ok2 {
			return nil
		}
		var vals []interface{}
		for _, e := range els {
			if e.op != OIface {
				return nil
			}
			if s, ok := e.a[0].strConst(); ok {
				vals = append(vals, s)
			} else if n, ok := e.a[0].intConst(); ok {
				vals = append(vals, n)
			} else {
				return nil
			}
		}
		return one(st, u.str(fmt.Sprintf(f, vals...)))
	}
	return foldModels(c, st)
}

func checkC20(r *Run) {
	r.rule("candidates", "a search that does not walk through all entries below its base sends every entry below its base that the index gives for the parts it asked for, and no entry can match the filter without being given for one of them", 40)
	r.rule("walk", "a walk covers all entries below the base and sends each of them", 20)
	r.rule("indexed", "the index gives every entry that has the attribute with a value that is asked for, or reports that it cannot tell", 40)
	r.assumption("The trees that hold the keys of an index keep what is put in and find keys by their prefix or suffix.")
	r.assumption("Folding of letter case by different library functions is the same function.")
	for _, f := range filterTrees() {
		r.indexSearch(f)
	}
	r.indexLoads()
}

// implies: an entry for which a leaf of the filter holds is given by the index for this query.
func (f *ftree) implies(x *Exec, path string, q []*Term) bool {
	u := x.u
	text := func(p string) *Term { return u.call("text", types.Typ[types.String], u.sym(p)) }
	attr := text(path + ".0")
	if f.tag == fPresent {
		attr = text(path)
	}
	op, _ := q[1].strConst()
	if lower(u, q[0]) != lower(u, attr) {
		return false
	}
	switch {
	case f.tag == fAnd || f.tag == fOr || f.tag == fNot || f.tag == fExtensible:
		return false
	case op == "pres":
		return true
	case op == "eq" && f.tag == fEqual && len(q) == 3:
		return lower(u, q[2]) == lower(u, text(path+".1"))
	case op == "sub" && f.tag == fSubstrings && len(q) == 4:
		for i, tag := range f.subs {
			if n, _ := q[3].strConst(); n == strconv.FormatInt(tag, 10) && lower(u, q[2]) == lower(u, text(fmt.Sprintf("%s.1.%d", path, i))) {
				return true
			}
		}
	}
	return false
}

func (r *Run) indexSearch(f *ftree) {
	s := &Spec{id: r.id, noPanic: true, unroll: 8, unrollIn: []string{ldifPkg}}
	s.policy = policy(ldifSearchPolicy, map[string]string{lsPkg + ".ServerFilterAttributes": "opaque", ldifPkg + ".newIndexMapRegister": "opaque", ldifPkg + ".TemplateFuncs": "opaque", ldifPkg + ".parseFilterToIndexFilter": ""})
	s.recur = func(c *Call, st *State) []*Outcome { return c.x.inlineCall(c, st) }
	s.models = map[string]Model{lsPkg + ".CompileFilter": func(c *Call, st *State) []*Outcome {
		u := c.x.u
		if c.args[0] != c.x.fieldInit(u.sym("req"), "Filter") {
			return nil
		}
		return one(st, u.tuple(c.x.symT("f", c.sig.Results().At(0).Type()), u.Nil))
	}}
	var canon func(t *Term) *Term
	entry := func(x *Exec, name string) *Term { return x.symT(name, x.entryPtr()) }
	base := func(x *Exec) *Term { return lower(x.u, x.fieldInit(x.u.sym("req"), "BaseDN")) }
	live := false
	s.outside = func(c *Call, st *State) []*Outcome {
		u, x := c.x.u, c.x
		switch {
		case !live:
			return nil
		case givesUp(u.call(c.name, nil)):
			var t types.Type
			if c.sig.Results().Len() == 1 {
				t = c.sig.Results().At(0).Type()
			}
			return one(st, u.call(c.name, t))
		case c.name == ldapP+"FindControl" && len(f.kids) > 1:
			return one(st, u.Nil)
		case pagingTable(c.name) && hasSuffixAny(c.name, ".Get", ".Load", ".Pop"):
			return one(st, u.tuple(u.Nil, u.False))
		case hasSuffixAny(c.name, "go-suffix-tree.Tree).WalkSuffix", "go-suffix-tree.Tree).Walk"):
			x.obligation("walk", c.in)
			if strings.HasSuffix(c.name, "WalkSuffix") && c.args[1] != base(x) {
				x.report("walk", c.in, "base", "the walk does not cover the entries below the base: "+clip(c.args[1].String()), st)
			}
			cb := c.args[len(c.args)-1]
			var outs []*Outcome
			states := []*State{st}
			for i := 0; i < 2; i++ {
				e := entry(x, fmt.Sprintf("walked%d", i))
				var next []*State
				for _, s := range states {
					s.assume(u.eq(e, u.Nil), false)
					args := []*Term{x.dnOf(e), u.mk(&Term{op: OIface, a: []*Term{e}, t: e.t})}
					for _, o := range x.callValue(c, cb, args, s, c.args...) {
						if o.kind != KRet {
							outs = append(outs, o)
							continue
						}
						if o.st.mon["gave up"] == nil && o.st.mon["sent|"+e.s] == nil {
							x.report("walk", c.in, "entry", "an entry the walk comes to is not sent", o.st)
						}
						s2 := o.st.clone()
						if s2.assume(o.ret, true) {
							if s2.mon["gave up"] == nil {
								x.report("walk", c.in, "stop", "the walk ends before all entries were sent", s2)
							}
							outs = append(outs, &Outcome{st: s2})
						}
						if o.st.assume(o.ret, false) {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			for _, s := range states {
				s.mon["walked"] = u.True
				outs = append(outs, &Outcome{st: s})
			}
			return outs
		}
		return constModels(c, st)
	}
	s.iface = func(c *Call, st *State) []*Outcome {
		x, u := c.x, c.x.u
		switch {
		case strings.HasSuffix(c.name, "context.Context.Done"):
			return one(st, u.call("done", c.sig.Results().At(0).Type(), c.args...))
		case strings.HasSuffix(c.name, "Index).Load"):
			ps, ok := listElems(st, c.args[3])
			if !ok {
				x.undecided("values that are looked up in the index: %s", clip(c.args[3].String()))
			}
			q := []*Term{canon(c.args[1]), canon(c.args[2])}
			for _, p := range ps {
				q = append(q, canon(p))
			}
			key := u.tuple(q...)
			e := entry(x, fmt.Sprintf("given %d", key.id))
			st.assume(u.eq(e, u.Nil), false)
			var some []*Term
			if len(f.kids) < 2 || len(f.kids) == 2 && f.kids[0].tag == fEqual && f.kids[1].tag == fEqual {
				some = []*Term{entry(x, "some")}
			}
			other, none := st.clone(), st.clone()
			st.mon["query|"+e.s] = key
			none.mon["query|none"+e.s] = key
			return []*Outcome{{st: st, ret: u.tuple(x.listOfT(append(some, e), c.sig.Results().At(0).Type()), u.True)}, {st: none, ret: u.tuple(u.Nil, u.True)}, {st: other, ret: u.tuple(u.Nil, u.False)}}
		}
		return nextBackend(c, st)
	}
	s.follow = func(c *Call, st *State) bool {
		for k := range st.mon {
			delete(st.mon, k)
		}
		return live && len(entryChans(c, st)) > 0
	}
	s.send = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch, v *Term) {
		if live && entryChan(ch.t) && v.op == OSym {
			st.mon["sent|"+v.s] = x.u.True
		}
	}
	s.recv = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch *Term) *Term {
		if !live {
			return nil
		}
		if sel, ok := in.(*ssa.Select); ok && !entryChan(ch.t) {
			for _, c := range sel.States {
				if c.Dir == types.SendOnly && entryChan(c.Chan.Type()) {
					st.mon["gave up"] = x.u.True
				}
			}
		}
		if entryChan(ch.t) {
			return x.u.Nil // what is received is another matter
		}
		return nil
	}
	s.goDone = func(c *Call, outs []*Outcome) {
		x, u := c.x, c.x.u
		for _, o := range outs {
			if o.kind != KRet || o.st.mon["gave up"] != nil {
				continue
			}
			x.obligation("candidates", c.in)
			if o.st.mon["walked"] != nil {
				continue
			}
			leaves := map[string]*ftree{}
			f.each("f", func(f *ftree, path string) {
				if f.tag > fNot {
					leaves[path] = f
				}
			})
			covered := map[string]bool{}
			given := []string{"some"}
			for k := range o.st.mon {
				if n, ok := strings.CutPrefix(k, "query|"); ok {
					given = append(given, n)
				}
			}
			for k, q := range o.st.mon {
				name, ok := strings.CutPrefix(k, "query|")
				if !ok {
					continue
				}
				e := entry(x, name)
				done := strings.HasPrefix(name, "none")
				for k := range o.st.mon {
					if n, ok := strings.CutPrefix(k, "sent|"); ok && (n == name || o.st.same(u.sym(n), e)) {
						done = true
					}
				}
				for _, n := range append(given, name) {
					if g := entry(x, n); (g == e || o.st.same(g, e)) && o.st.refuted(u.call("strings.HasSuffix", types.Typ[types.Bool], x.dnOf(g), base(x))) {
						done = true
					}
				}
				if !done {
					x.report("candidates", c.in, "given", "an entry given by the index is not sent", o.st)
				}
				for path, l := range leaves {
					if l.implies(x, path, q.a) {
						covered[path] = true
					}
				}
			}
			if m := f.uncovered(leaves, covered); m != "" {
				x.report("candidates", c.in, f.String(), fmt.Sprintf("for the filter %s, entries for which only %s are not looked up and not walked through", f, m), o.st)
			}
		}
	}
	r.analyse("search "+f.String(), s, func(x *Exec) {
		canon = x.filterCanon()
		ws := x.buildBackend(backends[1])
		live = true
		if len(ws) > 1 {
			ws = ws[:1] // a search does not depend on where the data was loaded from
		}
		for _, w := range ws {
			u := x.u
			w.st.mon = map[string]*Term{}
			x.constTables(w.st, strings.TrimSuffix(ldapP, "."), lsPkg)
			pt := types.NewPointer(x.typeByName(strings.TrimSuffix(berP, "."), "Packet"))
			x.packet(w.st, "f", pt, f.shape())
			tag := func(p string, n int64) { w.st.mem[u.fieldA(u.fieldA(u.sym(p), "Identifier"), "Tag")] = u.num(n) }
			f.each("f", func(f *ftree, path string) {
				tag(path, f.tag)
				for i, n := range f.subs {
					tag(fmt.Sprintf("%s.1.%d", path, i), n)
				}
			})
			x.callMethod(w, "Search", "boundDN", "req", "conn")
		}
	})
}

// entryPtr is the type of the entries that are sent.
func (x *Exec) entryPtr() types.Type { return types.NewPointer(x.embedding(ldifPkg, "*"+ldapGo+"Entry")) }

// dnOf is the name of an entry.
func (x *Exec) dnOf(e *Term) *Term { return x.fieldInit(x.fieldInit(e, "Entry"), "DN") }

// uncovered: the filter can hold where none of the covered leaves does.
func (f *ftree) uncovered(leaves map[string]*ftree, covered map[string]bool) string {
	var ps []string
	for p := range leaves {
		if !covered[p] {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for m := 0; m < 1<<len(ps); m++ {
		set := map[string]bool{}
		var names []string
		for i, p := range ps {
			if m&(1<<i) != 0 {
				set[p] = true
				names = append(names, leaves[p].String()+" at "+p)
			}
		}
		if f.holds("f", set) {
			if len(names) == 0 {
				return "negated parts hold"
			}
			return strings.Join(names, ", ") + " holds"
		}
	}
	return ""
}

// treeModels describes the trees that hold the keys of an index by the list of their keys and values.
func treeModels(c *Call, st *State) []*Outcome {
	u := c.x.u
	suffix := strings.Contains(c.name, "go-suffix-tree.")
	if !suffix && !strings.Contains(c.name, "go-radix.") {
		return constModels(c, st)
	}
	op := c.name[strings.LastIndex(c.name, ".")+1:]
	if op == "NewTree" || op == "New" {
		a := newObj(c, st, "tree")
		st.mem[u.contentOf(a)] = u.tuple()
		return one(st, a)
	}
	t := c.args[0]
	cont := st.mem[u.contentOf(t)]
	if cont == nil || cont.op != OTuple {
		c.x.undecided("content of a tree is not known in %s", c.name)
	}
	isKey := func(st *State, p, key *Term) (yes, no *State) {
		yes, no = st.clone(), st
		if !yes.assume(u.eq(p.a[0], key), true) {
			yes = nil
		}
		if !no.assume(u.eq(p.a[0], key), false) {
			no = nil
		}
		return yes, no
	}
	switch op {
	case "Len":
		return one(st, u.num(int64(len(cont.a))))
	case "Get":
		var outs []*Outcome
		for _, p := range cont.a {
			yes, no := isKey(st, p, c.args[1])
			if yes != nil {
				outs = append(outs, &Outcome{st: yes, ret: u.tuple(p.a[1], u.True)})
			}
			if st = no; st == nil {
				return outs
			}
		}
		return append(outs, &Outcome{st: st, ret: u.tuple(u.Nil, u.False)})
	case "Insert":
		var outs []*Outcome
		key, v := c.args[1], c.args[2]
		for i, p := range cont.a {
			yes, no := isKey(st, p, key)
			if yes != nil {
				els := append([]*Term{}, cont.a...)
				els[i] = u.tuple(p.a[0], v)
				yes.mem[u.contentOf(t)] = u.tuple(els...)
				outs = append(outs, &Outcome{st: yes, ret: u.tuple(p.a[1], u.True)})
			}
			if st = no; st == nil {
				return outs
			}
		}
		st.mem[u.contentOf(t)] = u.tuple(append(append([]*Term{}, cont.a...), u.tuple(key, v))...)
		return append(outs, &Outcome{st: st, ret: u.tuple(u.Nil, u.boolean(suffix))})
	case "Walk", "WalkSuffix", "WalkPrefix":
		cb := c.args[len(c.args)-1]
		var outs []*Outcome
		states := []*State{st}
		for _, p := range cont.a {
			var next []*State
			for _, s := range states {
				if op != "Walk" {
					has := u.call("strings.Has"+strings.TrimPrefix(op, "Walk"), types.Typ[types.Bool], p.a[0], c.args[1])
					s2 := s.clone()
					if s2.assume(has, false) {
						next = append(next, s2)
					}
					if !s.assume(has, true) {
						continue
					}
				}
				for _, o := range c.x.callValue(c, cb, []*Term{p.a[0], p.a[1]}, s, c.args...) {
					if o.kind != KRet {
						outs = append(outs, o)
						continue
					}
					s2 := o.st.clone()
					if s2.assume(o.ret, true) {
						outs = append(outs, &Outcome{st: s2})
					}
					if o.st.assume(o.ret, false) {
						next = append(next, o.st)
					}
				}
			}
			states = next
		}
		for _, s := range states {
			outs = append(outs, &Outcome{st: s})
		}
		return outs
	}
	return nil
}

// indexMaker finds the function that makes the index given to the tree builder.
func (r *Run) indexMaker() *ssa.Function {
	tb := r.p.treeBuilder()
	var f *ssa.Function
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() != tb {
			return
		}
		for _, a := range c.Call.Args {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				if mk, ok := mi.X.(*ssa.Call); ok && mk.Call.StaticCallee() != nil {
					f = mk.Call.StaticCallee()
				}
			}
			if mk, ok := a.(*ssa.Call); ok && types.IsInterface(a.Type()) && mk.Call.StaticCallee() != nil {
				f = mk.Call.StaticCallee()
			}
		}
	})
	return f
}

// indexCase is what is loaded: per entry the attributes with their number of values.
type indexCase struct {
	kinds   string
	entries [][]indexedAttr
}

type indexedAttr struct {
	name string
	n    int
}

func (r *Run) indexLoads() {
	maker := r.indexMaker()
	if maker == nil {
		r.fail("decidable", "", "", "index", "the function that makes the index was not found")
		return
	}
	var table *ssa.Global
	for _, m := range r.p.byPkg[ldifPkg].Members {
		if g, ok := m.(*ssa.Global); ok && types.TypeString(g.Type(), nil) == "*map[string]string" {
			table = g
		}
	}
	if table == nil {
		r.fail("decidable", "", "", "index", "the table of indexed attributes was not found")
		return
	}
	one, two := [][]indexedAttr{{{"CN", 2}}}, [][]indexedAttr{{{"CN", 1}}, {{"x", 1}, {"cN", 1}}}
	for _, ic := range []indexCase{{"pres,eq,sub", one}, {"pres,eq,sub", two}, {"eq", two}, {"sub", two}, {"eq,sub", one}, {"pres", two}, {"eq", [][]indexedAttr{{{"cn", 1}, {"Cn", 1}}, {}}}, {"eq,pres", [][]indexedAttr{{{"cn", 1}}, {{"cn", 1}}, {{"cn", 1}}}}} {
		ic := ic
		for _, q := range [][]string{{"cN", "eq"}, {"Cn", "pres"}, {"cn", "sub", "0"}, {"cn", "sub", "1"}, {"CN", "sub", "2"}, {"x", "eq"}, {"x", "pres"}, {"x", "sub", "1"}} {
			q := q
			s := &Spec{id: r.id, noPanic: true, unroll: 12, unrollIn: []string{ldifPkg}, oneElement: true, outside: treeModels}
			s.policy = policy(authPolicy, map[string]string{fname(r.p.treeBuilder()): "inline", "(*github.com/spacewander/go-suffix-tree.Tree).Get": ""})
			r.analyse(fmt.Sprintf("index %s of %v asked for %v", ic.kinds, ic.entries, q), s, func(x *Exec) { x.indexLoad(maker, table, ic, q) })
		}
	}
}

func (x *Exec) indexLoad(maker *ssa.Function, table *ssa.Global, ic indexCase, q []string) {
	u := x.u
	str := types.Typ[types.String]
	st := newState(u)
	m := u.alloc(u.ctx(nil, nil, nil), nil, "table")
	st.mem[u.mk(&Term{op: OGlobal, s: table.String(), t: table.Type().Underlying().(*types.Pointer).Elem()})] = m
	st.mem[u.mk(&Term{op: OMapE, a: []*Term{m, u.str("cn")}})] = u.str(ic.kinds)
	tb := x.p.treeBuilder()
	x.p.ensureBody(tb)
	value := func(i, j, k int) *Term { return x.symT(fmt.Sprintf("value %d.%d.%d", i, j, k), str) }
	for _, o := range x.runFn(maker, nil, st) {
		if o.kind != KRet {
			continue
		}
		index := o.ret
		if !types.IsInterface(maker.Signature.Results().At(0).Type()) {
			index = u.mk(&Term{op: OIface, a: []*Term{index}, t: maker.Signature.Results().At(0).Type()})
		}
		st := o.st
		args := x.symArgs(tb, "ldif", "index", "options")
		args[1] = index
		st.mon["index"] = index
		st.assume(u.eq(args[2], u.Nil), false)
		var shape []int
		for _, e := range ic.entries {
			shape = append(shape, len(e))
		}
		recs := x.ldifData(st, args[0], shape)
		for i, rec := range recs {
			for j, a := range rec.attrs {
				st.mem[u.fieldA(a, "Name")] = u.str(ic.entries[i][j].name)
				var vals []*Term
				for k := 0; k < ic.entries[i][j].n; k++ {
					vals = append(vals, value(i, j, k))
				}
				st.mem[u.fieldA(a, "Values")] = x.listOfT(vals, types.NewSlice(str))
			}
		}
		for _, o := range x.runFn(tb, args, st) {
			if o.kind != KRet || !o.st.isNil(u.ext(o.ret, 1)) {
				continue
			}
			cont := o.st.mem[u.contentOf(u.ext(o.ret, 0))]
			if cont == nil || cont.op != OTuple || len(cont.a) != len(recs) {
				x.undecided("entries of the tree")
			}
			load, recv := x.methodOfValue(index, "Load")
			if load == nil {
				x.undecided("the index has no method Load")
			}
			asked := x.symT("asked", str)
			params := []*Term{asked}
			if q[1] == "pres" {
				params = []*Term{u.EmptyS}
			}
			if len(q) > 2 {
				params = append(params, u.str(q[2]))
			}
			o.st.mon["tree"] = cont
			for _, l := range x.runFn(load, []*Term{recv, u.str(q[0]), u.str(q[1]), x.listOfT(params, types.NewSlice(str))}, o.st) {
				if l.kind == KRet {
					x.indexed(load, l, ic, q, cont.a, value, asked)
				}
			}
		}
	}
}

// indexed compares what the index gives with the loaded entries.
func (x *Exec) indexed(load *ssa.Function, o *Outcome, ic indexCase, q []string, entries []*Term, value func(i, j, k int) *Term, asked *Term) {
	u, st := x.u, o.st
	if st.refuted(u.ext(o.ret, 1)) {
		return
	}
	x.oblig["indexed"]++
	list := u.ext(o.ret, 0)
	els, ok := x.flatList(st, list)
	if !ok {
		x.undecided("entries given by the index: %s", clip(list.String()))
	}
	var all []*Term
	for i, e := range ic.entries {
		for j, a := range e {
			for k := 0; k < a.n; k++ {
				all = append(all, lower(u, value(i, j, k)))
			}
		}
	}
	kind := q[1]
	if len(q) > 2 {
		kind += q[2]
	}
	for i, e := range ic.entries {
		given := false
		for _, g := range els {
			given = given || g == unwrap(entries[i].a[1])
		}
		if given {
			continue
		}
		for j, a := range e {
			if !strings.EqualFold(a.name, q[0]) {
				continue
			}
			if kind == "pres" {
				x.report("indexed", load.Blocks[0].Instrs[0], "pres", fmt.Sprintf("an entry with the attribute is not given by an index of the kinds %s", ic.kinds), st)
				continue
			}
			for k := 0; k < a.n; k++ {
				out := false
				for _, v := range append([]*Term{lower(u, value(i, j, k))}, all...) {
					if v != lower(u, value(i, j, k)) && !st.same(v, lower(u, value(i, j, k))) {
						continue
					}
					switch kind {
					case "eq":
						out = out || st.refuted(u.eq(v, lower(u, asked)))
					case "sub0":
						out = out || st.refuted(u.call("strings.HasPrefix", types.Typ[types.Bool], v, lower(u, asked)))
					case "sub2":
						out = out || st.refuted(u.call("strings.HasSuffix", types.Typ[types.Bool], v, lower(u, asked)))
					}
				}
				if !out {
					x.report("indexed", load.Blocks[0].Instrs[0], kind, fmt.Sprintf("an entry that may match is not given by an index of the kinds %s asked for %v", ic.kinds, q), st)
				}
			}
		}
	}
}

// flatList are the elements of a list that may be made of other lists.
func (x *Exec) flatList(st *State, t *Term) ([]*Term, bool) {
	if t.op == OAppendS {
		var out []*Term
		for _, a := range t.a {
			els, ok := x.flatList(st, a)
			if !ok {
				return nil, false
			}
			out = append(out, els...)
		}
		return out, true
	}
	return listElems(st, t)
}
