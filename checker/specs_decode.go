package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C38"] = checkC38
}

// shape is a packet with a known number of elements.
type shape struct{ kids []*shape }

func leaf() *shape { return &shape{} }

func node(kids ...*shape) *shape { return &shape{kids} }

func flat(n int) *shape {
	s := &shape{}
	for i := 0; i < n; i++ {
		s.kids = append(s.kids, leaf())
	}
	return s
}

// packet builds an abstract packet: its elements are known, its content is not.
func (x *Exec) packet(st *State, name string, t types.Type, s *shape) *Term {
	u := x.u
	p := x.symT(name, t)
	st.assume(u.eq(p, u.Nil), false)
	list := u.Nil
	if len(s.kids) > 0 {
		els := []*Term{u.Nil}
		for i, k := range s.kids {
			els = append(els, x.packet(st, fmt.Sprintf("%s.%d", name, i), t, k))
		}
		list = u.mk(&Term{op: OAppend, a: els, t: types.NewSlice(t)})
	}
	st.mem[u.fieldA(p, "Children")] = list
	return p
}

func isPacketPtr(t types.Type) bool {
	return types.TypeString(t, nil) == "*"+berP+"Packet"
}

// entryHandlers finds the functions that get the operation element of a request and lead to a backend operation.
func (p *Program) entryHandlers(op string) []*ssa.Function {
	reach := p.reaching(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && cc.IsInvoke() && backendMethod(cc.Method.Name(), cc.Signature()) == op
	})
	packetParam := func(f *ssa.Function) bool {
		for _, v := range f.Params {
			if isPacketPtr(v.Type()) {
				return true
			}
		}
		return false
	}
	found := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !inModule(f) || packetParam(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callOf(in); cc != nil {
					if g := called(cc); g != nil && packetParam(g) && reach[g] {
						found[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range found {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// want recognises the decoded form of one element; it returns what is wrong.
type want func(x *Exec, st *State, t *Term) string

func other(t *Term) string { return "is " + clip(t.String()) }

// valueOf wants the decoded value of an element, with its type checked.
func valueOf(path string, typ string) want {
	return func(x *Exec, st *State, t *Term) string {
		v := x.fieldInit(x.u.sym(path), "Value")
		if t.op == OConv {
			t = t.a[0]
		}
		if t.op != OTA || t.a[0] != v || types.TypeString(t.t, nil) != typ {
			return other(t)
		}
		for f, val := range st.facts {
			if val && f.op == OIsT && f.a[0] == v {
				return ""
			}
		}
		return "is taken from an element of another type"
	}
}

// dataOf wants the raw content of an element.
func dataOf(path string) want {
	return func(x *Exec, st *State, t *Term) string {
		d := x.fieldInit(x.u.sym(path), "Data")
		if t.op == OInit && t.a[0] == d || t.op == OContent && t.a[0] == d || t.op == OCall && strings.HasSuffix(t.s, "ber.DecodeString") && t.a[0].contains(d) {
			return ""
		}
		return other(t)
	}
}

func listOf(ws ...want) want {
	return func(x *Exec, st *State, t *Term) string {
		els, ok := listElems(st, t)
		if !ok {
			return other(t)
		}
		if len(els) != len(ws) {
			return fmt.Sprintf("has %d elements instead of %d", len(els), len(ws))
		}
		for i, w := range ws {
			if bad := w(x, st, els[i]); bad != "" {
				return fmt.Sprintf("[%d] %s", i, bad)
			}
		}
		return ""
	}
}

// listElems are the elements of a list of known length.
func listElems(st *State, t *Term) ([]*Term, bool) {
	switch {
	case t == st.u.Nil:
		return nil, true
	case t.op == OAppend:
		els, ok := listElems(st, t.a[0])
		return append(els, t.a[1:]...), ok
	case t.op == OAlloc:
		if n, ok := st.length(t).intConst(); ok && n == 0 {
			return nil, true
		}
		if c, ok := st.mem[st.u.contentOf(t)]; ok {
			return listElems(st, c)
		}
		if n, ok := st.length(t).intConst(); ok && n <= 8 {
			var els []*Term
			for i := int64(0); i < n; i++ {
				v, ok := st.mem[st.u.mk(&Term{op: OIndexA, a: []*Term{t, st.u.num(i)}})]
				if !ok {
					return nil, false
				}
				els = append(els, v)
			}
			return els, true
		}
	case t.op == OSliceOf:
		if n, ok := st.length(t).intConst(); ok && n == 0 {
			return nil, true
		}
		if els, ok := listElems(st, t.a[0]); ok {
			lo, hi := int64(0), int64(len(els))
			for i, p := range []*int64{&lo, &hi} {
				if b := t.a[1+i]; b.op != ONil {
					n, ok := b.intConst()
					if !ok || n < 0 || n > int64(len(els)) {
						return nil, false
					}
					*p = n
				}
			}
			if lo <= hi {
				return els[lo:hi], true
			}
		}
	}
	return nil, false
}

func structOf(fields map[string]want) want {
	return func(x *Exec, st *State, t *Term) string {
		stt, ok := isStruct(t.t)
		if t.op != OStruct || !ok {
			return other(t)
		}
		n := 0
		for i := 0; i < stt.NumFields(); i++ {
			if w := fields[stt.Field(i).Name()]; w != nil {
				n++
				if bad := w(x, st, t.a[i]); bad != "" {
					return stt.Field(i).Name() + " " + bad
				}
			}
		}
		if n != len(fields) {
			return "lacks fields"
		}
		return ""
	}
}

// typedAs wants an element to be checked for a tag.
func typedAs(w want, path string, tag int64) want {
	return knownField(w, path, "Tag", tag)
}

// universal wants an element to be checked for a universal type.
func universal(w want, path string, typ, tag int64) want {
	return typedAs(knownField(knownField(w, path, "ClassType", 0), path, "TagType", typ), path, tag)
}

func knownField(w want, path, field string, want int64) want {
	return func(x *Exec, st *State, t *Term) string {
		if bad := w(x, st, t); bad != "" {
			return bad
		}
		for f, v := range st.facts {
			if !v || f.op != OEq {
				continue
			}
			for i := range f.a {
				if n, ok := f.a[i].intConst(); ok && n == want && isField(f.a[1-i], x.u.sym(path), field) {
					return ""
				}
			}
		}
		return fmt.Sprintf("is taken from an element that was not checked to have %s %d", field, want)
	}
}

// isField: the term is the named field of an object or of a struct embedded in it.
func isField(t, obj *Term, name string) bool {
	if t.op == OConv {
		t = t.a[0]
	}
	if t.op != OInit || t.a[0].op != OFieldA || t.a[0].s != name {
		return false
	}
	return root(t.a[0]) == obj
}

// changeOp wants the operation that the first element of a change names.
func changeOp(path string) want {
	return func(x *Exec, st *State, t *Term) string {
		el := x.u.sym(path)
		fromEl := func(v *Term) bool {
			return v.contains(el) && !v.any(func(s *Term) bool { return s.op == OSym && s != el })
		}
		if fromEl(t) {
			return ""
		}
		if _, ok := t.intConst(); ok {
			for f, v := range st.facts {
				if v && f.op == OEq && (f.a[0] == t && fromEl(f.a[1]) || f.a[1] == t && fromEl(f.a[0])) {
					return ""
				}
			}
		}
		return other(t)
	}
}

// decodeCase is a request of a certain shape and what a backend must get for it (nil: it must be refused).
type decodeCase struct {
	name string
	s    *shape
	args []want // after the identity
}

func repeat(n int, f func(i int) *shape) []*shape {
	var out []*shape
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

func wants(n int, f func(i int) want) []want {
	var out []want
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

const str = "string"

// attribute wants the attribute in the element at path with n values (-1: no value element).
func attribute(path string, n int) want {
	vals := listOf()
	if n >= 0 {
		vals = universal(listOf(wants(n, func(i int) want { return valueOf(fmt.Sprintf("%s.1.%d", path, i), str) })...), path+".1", 32, 17)
	}
	return structOf(map[string]want{"Type": universal(valueOf(path+".0", str), path+".0", 0, 4), "Vals": vals})
}

func decodeCases() map[string][]decodeCase {
	refused := func(ns ...int) []decodeCase {
		var out []decodeCase
		for _, n := range ns {
			out = append(out, decodeCase{fmt.Sprintf("%d elements", n), flat(n), nil})
		}
		return out
	}
	m := map[string][]decodeCase{
		"Bind":     append(refused(0, 1, 2, 4, 5), decodeCase{"simple bind", flat(3), []want{valueOf("req.1", str), typedAs(dataOf("req.2"), "req.2", 0)}}),
		"Delete":   append(refused(1, 2, 3), decodeCase{"delete", flat(0), []want{structOf(map[string]want{"DN": dataOf("req")})}}),
		"ModifyDN": append(refused(0, 1, 2, 4, 5), decodeCase{"rename", flat(3), []want{structOf(map[string]want{"DN": valueOf("req.0", str), "NewRDN": valueOf("req.1", str), "DeleteOldRDN": valueOf("req.2", "bool")})}}),
		"Add":      refused(0, 1, 3, 4),
		"Modify":   refused(0, 1, 3, 4),
		"Search":   refused(0, 1, 2, 3, 4, 5, 6, 7, 9, 10),
	}
	// add: lists of up to three attributes with up to three values
	for _, vals := range [][]int{{}, {0}, {1}, {2}, {3}, {1, 2}, {2, 0}, {1, 1, 1}, {2, 1, 2}} {
		kids := repeat(len(vals), func(i int) *shape { return node(leaf(), flat(vals[i])) })
		ws := wants(len(vals), func(i int) want { return attribute(fmt.Sprintf("req.1.%d", i), vals[i]) })
		m["Add"] = append(m["Add"], decodeCase{fmt.Sprintf("values %v", vals), node(leaf(), node(kids...)), []want{structOf(map[string]want{
			"DN": valueOf("req.0", str), "Attributes": universal(listOf(ws...), "req.1", 32, 16)})}})
	}
	for _, n := range []int{0, 1, 3, 4} {
		m["Add"] = append(m["Add"], decodeCase{fmt.Sprintf("attribute with %d elements", n), node(leaf(), node(node(leaf(), flat(1)), flat(n))), nil})
		m["Modify"] = append(m["Modify"], decodeCase{fmt.Sprintf("change with %d elements", n), node(leaf(), node(node(leaf(), node(leaf(), flat(1))), flat(n))), nil})
		if n != 1 {
			m["Modify"] = append(m["Modify"], decodeCase{fmt.Sprintf("modification with %d elements", n), node(leaf(), node(node(leaf(), node(leaf(), flat(1))), node(leaf(), flat(n)))), nil})
		}
	}
	// modify: lists of up to three changes
	for _, vals := range [][]int{{}, {-1}, {0}, {1}, {2}, {3}, {1, 2}, {2, -1}, {1, 1, 1}} {
		kids := repeat(len(vals), func(i int) *shape {
			if vals[i] < 0 {
				return node(leaf(), flat(1))
			}
			return node(leaf(), node(leaf(), flat(vals[i])))
		})
		ws := wants(len(vals), func(i int) want {
			p := fmt.Sprintf("req.1.%d", i)
			return structOf(map[string]want{"Operation": changeOp(p + ".0"), "Modification": attribute(p+".1", vals[i])})
		})
		m["Modify"] = append(m["Modify"], decodeCase{fmt.Sprintf("values %v", vals), node(leaf(), node(kids...)), []want{structOf(map[string]want{
			"DN": valueOf("req.0", str), "Changes": universal(listOf(ws...), "req.1", 32, 16)})}})
	}
	for n := 0; n <= 3; n++ {
		ws := wants(n, func(i int) want { return valueOf(fmt.Sprintf("req.7.%d", i), str) })
		num := func(i int) want { return valueOf(fmt.Sprintf("req.%d", i), "int64") }
		m["Search"] = append(m["Search"], decodeCase{fmt.Sprintf("%d attributes", n), node(append(repeat(7, func(int) *shape { return leaf() }), flat(n))...), []want{structOf(map[string]want{
			"BaseDN": valueOf("req.0", str), "Scope": num(1), "DerefAliases": num(2), "SizeLimit": num(3), "TimeLimit": num(4),
			"TypesOnly": func(x *Exec, st *State, t *Term) string {
				if t == x.u.False && st.isNil(x.fieldInit(x.u.sym("req.5"), "Value")) {
					return ""
				}
				return valueOf("req.5", "bool")(x, st, t)
			},
			"Filter": func(x *Exec, st *State, t *Term) string {
				if t.op != OExt || t.s != "0" || t.a[0].op != OCall || !strings.HasSuffix(t.a[0].s, ".DecompileFilter") || !st.isNil(x.u.ext(t.a[0], 1)) {
					return other(t)
				}
				return valueIn(x, t, "req.6")
			},
			"Attributes": listOf(ws...),
			"Controls": func(x *Exec, st *State, t *Term) string {
				if t.op == OInit && t.a[0].op == OSym && t.a[0].s == "controls" {
					return ""
				}
				return other(t)
			}})}})
	}
	return m
}

// valueIn wants a term made of one element only.
func valueIn(x *Exec, t *Term, path string) string {
	el := x.u.sym(path)
	if t.contains(el) && !t.any(func(s *Term) bool { return s.op == OSym && s != el }) {
		return ""
	}
	return other(t)
}

var tagFor = map[string]int64{"Bind": 0, "Search": 3, "Modify": 6, "Add": 8, "Delete": 10, "ModifyDN": 12, "ModifyPasswordExop": 23}

func decodeSpec(r *Run) *Spec {
	s := connSpec(r.id)
	s.unroll = 8
	s.unrollIn = []string{lsPkg}
	s.keep, s.keepLoop = nil, func(a *Term, st *State) bool { return a.op != OHas }
	s.event = nil
	return s
}

// handlerArgs builds the arguments of a request handler.
func (x *Exec) handlerArgs(h *ssa.Function, st *State, s *shape) []*Term {
	var args []*Term
	for _, v := range h.Params {
		name := v.Name()
		switch t := types.TypeString(v.Type(), nil); {
		case isPacketPtr(v.Type()):
			args = append(args, x.packet(st, "req", v.Type(), s))
			continue
		case isNetConn(v.Type()):
			name = "conn"
		case t == "string":
			name = "boundDN"
		case t == "*"+lsPkg+".Server":
			name = "server"
		case strings.HasSuffix(t, "[]"+strings.TrimSuffix(ldapP, ".")+".Control"):
			name = "controls"
		}
		a := x.symT(name, v.Type())
		if _, ok := v.Type().Underlying().(*types.Pointer); ok {
			st.assume(x.u.eq(a, x.u.Nil), false)
		}
		args = append(args, a)
	}
	return args
}

// noEntries lets a search find nothing: what is done with entries comes after the request.
func noEntries(iface func(c *Call, st *State) []*Outcome) func(c *Call, st *State) []*Outcome {
	return func(c *Call, st *State) []*Outcome {
		if backendOp(c) != "Search" {
			return iface(c, st)
		}
		u := c.x.u
		t, _ := isStruct(c.sig.Results().At(0).Type())
		at := -1
		for i := 0; t != nil && i < t.NumFields(); i++ {
			if t.Field(i).Name() == "Entries" {
				at = i
			}
		}
		if at < 0 {
			c.x.undecided("the result of a search has no list of entries")
		}
		var outs []*Outcome
		for _, o := range c.x.opaque(c, st) {
			if o.kind != KRet || o.st.assume(u.eq(o.st.length(u.field(u.ext(o.ret, 0), at, "Entries", t.Field(at).Type())), u.Zero), true) {
				outs = append(outs, o)
			}
		}
		return outs
	}
}

func checkC38(r *Run) {
	r.rule("fields", "every field of the request that a backend gets is the decoded value of the element of the packet that carries it, with its type checked; lists are complete and in order", 40)
	r.rule("refused", "a packet with missing or surplus elements never reaches a backend", 30)
	r.rule("reachable", "a well-formed request of each shape reaches the backend", 20)
	r.rule("dispatch", "a backend operation is called only for a request with its tag, with the operation element of the packet that was read", 7)
	r.assumption("Lists of attributes, values, changes and requested attributes are followed element by element for up to three elements.")
	all := decodeCases()
	var ops []string
	for op := range all {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	for _, op := range ops {
		op := op
		hs := r.p.entryHandlers(op)
		if len(hs) == 0 {
			r.fail("fields", "", "", op, "no handler leads to the backend operation "+op)
		}
		for _, h := range hs {
			h := h
			for _, dc := range all[op] {
				dc := dc
				s := decodeSpec(r)
				s.iface = noEntries(s.iface)
				reached := false
				s.pre = func(c *Call, st *State) {
					if backendOp(c) != op {
						return
					}
					x := c.x
					reached = true
					if dc.args == nil {
						x.report("refused", c.in, op+" "+dc.name, "a malformed request ("+dc.name+") reaches the backend operation "+op, st)
						return
					}
					args := c.args[1:]
					if op != "Bind" {
						args = args[1:]
					}
					for i, w := range dc.args {
						x.oblig["fields"]++
						if bad := w(x, st, st.snapshot(args[i], 6)); bad != "" {
							x.report("fields", c.in, op+" "+strings.SplitN(bad, " ", 2)[0], fmt.Sprintf("the backend operation %s gets something else than the client sent: %s", op, bad), st)
						}
					}
				}
				r.analyse(op+" "+dc.name, s, func(x *Exec) {
					st := newState(x.u)
					x.runFn(h, x.handlerArgs(h, st, dc.s), st)
					if dc.args == nil {
						x.oblig["refused"]++
						return
					}
					x.oblig["reachable"]++
					if !reached {
						x.report("reachable", h.Blocks[0].Instrs[0], op+" "+dc.name, "a well-formed request ("+dc.name+") never reaches the backend operation "+op, st)
					}
				})
			}
		}
	}
	r.passwordDecoding()
	r.dispatch()
}

// dispatch checks which element of which request a handler gets.
func (r *Run) dispatch() {
	s := teardownSpec(r)
	s.event = backendEvent
	handlers := map[*ssa.Function]bool{}
	for op := range tagFor {
		for _, h := range r.p.entryHandlers(op) {
			handlers[h] = true
		}
	}
	s.models = nil
	s.iface = connSpec(r.id).iface
	s.pre = func(c *Call, st *State) {
		x := c.x
		x.reqTag(st)
		if c.name == berP+"ReadPacket" {
			delete(st.mon, "tag")
			delete(st.mon, "request")
		}
		if c.fn != nil && handlers[c.fn] {
			for i, v := range c.fn.Params {
				if !isPacketPtr(v.Type()) {
					continue
				}
				x.oblig["dispatch"]++
				if p := st.mon["request"]; p == nil || !isElement(c.args[i], p, 1) {
					x.report("dispatch", c.in, fnLabel(c.fn), "a request handler gets another packet than the operation element of the request", st)
				}
			}
		}
		op := backendOp(c)
		if want, ok := tagFor[op]; ok {
			x.obligation("dispatch", c.in)
			if tag, known := x.reqTag(st); !known || tag != want {
				x.report("dispatch", c.in, op, "the backend operation "+op+" is called for a request of another type", st)
			}
		}
	}
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
}

// isElement: the term is the n-th element of a packet.
func isElement(t, p *Term, n int64) bool {
	if t.op != OInit || t.a[0].op != OIndexA || !t.contains(p) {
		if t.op != OIndex {
			return false
		}
	}
	i := t
	if t.op == OInit {
		i = t.a[0]
	}
	k, ok := i.a[1].intConst()
	return ok && k == n && i.a[0].op == OInit && i.a[0].a[0].op == OFieldA && i.a[0].a[0].s == "Children" && i.a[0].a[0].a[0] == p
}

// passwordDecoding checks the password change request, whose value is an encoded packet of its own.
func (r *Run) passwordDecoding() {
	const op = "ModifyPasswordExop"
	for n := 0; n <= 4; n++ {
		n := n
		s := decodeSpec(r)
		s.models = map[string]Model{berP + "DecodePacket": func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			if !c.args[0].contains(u.sym("req.1")) {
				x.undecided("a packet is decoded from something else than the value of the request")
			}
			return one(st, x.packet(st, "pw", c.sig.Results().At(0).Type(), flat(n)))
		}}
		reached := false
		s.pre = func(c *Call, st *State) {
			if backendOp(c) != op {
				return
			}
			x, u := c.x, c.x.u
			reached = true
			if n > 3 {
				x.report("refused", c.in, "elements", "a password change with surplus elements reaches the backend", st)
				return
			}
			req := st.snapshot(c.args[2], 4)
			stt, ok := isStruct(req.t)
			if !ok || req.op != OStruct {
				x.undecided("password change request not followed: %s", clip(req.String()))
			}
			// the element with a tag, as far as the path knows it
			tagged := func(tag int64) []string {
				var out []string
				for i := 0; i < n; i++ {
					p := fmt.Sprintf("pw.%d", i)
					if typedAs(func(*Exec, *State, *Term) string { return "" }, p, tag)(x, st, u.Nil) == "" {
						out = append(out, p)
					}
				}
				return out
			}
			for i := 0; i < stt.NumFields(); i++ {
				tag := map[string]int64{"UserIdentity": 0, "OldPassword": 1}[stt.Field(i).Name()]
				if stt.Field(i).Name() != "UserIdentity" && stt.Field(i).Name() != "OldPassword" {
					continue
				}
				x.oblig["fields"]++
				ps := tagged(tag)
				v := req.a[i]
				good := false
				for _, p := range ps {
					good = good || dataOf(p)(x, st, v) == ""
				}
				switch {
				case tag == 0 && v == u.sym("boundDN"):
					// the own password: no or an empty identity was given
					good = len(ps) == 0
					for _, p := range ps {
						good = good || st.holds(u.eq(x.dataTerm(p), u.EmptyS))
					}
				case v == u.EmptyS && tag == 1:
					good = len(ps) == 0
				}
				if !good {
					x.report("fields", c.in, stt.Field(i).Name(), "the password change gets something else than the client sent: "+stt.Field(i).Name()+" "+other(v), st)
				}
			}
		}
		for _, h := range r.p.entryHandlers(op) {
			r.analyse(fmt.Sprintf("%s %d elements", op, n), s, func(x *Exec) {
				st := newState(x.u)
				x.runFn(h, x.handlerArgs(h, st, flat(2)), st)
				if n > 3 {
					x.oblig["refused"]++
					return
				}
				x.oblig["reachable"]++
				if !reached {
					x.report("reachable", h.Blocks[0].Instrs[0], op, "a well-formed password change never reaches the backend", st)
				}
			})
		}
	}
}

func (x *Exec) dataTerm(path string) *Term {
	return x.u.initOf(x.fieldInit(x.u.sym(path), "Data"), nil)
}
