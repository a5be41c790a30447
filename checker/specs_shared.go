package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C23"] = checkC23
	props["C28"] = checkC28
}

// loadedData: the value points into the loaded LDIF data (or is not known to point elsewhere).
func loadedData(t *Term) bool {
	for {
		switch t.op {
		case OInit, OFieldA, OIndexA, OField, OIndex, OTA, OExt, OSliceOf, OLookup, OIface, OConv:
			t = t.a[0]
		case OHav:
			t = t.a[1]
		case OAppend, OAppendS:
			// an appended list shares memory with the list it extends
			t = t.a[0]
		case ONonce:
			return true
		case OCall:
			return strings.HasPrefix(t.s, "(*github.com/spacewander/go-suffix-tree.Tree).") || strings.Contains(t.s, "Index).Load") || t.s == "loaded"
		default:
			return false
		}
	}
}

func checkC23(r *Run) {
	r.rule("no-write", "no instruction of a bind or search, or of what they start or call, writes to an object of the loaded data: fields, list elements and map entries", 10)
	r.rule("index-read", "looking up entries in an index changes neither the index nor the entries", 4)
	r.rule("results-read", "encoding and filtering of results changes no attribute of an entry", 1)
	r.assumption("Calls outside the repository do not change the objects they are given, except for sorting, deleting and similar functions and changes of trees and maps.")
	spec := func() *Spec {
		s := &Spec{id: r.id}
		s.policy = policy(ldifSearchPolicy, map[string]string{})
		s.follow = func(c *Call, st *State) bool { return true }
		rule := "no-write"
		s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, addr, val *Term) {
			x.obligation(rule, in)
			if root(addr).op == OAlloc || !(addr.op == OFieldA || addr.op == OIndexA) {
				return
			}
			if loadedData(addr) {
				x.report(rule, in, "store "+clip(addr.String()), "a request writes to the loaded data", st)
			}
		}
		s.instr = func(x *Exec, in ssa.Instruction, ev func(ssa.Value) *Term, st *State) {
			if m, ok := in.(*ssa.MapUpdate); ok {
				x.obligation(rule, in)
				if t := ev(m.Map); t.op != OAlloc && loadedData(t) {
					x.report(rule, in, "map", "a request changes a map of the loaded data", st)
				}
			}
		}
		s.pre = func(c *Call, st *State) {
			x := c.x
			bad := func(i int) {
				if i < len(c.args) {
					x.obligation(rule, c.in)
					a := c.args[i]
					if a.op == OIface {
						a = a.a[0]
					}
					if a.op != OAlloc && loadedData(a) {
						x.report(rule, c.in, short(c.name), "a request changes the loaded data with "+short(c.name), st)
					}
				}
			}
			switch c.name {
			case "builtin.append", "builtin.copy", "builtin.delete", "builtin.clear":
				bad(0)
				return
			}
			if i := writesInto(c.name); i >= 0 {
				bad(i)
			}
			if hasSuffixAny(c.name, ".Insert", ".Remove", ".Delete", ".DeletePrefix", "Index).Add") && len(c.args) > 0 && (strings.Contains(c.name, "Tree") || strings.Contains(c.name, "Index")) {
				bad(0)
			}
		}
		s.iface = nextBackend
		s.keepLoop = func(a *Term, st *State) bool { return a.op == OEq && a.contains(st.u.Nil) && !a.hasN }
		s.keep = func(a, ret *Term) bool { return a.op == OEq && !a.hasN }
		return s
	}
	for _, b := range backends {
		if b.pkg != ldifPkg {
			continue
		}
		b := b
		for _, op := range []string{"Bind", "Search"} {
			s := spec()
			instr := s.instr
			s.instr = nil
			pre := s.pre
			s.pre = func(c *Call, st *State) {
				s.instr = instr
				pre(c, st)
			}
			r.backendRun(b, op, s, func(x *Exec, m *ssa.Function, o *Outcome) {})
		}
	}
	// the indexes
	for _, fn := range r.p.implementersOf(ldifPkg, "Index", "Load") {
		fn := fn
		s := spec()
		r.analyse("index "+fnLabel(fn), s, func(x *Exec) {
			before := x.oblig["no-write"]
			st := newState(x.u)
			args := x.symArgs(fn, "loaded")
			args[0] = x.u.call("loaded", fn.Params[0].Type())
			if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
				st.assume(x.u.eq(args[0], x.u.Nil), false)
			}
			x.runFn(fn, args, st)
			x.oblig["index-read"] += 1 + x.oblig["no-write"] - before
		})
	}
	// the front end: writes to attributes it did not make itself
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		if pkgPath(fn) != lsPkg {
			return
		}
		r.oblig["results-read"]++
		var target ssa.Value
		switch in := in.(type) {
		case *ssa.Store:
			target = in.Addr
		case *ssa.Call:
			if i := writesInto(calleeName(in.Common())); i >= 0 && i < len(in.Call.Args) {
				target = in.Call.Args[i]
			}
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "copy") {
				target = in.Call.Args[0]
			}
		}
		if target == nil {
			return
		}
		if attr, own := attributeTarget(target, 0); attr && !own {
			r.failAt("results-read", in, "attribute", "an attribute of an entry is changed while a request is served")
		}
	})
}

// attributeTarget: the address or list belongs to an attribute of an entry; own: one made in the same function.
func attributeTarget(v ssa.Value, depth int) (attr, own bool) {
	if depth > 12 {
		return false, false
	}
	isAttr := func(t types.Type) bool {
		return strings.HasSuffix(types.TypeString(t, nil), "ldap/v3.EntryAttribute")
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		a, own := attributeTarget(v.X, depth+1)
		return a || isAttr(v.X.Type()), own
	case *ssa.IndexAddr:
		return attributeTarget(v.X, depth+1)
	case *ssa.Slice:
		return attributeTarget(v.X, depth+1)
	case *ssa.ChangeType:
		return attributeTarget(v.X, depth+1)
	case *ssa.MakeInterface:
		return attributeTarget(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return attributeTarget(v.X, depth+1)
		}
	case *ssa.Phi:
		own = true
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			a, o := attributeTarget(e, depth+4)
			attr = attr || a
			own = own && (o || !a)
		}
		return attr, own
	case *ssa.Alloc:
		return false, true
	case *ssa.MakeSlice:
		return false, true
	}
	return false, false
}

// implementersOf lists the methods of the repository types that implement an interface.
func (p *Program) implementersOf(pkg, iface, method string) []*ssa.Function {
	t := p.namedType(pkg, iface)
	if t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	sp := p.byPkg[pkg]
	var out []*ssa.Function
	for _, name := range sortedMembers(sp) {
		tn, ok := sp.Members[name].(*ssa.Type)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		for _, c := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.Implements(c, it) {
				if f := p.method(c, method); f != nil {
					p.ensureBody(f)
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}

func sortedMembers(sp *ssa.Package) []string {
	m := map[string]bool{}
	for n := range sp.Members {
		m[n] = true
	}
	return sortedKeys(m)
}

// entryChan: a channel that carries entries of a search.
func entryChan(t types.Type) bool {
	if t == nil {
		return false
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s := types.TypeString(c.Elem(), nil)
	return strings.HasPrefix(s, "*"+ldifPkg+".") || strings.HasSuffix(s, "ldap/v3.Entry")
}

// chanKey identifies a channel, whatever direction it is restricted to.
func chanKey(t *Term) string {
	for t.op == OConv {
		t = t.a[0]
	}
	return strconv.Itoa(t.id)
}

// entryChans lists the entry channels a started function is given.
func entryChans(c *Call, st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && entryChan(t.t) && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, a := range c.args {
		add(a)
	}
	if c.fv != nil && c.fv.op == OClosure {
		for i, b := range c.fv.a {
			if i < len(c.fv.fn.FreeVars) {
				if entryChan(c.fv.fn.FreeVars[i].Type()) {
					add(b)
				}
				if p, ok := c.fv.fn.FreeVars[i].Type().Underlying().(*types.Pointer); ok && entryChan(p.Elem()) {
					add(st.load(b, p.Elem()))
				}
			}
		}
	}
	return out
}

// givesUp: something is received from the channel after a limited time.
func givesUp(t *Term) bool {
	return t.any(func(t *Term) bool {
		if t.op != OCall {
			return false
		}
		switch t.s {
		case "time.After", "time.NewTimer", "time.Tick", "time.NewTicker", "context.WithTimeout", "context.WithDeadline":
			return true
		}
		return false
	})
}

func pagingTable(name string) bool {
	return strings.Contains(name, "concurrent-map.") || strings.HasPrefix(name, "(*sync.Map).")
}

func checkC28(r *Run) {
	r.rule("closes", "the goroutine that sends the entries of a search closes their channel exactly once on every path, and sends nothing afterwards", 1)
	r.rule("gives-up", "every send of an entry waits for a limited time only, and nothing is sent after a send that failed", 1)
	r.rule("has-sender", "a search receives entries only from a channel for which a sending goroutine was started on the same path, or which was found in the table of active pagings", 1)
	r.rule("registered", "a channel that is put into the table of active pagings gets a sending goroutine on every path", 1)
	r.rule("ends", "a search receives again only after an entry was received", 1)
	r.assumption("A walk over the tree of entries ends, and calls its function again only where that returned false.")
	for _, b := range backends {
		if b.pkg != ldifPkg || b.middleware {
			continue
		}
		s := &Spec{id: r.id, noPanic: true}
		s.policy = policy(ldifSearchPolicy, map[string]string{lsPkg + ".ServerFilterAttributes": "opaque", ldifPkg + ".newIndexMapRegister": "opaque", ldifPkg + ".TemplateFuncs": "opaque", ldifPkg + ".parseFilterToIndexFilter": "pure"})
		live := false
		given := map[*Call][]*Term{}
		s.outside = func(c *Call, st *State) []*Outcome {
			u := c.x.u
			switch {
			case givesUp(u.call(c.name, nil)):
				var t types.Type
				if c.sig.Results().Len() == 1 {
					t = c.sig.Results().At(0).Type()
				}
				return one(st, u.call(c.name, t))
			case pagingTable(c.name) && hasSuffixAny(c.name, ".Get", ".Load", ".Pop"):
				s2 := st.clone()
				return []*Outcome{{st: st, ret: u.tuple(u.call("active paging", nil), u.True)}, {st: s2, ret: u.tuple(u.Nil, u.False)}}
			case pagingTable(c.name) && hasSuffixAny(c.name, ".Set", ".Store", ".SetIfAbsent"):
				for _, a := range c.args[1:] {
					v := st.snapshot(a, 3)
					v.any(func(t *Term) bool {
						if entryChan(t.t) && t.op == OAlloc {
							c.x.obligation("registered", c.in)
							st.mon["registered"] = t
						}
						return false
					})
				}
				return one(st, c.x.typed(u.nonce(c.ctx, c.in, "set"), c))
			case hasSuffixAny(c.name, "go-suffix-tree.Tree).WalkSuffix", "go-suffix-tree.Tree).Walk"):
				cb := c.args[len(c.args)-1]
				states := []*State{st}
				outs := []*Outcome{{st: st.clone()}}
				for i := 0; i < 3; i++ {
					var next []*State
					for _, s := range states {
						rs := c.x.callValue(c, cb, c.x.freshArgs(c, cb.fn), s.clone(), c.args...)
						for _, o := range rs {
							if o.kind != KRet {
								outs = append(outs, o)
								continue
							}
							outs = append(outs, &Outcome{st: o.st})
							if v, known := o.st.decide(o.ret); !known || !v {
								next = append(next, o.st.clone())
							}
						}
					}
					states = next
				}
				return outs
			}
			return nil
		}
		s.iface = func(c *Call, st *State) []*Outcome {
			if strings.HasSuffix(c.name, "context.Context.Done") {
				return one(st, c.x.u.call("done", c.sig.Results().At(0).Type(), c.args...))
			}
			return nextBackend(c, st)
		}
		s.follow = func(c *Call, st *State) bool {
			for k := range st.mon {
				delete(st.mon, k)
			}
			given[c] = entryChans(c, st)
			return live && len(given[c]) > 0
		}
		s.goDone = func(c *Call, outs []*Outcome) {
			for _, o := range outs {
				if o.kind != KRet {
					continue
				}
				for _, ch := range given[c] {
					c.x.obligation("closes", c.in)
					if o.st.mon["closed|"+chanKey(ch)] == nil {
						c.x.report("closes", c.in, "goroutine", "the goroutine that sends the entries may end without closing the channel", o.st)
					}
				}
			}
		}
		s.pre = func(c *Call, st *State) {
			if c.isGo {
				for _, ch := range entryChans(c, st) {
					st.mon["started|"+chanKey(ch)] = c.x.u.True
				}
				return
			}
			if c.name == "builtin.close" && entryChan(c.args[0].t) {
				k := "closed|" + chanKey(c.args[0])
				c.x.obligation("closes", c.in)
				if st.mon[k] != nil {
					c.x.report("closes", c.in, "close", "the channel of the entries may be closed twice", st)
				}
				if st.mon["started|"+chanKey(c.args[0])] != nil {
					c.x.report("closes", c.in, "close", "the channel of the entries is closed by the receiver, although a goroutine sends on it", st)
				}
				st.mon[k] = c.x.u.True
			}
		}
		sent := func(x *Exec, in ssa.Instruction, st *State, ch *Term) {
			x.obligation("gives-up", in)
			if st.mon["gave up"] != nil {
				x.report("gives-up", in, "send", "entries are sent although an earlier send gave up", st)
			}
			if st.mon["closed|"+chanKey(ch)] != nil {
				x.report("closes", in, "send", "an entry is sent on a closed channel", st)
			}
		}
		s.send = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch, v *Term) {
			if !live || !entryChan(ch.t) {
				return
			}
			sent(x, in, st, ch)
			if _, plain := in.(*ssa.Send); plain {
				x.report("gives-up", in, "send", "the send of an entry may wait for ever", st)
			}
		}
		s.instr = func(x *Exec, in ssa.Instruction, ev func(ssa.Value) *Term, st *State) {
			sel, ok := in.(*ssa.Select)
			if !ok || !live {
				return
			}
			sends, limited, ready := false, !sel.Blocking, !sel.Blocking
			for _, c := range sel.States {
				ch := ev(c.Chan)
				if c.Dir == types.SendOnly && entryChan(ch.t) {
					sends = true
				}
				if c.Dir == types.RecvOnly && givesUp(ch) {
					limited = true
				}
				if ch.op != ONil && !st.isNil(ch) {
					ready = true
				}
			}
			if sends && !limited {
				x.report("gives-up", in, "select", "the send of an entry may wait for ever: nothing limits the time", st)
			}
			if !ready {
				x.report("has-sender", in, "select", "the search waits on a nil channel", st)
			}
		}
		s.recv = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch *Term) *Term {
			if !live {
				return nil
			}
			if sel, ok := in.(*ssa.Select); ok && !entryChan(ch.t) {
				for _, c := range sel.States {
					if c.Dir == types.SendOnly && entryChan(c.Chan.Type()) {
						st.mon["gave up"] = x.u.True
					}
				}
			}
			elem := false
			switch i := in.(type) {
			case *ssa.UnOp:
				elem = entryChan(i.X.Type())
			case *ssa.Select:
				for _, c := range i.States {
					elem = elem || c.Dir == types.RecvOnly && entryChan(c.Chan.Type())
				}
			}
			if !elem || !(entryChan(ch.t) || ch.op == ONil || ch.t == nil) {
				return nil
			}
			x.obligation("has-sender", in)
			active := ch.any(func(t *Term) bool { return t.op == OCall && t.s == "active paging" || t.op == OLookup })
			if st.mon["started|"+chanKey(ch)] == nil && !active || st.isNil(ch) {
				x.report("has-sender", in, "receive", "the search may wait for an entry that nobody sends: "+clip(ch.String()), st)
			}
			if st.mon["received"] != nil && !sawEntry(st) {
				x.report("ends", in, "receive", "the search may receive again although the channel was closed", st)
			}
			st.mon["received"] = x.u.True
			return nil
		}
		s.remember = func(a *Term) bool { return isReceived(a) }
		s.loopEdge = func(f *frame, c *config, l *loop, exit bool) {
			if c.st.mon["received"] == nil {
				return
			}
			f.x.oblig["ends"]++
			if !exit && !sawEntry(c.st) {
				for _, in := range l.head.Instrs {
					f.x.report("ends", in, "loop", "the search may go on receiving although the channel was closed", c.st)
					break
				}
			}
			delete(c.st.mon, "received")
		}
		r.analyse("ldif Search", s, func(x *Exec) {
			ws := x.buildBackend(b)
			live = true
			for _, w := range ws {
				w.st.mon = map[string]*Term{}
				m, _ := x.methodOfValue(w.recv, "Search")
				for _, o := range x.callMethod(w, "Search", "boundDN", "req", "conn") {
					if ch := o.st.mon["registered"]; ch != nil && o.st.mon["started|"+chanKey(ch)] == nil {
						x.report("registered", m.Blocks[0].Instrs[0], "table", "a channel is put into the table of active pagings, but nothing is going to send on it", o.st)
					}
				}
			}
		})
	}
}

func isReceived(a *Term) bool {
	return a.any(func(t *Term) bool {
		return t.op == ONonce && t.n.age == 0 && (strings.HasPrefix(t.n.kind, "recv") || t.n.kind == "selok")
	})
}

// sawEntry: the last receive is known to have given an entry.
func sawEntry(st *State) bool {
	for a, v := range st.facts {
		if a.op == ONonce && v && isReceived(a) {
			return true
		}
		if a.op == OEq && !v && a.contains(st.u.Nil) && isReceived(a) {
			return true
		}
	}
	return false
}
