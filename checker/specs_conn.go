package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C25"] = checkC25
	props["C26"] = checkC26
	props["C27"] = checkC27
}

// counterFor names the counter of each counted kind of request.
var counterFor = map[int64]string{0: "Binds", 2: "Unbinds", 3: "Searches", 6: "Modifies", 8: "Adds", 10: "Deletes", 12: "ModifyDNs"}

// statsField: the address of a counter of the server statistics.
func statsField(a *Term) string {
	if a.op != OFieldA || !statsStore(nil, a, nil) || strings.Contains(strings.ToLower(a.s), "mutex") {
		return ""
	}
	return a.s
}

func isRead(in ssa.Instruction) bool {
	cc := callOf(in)
	return cc != nil && calleeName(cc) == berP+"ReadPacket"
}

// teardownSpec follows a connection with failures of the decoder and of the backends.
func teardownSpec(r *Run) *Spec {
	s := connSpec(r.id)
	s.event = func(in ssa.Instruction) bool {
		if backendEvent(in) || isRead(in) {
			return true
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				t, _ := fieldOf(fa)
				return t == lsPkg+".Stats"
			}
		}
		cc := callOf(in)
		return cc != nil && strings.HasSuffix(calleeName(cc), ").Close")
	}
	s.policy = policy(s.policy, map[string]string{
		lsPkg + ".encodeSearchResponse":   "opaque",
		lsPkg + ".encodeLDAPResponse":     "opaque",
		lsPkg + ".encodeBindResponse":     "opaque",
		lsPkg + ".encodeSearchDone":       "opaque",
		lsPkg + ".encodeExtendedResponse": "opaque",
	})
	bind := s.iface
	s.iface = func(c *Call, st *State) []*Outcome {
		op := backendOp(c)
		if op == "" || op == "Close" {
			return nil
		}
		var outs []*Outcome
		if op == "Bind" {
			prev := st.mon["ident"]
			outs = bind(c, st)
			for _, o := range outs {
				if o.kind == KRet && o.st.has("bindok") {
					// until the next request the connection may still end without taking over the new identity
					o.st.mon["prev"] = prev
				}
			}
		} else {
			outs = c.x.opaque(c, st)
		}
		for _, o := range outs {
			if o.kind == KPanic {
				return outs
			}
		}
		p := st.clone()
		p.note(c.pos(), op+" panics")
		return append(outs, &Outcome{st: p, kind: KPanic, ret: c.x.u.sym("panic")})
	}
	s.models = map[string]Model{berP + "ReadPacket": func(c *Call, st *State) []*Outcome {
		p := st.clone()
		p.note(c.pos(), "decoding panics")
		delete(p.mon, "prev")
		delete(st.mon, "prev")
		return append(c.x.opaque(c, st), &Outcome{st: p, kind: KPanic, ret: c.x.u.sym("panic")})
	}}
	keep := s.keepLoop
	s.keepLoop = func(a *Term, st *State) bool {
		if keep(a, st) {
			return true
		}
		if a.op != OEq {
			return false
		}
		for i := range a.a {
			b := a.a[1-i]
			if a.a[i] == st.u.Nil && b.op == OInit && b.a[0].op == OFieldA && b.a[0].s == "Stats" {
				return true
			}
		}
		return false
	}
	s.post = func(c *Call, o *Outcome) {
		if c.name == berP+"ReadPacket" && o.kind == KRet {
			o.st.mon["request"] = c.x.u.ext(o.ret, 0)
		}
	}
	return s
}

// statsOff: the path knows that no statistics are kept.
func statsOff(st *State) bool {
	for a, v := range st.facts {
		if !v || a.op != OEq {
			continue
		}
		for i := range a.a {
			b := a.a[1-i]
			if a.a[i] == st.u.Nil && b.op == OInit && b.a[0].op == OFieldA && b.a[0].s == "Stats" {
				return true
			}
		}
	}
	return false
}

// bump counts an event on the path: nothing, once, or more often.
func bump(st *State, k string) {
	if st.mon[k] == nil {
		st.mon[k] = st.u.num(1)
	} else {
		st.mon[k] = st.u.num(2)
	}
}

func times(st *State, k string) int64 {
	if st.mon[k] == nil {
		return 0
	}
	n, _ := st.mon[k].intConst()
	return n
}

func isNetConn(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Conn" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net"
}

// connOf is the connection a goroutine was started for.
func connOf(c *Call) *Term {
	if c.fn == nil {
		return nil
	}
	for i, p := range c.fn.Params {
		if isNetConn(p.Type()) && i < len(c.args) {
			return c.args[i]
		}
	}
	if c.fv != nil && c.fv.op == OClosure {
		for i, v := range c.fn.FreeVars {
			t := v.Type()
			if isNetConn(t) {
				return c.fv.a[i]
			}
		}
	}
	return nil
}

func checkC26(r *Run) {
	r.rule("closed", "when the goroutine of a connection ends, on every path including failures of the decoder or a backend, its network connection has been closed", 1)
	r.rule("callbacks", "on each such path every registered close callback was called exactly once, with the identity of the connection and the connection", 2)
	r.rule("gauge", "on each such path the gauge of current connections was decremented exactly once, by one", 1)
	r.rule("gauge-up", "the gauge is incremented exactly once, by one, before the goroutine of a connection is started", 1)
	r.assumption("a close callback itself does not panic (no backend of the repository has one that can)")
	s := teardownSpec(r)
	reads := r.p.reaching(isRead)
	closeFns := func(m *Term) bool {
		return m.op == OInit && m.a[0].op == OFieldA && m.a[0].s == "CloseFns"
	}
	s.iter = func(x *Exec, in ssa.Instruction, st *State, m *Term, more bool) {
		if !closeFns(m) {
			return
		}
		if !st.has("closing") {
			st.mon["closing"] = x.u.True
			x.obligation("callbacks", in)
		} else if st.mon["callback"] == x.u.str("pending") {
			x.report("callbacks", in, "iteration", "a registered close callback may be skipped", st)
		}
		if st.has("closed.all") {
			x.report("callbacks", in, "iteration", "the close callbacks may run twice", st)
		}
		if more {
			st.mon["callback"] = x.u.str("pending")
		} else {
			delete(st.mon, "callback")
			delete(st.mon, "closing")
			st.mon["closed.all"] = x.u.True
		}
	}
	s.pre = func(c *Call, st *State) {
		x, u := c.x, c.x.u
		switch {
		case c.isGo:
			if c.fn != nil && reads[c.fn] {
				x.obligation("gauge-up", c.in)
				if n := times(st, "up"); n != 1 && !(n == 0 && statsOff(st)) {
					x.report("gauge-up", c.in, "ConnsCurrent", "the connection is served although the gauge was not incremented exactly once for it", st)
				}
				delete(st.mon, "up")
			}
		case c.name == "(net.Conn).Close":
			if st.mon["conn"] != nil && st.same(c.args[0], st.mon["conn"]) {
				st.mon["closed"] = u.True
			}
		case backendOp(c) == "Close":
			x.obligation("callbacks", c.in)
			switch {
			case st.mon["callback"] == nil:
				x.report("callbacks", c.in, "callback", "a close callback runs outside the iteration over the registered callbacks", st)
			case st.mon["callback"] != u.str("pending"):
				x.report("callbacks", c.in, "callback", "a close callback may run twice", st)
			}
			st.mon["callback"] = u.str("called")
			if !st.same(c.args[1], st.mon["ident"]) && !(st.has("prev") && (st.same(c.args[1], st.mon["prev"]) || c.args[1] == u.EmptyS)) {
				x.report("callbacks", c.in, "identity", "a close callback gets another identity than that of the connection: "+clip(c.args[1].String()), st)
			}
			if st.mon["conn"] != nil && !st.same(c.args[2], st.mon["conn"]) {
				x.report("callbacks", c.in, "connection", "a close callback gets another connection", st)
			}
		}
	}
	s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, a, v *Term) {
		if statsField(a) != "ConnsCurrent" {
			return
		}
		old := st.load(a, types.Typ[types.Uint64])
		k := "down"
		if st.mon["conn"] == nil {
			k = "up"
		}
		bump(st, k)
		want := map[string]int64{"up": 1, "down": -1}[k]
		x.obligation("gauge", in)
		if n, ok := delta(v, old); !ok || n != want {
			x.report("gauge", in, "ConnsCurrent", "the gauge of current connections is changed by something else than one: "+clip(v.String()), st)
		}
	}
	s.follow = func(c *Call, st *State) bool {
		if c.fn == nil || !reads[c.fn] {
			return false
		}
		startConn(c, st)
		st.mon["conn"] = connOf(c)
		if st.mon["conn"] == nil {
			c.x.undecided("connection of the goroutine %s not found", c.name)
		}
		return true
	}
	s.goDone = func(c *Call, outs []*Outcome) {
		x := c.x
		for _, o := range outs {
			st := o.st
			x.oblig["closed"]++
			if !st.has("closed") {
				x.report("closed", c.in, "connection", "the goroutine of a connection may end without closing it", st)
			}
			if !st.has("closed.all") {
				x.report("callbacks", c.in, "callbacks", "the goroutine of a connection may end without running the close callbacks", st)
			}
			x.oblig["gauge"]++
			if n := times(st, "down"); n != 1 && !(n == 0 && statsOff(st)) {
				x.report("gauge", c.in, "ConnsCurrent", "the goroutine of a connection may end without decrementing the gauge exactly once", st)
			}
		}
	}
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
}

func (st *State) has(k string) bool { return st.mon[k] != nil }

// delta is the constant by which a value differs from an older one.
func delta(v, old *Term) (int64, bool) {
	if v == old {
		return 0, true
	}
	if v.op != OBin || len(v.a) != 2 || v.a[0] != old {
		return 0, false
	}
	n, ok := v.a[1].intConst()
	switch v.s {
	case "+":
		return n, ok
	case "-":
		return -n, ok
	}
	return 0, false
}

// exits lists calls that end the process.
func exitsProcess(n string) bool {
	switch n {
	case "os.Exit", "syscall.Exit", "runtime.Goexit", "syscall.Kill", "(*os.Process).Kill", "(*os.Process).Signal":
		return true
	}
	for _, p := range []string{"log.Fatal", "(*log.Logger).Fatal"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.Contains(n, "sirupsen/logrus") {
		for _, m := range []string{".Fatal", ".Fatalf", ".Fatalln", ".Exit"} {
			if strings.HasSuffix(n, m) {
				return true
			}
		}
	}
	return false
}

func checkC25(r *Run) {
	r.rule("recovered", "a panic while decoding a request or inside a backend never leaves the goroutine of the connection", 1)
	r.rule("recover-first", "the goroutine of a connection installs its recovery before it runs code on client data", 1)
	r.rule("no-exit", "no function reachable from request handling ends the process", 50)
	r.rule("goroutines", "a goroutine started while handling a request installs a recovery first, or neither panics explicitly nor calls code that decodes or evaluates request data", 1)
	s := teardownSpec(r)
	reads := r.p.reaching(isRead)
	s.follow = func(c *Call, st *State) bool {
		if c.fn == nil || !reads[c.fn] {
			return false
		}
		startConn(c, st)
		return true
	}
	var roots []*ssa.Function
	s.goDone = func(c *Call, outs []*Outcome) {
		roots = append(roots, c.fn)
		for _, o := range outs {
			c.x.oblig["recovered"]++
			if o.kind == KPanic {
				c.x.report("recovered", c.in, "panic", "a panic while serving a connection may leave its goroutine and end the process", o.st)
			}
			if o.kind == KExit {
				c.x.report("no-exit", c.in, "exit", "serving a connection may end the process", o.st)
			}
		}
	}
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
	done := map[*ssa.Function]bool{}
	for _, fn := range roots {
		if !done[fn] {
			done[fn] = true
			r.recoverFirst(fn)
		}
	}
	r.noExit(roots)
}

// deferred is the function a defer statement will run.
func deferred(d *ssa.Defer) *ssa.Function {
	if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
		fn, _ := mc.Fn.(*ssa.Function)
		return fn
	}
	return d.Call.StaticCallee()
}

// called is the function of the repository a call or goroutine statement runs.
func called(cc *ssa.CallCommon) *ssa.Function {
	fn := cc.StaticCallee()
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fn, _ = mc.Fn.(*ssa.Function)
	}
	if fn == nil || !inModule(fn) || fn.Blocks == nil {
		return nil
	}
	return fn
}

// recoverFirst walks the start of a goroutine, and of the functions it calls, up to the deferred recovery.
func (r *Run) recoverFirst(fn *ssa.Function) {
	done := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if done[fn] {
			return
		}
		done[fn] = true
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, in := range b.Instrs {
				bad := ""
				switch in := in.(type) {
				case *ssa.Defer:
					if g := deferred(in); g != nil && hasRecover(g) {
						r.ok("recover-first")
						return
					}
				case *ssa.Call:
					n := calleeName(in.Common())
					if g := called(in.Common()); g != nil {
						visit(g)
					} else if strings.HasPrefix(n, berP) || strings.HasPrefix(n, ldapP) {
						bad = "calls " + short(n)
					}
				case *ssa.TypeAssert:
					if !in.CommaOk {
						bad = "asserts a type"
					}
				case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Panic:
					bad = "runs an operation that can panic"
				}
				if bad != "" {
					r.failAt("recover-first", in, "before recovery", "the goroutine of a connection "+bad+" before it installs its recovery")
					return
				}
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(fn.Blocks[0])
	}
	visit(fn)
}

// noExit visits everything reachable from the goroutines of connections.
func (r *Run) noExit(roots []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, roots...)
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[fn] || !inModule(fn) {
			continue
		}
		seen[fn] = true
		r.ok("no-exit")
		var ops []*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if g, ok := (*o).(*ssa.Function); ok {
						work = append(work, g)
					}
				}
				cc := callOf(in)
				if cc == nil {
					continue
				}
				n := calleeName(cc)
				if exitsProcess(n) {
					r.failAt("no-exit", in, short(n), "request handling may end the process")
				}
				if cc.IsInvoke() {
					work = append(work, r.p.implementers(cc)...)
				} else if cc.StaticCallee() == nil {
					if _, b := cc.Value.(*ssa.Builtin); !b {
						for _, g := range r.p.addrT {
							if types.Identical(g.Signature, cc.Signature()) {
								work = append(work, g)
							}
						}
					}
				}
				if g, ok := in.(*ssa.Go); ok {
					r.startedGoroutine(g)
				}
			}
		}
	}
}

// startedGoroutine checks a goroutine started during a request: its panics are caught by nobody else.
func (r *Run) startedGoroutine(in *ssa.Go) {
	r.ok("goroutines")
	fn := called(&in.Call)
	if fn == nil {
		r.failAt("goroutines", in, "go", "a goroutine with unknown code is started while handling a request")
		return
	}
	done := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if done[fn] {
			return
		}
		done[fn] = true
		for _, i := range fn.Blocks[0].Instrs {
			if d, ok := i.(*ssa.Defer); ok && hasRecover(deferred(d)) {
				return
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if p, ok := i.(*ssa.Panic); ok && !unreachableSelect(p) {
					r.failAt("goroutines", i, "panic", "a goroutine started while handling a request may panic without recovery")
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						visit(g)
					}
				}
				cc := callOf(i)
				if cc == nil {
					continue
				}
				n := calleeName(cc)
				if g := called(cc); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() != lsPkg {
					visit(g)
				} else if g != nil || strings.HasPrefix(n, berP) || strings.HasPrefix(n, ldapP) {
					r.failAt("goroutines", i, short(n), "a goroutine without recovery handles request data: a panic there ends the process")
				}
			}
		}
	}
	visit(fn)
}

// unreachableSelect: the panic the SSA form puts behind a select statement without a default case.
func unreachableSelect(p *ssa.Panic) bool {
	mi, ok := p.X.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	c, ok := mi.X.(*ssa.Const)
	return ok && c.Value != nil && strings.Contains(c.Value.String(), "blocking select matched no case")
}

// lockKind classifies the operations of a lock of the statistics.
func lockKind(c *Call) string {
	i := strings.LastIndexByte(c.name, '.')
	if !strings.HasPrefix(c.name, "(*sync.") || len(c.args) == 0 || i < 0 {
		return ""
	}
	if !statsStore(nil, c.args[0], nil) {
		return ""
	}
	return c.name[i+1:]
}

// lockHooks tracks the lock of the statistics and requires it around every access.
func lockHooks(s *Spec) {
	pre := s.pre
	s.pre = func(c *Call, st *State) {
		x, u := c.x, c.x.u
		held := st.mon["lock"]
		switch lockKind(c) {
		case "Lock", "RLock":
			x.obligation("released", c.in)
			if held != nil {
				x.report("released", c.in, "lock", "the lock of the counters is taken while it is held: the server blocks for ever", st)
			}
			st.mon["lock"] = u.str(strings.TrimSuffix(lockKind(c), "Lock") + "Lock")
		case "Unlock", "RUnlock":
			if held == nil || held != u.str(strings.Replace(lockKind(c), "Unlock", "Lock", 1)) {
				x.report("released", c.in, "unlock", "the lock of the counters is released although it is not held this way", st)
			}
			delete(st.mon, "lock")
		default:
			if held != nil && (c.name == berP+"ReadPacket" || c.name == "(net.Conn).Write" || backendOp(c) != "" || c.isGo) {
				x.report("released", c.in, "held", "the lock of the counters is held during "+short(c.name), st)
				delete(st.mon, "lock")
			}
		}
		if pre != nil {
			pre(c, st)
		}
	}
	instr := s.instr
	s.instr = func(x *Exec, in ssa.Instruction, ev func(ssa.Value) *Term, st *State) {
		if instr != nil {
			instr(x, in, ev, st)
		}
		if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				if t, _ := fieldOf(fa); t == lsPkg+".Stats" && statsField(ev(ld.X)) != "" {
					x.obligation("guarded", in)
					if st.mon["lock"] == nil {
						x.report("guarded", in, statsField(ev(ld.X)), "a counter is read without its lock", st)
					}
				}
			}
		}
	}
	store := s.store
	s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, a, v *Term) {
		if statsField(a) != "" {
			x.obligation("guarded", in)
			if st.mon["lock"] != x.u.str("Lock") {
				x.report("guarded", in, statsField(a), "a counter is changed without holding its lock", st)
			}
		}
		if store != nil {
			store(x, in, fn, st, a, v)
		}
	}
}

func checkC27(r *Run) {
	r.rule("counted", "while a request is served its own counter is incremented exactly once, by one, and no other operation counter changes", 7)
	r.rule("connections", "each accepted connection is counted exactly once", 1)
	r.rule("maximum", "the highest number of connections is raised to the current number exactly when that is higher", 2)
	r.rule("guarded", "every access to a counter happens with the lock held", 5)
	r.rule("released", "the lock is released before the server does anything else, on every path, and is never taken while held", 2)
	r.rule("snapshot", "the function that reads the counters returns the value of every one of them", 10)
	r.rule("metrics", "every exported metric carries the counter it is named after", 6)
	s := teardownSpec(r)
	reads := r.p.reaching(isRead)
	counters := map[string]bool{}
	for _, f := range counterFor {
		counters[f] = true
	}
	settle := func(x *Exec, in ssa.Instruction, st *State) {
		tag, known := x.reqTag(st)
		want := ""
		if known {
			want = counterFor[tag]
		}
		for f := range counters {
			n := times(st, "n."+f)
			delete(st.mon, "n."+f)
			if f == want {
				x.oblig["counted"]++
				if n != 1 && !(n == 0 && statsOff(st)) {
					x.report("counted", in, f, "a request of type "+x.u.num(tag).String()+" does not increment its counter "+f+" exactly once", st)
				}
			} else if n != 0 {
				x.report("counted", in, f, "the counter "+f+" is incremented by a request of another kind", st)
			}
		}
	}
	s.pre = func(c *Call, st *State) {
		c.x.reqTag(st)
		switch {
		case lockKind(c) == "Lock" && len(c.args[0].a) > 0:
			for _, f := range []string{"ConnsCurrent", "ConnsMax"} {
				st.mem[c.x.u.fieldA(c.args[0].a[0], f)] = c.x.typed2(c.x.u.nonce(c.ctx, c.in, f), types.Typ[types.Uint64])
			}
		case lockKind(c) == "Unlock" && len(c.args[0].a) > 0:
			if st.mon["now"] != nil || st.mon["highest"] != nil {
				c.x.maximum(c, st)
			}
			delete(st.mon, "now")
			delete(st.mon, "highest")
			for fact := range st.facts {
				if fact.any(func(t *Term) bool { return t.op == ONonce && (t.n.kind == "ConnsCurrent" || t.n.kind == "ConnsMax") }) {
					delete(st.facts, fact)
				}
			}
			for _, f := range []string{"ConnsCurrent", "ConnsMax"} {
				delete(st.mem, c.x.u.fieldA(c.args[0].a[0], f))
			}
		case c.name == berP+"ReadPacket":
			settle(c.x, c.in, st)
			delete(st.mon, "request")
			delete(st.mon, "tag")
		case c.isGo && c.fn != nil && reads[c.fn]:
			c.x.obligation("connections", c.in)
			if n := times(st, "n.Conns"); n != 1 && !(n == 0 && statsOff(st)) {
				c.x.report("connections", c.in, "Conns", "a connection is served without being counted exactly once", st)
			}
			delete(st.mon, "n.Conns")
		}
	}
	s.ignoreStore = func(st *State, a, v *Term) bool {
		f := statsField(a)
		return f != "ConnsCurrent" && f != "ConnsMax" && statsStore(st, a, v)
	}
	s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, a, v *Term) {
		f := statsField(a)
		switch f {
		case "":
			return
		case "ConnsCurrent":
			n, ok := delta(v, st.load(a, types.Typ[types.Uint64]))
			st.mon["now"] = x.u.tuple(a.a[0], v, x.u.num(n))
			if !ok || n != 1 && n != -1 {
				x.report("maximum", in, f, "the number of current connections changes by something else than one: "+clip(v.String()), st)
			}
			return
		case "ConnsMax":
			if st.mon["highest"] == nil {
				st.mon["highest"] = st.load(a, types.Typ[types.Uint64])
			}
			return
		}
		bump(st, "n."+f)
		if n, ok := delta(v, st.load(a, types.Typ[types.Uint64])); !ok || n != 1 {
			x.report("counted", in, f, "the counter "+f+" changes by something else than one: "+clip(v.String()), st)
		}
	}
	s.follow = func(c *Call, st *State) bool {
		if c.fn == nil || !reads[c.fn] {
			return false
		}
		startConn(c, st)
		return true
	}
	s.goDone = func(c *Call, outs []*Outcome) {
		for _, o := range outs {
			settle(c.x, c.in, o.st)
			if o.st.has("lock") {
				c.x.report("released", c.in, "lock", "the lock of the counters may still be held when a connection ends", o.st)
			}
		}
	}
	lockHooks(s)
	visited := map[*ssa.Function]bool{}
	r.analyse("connection", s, func(x *Exec) {
		x.runServe()
		for fn := range x.visitedF {
			visited[fn] = true
		}
	})
	r.statsReaders(visited)
	r.metrics()
}

// maximum checks the highest number of connections when the lock is released.
func (x *Exec) maximum(c *Call, st *State) {
	u, now, old := x.u, st.mon["now"], st.mon["highest"]
	if now == nil {
		x.report("maximum", c.in, "ConnsMax", "the maximum changes although the number of connections does not", st)
		return
	}
	x.obligation("maximum", c.in)
	max := st.load(u.fieldA(now.a[0], "ConnsMax"), types.Typ[types.Uint64])
	less := now.a[2] == u.num(-1)
	switch {
	case old == nil || max == old:
		if !less && !st.refuted(u.lt(max, now.a[1])) {
			x.report("maximum", c.in, "ConnsMax", "more connections than the maximum may be open", st)
		}
	case max.op == OCall && strings.HasSuffix(max.s, "max") && len(max.a) == 2 && (max.a[0] == old && max.a[1] == now.a[1] || max.a[1] == old && max.a[0] == now.a[1]):
	case max == now.a[1] || st.same(max, now.a[1]):
		if !st.refuted(u.lt(now.a[1], old)) && !st.holds(u.lt(old, now.a[1])) {
			x.report("maximum", c.in, "ConnsMax", "the maximum may be lowered", st)
		}
	default:
		x.report("maximum", c.in, "ConnsMax", "the maximum becomes something else than the number of current connections: "+clip(max.String()), st)
	}
}

func isStats(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Stats" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == lsPkg
}

// statsReaders checks the functions that hand out the counters, and every other
// function that touches them outside a connection.
func (r *Run) statsReaders(visited map[*ssa.Function]bool) {
	var fns []*ssa.Function
	touch := map[*ssa.Function]bool{}
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			return
		}
		if t, f := fieldOf(fa); t == lsPkg+".Stats" && !strings.Contains(strings.ToLower(f), "mutex") {
			if _, local := fa.X.(*ssa.Alloc); !local {
				touch[fn] = true
			}
		}
	})
	for _, fn := range r.p.funcs {
		if !inModule(fn) || fn.Synthetic != "" {
			continue
		}
		res := fn.Signature.Results()
		hands := false
		for i := 0; i < res.Len(); i++ {
			hands = hands || isStats(res.At(i).Type())
		}
		if hands || touch[fn] && !visited[fn] {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		fn := fn
		s := &Spec{ignoreStore: statsStore}
		lockHooks(s)
		r.analyse(fnLabel(fn), s, func(x *Exec) {
			u := x.u
			st := newState(u)
			var names []string
			for _, p := range fn.Params {
				names = append(names, p.Name())
			}
			args := x.symArgs(fn, names...)
			for _, a := range args {
				if a.t != nil {
					if _, ok := a.t.Underlying().(*types.Pointer); ok {
						st.assume(u.eq(a, u.Nil), false)
					}
				}
			}
			for _, o := range x.runFn(fn, args, st) {
				if o.st.has("lock") {
					x.report("released", fn.Blocks[0].Instrs[0], "lock", "the lock of the counters may still be held when "+fnLabel(fn)+" returns", o.st)
				}
				if o.kind != KRet || fn.Signature.Results().Len() != 1 || !isStats(fn.Signature.Results().At(0).Type()) || statsOff(o.st) {
					continue
				}
				x.statsResult(fn, o)
			}
		})
	}
}

// statsResult compares a result with the counters it is a copy of.
func (x *Exec) statsResult(fn *ssa.Function, o *Outcome) {
	st := o.st
	ret := o.ret
	t := fn.Signature.Results().At(0).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if st.isNil(ret) {
			return
		}
		t = p.Elem()
	}
	stt := t.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		v := st.packetField(ret, f.Name())
		x.oblig["snapshot"]++
		if v.op != OInit || v.a[0].op != OFieldA || v.a[0].s != f.Name() || !statsStore(nil, v.a[0], nil) {
			x.report("snapshot", fn.Blocks[0].Instrs[0], f.Name(), "the counter "+f.Name()+" is not handed out: "+clip(v.String()), st)
		}
	}
}

// metrics pairs the name of each exported metric with the counter it reports.
func (r *Run) metrics() {
	const promP = "github.com/prometheus/client_golang/prometheus."
	want := map[string]string{
		"connections_total": "Conns", "connections_current": "ConnsCurrent", "connections_max": "ConnsMax",
		"binds_total": "Binds", "unbinds_total": "Unbinds", "searches_total": "Searches", "adds_total": "Adds",
		"deletes_total": "Deletes", "modifies_total": "Modifies", "modifydns_total": "ModifyDNs",
	}
	mk := r.p.fn(srvPkg, "NewLDAPServerCollector")
	if mk == nil {
		r.fail("metrics", "server/metrics.go", "server", "NewLDAPServerCollector", "the collector of the LDAP server metrics was not found")
		return
	}
	s := &Spec{policy: map[string]string{promP + "NewDesc": "pure", promP + "BuildFQName": "pure", promP + "MustNewConstMetric": "pure"}}
	seen := map[string]bool{}
	s.pre = func(c *Call, st *State) {
		if c.name != promP+"MustNewConstMetric" {
			return
		}
		x := c.x
		x.obligation("metrics", c.in)
		name := ""
		c.args[0].any(func(t *Term) bool {
			if k, ok := t.strConst(); ok && want[k] != "" {
				name = k
				return true
			}
			return false
		})
		if name == "" {
			x.report("metrics", c.in, "name", "a metric is not made from a known description: "+clip(c.args[0].String()), st)
			return
		}
		seen[name] = true
		v := c.args[2]
		for v.op == OConv {
			v = v.a[0]
		}
		if v.op != OInit || v.a[0].op != OFieldA || v.a[0].s != want[name] || !statsStore(nil, v.a[0], nil) {
			x.report("metrics", c.in, name, "the metric "+name+" does not carry the counter "+want[name]+": "+clip(v.String()), st)
		}
	}
	r.analyse("metrics", s, func(x *Exec) {
		u := x.u
		st := newState(u)
		args := x.symArgs(mk, "server")
		st.assume(u.eq(args[0], u.Nil), false)
		for _, o := range x.runFn(mk, args, st) {
			if o.ret == nil || o.ret.op != OIface {
				x.undecided("collector type not known")
			}
			m := r.p.method(o.ret.t, "Collect")
			if m == nil {
				x.undecided("Collect not found")
			}
			x.runFn(m, []*Term{o.ret.a[0], x.symT("ch", m.Params[1].Type())}, o.st)
		}
	})
	for _, k := range []string{"connections_total", "connections_current", "connections_max", "binds_total", "unbinds_total", "searches_total"} {
		if !seen[k] {
			r.fail("metrics", "server/metrics.go", "Collect", k, "the metric "+k+" is not exported")
		}
	}
}
