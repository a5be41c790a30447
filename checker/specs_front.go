package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C02"] = checkC02
	props["C04"] = checkC04
}

// backendOp names the backend operation a call performs ("" if none).
func backendOp(c *Call) string {
	if !c.iface || c.isGo {
		return ""
	}
	return backendMethod(c.name[strings.LastIndex(c.name, ".")+1:], c.sig)
}

func backendMethod(m string, sig *types.Signature) string {
	switch m {
	case "Add", "Delete", "Modify", "ModifyDN", "ModifyPasswordExop", "Search", "Bind":
		if sig.Params().Len() == 3 && types.TypeString(sig.Params().At(2).Type(), nil) == "net.Conn" {
			return m
		}
	case "Close":
		if sig.Params().Len() == 2 && types.TypeString(sig.Params().At(1).Type(), nil) == "net.Conn" {
			return m
		}
	}
	return ""
}

// backendEvent accepts backend calls and goroutine starts.
func backendEvent(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Go:
		return true
	case *ssa.Call:
		return in.Call.IsInvoke() && backendMethod(in.Call.Method.Name(), in.Call.Signature()) != ""
	case *ssa.Defer:
		return in.Call.IsInvoke() && backendMethod(in.Call.Method.Name(), in.Call.Signature()) != ""
	}
	return false
}

func isWriteOp(op string) bool {
	switch op {
	case "Add", "Delete", "Modify", "ModifyDN", "ModifyPasswordExop":
		return true
	}
	return false
}

// statsStore reports stores into the operation counters.
func statsStore(_ *State, a, _ *Term) bool {
	for a.op == OFieldA {
		b := a.a[0]
		if b.t != nil {
			if p, ok := b.t.Underlying().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "Stats" {
					return true
				}
			}
		}
		a = b
	}
	return false
}

// binderModel gives the three results of a bind and tracks the identity they imply.
func binderModel(c *Call, st *State) []*Outcome {
	x, u := c.x, c.x.u
	code := u.nonce(c.ctx, c.in, "bindcode")
	if code.t == nil {
		code.t = c.sig.Results().At(0).Type()
	}
	e := u.nonce(c.ctx, c.in, "binderr")
	okS, failS, errS, panS := st.clone(), st.clone(), st.clone(), st.clone()
	okS.mon["ident"] = x.normDN(okS.snapshot(c.args[1], 3))
	delete(okS.mon, "failed")
	okS.mon["bindok"] = u.True
	okS.note(c.pos(), "bind succeeds")
	var outs []*Outcome
	outs = append(outs, &Outcome{st: okS, ret: u.tuple(u.Zero, u.Nil)})
	if failS.assume(u.eq(code, u.Zero), false) {
		failS.mon["failed"] = u.True
		delete(failS.mon, "bindok")
		failS.note(c.pos(), "bind is refused")
		outs = append(outs, &Outcome{st: failS, ret: u.tuple(code, u.Nil)})
	}
	if errS.assume(u.eq(e, u.Nil), false) {
		errS.mon["failed"] = u.True
		delete(errS.mon, "bindok")
		errS.note(c.pos(), "bind returns an error")
		outs = append(outs, &Outcome{st: errS, ret: u.tuple(code, e)})
	}
	if x.rec > 0 {
		panS.mon["failed"] = u.True
		delete(panS.mon, "bindok")
		panS.note(c.pos(), "bind panics")
		outs = append(outs, &Outcome{st: panS, kind: KPanic, ret: u.sym("panic")})
	}
	return outs
}

// connSpec is the common part of the analyses of the connection loop.
func connSpec(id string) *Spec {
	s := &Spec{id: id, noPanic: true, policy: policy(dnPolicy, map[string]string{
		lsPkg + ".ServerApplyFilter":      "pure",
		lsPkg + ".ServerFilterScope":      "pure",
		lsPkg + ".ServerFilterAttributes": "opaque",
		lsPkg + ".routeFunc":              "opaque",
		lsPkg + ".dumpModRequest":         "pure",
		lsPkg + ".DecompileFilter":        "pure",
		pwPkg + ".Hash":                   "opaque",
		pwPkg + ".GenerateRandomPassword": "opaque",
		lsPkg + ".encodeSearchResponse":   "opaque",
	})}
	s.ignoreStore = statsStore
	s.event = backendEvent
	s.keepLoop = func(a *Term, st *State) bool {
		if a.op != OEq {
			return false
		}
		for i := range a.a {
			if b := a.a[1-i]; a.a[i] == st.u.EmptyS && b == st.mon["ident"] || a.a[i] == st.u.Nil && b.op == OSym {
				return true
			}
		}
		return false
	}
	s.keep = func(a, ret *Term) bool {
		// what a handler found out about the elements of the request matters only inside it
		if !a.hasN || a.op == OEq && (a.a[0].op == OConst || a.a[1].op == OConst) {
			return true
		}
		for _, n := range a.nonceSet() {
			if n.instr == nil || !isRead(n.instr) {
				return true
			}
		}
		for _, v := range a.a {
			if ret != nil && v.hasN && ret.contains(v) {
				return true
			}
		}
		return false
	}
	s.follow = func(c *Call, st *State) bool {
		startConn(c, st)
		return true
	}
	s.iface = func(c *Call, st *State) []*Outcome {
		if backendOp(c) == "Bind" {
			return binderModel(c, st)
		}
		return nil
	}
	return s
}

// startConn prepares the state of the goroutine of a connection: it does not depend on
// what the accept loop did before.
func startConn(c *Call, st *State) {
	for a := range st.facts {
		if a.op != OEq || a.a[0] != st.u.Nil && a.a[1] != st.u.Nil || a.a[0].op != OSym && a.a[1].op != OSym {
			delete(st.facts, a)
			st.repValid = false
		}
	}
	st.mon["ident"] = c.x.u.EmptyS
}

// runServe analyses the accept loop and every connection goroutine it starts.
func (x *Exec) runServe() {
	fn := x.p.method(types.NewPointer(x.typeByName(lsPkg, "Server")), "Serve")
	if fn == nil {
		x.undecided("anchor (*Server).Serve not found")
	}
	st := newState(x.u)
	args := x.symArgs(fn, "server", "listener")
	for _, a := range args {
		st.assume(x.u.eq(a, x.u.Nil), false)
	}
	x.runFn(fn, args, st)
}

func checkC02(r *Run) {
	r.rule("authenticated-write", "every backend call for add, delete, modify, rename and password change happens only where the passed identity and the identity of the last successful bind are not empty", 5)
	s := connSpec(r.id)
	s.pre = func(c *Call, st *State) {
		op := backendOp(c)
		if !isWriteOp(op) {
			return
		}
		u := c.x.u
		c.x.obligation("authenticated-write", c.in)
		if !st.refuted(u.eq(c.args[1], u.EmptyS)) || !st.refuted(u.eq(st.mon["ident"], u.EmptyS)) {
			c.x.report("authenticated-write", c.in, op, "backend "+op+" reachable on an unauthenticated connection", st)
		}
	}
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
}

func checkC04(r *Run) {
	r.rule("identity", "the identity argument of every backend call is the normalised DN of the last successful bind of this connection, or anonymous before that or after a failed bind", 7)
	s := connSpec(r.id)
	bind := s.iface
	s.iface = func(c *Call, st *State) []*Outcome {
		outs := bind(c, st)
		for _, o := range outs {
			if o.st.has("bindok") {
				o.st.mon["prev"] = st.mon["ident"]
			}
		}
		return outs
	}
	s.pre = func(c *Call, st *State) {
		op := backendOp(c)
		if c.name == "(net.Conn).Write" {
			delete(st.mon, "prev")
		}
		if op == "" || op == "Bind" || st.mon["ident"] == nil {
			return
		}
		u := c.x.u
		c.x.obligation("identity", c.in)
		id := c.args[1]
		if st.same(id, st.mon["ident"]) {
			return
		}
		if st.same(id, u.EmptyS) && (st.mon["failed"] != nil || op == "Close") {
			return
		}
		if op == "Close" && st.has("prev") && st.same(id, st.mon["prev"]) {
			return // the connection ends before the bind is answered
		}
		c.x.report("identity", c.in, op, "identity passed to the backend is "+clip(id.String())+", last successful bind was "+clip(st.mon["ident"].String()), st)
	}
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
}
