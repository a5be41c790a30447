package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C24"] = checkC24
	props["C39"] = checkC39
}

// request and response tags (RFC 4511)
var responseFor = map[int64]int64{1: 0, 4: 3, 5: 3, 7: 6, 9: 8, 11: 10, 13: 12, 15: 14, 24: 23, 19: 3}

const (
	tagUnbind      = 2
	tagSearch      = 3
	tagSearchEntry = 4
	tagSearchRef   = 19
	tagBind        = 0
)

func packetEvent(in ssa.Instruction) bool {
	if backendEvent(in) {
		return true
	}
	cc := callOf(in)
	if cc == nil {
		return false
	}
	n := calleeName(cc)
	return n == "(net.Conn).Write" || strings.HasPrefix(n, berP) || strings.HasSuffix(n, "Packet).AppendChild")
}

// responseSpec follows requests and the packets written to the connection.
func responseSpec(id string) *Spec {
	s := connSpec(id)
	s.policy = policy(s.policy, map[string]string{lsPkg + ".encodeSearchResponse": "inline", lsPkg + ".encodeSearchAttribute": "opaque", lsPkg + ".ServerFilterAttributes": "inline", lsPkg + ".filterAttributes": "opaque"})
	s.event = packetEvent
	s.iface = responseBackend
	keep := s.keepLoop
	s.keepLoop = func(a *Term, st *State) bool {
		if keep(a, st) {
			return true
		}
		if a.op != OEq || st.mon["request"] == nil || st.mon["final"] != nil {
			return false
		}
		for i := range a.a {
			b := a.a[1-i]
			if b == st.mon["bcode"] || b == st.mon["berr"] {
				return true
			}
		}
		return false
	}
	return s
}

// responseBackend gives the results a backend may return: success, a refusal, or an
// error, which always goes with a non-success code (the contract rule of C39).
func responseBackend(c *Call, st *State) []*Outcome {
	op := backendOp(c)
	if op == "" || op == "Close" {
		return nil
	}
	x, u := c.x, c.x.u
	code := u.nonce(c.ctx, c.in, "code")
	e := u.nonce(c.ctx, c.in, "err")
	var ct types.Type
	if op == "Search" {
		ct = x.typeByName(lsPkg, "LDAPResultCode")
	} else {
		ct = c.sig.Results().At(0).Type()
	}
	if code.t == nil {
		code.t = ct
	}
	var outs []*Outcome
	add := func(code, err *Term, note string) {
		s := st.clone()
		if code != u.Zero && !s.assume(u.eq(code, u.Zero), false) {
			return
		}
		if err != u.Nil && !s.assume(u.eq(err, u.Nil), false) {
			return
		}
		s.mon["bcode"], s.mon["berr"], s.mon["bop"] = code, err, u.str(op)
		if s.mon["bcalls"] == nil {
			s.mon["bcalls"] = u.num(1)
		} else {
			s.mon["bcalls"] = u.num(2)
		}
		s.note(c.pos(), op+" "+note)
		ret := code
		if op == "Search" {
			res := u.nonce(c.ctx, c.in, "result")
			rt := c.sig.Results().At(0).Type()
			if res.t == nil {
				res.t = rt
			}
			stt, ok := isStruct(rt)
			if !ok {
				x.undecided("search result type")
			}
			fs := make([]*Term, stt.NumFields())
			for i := range fs {
				fs[i] = u.field(res, i, stt.Field(i).Name(), stt.Field(i).Type())
				if stt.Field(i).Name() == "ResultCode" {
					fs[i] = code
				}
			}
			ret = u.mk(&Term{op: OStruct, t: rt, a: fs})
		}
		outs = append(outs, &Outcome{st: s, ret: u.tuple(ret, err)})
	}
	add(u.Zero, u.Nil, "succeeds")
	if op != "Search" {
		add(code, u.Nil, "is refused")
	}
	add(code, e, "fails")
	if x.rec > 0 {
		s := st.clone()
		s.mon["bop"] = u.str(op)
		s.mon["bpanic"] = u.True
		s.note(c.pos(), op+" panics")
		outs = append(outs, &Outcome{st: s, kind: KPanic, ret: u.sym("panic")})
	}
	return outs
}

// reqTag finds the kind of the current request: the constant its tag is known to equal.
func (x *Exec) reqTag(st *State) (int64, bool) {
	if t := st.mon["tag"]; t != nil {
		return t.intConst()
	}
	p := st.mon["request"]
	if p == nil {
		return 0, false
	}
	for a, v := range st.facts {
		if !v || a.op != OEq {
			continue
		}
		for i := range a.a {
			n, ok := a.a[i].intConst()
			if ok && isTagOf(a.a[1-i], p) {
				st.mon["tag"] = a.a[i]
				return n, true
			}
		}
	}
	return 0, false
}

// isTagOf: the term is the tag of the protocol operation of the packet.
func isTagOf(t, p *Term) bool {
	if t.op == OConv {
		t = t.a[0]
	}
	return t.op == OInit && t.a[0].op == OFieldA && t.a[0].s == "Tag" && isRequest(t, p)
}

// isRequest: the term is a field of the protocol operation of the request packet itself.
func isRequest(t, p *Term) bool {
	depth := 0
	var idx *Term
	t.any(func(s *Term) bool {
		if s.op == OIndexA || s.op == OIndex {
			depth++
			idx = s.a[1]
		}
		return false
	})
	if depth != 1 || !t.contains(p) {
		return false
	}
	n, ok := idx.intConst()
	return ok && n == 1
}

// isMessageID: the term is the message ID of the request.
func (x *Exec) isMessageID(st *State, t *Term) bool {
	p := st.mon["request"]
	if t.op == OIface {
		t = t.a[0]
	}
	if p == nil || t.op != OTA || !t.contains(p) {
		return false
	}
	depth := 0
	zero := false
	t.any(func(s *Term) bool {
		if s.op == OIndexA || s.op == OIndex {
			depth++
			n, ok := s.a[1].intConst()
			zero = ok && n == 0
		}
		return false
	})
	return depth == 1 && zero && t.any(func(s *Term) bool { return s.op == OFieldA && s.s == "Value" })
}

// packetField reads a field of a packet, given by value or by address.
func (st *State) packetField(p *Term, names ...string) *Term {
	for i, n := range names {
		if a := st.u.fieldA(p, n); p.op != OStruct && i < len(names)-1 && st.mem[a] == nil {
			p = a
			continue
		}
		if p.op == OStruct {
			t, ok := isStruct(p.t)
			for i := 0; ok && i < t.NumFields(); i++ {
				if t.Field(i).Name() == n {
					p = p.a[i]
					break
				}
			}
			continue
		}
		p = st.load(st.u.fieldA(p, n), types.NewInterfaceType(nil, nil))
	}
	return p
}

// response is what a written packet carries.
type response struct {
	id   *Term
	tag  int64
	code *Term
}

func (x *Exec) readResponse(st *State, data *Term) (*response, string) {
	if data.op != OCall || data.s != "ber.Bytes" {
		return nil, "the written data is not the encoding of a packet: " + clip(data.String())
	}
	p := data.a[0]
	kids := st.packetField(p, "Children")
	if kids.op != OAppend || kids.a[0].op != ONil || len(kids.a) < 3 {
		return nil, "the written packet does not have a message ID and an operation: " + clip(kids.String())
	}
	r := &response{id: st.packetField(kids.a[1], "Value")}
	op := kids.a[2]
	tag, ok := st.packetField(op, "Identifier", "Tag").intConst()
	if !ok {
		return nil, "the response type is not a known constant: " + clip(st.packetField(op, "Identifier", "Tag").String())
	}
	if class, ok := st.packetField(op, "Identifier", "ClassType").intConst(); !ok || class != 64 {
		return nil, "the response is not of the application class"
	}
	r.tag = tag
	if tag == tagSearchEntry || tag == tagSearchRef {
		return r, ""
	}
	kids = st.packetField(op, "Children")
	if kids.op != OAppend || kids.a[0].op != ONil || len(kids.a) < 4 {
		return nil, "the response does not have a result code, a matched DN and a message"
	}
	code := st.packetField(kids.a[1], "Value")
	if code.op == OIface {
		code = code.a[0]
	}
	r.code = code
	return r, ""
}

// requestHooks opens a request at each packet read and inspects each packet written.
func requestHooks(s *Spec, onWrite func(c *Call, st *State, r *response, bad string), onNext func(c *Call, st *State)) {
	s.pre = func(c *Call, st *State) {
		if st.mon["final"] == nil {
			c.x.reqTag(st)
		}
		switch {
		case c.name == "(net.Conn).Write":
			r, bad := c.x.readResponse(st, st.value(c.args[1]))
			onWrite(c, st, r, bad)
		case c.name == berP+"ReadPacket":
			if st.mon["request"] != nil {
				onNext(c, st)
			}
			for _, k := range []string{"request", "final", "tag", "bcode", "berr", "bop", "bcalls", "bpanic"} {
				delete(st.mon, k)
			}
		}
	}
	s.post = func(c *Call, o *Outcome) {
		if c.name == berP+"ReadPacket" && o.kind == KRet {
			o.st.mon["request"] = c.x.u.ext(o.ret, 0)
		}
	}
}

// answered ends a request: what the backend returned does not matter any more.
func answered(st *State) {
	for _, k := range []string{"tag", "bcode", "berr", "bop", "bcalls", "bpanic"} {
		delete(st.mon, k)
	}
	st.mon["final"] = st.u.True
}

func checkC24(r *Run) {
	r.rule("matching-response", "every packet written to the connection carries the message ID of the current request and the response type that belongs to it", 8)
	r.rule("one-final-response", "no second final response is written for a request, and none for an unbind", 8)
	r.rule("answered", "when the next request is read, the current one has been answered", 1)
	s := responseSpec(r.id)
	requestHooks(s, func(c *Call, st *State, resp *response, bad string) {
		x, u := c.x, c.x.u
		x.obligation("matching-response", c.in)
		if bad != "" {
			x.report("matching-response", c.in, "packet", bad, st)
			return
		}
		x.oblig["one-final-response"]++
		if st.mon["final"] != nil {
			x.report("one-final-response", c.in, "response type "+u.num(resp.tag).String(), "a packet is written after the final response to the request", st)
			return
		}
		tag, known := x.reqTag(st)
		what := "response type " + u.num(resp.tag).String()
		if !known {
			x.report("matching-response", c.in, what, "a response is written although the kind of the request is not known", st)
			return
		}
		x.oblig["matching-response"]++
		if want, ok := responseFor[resp.tag]; !ok || want != tag {
			x.report("matching-response", c.in, what, what+" is written for request type "+u.num(tag).String(), st)
		}
		if !x.isMessageID(st, resp.id) {
			x.report("matching-response", c.in, "message ID", "the response carries another message ID than the request: "+clip(resp.id.String()), st)
		}
		if tag == tagUnbind {
			x.report("one-final-response", c.in, "unbind", "an unbind is answered", st)
		}
		if resp.tag != tagSearchEntry && resp.tag != tagSearchRef {
			answered(st)
		}
	}, func(c *Call, st *State) {
		c.x.obligation("answered", c.in)
		if st.mon["final"] == nil {
			tag, _ := c.x.reqTag(st)
			c.x.report("answered", c.in, "request type "+c.x.u.num(tag).String(), "the next request is read although the current one was not answered", st)
		}
	})
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
}

// frontError: a result code taken from an error value that did not come from a backend;
// the rule on error codes makes sure it is not success.
func frontError(st *State, code *Term) bool {
	return code.any(func(t *Term) bool {
		return t.op == OTA && t.a[0] != st.mon["berr"]
	}) && code.any(func(t *Term) bool { return t.op == OFieldA && t.s == "ResultCode" })
}

// checkResult decides whether the code of a final response agrees with what the backend returned.
func (x *Exec) checkResult(st *State, code *Term) string {
	u := x.u
	nonzero := st.refuted(u.eq(code, u.Zero)) || frontError(st, code)
	b, e := st.mon["bcode"], st.mon["berr"]
	switch {
	case b == nil:
		if !nonzero {
			return "a response may report success although no backend was called: " + clip(code.String())
		}
	case st.mon["bpanic"] != nil:
		if !nonzero {
			return "a response may report success although the backend panicked"
		}
	case st.same(code, b):
	case e != u.Nil && nonzero && st.mon["bop"] == u.str("Bind"):
		// an error of a bind is answered with a general error code
	case b == u.Zero && nonzero && st.mon["bop"] == u.str("Search"):
		// limits and filter errors found after a successful search
	default:
		return "the response does not carry the result code the backend returned: " + clip(code.String())
	}
	return ""
}

func checkC39(r *Run) {
	r.rule("result-code", "the result code of every final response is the one the backend returned for this request; success is sent only after a backend reported success without error", 8)
	r.rule("error-codes", "every error value made for a client carries a non-success code or the code a backend returned", 10)
	r.rule("backend-contract", "no backend operation returns success together with an error, or a failed search without an error", 14)
	s := responseSpec(r.id)
	requestHooks(s, func(c *Call, st *State, resp *response, bad string) {
		x, u := c.x, c.x.u
		if bad != "" {
			x.obligation("result-code", c.in)
			x.report("result-code", c.in, "packet", bad, st)
			return
		}
		if resp.code == nil {
			return
		}
		x.obligation("result-code", c.in)
		x.oblig["result-code"]++
		if msg := x.checkResult(st, resp.code); msg != "" {
			x.report("result-code", c.in, "response type "+u.num(resp.tag).String(), msg, st)
		}
		answered(st)
	}, func(c *Call, st *State) {})
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
	r.frontErrorCodes()
	r.backendContract()
}

// frontErrorCodes: the code of every LDAP error made in the front is a non-zero constant
// or comes from the result of a backend call.
func (r *Run) frontErrorCodes() {
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		cc := callOf(in)
		if cc == nil || calleeName(cc) != ldapP+"NewError" {
			return
		}
		r.ok("error-codes")
		if vals, ok := r.p.constants(cc.Args[0], 0); ok {
			for _, v := range vals {
				if v == 0 {
					r.failAt("error-codes", in, "NewError", "an error value is made with the success code")
				}
			}
			return
		}
		if !r.p.fromCallee(cc.Args[0], 0) {
			r.failAt("error-codes", in, "NewError", "an error value is made with a code that is neither a non-success constant nor the result of a call")
		}
	}, lsPkg)
	// literals
	errT := strings.TrimSuffix(ldapP, ".") + ".Error"
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		if t, f := fieldOf(fa); t == errT && f == "ResultCode" {
			r.ok("error-codes")
			if vals, ok := r.p.constants(st.Val, 0); ok {
				for _, v := range vals {
					if v == 0 {
						r.failAt("error-codes", in, "ResultCode", "an error value is given the success code")
					}
				}
			} else if !r.p.fromCallee(st.Val, 0) {
				r.failAt("error-codes", in, "ResultCode", "an error value is given a code that is neither a non-success constant nor the result of a call")
			}
		}
	}, lsPkg)
}

// fromCallee: the value is (a conversion or field of) the result of a call.
func (p *Program) fromCallee(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return p.fromCallee(x.X, depth+1)
	case *ssa.ChangeType:
		return p.fromCallee(x.X, depth+1)
	case *ssa.Extract:
		return p.fromCallee(x.Tuple, depth+1)
	case *ssa.Field:
		return p.fromCallee(x.X, depth+1)
	case *ssa.UnOp:
		return p.fromCallee(x.X, depth+1)
	case *ssa.FieldAddr:
		return p.fromCallee(x.X, depth+1)
	case *ssa.Alloc:
		n := 0
		for _, ref := range *x.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
				n++
				if !p.fromCallee(s.Val, depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := p.constants(e, 0); ok && len(c) > 0 {
				for _, n := range c {
					if n == 0 {
						return false
					}
				}
				continue
			}
			if e != v && !p.fromCallee(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		n, ok := 0, true
		for i, q := range fn.Params {
			if q != x {
				continue
			}
			p.eachInstr(func(_ *ssa.Function, in ssa.Instruction) {
				if cc := callOf(in); cc != nil && cc.StaticCallee() == fn {
					n++
					if c, isC := p.constants(cc.Args[i], 0); isC && len(c) > 0 {
						for _, k := range c {
							if k == 0 {
								ok = false
							}
						}
					} else if !p.fromCallee(cc.Args[i], depth+1) {
						ok = false
					}
				}
			})
		}
		return ok && n > 0
	case *ssa.Call:
		return true
	}
	return false
}

// backendContract checks the pairs of code and error every backend operation can return.
func (r *Run) backendContract() {
	for _, b := range backends {
		for _, op := range []string{"Add", "Bind", "Delete", "Modify", "ModifyDN", "ModifyPasswordExop", "Search"} {
			b, op := b, op
			s := &Spec{policy: policy(authPolicy, map[string]string{
				lsPkg + ".CompileFilter":     "opaque",
				lsPkg + ".ServerApplyFilter": "opaque",
				lsPkg + ".ServerFilterScope": "opaque",
				lsPkg + ".filterAttributes":  "opaque",
				entryPkg + ".ApplyModify":    "opaque",
			}), iface: nextBackend}
			r.backendRun(b, op, s, func(x *Exec, m *ssa.Function, o *Outcome) {
				u, st := x.u, o.st
				code, err := u.ext(o.ret, 0), u.ext(o.ret, 1)
				x.oblig["backend-contract"]++
				if code.op == OExt && code.a[0].op == OCall && isNext(code.a[0].a[0]) && err.op == OExt && err.a[0] == code.a[0] {
					return
				}
				if op == "Search" {
					rt := m.Signature.Results().At(0).Type()
					stt, _ := isStruct(rt)
					for i := 0; stt != nil && i < stt.NumFields(); i++ {
						if stt.Field(i).Name() == "ResultCode" {
							code = u.field(code, i, "ResultCode", stt.Field(i).Type())
						}
					}
				}
				if !mayBe(st, code, 0) {
					if op == "Search" && !st.refuted(u.eq(err, u.Nil)) && !st.notNil(err) {
						x.report("backend-contract", m.Blocks[0].Instrs[0], b.name+" "+op, "a search may end with a failure code and no error, which the front reports as success", st)
					}
					return
				}
				if !st.isNil(err) && !frontError(st, code) {
					x.report("backend-contract", m.Blocks[0].Instrs[0], b.name+" "+op, "success may be returned together with an error: "+clip(err.String()), st)
				}
			})
		}
	}
}

// bindResponses: the front answers a bind with success only after the backend did.
func (r *Run) bindResponses(rule string) {
	s := responseSpec(r.id)
	requestHooks(s, func(c *Call, st *State, resp *response, bad string) {
		x, u := c.x, c.x.u
		tag, known := x.reqTag(st)
		if resp != nil && resp.code != nil {
			defer answered(st)
		}
		if !known || tag != tagBind {
			return
		}
		x.obligation(rule, c.in)
		if bad != "" {
			x.report(rule, c.in, "packet", bad, st)
			return
		}
		if resp.code == nil {
			return
		}
		x.oblig[rule]++
		if st.refuted(u.eq(resp.code, u.Zero)) || frontError(st, resp.code) {
			return
		}
		if st.mon["bop"] != u.str("Bind") || st.mon["bcode"] != u.Zero || st.mon["berr"] != u.Nil || st.mon["bpanic"] != nil {
			x.report(rule, c.in, "bind response", "a bind may be answered with success although the backend did not accept it: "+clip(resp.code.String()), st)
		}
	}, func(c *Call, st *State) {})
	r.analyse("connection", s, func(x *Exec) { x.runServe() })
}
