package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C03"] = checkC03
	props["C05"] = checkC05
	props["C07"] = checkC07
}

const validateFn = pwPkg + ".Validate"

var authPolicy = policy(storePolicy, map[string]string{
	"(*github.com/go-ldap/ldap/v3.Entry).GetAttributeValue": "pure",
	ldifPkg + ".parseLDIFFile":                              "opaque",
	ldifPkg + ".parseLDIFDirectory":                         "opaque",
	ldifPkg + ".treeFromLDIF":                               "opaque",
	ldifPkg + ".parseFilterToIndexFilter":                   "opaque",
	"(*github.com/spacewander/go-suffix-tree.Tree).Get":     "pure",
})

func isValidate(a *Term) bool {
	return a.any(func(t *Term) bool { return t.op == OCall && t.s == validateFn })
}

// verified looks for a password check that succeeded: it returns the stored value
// that the given password was compared with.
func (x *Exec) verified(st *State, pw *Term, stored func(*Term) bool) bool {
	u := x.u
	for a, v := range st.facts {
		if !v || a.op != OExt || a.s != "0" || a.a[0].op != OCall || a.a[0].s != validateFn {
			continue
		}
		c := a.a[0]
		if st.same(c.a[0], pw) && st.isNil(u.ext(c, 1)) && stored(c.a[1]) {
			return true
		}
	}
	return false
}

// boltPassword recognises the password attribute of the stored entry with the given id key.
func (x *Exec) boltPassword(st *State, v, key *Term) bool {
	if v.op != OCall || !hasSuffixAny(v.s, ".GetEqualFoldAttributeValue", ".GetAttributeValue") || len(v.a) != 2 {
		return false
	}
	if s, ok := v.a[1].strConst(); !ok || !strings.EqualFold(s, "userPassword") {
		return false
	}
	return v.a[0].any(func(t *Term) bool {
		return t.op == OCall && t.s == "bolt.Get" && bucketName(t.a[0]) == "id2entry" && st.same(t.a[1], key)
	})
}

func checkC03(r *Run) {
	r.rule("owner-or-admin", "an entry is rewritten by a password change only where the identity is not empty and is the normalised name of that entry or of the configured administrator", 1)
	r.rule("old-password", "an entry is rewritten only where no old password was given or it was verified against the stored password of the same entry", 1)
	r.assumption("No entry has the empty name: every stored name ends in the configured base, which is not empty.")
	s := &Spec{policy: authPolicy}
	s.pre = func(c *Call, st *State) {
		if !isBucketWrite(c.name) {
			return
		}
		x, u := c.x, c.x.u
		bound, old := u.sym("boundDN"), x.fieldInit(u.sym("req"), "OldPassword")
		admin := x.normDN(x.fieldInit(u.sym("options"), "AdminDN"))
		x.obligation("owner-or-admin", c.in)
		x.obligation("old-password", c.in)
		if bucketName(c.args[0]) != "id2entry" || len(c.args) < 3 {
			x.report("owner-or-admin", c.in, "bucket", "a password change writes to "+bucketName(c.args[0]), st)
			return
		}
		key := st.snapshotSlice(c.args[1])
		name := x.nameOfID(key)
		if name == nil {
			x.report("owner-or-admin", c.in, "entry", "the rewritten entry is not looked up by name: "+clip(key.String()), st)
			return
		}
		if !st.refuted(u.eq(bound, u.EmptyS)) {
			x.report("owner-or-admin", c.in, "anonymous", "a password is changed for an unauthenticated identity", st)
		}
		if !st.same(bound, name) && !st.same(bound, admin) && !x.emptyName(st, name) {
			x.report("owner-or-admin", c.in, "identity", "a password is changed by an identity that is neither the entry nor the administrator", st)
		}
		if !st.holds(u.eq(old, u.EmptyS)) && !x.verified(st, old, func(v *Term) bool { return x.boltPassword(st, v, key) }) {
			x.report("old-password", c.in, "old password", "a password is changed although the supplied old password was not verified", st)
		}
	}
	r.boltRun("ModifyPasswordExop", s, nil)
}

// emptyName: the name is the normalised empty name.
func (x *Exec) emptyName(st *State, name *Term) bool {
	if st.same(name, x.normDN(x.u.EmptyS)) {
		return true
	}
	p := parsedOf(name)
	return p != nil && p.op == OExt && p.a[0].op == OCall && p.a[0].s == ldapP+"ParseDN" && st.same(p.a[0].a[0], x.u.EmptyS)
}

// localAnonymous: the switch is on and the client's address is a loopback address.
func (x *Exec) localAnonymous(st *State) bool {
	u := x.u
	if !st.holds(x.fieldInit(u.sym("options"), "AllowLocalAnonymousBind")) {
		return false
	}
	for a, v := range st.facts {
		if v && a.op == OCall && strings.HasSuffix(a.s, ".IsLoopback") && a.any(func(t *Term) bool {
			return t.op == OCall && strings.HasSuffix(t.s, ".RemoteAddr") && len(t.a) > 0 && t.a[0] == u.sym("conn")
		}) {
			return true
		}
	}
	return false
}

type backend struct {
	name, pkg, ctor string
	middleware      bool
}

var backends = []backend{
	{"boltdb", boltdbPkg, "NewBoltDBHandler", false},
	{"ldif", ldifPkg, "NewLDIFHandler", false},
	{"ldif middleware", ldifPkg, "NewLDIFMiddleware", true},
}

// buildBackend constructs a backend the way the server does.
func (x *Exec) buildBackend(b backend) []world {
	if !b.middleware {
		return x.build(b.pkg, b.ctor, newState(x.u), "", "", "options")
	}
	fn := x.mustFn(b.pkg, b.ctor)
	st := newState(x.u)
	args := x.symArgs(fn, "", "", "options")
	st.assume(x.u.eq(args[2], x.u.Nil), false)
	var ws []world
	for _, o := range x.runFn(fn, args, st) {
		if o.kind != KRet {
			continue
		}
		h := x.u.ext(o.ret, 0)
		if !o.st.assume(x.u.eq(x.u.ext(o.ret, 1), x.u.Nil), true) || h.op == ONil {
			continue
		}
		m, recv := x.methodOfValue(h, "WithHandler")
		if m == nil {
			x.undecided("WithHandler not found")
		}
		next := x.symT("next", m.Params[1].Type())
		o.st.assume(x.u.eq(next, x.u.Nil), false)
		for _, p := range x.runFn(m, []*Term{recv, next}, o.st) {
			if p.kind == KRet && p.ret.op == OIface {
				ws = append(ws, x.withContext(world{p.st, p.ret})...)
			}
		}
	}
	if len(ws) == 0 {
		x.undecided("constructor %s yields no usable object", b.ctor)
	}
	return ws
}

// backendRun analyses one operation of a backend.
func (r *Run) backendRun(b backend, op string, s *Spec, each func(x *Exec, m *ssa.Function, o *Outcome)) {
	r.backendRunWith(b, op, s, nil, each)
}

// backendRunWith does so after the state was prepared.
func (r *Run) backendRunWith(b backend, op string, s *Spec, prepare func(x *Exec, st *State), each func(x *Exec, m *ssa.Function, o *Outcome)) {
	s.id = r.id
	live := false
	pre, post, store := s.pre, s.post, s.store
	s.pre = func(c *Call, st *State) {
		if live && pre != nil {
			pre(c, st)
		}
	}
	s.post = func(c *Call, o *Outcome) {
		if live && post != nil {
			post(c, o)
		}
	}
	s.store = nil
	r.analyse(b.name+" "+op, s, func(x *Exec) {
		ws := x.buildBackend(b)
		live = true
		s.store = store
		for _, w := range ws {
			for k := range w.st.mon {
				if strings.HasPrefix(k, "bolt.") {
					delete(w.st.mon, k)
				}
			}
			m, _ := x.methodOfValue(w.recv, op)
			if m == nil {
				x.undecided("method %s not found", op)
			}
			names := []string{"boundDN", "req", "conn"}
			if op == "Bind" {
				names = []string{"bindDN", "bindPw", "conn"}
			}
			if prepare != nil {
				prepare(x, w.st)
			}
			for _, o := range x.callMethod(w, op, names...) {
				if o.kind == KRet {
					each(x, m, o)
				}
			}
		}
	})
}

func checkC05(r *Run) {
	r.rule("verified-bind", "a backend reports a successful bind only where the given non-empty password was verified against the stored password of the entry named by the bind DN, or for the empty name and password with local anonymous access enabled and a loopback client, or by passing on the result of the next backend", 3)
	r.rule("bind-response", "the server answers a bind with success only where the backend was called for it and accepted it without error or panic", 3)
	r.bindResponses("bind-response")
	for _, b := range backends {
		b := b
		s := &Spec{policy: authPolicy, unroll: 8, unrollIn: []string{ldbPkg, boltdbPkg}, remember: isValidate, iface: nextBackend}
		r.backendRun(b, "Bind", s, func(x *Exec, m *ssa.Function, o *Outcome) {
			u, st := x.u, o.st
			code := u.ext(o.ret, 0)
			if !mayBe(st, code, 0) {
				return
			}
			x.oblig["verified-bind"]++
			dn, pw := u.sym("bindDN"), u.sym("bindPw")
			if c := delegated(code); c != nil {
				if c.a[2] == pw && (st.same(lower(u, c.a[1]), lower(u, dn)) || st.same(c.a[1], dn)) {
					return
				}
				x.report("verified-bind", m.Blocks[0].Instrs[0], b.name+": delegation", "the next backend is asked with other credentials than the client's", st)
				return
			}
			empty := func(t *Term) bool { return st.holds(u.eq(t, u.EmptyS)) || st.holds(u.eq(lower(u, t), u.EmptyS)) }
			if empty(dn) && empty(pw) && x.localAnonymous(st) {
				return
			}
			if st.refuted(u.eq(pw, u.EmptyS)) && x.verified(st, pw, func(v *Term) bool {
				if b.pkg == boltdbPkg {
					return x.boltPassword(st, v, x.le(x.idOfAny(st, x.normDN(dn))))
				}
				return x.ldifPassword(st, v, dn)
			}) {
				return
			}
			x.report("verified-bind", m.Blocks[0].Instrs[0], b.name, "a bind may succeed without verified credentials", st)
		})
	}
}

// idOfAny is the id found for a name by whichever lookup was made.
func (x *Exec) idOfAny(st *State, name *Term) *Term {
	for _, g := range x.u.gets {
		if bucketName(g.a[0]) == "dn2id" && st.same(g.a[1], name) {
			return x.u.u64("le", g)
		}
	}
	return x.u.Zero
}

// nextBackend keeps the arguments of the calls a middleware makes to the next backend.
func nextBackend(c *Call, st *State) []*Outcome {
	if c.common == nil || c.common.Method == nil || len(c.args) == 0 || !isNext(c.args[0]) {
		return nil
	}
	return []*Outcome{{st: st, ret: c.x.u.call(c.name, c.sig.Results(), c.args...)}}
}

func isNext(t *Term) bool {
	return t.op == OSym && t.s == "next" || t.op == OCall && strings.HasSuffix(t.s, ".WithContext") && isNext(t.a[0])
}

// delegated returns the call of the next backend that a result comes from.
func delegated(t *Term) *Term {
	if t.op == OExt && t.a[0].op == OCall && strings.HasSuffix(t.a[0].s, ".Bind") && len(t.a[0].a) >= 3 && isNext(t.a[0].a[0]) {
		return t.a[0]
	}
	return nil
}

// ldifPassword recognises the password of the loaded entry with the given name.
func (x *Exec) ldifPassword(st *State, v, dn *Term) bool {
	u := x.u
	pwField := v.any(func(t *Term) bool { return t.op == OFieldA && t.s == "UserPassword" })
	return pwField && v.any(func(t *Term) bool {
		return t.op == OCall && strings.HasSuffix(t.s, "go-suffix-tree.Tree).Get") && st.same(lower(u, t.a[1]), lower(u, dn))
	})
}

func checkC07(r *Run) {
	r.rule("anonymous-read", "a search result with entries is returned only where the identity is known to be non-empty or local anonymous access is enabled and the client is on a loopback address", 2)
	for _, b := range backends {
		b := b
		s := &Spec{policy: policy(authPolicy, map[string]string{
			lsPkg + ".CompileFilter":          "opaque",
			lsPkg + ".ServerApplyFilter":      "opaque",
			lsPkg + ".ServerFilterScope":      "opaque",
			lsPkg + ".ServerFilterAttributes": "opaque",
		}), iface: nextBackend}
		r.backendRun(b, "Search", s, func(x *Exec, m *ssa.Function, o *Outcome) {
			u, st := x.u, o.st
			res := u.ext(o.ret, 0)
			if b.middleware && res.op == OExt && res.a[0].op == OCall && strings.HasSuffix(res.a[0].s, ".Search") && isNext(res.a[0].a[0]) {
				x.oblig["anonymous-read"]++
				if id := res.a[0].a[1]; id != u.sym("boundDN") && lower(u, id) != lower(u, u.sym("boundDN")) || res.a[0].a[3] != u.sym("conn") {
					x.report("anonymous-read", m.Blocks[0].Instrs[0], b.name, "the next backend is asked for another identity or connection", st)
				}
				return
			}
			if res.op == OStruct {
				if es := res.a[0]; es == u.Nil || st.holds(u.eq(u.length(es), u.Zero)) {
					return
				}
			}
			x.oblig["anonymous-read"]++
			dn := u.sym("boundDN")
			if st.refuted(u.eq(dn, u.EmptyS)) || st.refuted(u.eq(lower(u, dn), u.EmptyS)) || x.localAnonymous(st) {
				return
			}
			x.report("anonymous-read", m.Blocks[0].Instrs[0], b.name, "entries may be returned to an unauthenticated client", st)
		})
	}
}
