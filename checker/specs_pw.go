package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C09"] = checkC09
	props["C06"] = checkC06
}

// sha1Model keeps what was written to a SHA-1 object.
func sha1Model(s *Spec) {
	s.models["crypto/sha1.New"] = func(c *Call, st *State) []*Outcome {
		a := c.x.u.alloc(c.ctx, c.in, "sha1")
		a.t = types.NewPointer(types.Typ[types.Int])
		st.mem[c.x.u.contentOf(a)] = c.x.u.EmptyS
		return one(st, c.x.u.mk(&Term{op: OIface, a: []*Term{a}, t: types.NewPointer(types.Typ[types.Int])}))
	}
	s.models["crypto/sha1.Sum"] = func(c *Call, st *State) []*Outcome {
		return one(st, c.x.typed(c.x.u.call("sha1", nil, st.snapshotSlice(c.args[0])), c))
	}
	next := s.iface
	s.iface = func(c *Call, st *State) []*Outcome {
		u := c.x.u
		if len(c.args) > 0 && c.args[0].op == OIface && c.args[0].a[0].op == OAlloc && c.common != nil && c.common.Method != nil {
			a := c.args[0].a[0]
			if old, ok := st.mem[u.contentOf(a)]; ok {
				switch c.common.Method.Name() {
				case "Write":
					v := st.snapshotSlice(c.args[1])
					st.mem[u.contentOf(a)] = u.concat(c.in, c.ctx, old, v)
					return one(st, u.tuple(u.length(v), u.Nil))
				case "Reset":
					st.mem[u.contentOf(a)] = u.EmptyS
					return one(st, nil)
				case "Sum":
					h := u.call("sha1", types.NewSlice(types.Typ[types.Byte]), old)
					if p := st.snapshotSlice(c.args[1]); p != u.Nil && p != u.EmptyS {
						h = u.concat(c.in, c.ctx, p, h)
					}
					return one(st, h)
				}
			}
		}
		if next != nil {
			return next(c, st)
		}
		return nil
	}
}

// storedScheme is what a path knows about the scheme of the stored value.
type storedScheme struct {
	name string           // upper case, without braces
	rest func(*Term) bool // recognises the stored value behind the scheme
}

// schemes collects the positive and negative knowledge of a path about the scheme prefix of the stored value.
func (x *Exec) schemes(st *State, stored *Term) (known []storedScheme, none bool) {
	u := x.u
	atStart := func(t *Term) bool { return t == u.Nil || t == u.Zero }
	plus := func(t *Term, n int64) *Term {
		if t.op == OBin && t.s == "+" && len(t.a) == 2 {
			if k, ok := t.a[1].intConst(); ok {
				if k+n == 0 {
					return t.a[0]
				}
				return u.mk(&Term{op: OBin, s: "+", a: []*Term{t.a[0], u.num(k + n)}})
			}
		}
		if k, ok := t.intConst(); ok {
			return u.num(k + n)
		}
		return u.mk(&Term{op: OBin, s: "+", a: []*Term{t, u.num(n)}})
	}
	unfold := func(t *Term) *Term {
		for t.op == OCall && (t.s == "strings.ToUpper" || t.s == "lower") {
			t = t.a[0]
		}
		return t
	}
	add := func(t *Term, c string, prefix bool) {
		t = unfold(t)
		name := strings.ToUpper(strings.Trim(c, "{}"))
		if name == "" {
			return
		}
		full := strings.HasPrefix(c, "{") && strings.HasSuffix(c, "}")
		length := u.num(int64(len(c)))
		switch {
		case prefix && full && t == stored:
			known = append(known, storedScheme{name, func(v *Term) bool {
				return v.op == OSliceOf && v.a[0] == stored && v.a[1] == length && v.a[2] == u.Nil || v.op == OCall && v.s == "strings.TrimPrefix" && v.a[0] == stored
			}})
		case t.op == OSliceOf && t.a[0] == stored && t.a[2] != u.Nil:
			end, ok := t.a[2], full && atStart(t.a[1])
			if !full && t.a[1] == u.num(1) {
				end, ok = plus(t.a[2], 1), true
			}
			if ok {
				known = append(known, storedScheme{name, func(v *Term) bool {
					return v.op == OSliceOf && v.a[0] == stored && (v.a[1] == end || v.a[1] == length && full) && v.a[2] == u.Nil || v.op == OCall && v.s == "strings.TrimPrefix" && v.a[0] == stored && v.a[1] == t
				}})
			}
		case t.op == OExt && t.s == "0" && t.a[0].op == OCall && t.a[0].s == "strings.Cut" && !full:
			cut := t.a[0]
			from := cut.a[0]
			if sep, ok := cut.a[1].strConst(); ok && sep == "}" && from.op == OSliceOf && from.a[0] == stored && from.a[1] == u.num(1) && st.holds(u.ext(cut, 2)) {
				known = append(known, storedScheme{name, func(v *Term) bool { return v == u.ext(cut, 1) }})
			}
		}
	}
	for f, v := range st.facts {
		switch {
		case f.op == OEq && v:
			for i := range f.a {
				if c, ok := f.a[i].strConst(); ok {
					add(f.a[1-i], c, false)
				}
			}
		case f.op == OCall && v && f.s == "strings.EqualFold":
			for i := range f.a {
				if c, ok := f.a[i].strConst(); ok {
					add(f.a[1-i], c, false)
				}
			}
		case f.op == OCall && f.s == "strings.HasPrefix":
			c, _ := f.a[1].strConst()
			if v {
				add(f.a[0], c, true)
			} else if c == "{" && f.a[0] == stored {
				none = true
			}
		}
		// no opening brace, or no closing brace
		if f.op == OEq && !v {
			for i := range f.a {
				if k, ok := f.a[i].intConst(); ok && k == '{' && f.a[1-i] == u.index(stored, u.Zero, types.Typ[types.Uint8]) {
					none = true
				}
			}
		}
		if f.op == OLt && v && isClosing(f.a[0], stored) {
			if k, ok := f.a[1].intConst(); ok && k <= 1 {
				none = true
			}
		}
		if f.op == OLt && !v && isClosing(f.a[1], stored) {
			if k, ok := f.a[0].intConst(); ok && k <= 0 {
				none = true
			}
		}
		if f.op == OEq && v {
			for i := range f.a {
				if k, ok := f.a[i].intConst(); ok && k == -1 && isClosing(f.a[1-i], stored) {
					none = true
				}
			}
		}
		if !v && f.op == OExt && f.s == "2" && f.a[0].op == OCall && f.a[0].s == "strings.Cut" && f.a[0].a[0].contains(stored) {
			if sep, ok := f.a[0].a[1].strConst(); ok && sep == "}" {
				none = true
			}
		}
		if !v && f.op == OCall && f.s == "strings.Contains" && f.a[0] == stored {
			if sep, ok := f.a[1].strConst(); ok && sep == "}" {
				none = true
			}
		}
	}
	return known, none
}

func isClosing(t, stored *Term) bool {
	if t.op != OCall || t.s != "strings.Index" && t.s != "strings.IndexByte" || t.a[0] != stored {
		return false
	}
	if s, ok := t.a[1].strConst(); ok {
		return s == "}"
	}
	k, ok := t.a[1].intConst()
	return ok && k == '}'
}

// compared lists the pairs of values a path found to be equal.
func compared(st *State) [][2]*Term {
	var out [][2]*Term
	for f, v := range st.facts {
		switch {
		case f.op == OEq && v:
			a, b := f.a[0], f.a[1]
			if k, ok := a.intConst(); ok && k == 1 {
				a, b = b, a
			}
			if k, ok := b.intConst(); ok && k == 1 && a.op == OCall && a.s == "crypto/subtle.ConstantTimeCompare" {
				out = append(out, [2]*Term{a.a[0], a.a[1]})
			} else {
				out = append(out, [2]*Term{a, b})
			}
		case f.op == OCall && v && (f.s == "bytes.Equal" || f.s == "crypto/hmac.Equal"):
			out = append(out, [2]*Term{f.a[0], f.a[1]})
		}
	}
	return out
}

// pieces flattens concatenations and appends of byte strings.
func pieces(t *Term) []*Term {
	switch {
	case t.op == OConcat || t.op == OAppendS:
		var out []*Term
		for _, a := range t.a {
			out = append(out, pieces(a)...)
		}
		return out
	case t.op == OConv && len(t.a) == 1:
		return pieces(t.a[0])
	case t.op == ONil:
		return nil
	}
	if s, ok := t.strConst(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

// reproduced: the path compared the whole stored value with what its scheme makes of the password.
func (x *Exec) reproduced(st *State, scheme string, rest func(*Term) bool, pw *Term) bool {
	u := x.u
	if scheme == "ARGON2" {
		for f, v := range st.facts {
			if v && f.op == OExt && f.s == "0" && f.a[0].op == OCall && f.a[0].s == "github.com/alexedwards/argon2id.ComparePasswordAndHash" &&
				f.a[0].a[0] == pw && rest(f.a[0].a[1]) && st.isNil(u.ext(f.a[0], 1)) {
				return true
			}
		}
		return false
	}
	for _, p := range compared(st) {
		for i := range p {
			have, want := p[i], p[1-i]
			switch scheme {
			case "CRYPT":
				if rest(have) && want.op == OExt && want.s == "0" && want.a[0].op == OCall && want.a[0].s == "github.com/amoghe/go-crypt.Crypt" &&
					want.a[0].a[0] == pw && !want.a[0].a[1].contains(pw) && want.a[0].a[1].any(rest) && st.isNil(u.ext(want.a[0], 1)) {
					return true
				}
			case "SSHA":
				d := have
				if d.op == OSliceOf {
					d = d.a[0]
				}
				if d.op != OExt || d.s != "0" || d.a[0].op != OCall || !strings.HasSuffix(d.a[0].s, "base64.Encoding).DecodeString") || !rest(d.a[0].a[1]) || !st.isNil(u.ext(d.a[0], 1)) {
					continue
				}
				ps := pieces(want)
				if len(ps) == 0 || ps[0].op != OCall || ps[0].s != "sha1" {
					continue
				}
				in := pieces(ps[0].a[0])
				if len(in) != 2 || in[0] != pw {
					continue
				}
				salt := in[1]
				if salt.op != OSliceOf || salt.a[0] != d || salt.a[2] != u.Nil || salt.a[1] == u.Nil || salt.a[1] == u.Zero {
					continue
				}
				if have == d && len(ps) == 2 && ps[1] == salt {
					return true
				}
				if have.op == OSliceOf && len(ps) == 1 && (have.a[1] == u.Nil || have.a[1] == u.Zero) && have.a[2] == salt.a[1] && have.a[2] == u.num(20) {
					return true
				}
			}
		}
	}
	return false
}

func checkC06(r *Run) {
	r.rule("match", "verification reports a match only where the stored value has a known scheme and the path compared the whole value behind the scheme with the result of that scheme for the given password and the salt of the stored value, without an error; or where the stored value has no scheme and equals the password", 3)
	r.rule("no-error", "a match is never reported together with an error", 3)
	r.assumption("argon2id.ComparePasswordAndHash and crypt(3) implement their schemes")
	s := &Spec{id: r.id, policy: map[string]string{pwPkg + ".crypt": "inline"}, models: map[string]Model{}}
	sha1Model(s)
	r.analyse("Validate", s, func(x *Exec) {
		fn := x.mustFn(pwPkg, "Validate")
		u := x.u
		args := x.symArgs(fn, "password", "stored")
		if len(args) != 2 {
			x.undecided("Validate has other parameters than the password and the stored value")
		}
		pw, stored := args[0], args[1]
		for _, o := range x.runFn(fn, args, newState(u)) {
			st := o.st
			if o.kind != KRet || st.refuted(u.ext(o.ret, 0)) {
				continue
			}
			x.oblig["no-error"]++
			if !st.isNil(u.ext(o.ret, 1)) {
				x.report("no-error", fn.Blocks[0].Instrs[0], "error", "a match may be reported together with an error", st)
			}
			x.oblig["match"]++
			known, none := x.schemes(st, stored)
			ok := false
			if len(known) == 0 && none {
				for _, p := range compared(st) {
					ok = ok || p == [2]*Term{pw, stored} || p == [2]*Term{stored, pw}
				}
			}
			for i, k := range known {
				same := true
				for _, l := range known[:i] {
					same = same && l.name == k.name
				}
				if !same {
					ok = false
					break
				}
				ok = ok || x.reproduced(st, k.name, k.rest, pw)
			}
			if !ok {
				name := "no scheme"
				if len(known) > 0 {
					name = known[0].name
				}
				x.report("match", fn.Blocks[0].Instrs[0], name, "a password may verify without reproducing the stored value by its own scheme ("+name+")", st)
			}
		}
	})
}

// randomStrings are the functions that return a string made from the system's random source.
func (p *Program) randomStrings() map[string]bool {
	reach := p.reaching(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && strings.HasPrefix(calleeName(cc), "crypto/rand.")
	})
	out := map[string]bool{}
	for fn := range reach {
		res := fn.Signature.Results()
		if inModule(fn) && fn.Pkg != nil && fn.Pkg.Pkg.Path() == pwPkg && res.Len() > 0 && types.TypeString(res.At(0).Type(), nil) == "string" {
			out[fname(fn)] = true
		}
	}
	return out
}

// freshPassword models the generators and the hash functions of the password package.
func freshPassword(r *Run, s *Spec) {
	result := func(kind string, args func(c *Call) []*Term) Model {
		return func(c *Call, st *State) []*Outcome {
			u := c.x.u
			e := u.nonce(c.ctx, c.in, "err")
			if e.t == nil {
				e.t = types.Universe.Lookup("error").Type()
			}
			v := u.call(kind, types.Typ[types.String], append(args(c), u.nonce(c.ctx, c.in, kind))...)
			return one(st, u.tuple(v, e))
		}
	}
	for g := range r.p.randomStrings() {
		s.models[g] = result("generated", func(c *Call) []*Term { return []*Term{c.x.errOf(c)} })
	}
	s.models["github.com/alexedwards/argon2id.CreateHash"] = result("argon2", func(c *Call) []*Term { return []*Term{c.args[0], c.x.errOf(c)} })
	s.policy = policy(s.policy, map[string]string{pwPkg + ".Hash": "inline"})
}

// errOf is the error of the same call.
func (x *Exec) errOf(c *Call) *Term { return x.u.nonce(c.ctx, c.in, "err") }

// isGenerated: a freshly generated password whose generation did not fail.
func isGenerated(st *State, t *Term) bool {
	return t.op == OCall && t.s == "generated" && st.isNil(t.a[0])
}

// carried collects the contents of a packet and its elements.
func (st *State) carried(p *Term, depth int, visit func(el *Term, v *Term)) {
	if depth == 0 {
		return
	}
	for _, n := range []string{"Value", "Data", "Description"} {
		visit(p, st.packetField(p, n))
	}
	kids := st.packetField(p, "Children")
	if kids.op != OAppend {
		visit(p, kids)
		return
	}
	for _, k := range kids.a {
		if k.op == OAlloc || k.op == OStruct {
			st.carried(k, depth-1, visit)
		} else {
			visit(p, k)
		}
	}
}

func checkC09(r *Run) {
	r.rule("hashed", "the password handed to the backend is the Argon2 hash, computed without an error, of the password the client sent, or of a freshly generated one where the client sent none", 2)
	r.rule("secret", "no response carries the hash, the old or the requested password, or a generated password that was not stored", 10)
	r.rule("told", "a generated password that the backend stored is sent as element 0 of the response value", 3)
	r.rule("random", "generated passwords come from the system's random source", 1)
	r.rule("stored", "the database backend replaces the password attribute of the entry by exactly the value it was given", 1)
	r.assumption("argon2id.CreateHash salts and hashes the given password.")
	const op = "ModifyPasswordExop"
	if len(r.p.randomStrings()) > 0 {
		r.ok("random")
	} else {
		r.fail("random", pwPkg, "", "generator", "no function of the password package makes a string from the system's random source")
	}
	clear := func(x *Exec, st *State, n int, v *Term) bool {
		if isGenerated(st, v) {
			return true
		}
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("pw.%d", i)
			if typedAs(dataOf(p), p, 2)(x, st, v) == "" {
				return true
			}
		}
		return false
	}
	for n := 0; n <= 3; n++ {
		n := n
		for elems := 1; elems <= 2; elems++ {
			if elems == 1 && n > 0 {
				continue
			}
			s := decodeSpec(r)
			s.iface = responseBackend
			s.models = map[string]Model{berP + "DecodePacket": func(c *Call, st *State) []*Outcome {
				return one(st, c.x.packet(st, "pw", c.sig.Results().At(0).Type(), flat(n)))
			}}
			freshPassword(r, s)
			s.pre = func(c *Call, st *State) {
				if backendOp(c) != op {
					return
				}
				x, u := c.x, c.x.u
				x.obligation("hashed", c.in)
				v := st.packetField(st.snapshot(c.args[2], 3), "NewPassword")
				st.mon["stored"] = v
				segs := pieces(v)
				var h *Term
				if len(segs) == 2 && segs[0] == u.str("{ARGON2}") {
					h = segs[1]
				}
				if h == nil || h.op != OCall || h.s != "argon2" || !st.isNil(h.a[1]) {
					x.report("hashed", c.in, "hash", "a password change stores something else than an Argon2 hash: "+clip(v.String()), st)
					return
				}
				pw := h.a[0]
				st.mon["clear"] = pw
				switch {
				case !clear(x, st, n, pw):
					x.report("hashed", c.in, "password", "a password change stores the hash of something else than the requested or a generated password: "+clip(pw.String()), st)
				case isGenerated(st, pw):
					// only where the client sent none
					sent := false
					for i := 0; i < n; i++ {
						p := fmt.Sprintf("pw.%d", i)
						if typedAs(func(*Exec, *State, *Term) string { return "" }, p, 2)(x, st, u.Nil) != "" {
							continue
						}
						if sent = !st.holds(u.eq(x.dataTerm(p), u.EmptyS)); !sent {
							break
						}
					}
					if sent {
						x.report("hashed", c.in, "ignored", "a password is generated although the client sent one", st)
					}
				case !st.refuted(u.eq(pw, u.EmptyS)):
					x.report("hashed", c.in, "empty", "a password change may store the hash of an empty password", st)
				}
			}
			for _, h := range r.p.entryHandlers(op) {
				r.analyse(fmt.Sprintf("password change %d/%d elements", elems, n), s, func(x *Exec) {
					st := newState(x.u)
					for _, o := range x.runFn(h, x.handlerArgs(h, st, flat(elems)), st) {
						if o.kind == KRet {
							x.passwordResponse(h, o, n)
						}
					}
				})
			}
		}
	}
	st := &Spec{policy: authPolicy}
	st.pre = func(c *Call, st *State) {
		x, u := c.x, c.x.u
		switch {
		case c.name == applyModify:
			x.obligation("stored", c.in)
			w := structOf(map[string]want{"Changes": listOf(structOf(map[string]want{
				"Operation": func(x *Exec, st *State, t *Term) string {
					if n, ok := t.intConst(); ok && n == 2 {
						return ""
					}
					return other(t)
				},
				"Modification": structOf(map[string]want{
					"Type": func(x *Exec, st *State, t *Term) string {
						if s, ok := t.strConst(); ok && strings.EqualFold(s, "userPassword") {
							return ""
						}
						return other(t)
					},
					"Vals": listOf(func(x *Exec, st *State, t *Term) string {
						if t == x.fieldInit(u.sym("req"), "NewPassword") {
							return ""
						}
						return other(t)
					})})}))})
			if bad := w(x, st, st.snapshot(c.args[1], 6)); bad != "" {
				x.report("stored", c.in, "change", "a password change applies another change than replacing the password by the given value: "+bad, st)
			}
			st.mon["applied"] = u.True
		case isBucketWrite(c.name):
			x.obligation("stored", c.in)
			if !st.has("applied") {
				x.report("stored", c.in, "entry", "a password change writes an entry without the new password", st)
			}
		}
	}
	r.boltRun(op, st, nil)
}

// passwordResponse checks what a response to a password change carries.
func (x *Exec) passwordResponse(h *ssa.Function, o *Outcome, n int) {
	u, st := x.u, o.st
	at := h.Blocks[0].Instrs[0]
	x.oblig["secret"]++
	p := o.ret
	if p.op == OTuple {
		p = p.a[0]
	}
	p = st.snapshot(p, 8)
	gen := st.mon["clear"]
	if gen != nil && !isGenerated(st, gen) {
		gen = nil
	}
	ok := st.mon["bcode"] == u.Zero
	told := false
	if p != u.Nil {
		var path func(el *Term) bool // the password field of the response value
		path = func(el *Term) bool { return false }
		if kids := st.packetField(p, "Children"); kids.op == OAppend {
			for _, k := range kids.a[1:] {
				if tag, ok := st.packetField(k, "Identifier", "Tag").intConst(); !ok || tag != 11 {
					continue
				}
				if seq := st.packetField(k, "Children"); seq.op == OAppend && len(seq.a) == 2 {
					if els := st.packetField(seq.a[1], "Children"); els.op == OAppend && len(els.a) == 2 {
						path = func(el *Term) bool {
							tag, ok := st.packetField(el, "Identifier", "Tag").intConst()
							class, ok2 := st.packetField(el, "Identifier", "ClassType").intConst()
							return el == els.a[1] && ok && ok2 && tag == 0 && class == 128
						}
					}
				}
			}
		}
		st.carried(p, 6, func(el, v *Term) {
			if v.op == OIface {
				v = v.a[0]
			}
			if v == gen && gen != nil && ok && path(el) {
				told = true
				return
			}
			if v.any(func(t *Term) bool {
				if t.op == OCall && (t.s == "argon2" || t.s == "generated") {
					return true
				}
				for i := 0; i < n; i++ {
					p := fmt.Sprintf("pw.%d", i)
					if t == x.dataTerm(p) && typedAs(dataOf(p), p, 0)(x, st, t) != "" {
						return true
					}
				}
				return false
			}) {
				x.report("secret", at, "response", "a response to a password change carries a password or a hash: "+clip(v.String()), st)
			}
		})
	}
	if gen != nil && ok && !st.holds(u.eq(gen, u.EmptyS)) {
		x.oblig["told"]++
		if !told {
			x.report("told", at, "response", "a generated password that was stored is not sent to the client", st)
		}
	}
}
