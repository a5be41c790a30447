package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Trace struct {
	prev *Trace
	pos  string
	what string
	n    int
}

// State is the abstract state of one path class.
type State struct {
	u     *Universe
	mem   map[*Term]*Term // address -> value
	facts map[*Term]bool  // atom -> truth
	mon   map[string]*Term
	trace *Trace
	// memory at the first arrival at loop headers (to widen counters)
	loopMem map[*loopInst]map[*Term]*Term
	// cached equality classes
	rep      map[*Term]*Term
	repValid bool
}

type loopInst struct {
	ctx  *Ctx
	head *ssa.BasicBlock
}

func newState(u *Universe) *State {
	return &State{u: u, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, mon: map[string]*Term{}, loopMem: map[*loopInst]map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{u: s.u, trace: s.trace, rep: s.rep, repValid: s.repValid, loopMem: s.loopMem}
	n.mem = make(map[*Term]*Term, len(s.mem)+2)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts)+2)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.mon = make(map[string]*Term, len(s.mon)+1)
	for k, v := range s.mon {
		n.mon[k] = v
	}
	return n
}

func (s *State) note(pos, what string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{prev: s.trace, pos: pos, what: what, n: n}
}

// key encodes everything that matters for the future of the path.
func (s *State) key(extra []*Term) string {
	ints := make([]uint64, 0, len(s.mem)+len(s.facts)+len(s.mon)+len(extra)+4)
	for k, v := range s.mem {
		ints = append(ints, uint64(k.id)<<32|uint64(v.id))
	}
	a := len(ints)
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	for k, v := range s.facts {
		x := uint64(k.id) << 1
		if v {
			x |= 1
		}
		ints = append(ints, x)
	}
	b := len(ints)
	sub := ints[a:b]
	sort.Slice(sub, func(i, j int) bool { return sub[i] < sub[j] })
	buf := make([]byte, 0, len(ints)*8+64)
	for _, x := range ints {
		buf = binary.LittleEndian.AppendUint64(buf, x)
	}
	buf = append(buf, '|')
	var ks []string
	for k := range s.mon {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		buf = append(buf, k...)
		buf = append(buf, '=')
		buf = binary.LittleEndian.AppendUint32(buf, uint32(s.mon[k].id))
	}
	buf = append(buf, '|')
	for _, t := range extra {
		id := 0
		if t != nil {
			id = t.id
		}
		buf = binary.LittleEndian.AppendUint32(buf, uint32(id))
	}
	return string(buf)
}

// ---- facts --------------------------------------------------------------

func (s *State) classes() map[*Term]*Term {
	if s.repValid {
		return s.rep
	}
	rep := map[*Term]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		for {
			r, ok := rep[t]
			if !ok {
				return t
			}
			t = r
		}
	}
	better := func(a, b *Term) bool { // a preferred as representative
		if a.isConst() != b.isConst() {
			return a.isConst()
		}
		if a.size != b.size {
			return a.size < b.size
		}
		return a.id < b.id
	}
	for f, v := range s.facts {
		if v && f.op == OEq {
			x, y := find(f.a[0]), find(f.a[1])
			if x == y {
				continue
			}
			if better(y, x) {
				x, y = y, x
			}
			rep[y] = x
		}
	}
	for k := range rep {
		rep[k] = find(k)
	}
	s.rep = rep
	s.repValid = true
	return rep
}

// norm rewrites t modulo the known equalities.
func (s *State) norm(t *Term) *Term {
	rep := s.classes()
	if len(rep) == 0 {
		return t
	}
	return s.u.subst(t, func(x *Term) *Term {
		if r, ok := rep[x]; ok {
			return r
		}
		return nil
	}, map[*Term]*Term{})
}

type interval struct {
	lo, hi     int64
	hasL, hasH bool
}

func (s *State) bounds(t *Term) interval {
	var iv interval
	if n, ok := t.intConst(); ok {
		return interval{n, n, true, true}
	}
	if t.op == OLen {
		iv.lo, iv.hasL = 0, true
	}
	if t.t != nil {
		if b, ok := t.t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			iv.lo, iv.hasL = 0, true
		}
	}
	setL := func(n int64) {
		if !iv.hasL || n > iv.lo {
			iv.lo, iv.hasL = n, true
		}
	}
	setH := func(n int64) {
		if !iv.hasH || n < iv.hi {
			iv.hi, iv.hasH = n, true
		}
	}
	for f, v := range s.facts {
		switch f.op {
		case OLt:
			if f.a[0] == t {
				if n, ok := f.a[1].intConst(); ok {
					if v {
						setH(n - 1)
					} else {
						setL(n)
					}
				}
			}
			if f.a[1] == t {
				if n, ok := f.a[0].intConst(); ok {
					if v {
						setL(n + 1)
					} else {
						setH(n)
					}
				}
			}
		case OEq:
			if v {
				if f.a[0] == t {
					if n, ok := f.a[1].intConst(); ok {
						setL(n)
						setH(n)
					}
				} else if f.a[1] == t {
					if n, ok := f.a[0].intConst(); ok {
						setL(n)
						setH(n)
					}
				}
			}
		}
	}
	// sharpen with disequalities
	for changed := true; changed && iv.hasL; {
		changed = false
		for f, v := range s.facts {
			if v || f.op != OEq {
				continue
			}
			var c *Term
			if f.a[0] == t {
				c = f.a[1]
			} else if f.a[1] == t {
				c = f.a[0]
			} else {
				continue
			}
			if n, ok := c.intConst(); ok {
				if n == iv.lo {
					iv.lo++
					changed = true
				} else if iv.hasH && n == iv.hi {
					iv.hi--
					changed = true
				}
			}
		}
	}
	// x + c
	if t.op == OBin && (t.s == "+" || t.s == "-") {
		if c, ok := t.a[1].intConst(); ok {
			if t.s == "-" {
				c = -c
			}
			in := s.bounds(t.a[0])
			if in.hasL {
				setL(in.lo + c)
			}
			if in.hasH {
				setH(in.hi + c)
			}
		}
	}
	return iv
}

// decide returns the truth value of atom c if the facts determine it.
func (s *State) decide(c *Term) (val, known bool) {
	if c.op == ONot {
		v, k := s.decide(c.a[0])
		return !v, k
	}
	if c == s.u.True {
		return true, true
	}
	if c == s.u.False {
		return false, true
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	if v, k := s.decideStruct(c); k {
		return v, k
	}
	n := s.norm(c)
	if n != c {
		if n == s.u.True {
			return true, true
		}
		if n == s.u.False {
			return false, true
		}
		if n.op == ONot {
			if v, ok := s.facts[n.a[0]]; ok {
				return !v, true
			}
			n2 := n.a[0]
			if v, k := s.decideStruct(n2); k {
				return !v, true
			}
		} else {
			if v, ok := s.facts[n]; ok {
				return v, true
			}
			if v, k := s.decideStruct(n); k {
				return v, k
			}
		}
	}
	if len(s.classes()) > 0 {
		neg := false
		q := n
		if q.op == ONot {
			neg = true
			q = q.a[0]
		}
		for f, v := range s.facts {
			if f.op != q.op {
				continue
			}
			if s.norm(f) == q {
				return v != neg, true
			}
		}
	}
	return false, false
}

func (s *State) decideStruct(c *Term) (val, known bool) {
	switch c.op {
	case OEq:
		a, b := c.a[0], c.a[1]
		if b.isConst() {
			a, b = b, a
		}
		if a.op == OConst {
			if n, ok := a.intConst(); ok {
				iv := s.bounds(b)
				if iv.hasL && n < iv.lo || iv.hasH && n > iv.hi {
					return false, true
				}
				if iv.hasL && iv.hasH && iv.lo == iv.hi && iv.lo == n {
					return true, true
				}
			}
			// b equals another constant?
			for f, v := range s.facts {
				if v && f.op == OEq {
					if f.a[0] == b && f.a[1].op == OConst && f.a[1] != a {
						return false, true
					}
					if f.a[1] == b && f.a[0].op == OConst && f.a[0] != a {
						return false, true
					}
				}
			}
		}
		// ordering excludes equality
		if v, ok := s.facts[s.u.mk(&Term{op: OLt, a: []*Term{a, b}})]; ok && v {
			return false, true
		}
		if v, ok := s.facts[s.u.mk(&Term{op: OLt, a: []*Term{b, a}})]; ok && v {
			return false, true
		}
	case OLt:
		x, y := s.bounds(c.a[0]), s.bounds(c.a[1])
		if x.hasH && y.hasL && x.hi < y.lo {
			return true, true
		}
		if x.hasL && y.hasH && x.lo >= y.hi {
			return false, true
		}
		if v, ok := s.facts[s.u.mk(&Term{op: OLt, a: []*Term{c.a[1], c.a[0]}})]; ok && v {
			return false, true
		}
		if v, ok := s.facts[s.u.eq(c.a[0], c.a[1])]; ok && v {
			return false, true
		}
	}
	return false, false
}

// assume adds the literal; false means the path is infeasible.
func (s *State) assume(c *Term, val bool) bool {
	for c.op == ONot {
		c, val = c.a[0], !val
	}
	if v, k := s.decide(c); k {
		return v == val
	}
	s.facts[c] = val
	if c.op == OEq {
		s.repValid = false
	}
	// consequences
	if c.op == OEq && val {
		a, b := c.a[0], c.a[1]
		if a.op == ONil {
			a, b = b, a
		}
		if b.op == ONil {
			// len(nil) == 0
			l := s.u.eq(s.u.length(a), s.u.Zero)
			if l.op == OEq {
				if v, ok := s.facts[l]; ok && !v {
					return false
				}
			}
		}
	}
	if c.op == OEq || c.op == OLt {
		return s.recordLength(c)
	}
	return true
}

// recordLength applies that the values of the name index are eight bytes long (which
// the rules on writes ensure) and never hold the number zero (sequences start at one):
// anything else means that the record is missing.
func (s *State) recordLength(c *Term) bool {
	for _, l := range c.a {
		if l.op == OU64 && l.a[0].op == OCall && l.a[0].s == "bolt.Get" && bucketName(l.a[0].a[0]) == "dn2id" && s.holds(s.u.eq(l, s.u.Zero)) {
			return s.assume(s.u.eq(l.a[0], s.u.Nil), true)
		}
		if l.op == OLen && l.a[0].op == OCall && l.a[0].s == "bolt.Get" && bucketName(l.a[0].a[0]) == "dn2id" {
			if isNil := s.u.eq(l.a[0], s.u.Nil); s.refuted(s.u.eq(l, s.u.num(8))) {
				return s.assume(isNil, true)
			} else if s.refuted(s.u.eq(l, s.u.Zero)) {
				return s.assume(isNil, false)
			}
		}
	}
	return true
}

func (s *State) holds(c *Term) bool {
	v, k := s.decide(c)
	return k && v
}

func (s *State) refuted(c *Term) bool {
	v, k := s.decide(c)
	return k && !v
}

// same reports whether two terms are provably equal.
func (s *State) same(a, b *Term) bool {
	if a == b {
		return true
	}
	e := s.u.eq(a, b)
	if e == s.u.True {
		return true
	}
	if e == s.u.False {
		return false
	}
	return s.holds(e) || s.norm(a) == s.norm(b)
}

// isNil / notNil
func (s *State) isNil(t *Term) bool  { return s.holds(s.u.eq(t, s.u.Nil)) }
func (s *State) notNil(t *Term) bool { return s.refuted(s.u.eq(t, s.u.Nil)) }

// ---- memory -------------------------------------------------------------

// root returns the object an address belongs to.
func root(a *Term) *Term {
	for {
		switch a.op {
		case OFieldA, OIndexA, OContent, OHavMark, OMapE, OSliceOf:
			a = a.a[0]
		default:
			return a
		}
	}
}

func (u *Universe) contentOf(a *Term) *Term { return u.mk(&Term{op: OContent, a: []*Term{a}}) }
func (u *Universe) havMark(a *Term) *Term   { return u.mk(&Term{op: OHavMark, a: []*Term{a}}) }

func isStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

func (s *State) load(addr *Term, t types.Type) *Term {
	u := s.u
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if v := s.elementAt(addr); v != nil {
		return v
	}
	if st, ok := isStruct(t); ok && st.NumFields() > 0 {
		fs := make([]*Term, st.NumFields())
		allInit := true
		for i := range fs {
			fa := u.fieldA(addr, st.Field(i).Name())
			fs[i] = s.load(fa, st.Field(i).Type())
			if !(fs[i].op == OInit && fs[i].a[0] == fa) {
				allInit = false
			}
		}
		if allInit {
			return u.initOf(addr, t)
		}
		return u.mk(&Term{op: OStruct, t: t, a: fs})
	}
	if _, ok := t.Underlying().(*types.Array); ok && root(addr).op == OAlloc {
		if c, ok := s.mem[u.contentOf(addr)]; ok {
			return c
		}
		for k := range s.mem {
			if k.op == OIndexA && k.a[0] == addr {
				if v := s.snapshotSlice(addr); v != addr {
					return v
				}
				return u.mk(&Term{op: OHav, a: []*Term{addr, addr}, t: t})
			}
		}
	}
	// element of an object whose whole content is known
	if addr.op == OIndexA {
		if c, ok := s.mem[u.contentOf(addr.a[0])]; ok {
			return u.index(c, addr.a[1], t)
		}
		if addr.a[0].op == OAppend || addr.a[0].op == OWide || addr.a[0].op == OAppendS {
			return u.index(addr.a[0], addr.a[1], t)
		}
		if addr.a[0].op == OLE64 {
			return u.index(addr.a[0], addr.a[1], t)
		}
		if bt := addr.a[0].t; bt != nil && isStringType(bt) {
			return u.index(addr.a[0], addr.a[1], t) // bytes converted from a string
		}
	}
	if addr.op == OIndexA && addr.a[0].op == OAlloc {
		if _, c := addr.a[1].intConst(); !c {
			if v := s.snapshotSlice(addr.a[0]); v.op == OAppend {
				return u.index(v, addr.a[1], t)
			}
		}
	}
	r := root(addr)
	if h, ok := s.mem[u.havMark(r)]; ok {
		return u.mk(&Term{op: OHav, a: []*Term{h, addr}, t: t})
	}
	if r.op == OAlloc {
		return u.zero(t)
	}
	if addr.op == OGlobal && u.constGlobal != nil {
		if v := u.constGlobal(addr.s); v != nil {
			return v
		}
	}
	return u.initOf(addr, t)
}

// elementAt is the value at an address inside an element of a list of known elements.
func (s *State) elementAt(addr *Term) *Term {
	v := s.u.elementOf(addr)
	if v == nil {
		return nil
	}
	for k := range s.mem {
		for b := k; b.op == OFieldA || b.op == OIndexA; b = b.a[0] {
			if b == addr {
				return nil
			}
		}
	}
	return v
}

func (u *Universe) elementOf(addr *Term) *Term {
	switch {
	case addr.op == OIndexA && addr.a[0].op == OAppend:
		if _, ok := addr.a[1].intConst(); ok {
			if v := u.index(addr.a[0], addr.a[1], nil); v.op != OIndex {
				return v
			}
		}
	case addr.op == OFieldA:
		v := u.elementOf(addr.a[0])
		if v == nil || v.op != OStruct || v.t == nil {
			return nil
		}
		if st, ok := isStruct(v.t); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == addr.s {
					return v.a[i]
				}
			}
		}
	}
	return nil
}

func (s *State) store(addr, v *Term, t types.Type) {
	u := s.u
	if st, ok := isStruct(t); ok && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s.store(u.fieldA(addr, f.Name()), u.field(v, i, f.Name(), f.Type()), f.Type())
		}
		return
	}
	if _, ok := t.Underlying().(*types.Array); ok && root(addr).op == OAlloc {
		s.setContent(addr, v)
		if v.op == OZeroArr {
			delete(s.mem, u.contentOf(addr))
		}
		return
	}
	if addr.op == OIndexA && addr.a[0].op == OAlloc {
		base := addr.a[0]
		c, has := s.mem[u.contentOf(base)]
		_, isC := addr.a[1].intConst()
		if !isC || has {
			// element store at an unknown index: keep the set of stored values
			parts := []*Term{v}
			if has {
				parts = append(parts, c)
			}
			for k, w := range s.mem {
				if k.op == OIndexA && k.a[0] == base {
					parts = append(parts, w)
				}
			}
			s.setContent(base, u.wide("elems", parts))
			return
		}
	}
	if root(addr).op != OAlloc {
		// other symbolic objects may be the same one
		for k := range s.mem {
			if k != addr && k.op == addr.op && k.s == addr.s && (k.op == OFieldA || k.op == OIndexA) && root(k).op != OAlloc && root(k) != root(addr) {
				s.mem[k] = u.mk(&Term{op: OHav, a: []*Term{v, k}})
			}
		}
	}
	s.mem[addr] = v
}

// havoc forgets the content of every object reachable from t.
func (s *State) havoc(t *Term, by *Term) {
	seen := map[*Term]bool{}
	var objs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasN || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OClosure && t.fn != nil && len(t.fn.FreeVars) == len(t.a) {
			for i, a := range t.a {
				if a.op == OAlloc && readOnlyCapture(t.fn, i) {
					// the closure reads the variable and never assigns it
					for k, v := range s.mem {
						if root(k) == a {
							walk(v)
						}
					}
				} else {
					walk(a)
				}
			}
			return
		}
		if t.op == OAlloc {
			objs = append(objs, t)
			for k, v := range s.mem {
				if root(k) == t {
					walk(v)
				}
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(t)
	for _, o := range objs {
		for k := range s.mem {
			if root(k) == o && k.op != OHavMark {
				delete(s.mem, k)
			}
		}
		s.mem[s.u.havMark(o)] = by
	}
}

// readOnlyCapture: the closure and the closures inside it only load the captured variable.
func readOnlyCapture(fn *ssa.Function, i int) bool {
	for _, in := range *fn.FreeVars[i].Referrers() {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			g, ok := in.Fn.(*ssa.Function)
			if !ok {
				return false
			}
			for j, b := range in.Bindings {
				if b == fn.FreeVars[i] && !readOnlyCapture(g, j) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// value resolves an address-like buffer object to its known content.
func (s *State) value(t *Term) *Term {
	if t.op == OAlloc {
		if c, ok := s.mem[s.u.contentOf(t)]; ok {
			return c
		}
	}
	if t.op == OSliceOf && t.a[0].op == OAlloc && (t.a[1] == s.u.Nil || t.a[1] == s.u.Zero) && t.a[2] == s.u.Nil {
		if c, ok := s.mem[s.u.contentOf(t.a[0])]; ok {
			return c
		}
	}
	if t.op == OSliceOf && t.a[0].op == OAlloc {
		if c, ok := s.mem[s.u.contentOf(t.a[0])]; ok {
			if r := s.u.segSlice(c, t.a[1], t.a[2]); r != nil {
				return r
			}
		}
	}
	return t
}

func (s *State) dump() {
	for a, v := range s.mem {
		fmt.Printf("   mem %s = %s\n", clip(a.String()), clip(v.String()))
	}
	for a, v := range s.facts {
		fmt.Printf("   fact %v %s\n", v, clip(a.String()))
	}
	for a, v := range s.mon {
		fmt.Printf("   mon %s = %s\n", a, clip(v.String()))
	}
}
