package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the operator of a value-number term.
type Op uint8

const (
	OConst   Op = iota // constant, s = exact value, t = basic class
	ONil               // nil of any type
	OSym               // symbolic root (entry parameter, ...)
	ONonce             // value produced by one execution of one instruction
	OAlloc             // address of an object created by an instruction
	OGlobal            // address of a package level variable
	OFunc              // function value
	OClosure           // closure: s = function name, args = bindings
	OFieldA            // address of a field: args[0] = struct address
	OIndexA            // address of an element: args = container, index
	OInit              // content of an address that was not written
	OHav               // content of an object an opaque call may have written: args = nonce, addr
	OField             // field of a struct value
	OIndex             // element of an array/slice/string value
	OLookup            // map lookup: args = map, key
	OHas               // map membership
	OCall              // result of an opaque call: s = callee, args
	OExt               // i-th result: s = index
	OTuple             // several results
	OBin               // binary operation: s = operator
	OEq                // equality atom
	OLt                // less-than atom
	ONot               // negation
	OConv              // value changing conversion: s = type
	OIface             // interface holding args[0] of dynamic type t
	OTA                // type assertion value: t
	OIsT               // dynamic type test atom: t
	OStruct            // struct value: args = fields
	OSliceOf           // slice expression: args = base, lo, hi
	OAppend            // append of elements: args = base, elems...
	OAppendS           // append of a slice: args = base, slice
	OConcat            // string concatenation: args
	OLen
	OWide    // widened loop value: args = set of contributing terms
	OContent // pseudo address: whole content of a buffer object
	OHavMark // pseudo address: havoc marker of an object
	OMapE    // pseudo address: map element
	OLE64    // 8 byte encoding of an integer: s = byte order
	OU64     // integer decoded from 8 bytes: s = byte order
	OZeroArr
)

// Ctx is an inlining context.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type Nonce struct {
	id    int
	ctx   *Ctx
	instr ssa.Instruction
	kind  string
	age   int
}

// Term is a hash-consed value number.
type Term struct {
	id   int
	op   Op
	s    string
	a    []*Term
	t    types.Type
	n    *Nonce
	fn   *ssa.Function
	hasN bool // contains a nonce
	size int
	ns   []*Nonce
}

// Universe owns all terms of one analysis.
type Universe struct {
	constGlobal func(name string) *Term // value of a package variable that is set once, to a constant
	tab         map[string]*Term
	nonces      map[string]*Nonce
	ctxs        map[string]*Ctx
	nctx        int
	gets        []*Term // database lookups
	typeIDs     map[string]int
	tcache      map[types.Type]int
	Nil         *Term
	True        *Term
	False       *Term
	EmptyS      *Term
	Zero        *Term
}

func newUniverse() *Universe {
	u := &Universe{tab: map[string]*Term{}, nonces: map[string]*Nonce{}, ctxs: map[string]*Ctx{}, typeIDs: map[string]int{}, tcache: map[types.Type]int{}}
	u.Nil = u.mk(&Term{op: ONil})
	u.True = u.mk(&Term{op: OConst, s: "true"})
	u.False = u.mk(&Term{op: OConst, s: "false"})
	u.EmptyS = u.str("")
	u.Zero = u.num(0)
	return u
}

func (u *Universe) typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := u.tcache[t]; ok {
		return id
	}
	s := types.TypeString(t, nil)
	id, ok := u.typeIDs[s]
	if !ok {
		id = len(u.typeIDs) + 1
		u.typeIDs[s] = id
	}
	u.tcache[t] = id
	return id
}

func (u *Universe) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	if t.n != nil {
		b.WriteString(strconv.Itoa(t.n.id))
	}
	b.WriteByte('|')
	switch t.op {
	case OIface, OTA, OIsT, OStruct, OConv:
		b.WriteString(strconv.Itoa(u.typeID(t.t)))
	}
	for _, x := range t.a {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
	}
	k := b.String()
	if old, ok := u.tab[k]; ok {
		return old
	}
	t.id = len(u.tab) + 1
	t.hasN = t.n != nil
	t.size = 1
	for _, x := range t.a {
		if x.hasN {
			t.hasN = true
		}
		t.size += x.size
	}
	u.tab[k] = t
	if t.op == OCall && t.s == "bolt.Get" {
		u.gets = append(u.gets, t)
	}
	return t
}

func (u *Universe) str(s string) *Term { return u.mk(&Term{op: OConst, s: strconv.Quote(s)}) }
func (u *Universe) num(n int64) *Term  { return u.mk(&Term{op: OConst, s: strconv.FormatInt(n, 10)}) }
func (u *Universe) boolean(b bool) *Term {
	if b {
		return u.True
	}
	return u.False
}
func (u *Universe) sym(name string) *Term { return u.mk(&Term{op: OSym, s: name}) }

func (u *Universe) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		return u.zero(c.Type())
	}
	return u.constVal(c.Value)
}

func (u *Universe) constVal(v constant.Value) *Term {
	switch v.Kind() {
	case constant.String:
		return u.str(constant.StringVal(v))
	case constant.Bool:
		return u.boolean(constant.BoolVal(v))
	default:
		return u.mk(&Term{op: OConst, s: v.ExactString()})
	}
}

func (u *Universe) zero(t types.Type) *Term {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsString != 0:
			return u.EmptyS
		case x.Info()&types.IsBoolean != 0:
			return u.False
		case x.Info()&types.IsNumeric != 0:
			return u.Zero
		}
		return u.Nil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < x.NumFields(); i++ {
			fs = append(fs, u.zero(x.Field(i).Type()))
		}
		return u.mk(&Term{op: OStruct, t: t, a: fs})
	case *types.Array:
		return u.mk(&Term{op: OZeroArr})
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < x.Len(); i++ {
			fs = append(fs, u.zero(x.At(i).Type()))
		}
		return u.tuple(fs...)
	}
	return u.Nil
}

func (u *Universe) tuple(ts ...*Term) *Term { return u.mk(&Term{op: OTuple, a: ts}) }

func (u *Universe) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, call, fn)
	if c, ok := u.ctxs[k]; ok {
		return c
	}
	u.nctx++
	c := &Ctx{id: u.nctx, parent: parent, call: call, fn: fn, depth: d}
	u.ctxs[k] = c
	return c
}

func (u *Universe) nonceAt(ctx *Ctx, in ssa.Instruction, kind string, age int) *Nonce {
	k := fmt.Sprintf("%d|%p|%s|%d", ctx.id, in, kind, age)
	if n, ok := u.nonces[k]; ok {
		return n
	}
	n := &Nonce{id: len(u.nonces) + 1, ctx: ctx, instr: in, kind: kind, age: age}
	u.nonces[k] = n
	return n
}

func (u *Universe) nonce(ctx *Ctx, in ssa.Instruction, kind string) *Term {
	return u.mk(&Term{op: ONonce, n: u.nonceAt(ctx, in, kind, 0)})
}

func (u *Universe) alloc(ctx *Ctx, in ssa.Instruction, kind string) *Term {
	return u.mk(&Term{op: OAlloc, n: u.nonceAt(ctx, in, "alloc"+kind, 0)})
}

func (t *Term) isConst() bool { return t.op == OConst || t.op == ONil }
func (t *Term) strConst() (string, bool) {
	if t.op != OConst || len(t.s) == 0 || t.s[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.s)
	return s, err == nil
}
func (t *Term) intConst() (int64, bool) {
	if t.op != OConst {
		return 0, false
	}
	n, err := strconv.ParseInt(t.s, 10, 64)
	return n, err == nil
}

// ---- smart constructors -------------------------------------------------

func (u *Universe) not(t *Term) *Term {
	switch {
	case t == u.True:
		return u.False
	case t == u.False:
		return u.True
	case t.op == ONot:
		return t.a[0]
	}
	return u.mk(&Term{op: ONot, a: []*Term{t}})
}

func nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OFieldA, OIndexA, OClosure, OFunc, OIface, OGlobal, OAppend, OStruct:
		return true
	case OCall:
		switch t.s {
		case "errors.New", "fmt.Errorf", "github.com/go-ldap/ldap/v3.NewError":
			return true
		}
	case OInit:
		// package level error variables are never nil
		if t.a[0].op == OGlobal && t.a[0].t != nil && types.TypeString(t.a[0].t, nil) == "error" {
			return true
		}
	case OSliceOf:
		return t.a[0].op == OAlloc
	}
	return false
}

func (u *Universe) eq(a, b *Term) *Term {
	if a == b {
		return u.True
	}
	if a.op == OConst && b.op == OConst {
		return u.False
	}
	if a.op == OIface && b.op == OIface {
		if u.typeID(a.t) != u.typeID(b.t) {
			return u.False
		}
		return u.eq(a.a[0], b.a[0])
	}
	// comparing an interface with a concrete constant
	if (a.op == ONil && nonNil(b)) || (b.op == ONil && nonNil(a)) {
		return u.False
	}
	if a.op == ONil && b.op == OConst || b.op == ONil && a.op == OConst {
		return u.False
	}
	if a.op == OAlloc && b.op == OAlloc {
		return u.False
	}
	if a == u.True || b == u.True || a == u.False || b == u.False {
		x, c := a, b
		if x.op == OConst {
			x, c = b, a
		}
		if c == u.True {
			return x
		}
		return u.not(x)
	}
	// len(x) == 0 and x == ""
	if a.op == OLen && b == u.Zero && isStringTerm(a.a[0]) {
		return u.eq(a.a[0], u.EmptyS)
	}
	if b.op == OLen && a == u.Zero && isStringTerm(b.a[0]) {
		return u.eq(b.a[0], u.EmptyS)
	}
	if a == u.EmptyS || b == u.EmptyS {
		x := a
		if x == u.EmptyS {
			x = b
		}
		switch {
		case x.op == OCall && (x.s == "strings.ToUpper" || x.s == "lower"):
			return u.eq(x.a[0], u.EmptyS)
		case x.op == OSliceOf && isStringTerm(x) && (x.a[1] == u.Nil || x.a[1] == u.Zero) && x.a[2] != u.Nil:
			return u.eq(x.a[2], u.Zero)
		}
	}
	if b.id < a.id {
		a, b = b, a
	}
	return u.mk(&Term{op: OEq, a: []*Term{a, b}})
}

func isStringTerm(t *Term) bool {
	if t.t == nil {
		return false
	}
	b, ok := t.t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (u *Universe) lt(a, b *Term) *Term {
	if a == b {
		return u.False
	}
	x, ok1 := a.intConst()
	y, ok2 := b.intConst()
	if ok1 && ok2 {
		return u.boolean(x < y)
	}
	// 0 < len(x)  ==>  !(len(x) == 0)
	if b.op == OLen && ok1 {
		if x < 0 {
			return u.True
		}
		if x == 0 {
			return u.not(u.eq(b, u.Zero))
		}
	}
	if a.op == OLen && ok2 {
		if y <= 0 {
			return u.False
		}
		if y == 1 {
			return u.eq(a, u.Zero)
		}
	}
	return u.mk(&Term{op: OLt, a: []*Term{a, b}})
}

func (u *Universe) ext(t *Term, i int) *Term {
	if t.op == OTuple {
		return t.a[i]
	}
	return u.mk(&Term{op: OExt, s: strconv.Itoa(i), a: []*Term{t}})
}

func (u *Universe) field(v *Term, i int, name string, ft types.Type) *Term {
	switch v.op {
	case OStruct:
		if i < len(v.a) {
			return v.a[i]
		}
	case OInit:
		return u.initOf(u.fieldA(v.a[0], name), ft)
	case OHav:
		return u.mk(&Term{op: OHav, a: []*Term{v.a[0], u.fieldA(v.a[1], name)}, t: ft})
	}
	return u.mk(&Term{op: OField, s: name, a: []*Term{v}, t: ft})
}

func (u *Universe) fieldA(base *Term, name string) *Term {
	return u.mk(&Term{op: OFieldA, s: name, a: []*Term{base}})
}

func (u *Universe) initOf(addr *Term, t types.Type) *Term {
	return u.mk(&Term{op: OInit, a: []*Term{addr}, t: t})
}

func (u *Universe) length(t *Term) *Term {
	switch t.op {
	case OConst:
		if s, ok := t.strConst(); ok {
			return u.num(int64(len(s)))
		}
	case ONil:
		return u.Zero
	case OAppend:
		if b := u.length(t.a[0]); b.op == OConst {
			n, _ := b.intConst()
			return u.num(n + int64(len(t.a)-1))
		}
	case OLE64:
		return u.num(8)
	case OAppendS, OConcat:
		if segs, ok := u.segments(t); ok {
			return u.num(8 * int64(len(segs)))
		}
	case OSliceOf:
		if t.a[1] == u.Nil || t.a[1] == u.Zero {
			if t.a[2].op == OConst {
				return t.a[2]
			}
			if t.a[2] != u.Nil {
				return t.a[2]
			}
		}
	}
	return u.mk(&Term{op: OLen, a: []*Term{t}})
}

func (u *Universe) call(name string, t types.Type, args ...*Term) *Term {
	return u.mk(&Term{op: OCall, s: name, a: args, t: t})
}

func (u *Universe) callN(name string, t types.Type, n *Term, args ...*Term) *Term {
	return u.mk(&Term{op: OCall, s: name, a: args, t: t, n: n.n})
}

func (u *Universe) concat(site ssa.Instruction, ctx *Ctx, a, b *Term) *Term {
	sa, ok1 := a.strConst()
	sb, ok2 := b.strConst()
	if ok1 && ok2 {
		return u.str(sa + sb)
	}
	if a == u.EmptyS {
		return b
	}
	if b == u.EmptyS {
		return a
	}
	var args []*Term
	if a.op == OConcat {
		args = append(args, a.a...)
	} else {
		args = append(args, a)
	}
	if b.op == OConcat {
		args = append(args, b.a...)
	} else {
		args = append(args, b)
	}
	var out []*Term
	for _, x := range args {
		if len(out) > 0 {
			p, ok1 := out[len(out)-1].strConst()
			q, ok2 := x.strConst()
			if ok1 && ok2 {
				out[len(out)-1] = u.str(p + q)
				continue
			}
		}
		out = append(out, x)
	}
	return u.mk(&Term{op: OConcat, a: out, t: types.Typ[types.String]})
}

func (u *Universe) index(v, i *Term, et types.Type) *Term {
	if n, ok := i.intConst(); ok && n >= 0 {
		switch v.op {
		case OAppend:
			if b := u.length(v.a[0]); b.op == OConst {
				bl, _ := b.intConst()
				if n >= bl && int(n-bl)+1 < len(v.a) {
					return v.a[n-bl+1]
				}
				if n < bl {
					return u.index(v.a[0], i, et)
				}
			}
		case OConst:
			if s, ok := v.strConst(); ok && int(n) < len(s) {
				return u.num(int64(s[n]))
			}
		}
	}
	return u.mk(&Term{op: OIndex, a: []*Term{v, i}, t: et})
}

// ---- traversal ----------------------------------------------------------

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, y := range x.a {
			if rec(y) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) contains(x *Term) bool { return t.any(func(y *Term) bool { return x == y }) }

func (t *Term) nonces(f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if !x.hasN || seen[x] {
			return
		}
		seen[x] = true
		if x.n != nil {
			f(x)
		}
		for _, y := range x.a {
			rec(y)
		}
	}
	rec(t)
}

// rebuild constructs a term like t with other arguments, applying folds.
func (u *Universe) rebuild(t *Term, args []*Term, n *Nonce) *Term {
	same := n == t.n
	if same {
		for i := range args {
			if args[i] != t.a[i] {
				same = false
				break
			}
		}
	}
	if same {
		return t
	}
	switch t.op {
	case OEq:
		return u.eq(args[0], args[1])
	case OLt:
		return u.lt(args[0], args[1])
	case ONot:
		return u.not(args[0])
	case OLen:
		return u.length(args[0])
	case OExt:
		i, _ := strconv.Atoi(t.s)
		return u.ext(args[0], i)
	case OConcat:
		r := args[0]
		for _, x := range args[1:] {
			r = u.concat(nil, nil, r, x)
		}
		return r
	case OU64:
		return u.u64(t.s, args[0])
	case OIndex:
		return u.index(args[0], args[1], t.t)
	}
	return u.mk(&Term{op: t.op, s: t.s, a: args, t: t.t, n: n, fn: t.fn})
}

func (u *Universe) u64(order string, b *Term) *Term {
	if b.op == OLE64 && b.s == order {
		return b.a[0]
	}
	return u.mk(&Term{op: OU64, s: order, a: []*Term{b}})
}

// segments splits a byte list that is made of 8 byte numbers.
func (u *Universe) segments(t *Term) ([]*Term, bool) {
	switch t.op {
	case ONil:
		return nil, true
	case OConst:
		if t == u.EmptyS {
			return nil, true
		}
	case OLE64:
		return []*Term{t}, true
	case OAppendS, OConcat:
		var out []*Term
		for _, a := range t.a {
			s, ok := u.segments(a)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	}
	return nil, false
}

// fromSegments is the byte list with the given 8 byte parts.
func (u *Universe) fromSegments(segs []*Term) *Term {
	switch len(segs) {
	case 0:
		return u.EmptyS
	case 1:
		return segs[0]
	}
	return u.mk(&Term{op: OAppendS, a: append([]*Term{u.Nil}, segs...)})
}

// segSlice cuts a byte list at 8 byte boundaries (nil if not possible).
func (u *Universe) segSlice(t, lo, hi *Term) *Term {
	segs, ok := u.segments(t)
	if !ok || len(segs) == 0 {
		return nil
	}
	l, h := int64(0), int64(8*len(segs))
	if lo != u.Nil {
		if l, ok = lo.intConst(); !ok {
			return nil
		}
	}
	if hi != u.Nil {
		if h, ok = hi.intConst(); !ok {
			return nil
		}
	}
	if l < 0 || l > h || h > int64(8*len(segs)) || l%8 != 0 || h%8 != 0 {
		return nil
	}
	return u.fromSegments(segs[l/8 : h/8])
}

// subst rebuilds t with f applied to each subterm bottom-up; f returns nil to keep.
func (u *Universe) subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	r := t
	if len(t.a) > 0 {
		args := make([]*Term, len(t.a))
		ch := false
		for i, x := range t.a {
			args[i] = u.subst(x, f, memo)
			if args[i] != x {
				ch = true
			}
		}
		if ch {
			r = u.rebuild(t, args, t.n)
		}
	}
	memo[t] = r
	return r
}

// ---- printing -----------------------------------------------------------

func (t *Term) String() string { return t.str(0) }

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		return pre + s[i+1:]
	}
	return s
}

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, x := range t.a {
			p = append(p, x.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	age := func() string {
		if t.n != nil && t.n.age > 0 {
			return strings.Repeat("'", t.n.age)
		}
		return ""
	}
	switch t.op {
	case OConst:
		return t.s
	case ONil:
		return "nil"
	case OSym:
		return t.s
	case ONonce:
		nm := t.n.kind
		if v, ok := t.n.instr.(ssa.Value); ok {
			nm += ":" + v.Name()
		}
		return "<" + nm + ">" + age()
	case OAlloc:
		nm := "new"
		if v, ok := t.n.instr.(*ssa.Alloc); ok {
			nm = "&" + v.Comment
		}
		return nm + age()
	case OGlobal:
		return "&" + short(t.s)
	case OFunc, OClosure:
		return "func " + short(t.s)
	case OFieldA:
		return "&" + t.a[0].str(d+1) + "." + t.s
	case OIndexA:
		return "&" + t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + "]"
	case OInit:
		s := t.a[0].str(d + 1)
		return strings.TrimPrefix("*"+s, "*&")
	case OHav:
		return "havoc(" + t.a[1].str(d+1) + ")"
	case OField:
		return t.a[0].str(d+1) + "." + t.s
	case OIndex:
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + "]"
	case OLookup:
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + "]"
	case OHas:
		return t.a[1].str(d+1) + " in " + t.a[0].str(d+1)
	case OCall:
		return short(t.s) + "(" + args() + ")" + age()
	case OExt:
		return t.a[0].str(d+1) + "#" + t.s
	case OTuple:
		return "(" + args() + ")"
	case OBin:
		return "(" + t.a[0].str(d+1) + " " + t.s + " " + t.a[1].str(d+1) + ")"
	case OEq:
		return t.a[0].str(d+1) + " == " + t.a[1].str(d+1)
	case OLt:
		return t.a[0].str(d+1) + " < " + t.a[1].str(d+1)
	case ONot:
		return "!(" + t.a[0].str(d+1) + ")"
	case OTA:
		return t.a[0].str(d+1) + ".(" + short(types.TypeString(t.t, nil)) + ")"
	case OIsT:
		return t.a[0].str(d+1) + " is " + short(types.TypeString(t.t, nil))
	case OIface:
		return t.a[0].str(d + 1)
	case OStruct:
		return "{" + args() + "}"
	case OSliceOf:
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + ":" + t.a[2].str(d+1) + "]"
	case OAppend, OAppendS:
		return "append(" + args() + ")"
	case OConcat:
		return "concat(" + args() + ")"
	case OLen:
		return "len(" + args() + ")"
	case OWide:
		return "loop{" + args() + "}"
	case OLE64:
		return "bytes64(" + args() + ")"
	case OU64:
		return "uint64(" + args() + ")"
	}
	return fmt.Sprintf("op%d:%s(%s)", t.op, t.s, args())
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
