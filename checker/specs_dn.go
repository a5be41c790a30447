package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C37"] = checkC37
}

// dnCase is a name: for each component and part the lengths of type and value, and which text is arbitrary.
type dnCase struct {
	parts [][][2]int
	free  string // text whose characters are arbitrary; the others are the letter a
	held  int    // number of a character of that text that is the letter a, or 0
}

func dnCases() []dnCase {
	one := func(t, v int) [][][2]int { return [][][2]int{{{t, v}}} }
	two := [][][2]int{{{1, 1}, {1, 1}}, {{1, 1}, {1, 1}}}
	cs := []dnCase{{}, {parts: one(2, 2)}, {parts: one(1, 0)}, {parts: two}, {parts: [][][2]int{{{1, 2}}, {{2, 1}}, {{1, 1}}}}}
	for n := 1; n <= 2; n++ {
		cs = append(cs, dnCase{one(1, n), "value 0.0", 0}, dnCase{one(n, 1), "type 0.0", 0})
	}
	for k := 1; k <= 3; k++ {
		cs = append(cs, dnCase{one(1, 3), "value 0.0", k}, dnCase{one(3, 1), "type 0.0", k})
	}
	for _, f := range []string{"value 0.1", "value 1.0", "value 1.1", "type 0.1", "type 1.0", "type 1.1"} {
		cs = append(cs, dnCase{two, f, 0})
	}
	return cs
}

func (dc dnCase) String() string {
	if dc.free == "" {
		return fmt.Sprintf("name of the form %v", dc.parts)
	}
	if dc.held > 0 {
		return fmt.Sprintf("%s of the form %v with a letter at %d", dc.free, dc.parts, dc.held)
	}
	return fmt.Sprintf("%s of the form %v", dc.free, dc.parts)
}

// textModels describes functions on short texts.
func textModels(c *Call, st *State) []*Outcome {
	u := c.x.u
	switch c.name {
	case "strings.Join":
		els, ok := listElems(st, c.args[0])
		if !ok {
			return nil
		}
		r := u.EmptyS
		for i, e := range els {
			if i > 0 {
				r = u.concat(c.in, c.ctx, r, c.args[1])
			}
			r = u.concat(c.in, c.ctx, r, e)
		}
		return one(st, r)
	case "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune", "bytes.IndexByte", "bytes.ContainsRune":
		set, ok := c.args[0].strConst()
		ch := rawChar(c.args[1])
		if !ok || ch == nil || len(set) > 40 {
			return nil
		}
		var outs []*Outcome
		res := func(i int) *Term {
			if strings.HasSuffix(c.name, "ContainsRune") {
				return u.boolean(i >= 0)
			}
			return u.num(int64(i))
		}
		for i := range set {
			s2 := st.clone()
			if strings.IndexByte(set, set[i]) == i && s2.assume(u.eq(ch, u.num(int64(set[i]))), true) {
				outs = append(outs, &Outcome{st: s2, ret: res(i)})
			}
			if !st.assume(u.eq(ch, u.num(int64(set[i]))), false) {
				return outs
			}
		}
		return append(outs, &Outcome{st: st, ret: res(-1)})
	case "fmt.Fprintf":
		if w := c.args[0]; w.op == OIface && hasSuffixAny(w.t.String(), "bytes.Buffer", "strings.Builder") {
			c2 := *c
			c2.args = c.args[1:]
			o := sprintf(&c2, st)
			if o == nil {
				return nil
			}
			a := w.a[0]
			st.mem[u.contentOf(a)] = u.concat(c.in, c.ctx, bufContent(c, st, a), o[0].ret)
			return one(st, u.tuple(st.length(o[0].ret), u.Nil))
		}
	case "strings.ReplaceAll", "strings.Replace":
		from, ok1 := c.args[1].strConst()
		to, ok2 := c.args[2].strConst()
		if !ok1 || !ok2 || len(from) != 1 {
			return nil
		}
		if c.name == "strings.Replace" {
			if n, ok := c.args[3].intConst(); !ok || n >= 0 {
				return nil
			}
		}
		type part struct {
			st *State
			r  *Term
		}
		outs := []part{{st, u.EmptyS}}
		for _, s := range concatParts(st, c.args[0]) {
			var next []part
			for _, p := range outs {
				add := func(st *State, t *Term) { next = append(next, part{st, u.concat(c.in, c.ctx, p.r, t)}) }
				if k, ok := s.strConst(); ok {
					add(p.st, u.str(strings.ReplaceAll(k, from, to)))
					continue
				}
				if hexChar(s) != nil {
					if isHexDigit(from[0]) {
						return nil
					}
					add(p.st, s)
					continue
				}
				ch := rawChar(s)
				if ch == nil {
					return nil
				}
				hit := p.st.clone()
				if hit.assume(u.eq(ch, u.num(int64(from[0]))), true) {
					add(hit, u.str(to))
				}
				if p.st.assume(u.eq(ch, u.num(int64(from[0]))), false) {
					add(p.st, s)
				}
			}
			outs = next
		}
		var res []*Outcome
		for _, p := range outs {
			res = append(res, &Outcome{st: p.st, ret: p.r})
		}
		return res
	}
	return foldModels(c, st)
}

func concatParts(st *State, t *Term) []*Term {
	var out []*Term
	switch t.op {
	case OConcat, OAppendS:
		for _, a := range t.a {
			out = append(out, concatParts(st, a)...)
		}
		return out
	case OAppend:
		out = concatParts(st, t.a[0])
		for _, a := range t.a[1:] {
			out = append(out, byteStr(st.u, a))
		}
		return out
	case ONil:
		return nil
	case OAlloc, OSliceOf:
		if st.length(t) == st.u.Zero {
			return nil
		}
		if els, ok := listElems(st, t); ok {
			for _, a := range els {
				out = append(out, byteStr(st.u, a))
			}
			return out
		}
	}
	if s, ok := t.strConst(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func isHexDigit(b byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", b) >= 0 }

// rawChar is the character that a text consists of.
func rawChar(t *Term) *Term {
	for t.op == OConv && len(t.a) == 1 {
		t = t.a[0]
	}
	if t.op == OIndex {
		return t
	}
	return nil
}

// hexChar is the character that a text shows as two digits.
func hexChar(t *Term) *Term {
	if t.op != OCall || !hasSuffixAny(t.s, "hex.EncodeToString", "sprintf %02x") {
		return nil
	}
	var ch *Term
	t.any(func(s *Term) bool {
		if s.op == OIndex {
			ch = s
		}
		return false
	})
	return ch
}

// charValues lists the values a character can have on a path.
func (x *Exec) charValues(st *State, ch *Term) (vals [256]bool) {
	u := x.u
	for b := range vals {
		vals[b] = true
		memo := map[*Term]*Term{}
		for a, want := range st.facts {
			if !a.contains(ch) {
				continue
			}
			r := u.subst(a, func(t *Term) *Term {
				if t == ch {
					return u.num(int64(b))
				}
				return nil
			}, memo)
			r = x.foldChar(r)
			if r == u.boolean(!want) {
				vals[b] = false
			}
		}
	}
	return vals
}

// foldChar evaluates tests of constant characters.
func (x *Exec) foldChar(t *Term) *Term {
	u := x.u
	if len(t.a) == 0 {
		return t
	}
	args := make([]*Term, len(t.a))
	for i, a := range t.a {
		args[i] = x.foldChar(a)
	}
	if t.op == OCall && len(args) == 2 {
		s, ok1 := args[0].strConst()
		n, ok2 := args[1].intConst()
		if ok1 && ok2 {
			switch t.s {
			case "strings.IndexByte", "strings.IndexRune":
				return u.num(int64(strings.IndexByte(s, byte(n))))
			case "strings.ContainsRune":
				return u.boolean(strings.IndexByte(s, byte(n)) >= 0)
			}
		}
	}
	if t.op == OConv && len(args) == 1 && args[0].op == OConst {
		return args[0]
	}
	return u.rebuild(t, args, t.n)
}

const dnSpecial = " \"#+,;<=>\\"

// mustEscape: a byte may not stand for itself at place i of n.
func mustEscape(b byte, i, n int, typ bool) bool {
	switch {
	case b < ' ' || b > '~':
		return true
	case strings.IndexByte("\"+,;<>\\", b) >= 0:
		return true
	case b == ' ':
		return i == 0 || i == n-1
	case b == '#':
		return i == 0
	case b == '=':
		return typ
	}
	return false
}

// dnReader compares a normalised name with the expected one.
type dnReader struct {
	x     *Exec
	st    *State
	parts []*Term
	text  string // rest of a constant part
	err   string
}

func (d *dnReader) next() (text string, t *Term) {
	for d.text == "" && len(d.parts) > 0 {
		if s, ok := d.parts[0].strConst(); ok {
			d.text = s
			d.parts = d.parts[1:]
			continue
		}
		return "", d.parts[0]
	}
	return d.text, nil
}

func (d *dnReader) constant(s, what string) {
	if d.err != "" {
		return
	}
	text, _ := d.next()
	if !strings.HasPrefix(text, s) {
		d.err = fmt.Sprintf("%s is missing", what)
		return
	}
	d.text = text[len(s):]
}

// word reads a type or value.
func (d *dnReader) word(t *Term, n int, typ bool) {
	u := d.x.u
	t = lower(u, t)
	whole := false
	if _, s := d.next(); s == t && d.err == "" {
		whole = true
		d.parts = d.parts[1:]
	}
	for k := 0; k < n; k++ {
		ch := u.index(t, u.num(int64(k)), types.Typ[types.Byte])
		if whole {
			d.parts = append([]*Term{ch}, d.parts...)
		}
		d.char(ch, k, n, typ)
	}
}

// char reads one character of a type or value.
func (d *dnReader) char(ch *Term, i, n int, typ bool) {
	if d.err != "" {
		return
	}
	vals := d.x.charValues(d.st, ch)
	where := "a value"
	if typ {
		where = "an attribute type"
	}
	place := fmt.Sprintf("character %d of %d of %s", i+1, n, where)
	one, count := 0, 0
	for b, ok := range vals {
		if ok {
			one = b
			count++
		}
	}
	text, t := d.next()
	if t != nil && rawChar(t) == ch {
		d.parts = d.parts[1:]
		for b, ok := range vals {
			if ok && mustEscape(byte(b), i, n, typ) {
				d.err = fmt.Sprintf("%s is not escaped if it is %q", place, rune(b))
				return
			}
		}
		return
	}
	if count == 1 && text != "" {
		b := byte(one)
		for _, enc := range []string{fmt.Sprintf("\\%02x", b), fmt.Sprintf("\\%02X", b), "\\" + string(rune(b)), string(rune(b))} {
			if strings.HasPrefix(text, enc) {
				if len(enc) == 1 && mustEscape(b, i, n, typ) || len(enc) == 2 && strings.IndexByte(dnSpecial, b) < 0 {
					continue
				}
				d.text = text[len(enc):]
				return
			}
		}
	}
	if !strings.HasPrefix(text, "\\") {
		d.err = place + " is not written in its place"
		return
	}
	d.text = text[1:]
	text, t = d.next()
	switch {
	case t != nil && hexChar(t) == ch:
		d.parts = d.parts[1:]
	case t != nil && rawChar(t) == ch:
		d.parts = d.parts[1:]
		for b, ok := range vals {
			if ok && strings.IndexByte(dnSpecial, byte(b)) < 0 {
				d.err = fmt.Sprintf("%s is escaped by a backslash only, although it can be %q", place, rune(b))
				return
			}
		}
	default:
		d.err = place + " is replaced by something else"
	}
}

func checkC37(r *Run) {
	r.rule("escaped", "the normalised name consists of the folded types and values of the given name in order, where every character with a meaning is escaped", 100)
	r.assumption("Folding of letter case gives a text; its characters are arbitrary.")
	f := r.p.fn(dnPkg, "Normalize")
	if f == nil {
		r.fail("decidable", "", "", "Normalize", "the function that normalises names was not found")
		return
	}
	for _, dc := range dnCases() {
		dc := dc
		s := &Spec{id: r.id, noPanic: true, unroll: 10, unrollIn: []string{dnPkg, "slices", "strings"}, outside: textModels}
		r.analyse("normalise "+dc.String(), s, func(x *Exec) { x.normalised(f, dc) })
	}
}

func (x *Exec) normalised(f *ssa.Function, dc dnCase) {
	u := x.u
	st := newState(u)
	str := types.Typ[types.String]
	p := x.symT("name", f.Params[0].Type())
	st.assume(u.eq(p, u.Nil), false)
	rdnList := fieldType(p.t, "RDNs").Underlying().(*types.Slice)
	avaList := fieldType(rdnList.Elem(), "Attributes").Underlying().(*types.Slice)
	text := func(kind string, i, j, n int) *Term {
		name := fmt.Sprintf("%s %d.%d", kind, i, j)
		t := x.symT(name, str)
		for _, v := range []*Term{t, lower(u, t)} {
			st.mem[u.lenKey(v)] = u.num(int64(n))
			for k := 0; k < n; k++ {
				ch := u.index(v, u.num(int64(k)), types.Typ[types.Byte])
				if name != dc.free || k == dc.held-1 {
					st.assume(u.eq(ch, u.num('a')), true)
				}
			}
		}
		return t
	}
	var rdns []*Term
	for i, avas := range dc.parts {
		rdn := x.symT(fmt.Sprintf("rdn%d", i), rdnList.Elem())
		st.assume(u.eq(rdn, u.Nil), false)
		var as []*Term
		for j, n := range avas {
			a := x.symT(fmt.Sprintf("ava%d.%d", i, j), avaList.Elem())
			st.assume(u.eq(a, u.Nil), false)
			st.mem[u.fieldA(a, "Type")] = text("type", i, j, n[0])
			st.mem[u.fieldA(a, "Value")] = text("value", i, j, n[1])
			as = append(as, a)
		}
		st.mem[u.fieldA(rdn, "Attributes")] = x.listOfT(as, avaList)
		rdns = append(rdns, rdn)
	}
	st.mem[u.fieldA(p, "RDNs")] = x.listOfT(rdns, rdnList)
	at := f.Blocks[0].Instrs[0]
	for _, o := range x.runFn(f, []*Term{p}, st) {
		if o.kind != KRet {
			continue
		}
		x.oblig["escaped"]++
		d := &dnReader{x: x, st: o.st, parts: concatParts(o.st, o.ret)}
		for i, avas := range dc.parts {
			if i > 0 {
				d.constant(",", "the separator of two components")
			}
			for j, n := range avas {
				if j > 0 {
					d.constant("+", "the separator of two parts of a component")
				}
				d.word(u.sym(fmt.Sprintf("type %d.%d", i, j)), n[0], true)
				d.constant("=", "the sign between type and value")
				d.word(u.sym(fmt.Sprintf("value %d.%d", i, j)), n[1], false)
			}
		}
		if s, t := d.next(); d.err == "" && (s != "" || t != nil) {
			d.err = "something is added"
		}
		if d.err != "" {
			x.report("escaped", at, dc.String(), fmt.Sprintf("in the normalised form of a %s: %s", dc, d.err), o.st)
		}
	}
}
