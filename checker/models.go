package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- snapshots ----------------------------------------------------------

// snapshot replaces references to local objects by their current content.
func (s *State) snapshot(t *Term, depth int) *Term {
	u := s.u
	if !t.hasN || depth < 0 {
		return t
	}
	switch t.op {
	case OAlloc:
		if c, ok := s.mem[u.contentOf(t)]; ok {
			return s.snapshot(c, depth-1)
		}
		if h, ok := s.mem[u.havMark(t)]; ok {
			part := false
			for k := range s.mem {
				if root(k) == t && k.op != OHavMark && k.op != OLen {
					part = true
				}
			}
			if !part {
				return u.mk(&Term{op: OHav, a: []*Term{h, t}, t: t.t})
			}
		}
		if t.t == nil {
			return t
		}
		var et types.Type
		switch x := t.t.Underlying().(type) {
		case *types.Array:
			et = x.Elem()
		case *types.Slice:
			et = x.Elem()
		case *types.Struct:
			v := s.load(t, t.t)
			if v.op != OStruct {
				return v
			}
			return s.snapshot(v, depth-1)
		default:
			return t
		}
		n, ok := s.length(t).intConst()
		if !ok || n > 32 {
			return t
		}
		if n == 0 {
			return u.Nil
		}
		args := []*Term{u.Nil}
		for i := int64(0); i < n; i++ {
			v := s.load(u.mk(&Term{op: OIndexA, a: []*Term{t, u.num(i)}}), et)
			args = append(args, s.snapshot(v, depth-1))
		}
		return u.mk(&Term{op: OAppend, a: args})
	case OIface, OStruct, OAppend, OAppendS, OConcat, OWide, OSliceOf, OTuple:
		args := make([]*Term, len(t.a))
		ch := false
		for i, a := range t.a {
			d := depth - 1
			if t.op == OIface || t.op == OConcat {
				d = depth
			}
			args[i] = s.snapshot(a, d)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		if t.op == OWide {
			return u.wide(t.s, args)
		}
		return u.rebuild(t, args, t.n)
	case OFieldA, OIndexA:
		return t
	}
	return t
}

func (s *State) snapshotArg(a *Term, t types.Type) *Term {
	r := s.snapshot(a, 5)
	if r != a || t == nil {
		return r
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok && a.op != ONil && a.op != OAlloc {
			return s.snapshot(s.load(a, p.Elem()), 4)
		}
	}
	return r
}

// ---- classification of external functions -------------------------------

var purePrefixes = []string{
	"strings.", "(*strings.Replacer).", "strings.NewReplacer", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "math.", "math/bits.",
	"bytes.", "encoding/hex.", "(*encoding/base64.Encoding).", "encoding/base64.", "net.ParseIP", "net.ParseCIDR", "net.JoinHostPort", "net.SplitHostPort",
	"(net.IP).", "(*net.IPNet).", "net/netip.", "(net/netip.Addr).", "crypto/subtle.", "crypto/sha1.Sum", "crypto/sha256.Sum", "crypto/sha512.Sum", "crypto/md5.Sum",
	"errors.Unwrap", "errors.Join", "errors.New", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "reflect.DeepEqual", "reflect.TypeOf",
	"github.com/go-ldap/ldap/v3.ParseDN", "(*github.com/go-ldap/ldap/v3.DN).", "(*github.com/go-ldap/ldap/v3.RelativeDN).", "github.com/go-ldap/ldap/v3.EscapeDN", "github.com/go-ldap/ldap/v3.EscapeFilter",
	"github.com/go-ldap/ldap/v3.CompileFilter", "github.com/go-ldap/ldap/v3.DecompileFilter", "github.com/go-ldap/ldap/v3.IsErrorWithCode", "github.com/go-ldap/ldap/v3.IsErrorAnyOf", "github.com/go-ldap/ldap/v3.GetLDAPError",
	"(*github.com/go-ldap/ldap/v3.Error).", "(*github.com/go-ldap/ldap/v3.ControlPaging).GetControlType", "github.com/go-ldap/ldap/v3.FindControl", "github.com/go-asn1-ber/asn1-ber.DecodeString",
	"(*regexp.Regexp).Match", "(*regexp.Regexp).Find", "(*regexp.Regexp).Replace", "(*regexp.Regexp).Split", "regexp.MustCompile", "regexp.Compile", "regexp.MatchString",
	"(error).Error", "(time.Duration).", "(time.Time).", "time.Duration", "net/url.", "(*net/url.URL).", "(golang.org/x/text/cases.Caser).", "(*golang.org/x/text/cases.Caser).", "golang.org/x/text/cases.", "slices.Equal", "sort.SearchStrings",
	"github.com/amoghe/go-crypt.Crypt", "github.com/alexedwards/argon2id.ComparePasswordAndHash", "golang.org/x/crypto/bcrypt.CompareHashAndPassword", "(*github.com/spacewander/go-suffix-tree.Tree).", "runtime.GOOS", "unicode/utf16.", "html.", "text/template.HTMLEscapeString",
	"github.com/GehirnInc/crypt.", "(github.com/GehirnInc/crypt.Crypter).Verify", "(net.Addr).String", "(net.Addr).Network", "(net.Conn).RemoteAddr", "(net.Conn).LocalAddr", "(*crypto/tls.Conn).RemoteAddr",
}

var noEffectPrefixes = []string{
	"(*github.com/sirupsen/logrus.Logger).", "(*github.com/sirupsen/logrus.Entry).", "github.com/sirupsen/logrus.", "(github.com/sirupsen/logrus.FieldLogger).", "(github.com/sirupsen/logrus.Ext1FieldLogger).", "(github.com/sirupsen/logrus.StdLogger).",
	"log.Print", "(*log.Logger).Print", "(*log.Logger).Output", "(github.com/go-logr/logr.Logger).", "(*github.com/go-logr/logr.Logger).", "github.com/go-logr/", "(github.com/go-logr/",
	"(*sync.", "sync.", "(sync.", "context.", "(context.", "time.Now", "time.Since", "time.Until", "time.After", "time.Sleep", "time.New", "(*time.Timer).", "(*time.Ticker).", "fmt.Print", "fmt.Fprint",
	"(*github.com/prometheus/", "(github.com/prometheus/", "github.com/prometheus/", "sync/atomic.", "(*sync/atomic.", "runtime.", "os.Getpid", "log/slog.", "(*log/slog.Logger).", "expvar.", "(*expvar.",
}

func hasAnyPrefix(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func isPure(name string) bool     { return hasAnyPrefix(name, purePrefixes) }
func isNoEffect(name string) bool { return hasAnyPrefix(name, noEffectPrefixes) }

var inlineNames = map[string]bool{
	"github.com/go-ldap/ldap/v3.NewError":                             true,
	"github.com/go-ldap/ldap/v3.NewEntry":                             true,
	"github.com/go-ldap/ldap/v3.NewEntryAttribute":                    true,
	"(*github.com/go-ldap/ldap/v3.Entry).GetEqualFoldAttributeValue":  true,
	"(*github.com/go-ldap/ldap/v3.Entry).GetEqualFoldAttributeValues": true,
	"(*github.com/go-ldap/ldap/v3.Entry).GetAttributeValue":           true,
	"(*github.com/go-ldap/ldap/v3.Entry).GetAttributeValues":          true,
	"(*github.com/go-ldap/ldap/v3.ModifyRequest).Add":                 true,
	"(*github.com/go-ldap/ldap/v3.ModifyRequest).Delete":              true,
	"(*github.com/go-ldap/ldap/v3.ModifyRequest).Replace":             true,
	"(*github.com/go-ldap/ldap/v3.ModifyRequest).Increment":           true,
	"(*github.com/go-ldap/ldap/v3.ModifyRequest).appendChange":        true,
	"(*github.com/go-ldap/ldap/v3.AddRequest).Attribute":              true,
	"github.com/go-ldap/ldap/v3.NewAddRequest":                        true,
	"github.com/go-ldap/ldap/v3.NewModifyRequest":                     true,
	"github.com/go-ldap/ldap/v3.NewDelRequest":                        true,
	"github.com/go-ldap/ldap/v3.NewModifyDNRequest":                   true,
	"github.com/go-ldap/ldap/v3.NewPasswordModifyRequest":             true,
	"github.com/go-ldap/ldap/v3.NewControlPaging":                     true,
	"github.com/go-ldap/ldap/v3.NewControlManageDsaIT":                true,
}

func inlineExternal(fn *ssa.Function) bool {
	n := fname(fn)
	if inlineNames[n] {
		return true
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if fn.Parent() != nil {
		return inlineExternal(fn.Parent())
	}
	if o.Pkg != nil {
		switch o.Pkg.Pkg.Path() {
		case "slices", "maps", "cmp":
			return !strings.Contains(o.Name(), "Sort") && !strings.Contains(o.Name(), "BinarySearch")
		}
	}
	// compiler generated wrappers (bound methods, thunks, promoted methods)
	if fn.Synthetic != "" && fn.Pkg == nil || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "thunk") {
		return len(fn.Blocks) > 0
	}
	return false
}

// ---- builtins -----------------------------------------------------------

func one(st *State, t *Term) []*Outcome { return []*Outcome{{st: st, ret: t}} }

func (x *Exec) builtin(c *Call, st *State) []*Outcome {
	u := x.u
	switch strings.TrimPrefix(c.name, "builtin.") {
	case "len":
		return one(st, st.length(c.args[0]))
	case "cap":
		return one(st, u.call("cap", types.Typ[types.Int], c.args[0]))
	case "append":
		return one(st, x.appendTo(c, st, c.args[0], c.args[1]))
	case "copy":
		x.copyInto(st, c.args[0], c.args[1])
		return one(st, st.length(st.snapshot(c.args[1], 4)))
	case "delete":
		m, k := c.args[0], c.args[1]
		for a := range st.mem {
			if a.op == OMapE && a.a[0] == m && !st.refuted(u.eq(a.a[1], k)) {
				if st.same(a.a[1], k) {
					delete(st.mem, a)
				} else {
					st.mem[a] = u.mk(&Term{op: OHav, a: []*Term{u.nonce(c.ctx, c.in, "delete"), a}})
				}
			}
		}
		if m.op != OAlloc {
			// a symbolic map: later lookups of k are unknown
			st.mem[u.mk(&Term{op: OMapE, a: []*Term{m, k}})] = u.mk(&Term{op: OHav, a: []*Term{u.nonce(c.ctx, c.in, "delete"), k}})
		}
		return one(st, nil)
	case "close", "print", "println", "clear":
		return one(st, nil)
	case "panic":
		return []*Outcome{{st: st, kind: KPanic, ret: c.args[0]}}
	case "recover":
		if _, ok := st.mon["$panic"]; ok {
			delete(st.mon, "$panic")
			n := u.nonce(c.ctx, c.in, "recovered")
			st.assume(u.eq(n, u.Nil), false)
			return one(st, n)
		}
		return one(st, u.Nil)
	case "ssa:wrapnilchk":
		return one(st, c.args[0])
	case "min", "max":
		return one(st, x.typed(u.call(c.name, nil, c.args...), c))
	}
	return one(st, x.typed(u.nonce(c.ctx, c.in, "builtin"), c))
}

func (x *Exec) appendTo(c *Call, st *State, base, sl *Term) *Term {
	u := x.u
	b := st.snapshotSlice(base)
	s := st.snapshotSlice(sl)
	if s == u.Nil {
		return base
	}
	if b.op == OAlloc {
		if n, ok := st.length(b).intConst(); ok && n == 0 {
			b = u.Nil
		}
	}
	if s.op == OAppend && s.a[0] == u.Nil {
		if b.op == OAppend {
			return u.mk(&Term{op: OAppend, a: append(append([]*Term{}, b.a...), s.a[1:]...)})
		}
		return u.mk(&Term{op: OAppend, a: append([]*Term{b}, s.a[1:]...)})
	}
	if b == u.Nil && s.op != OAlloc {
		return s
	}
	return u.mk(&Term{op: OAppendS, a: []*Term{b, s}})
}

// snapshotSlice resolves a slice object to its elements (one level only).
func (s *State) snapshotSlice(t *Term) *Term {
	u := s.u
	if t.op == OSliceOf {
		b := s.snapshotSlice(t.a[0])
		if b != t.a[0] {
			if r := u.segSlice(b, t.a[1], t.a[2]); r != nil {
				return r
			}
			return u.mk(&Term{op: OSliceOf, a: []*Term{b, t.a[1], t.a[2]}, t: t.t})
		}
		return t
	}
	if t.op != OAlloc || t.t == nil {
		return t
	}
	if c, ok := s.mem[u.contentOf(t)]; ok {
		return c
	}
	if h, ok := s.mem[u.havMark(t)]; ok {
		return u.mk(&Term{op: OHav, a: []*Term{h, t}, t: t.t})
	}
	var et types.Type
	switch x := t.t.Underlying().(type) {
	case *types.Array:
		et = x.Elem()
	case *types.Slice:
		et = x.Elem()
	default:
		return t
	}
	n, ok := s.length(t).intConst()
	if !ok || n > 32 {
		return t
	}
	if n == 0 {
		return u.Nil
	}
	args := []*Term{u.Nil}
	for i := int64(0); i < n; i++ {
		args = append(args, s.load(u.mk(&Term{op: OIndexA, a: []*Term{t, u.num(i)}}), et))
	}
	return u.mk(&Term{op: OAppend, a: args})
}

func (s *State) setContent(obj, v *Term) {
	u := s.u
	for k := range s.mem {
		if k.op == OIndexA && k.a[0] == obj {
			delete(s.mem, k)
		}
	}
	s.mem[u.contentOf(obj)] = v
}

func (x *Exec) copyInto(st *State, dst, src *Term) {
	u := x.u
	v := st.snapshotSlice(src)
	if x.putSegments(st, dst, v) {
		return
	}
	switch {
	case dst.op == OSliceOf:
		base := dst.a[0]
		st.setContent(base, u.call("copyat", nil, st.snapshotSlice(base), dst.a[1], v))
	case st.length(dst) == st.length(v) || st.same(st.length(dst), st.length(v)):
		st.setContent(dst, v)
	default:
		st.setContent(dst, u.call("copyat", nil, st.snapshotSlice(dst), u.Zero, v))
	}
}

// putSegments writes 8 byte parts into a local byte buffer.
func (x *Exec) putSegments(st *State, dst, v *Term) bool {
	u := x.u
	off := int64(0)
	if dst.op == OSliceOf {
		var ok bool
		if off, ok = dst.a[1].intConst(); !ok && dst.a[1] != u.Nil || off%8 != 0 {
			return false
		}
		dst = dst.a[0]
	}
	segs, ok := u.segments(v)
	if !ok || dst.op != OAlloc {
		return false
	}
	n, ok := st.length(dst).intConst()
	if !ok || n%8 != 0 || n > 8*12 {
		return false
	}
	var old []*Term
	if c, ok := st.mem[u.contentOf(dst)]; ok {
		if old, ok = u.segments(c); !ok || len(old) != int(n/8) {
			return false
		}
	} else {
		for k := range st.mem {
			if root(k) == dst && k.op != OLen {
				return false
			}
		}
		for i := int64(0); i < n/8; i++ {
			old = append(old, u.mk(&Term{op: OLE64, s: "le", a: []*Term{u.Zero}}))
		}
	}
	old = append([]*Term(nil), old...)
	for i, s := range segs {
		if j := int(off/8) + i; j < len(old) {
			old[j] = s
		}
	}
	st.setContent(dst, u.fromSegments(old))
	return true
}

// ---- library models -----------------------------------------------------

var baseModels map[string]Model

const (
	boltP = "go.etcd.io/bbolt."
	ldapP = "github.com/go-ldap/ldap/v3."
	berP  = "github.com/go-asn1-ber/asn1-ber."
)

func rm(recv, method string) string {
	i := strings.LastIndex(recv, ".")
	_ = i
	return "(*" + recv + ")." + method
}

func lower(u *Universe, t *Term) *Term {
	if s, ok := t.strConst(); ok {
		return u.str(strings.ToLower(s))
	}
	if t.op == OCall && (t.s == "lower") {
		return t
	}
	return u.call("lower", types.Typ[types.String], t)
}

// errFork returns the outcomes "no error" and "error" of a call with results vals..., err.
func errFork(c *Call, ok, bad *State, vals []*Term, badVals []*Term) []*Outcome {
	u := c.x.u
	e := u.nonce(c.ctx, c.in, "err "+short(c.name))
	bad.assume(u.eq(e, u.Nil), false)
	bad.note(c.pos(), "error from "+short(c.name))
	if c.x.spec.faults && bad.mon["failed"] == nil && !strings.HasPrefix(c.name, "encoding/binary.") {
		bad.mon["failed"] = u.str(short(c.name))
	}
	mk := func(vs []*Term, err *Term) *Term {
		if len(vs) == 0 {
			return err
		}
		return u.tuple(append(append([]*Term{}, vs...), err)...)
	}
	return []*Outcome{{st: ok, ret: mk(vals, u.Nil)}, {st: bad, ret: mk(badVals, e)}}
}

func (x *Exec) boltVer(c *Call, st *State) *Term {
	if v, ok := st.mon["bolt.ver"]; ok {
		return v
	}
	v := x.u.sym("bolt.ver0")
	st.mon["bolt.ver"] = v
	return v
}

// boltGet folds a lookup over the writes of the transaction.
func (x *Exec) boltGet(st *State, b, k, ver *Term) *Term {
	u := x.u
	for ver.op == OCall && (ver.s == "bolt.put" || ver.s == "bolt.del") {
		vb, vk := ver.a[1], ver.a[2]
		if st.same(vb, b) && st.same(vk, k) {
			if ver.s == "bolt.put" {
				return ver.a[3]
			}
			return u.Nil
		}
		if st.bucketDiffers(vb, b) || x.keysDiffer(st, vk, k) {
			ver = ver.a[0]
			continue
		}
		break
	}
	return u.mk(&Term{op: OCall, s: "bolt.Get", a: []*Term{b, k, ver}, t: types.NewSlice(types.Typ[types.Byte])})
}

// keysDiffer: the two record keys cannot be the same.
func (x *Exec) keysDiffer(st *State, a, b *Term) bool {
	if st.refuted(x.u.eq(a, b)) {
		return true
	}
	if a.op == OLE64 && b.op == OLE64 && a.s == b.s && st.refuted(x.u.eq(a.a[0], b.a[0])) {
		return true
	}
	pa, pb := parsedOf(a), parsedOf(b)
	return pa != nil && x.isParentOf(st, b, pa) || pb != nil && x.isParentOf(st, a, pb)
}

func (s *State) bucketDiffers(a, b *Term) bool {
	if a.op == OCall && b.op == OCall && a.s == "bolt.Bucket" && b.s == "bolt.Bucket" {
		return s.refuted(s.u.eq(a.a[0], b.a[0])) || s.u.eq(a.a[0], b.a[0]) == s.u.False
	}
	return false
}

func boltTx(write bool) Model {
	return func(c *Call, st *State) []*Outcome {
		x, u := c.x, c.x.u
		if len(c.args) < 2 {
			return nil
		}
		fv := c.args[1]
		tx := u.nonce(c.ctx, c.in, "tx")
		st.assume(u.eq(tx, u.Nil), false)
		saved, had := st.mon["bolt.ver"]
		st.mon["bolt.ver"] = u.nonce(c.ctx, c.in, "ver")
		mode := "r"
		if write {
			mode = "w"
		}
		smode, hadM := st.mon["bolt.mode"]
		st.mon["bolt.mode"] = u.str(mode)
		if write {
			countTxn(st)
			st.mon["bolt.base"] = st.mon["bolt.ver"]
		}
		ins := x.callValue(c, fv, []*Term{tx}, st, c.args[0])
		if ins == nil {
			return nil
		}
		var outs []*Outcome
		fin := func(s *State, ret *Term) {
			if had {
				s.mon["bolt.ver"] = saved
			} else {
				delete(s.mon, "bolt.ver")
			}
			if hadM {
				s.mon["bolt.mode"] = smode
			} else {
				delete(s.mon, "bolt.mode")
			}
			outs = append(outs, &Outcome{st: s, ret: ret})
		}
		for _, o := range ins {
			if o.kind != KRet {
				outs = append(outs, o)
				continue
			}
			e := o.ret
			v, known := o.st.decide(u.eq(e, u.Nil))
			if !known || v {
				s := o.st
				if !known {
					s = o.st.clone()
					s.assume(u.eq(e, u.Nil), true)
				}
				if write {
					s2 := s.clone()
					ce := u.nonce(c.ctx, c.in, "commit error")
					s2.assume(u.eq(ce, u.Nil), false)
					s2.mon["bolt.result"] = u.str("rollback")
					fin(s2, ce)
					s.mon["bolt.result"] = u.str("commit")
					s.mon["bolt.log"] = s.mon["bolt.ver"]
				}
				fin(s, u.Nil)
			}
			if !known || !v {
				s := o.st
				if s.assume(u.eq(e, u.Nil), false) {
					if write {
						s.mon["bolt.result"] = u.str("rollback")
					}
					fin(s, e)
				}
			}
		}
		return outs
	}
}

// countTxn counts the write transactions of the analysed operation (two means two or more).
func countTxn(st *State) {
	k := "bolt.txn1"
	if _, ok := st.mon[k]; ok {
		k = "bolt.txn2"
	}
	st.mon[k] = st.u.True
}

// boltBegin, boltCommit and boltRollback model transactions driven by hand.
func boltBegin(c *Call, st *State) []*Outcome {
	u := c.x.u
	bad := st.clone()
	tx := u.nonce(c.ctx, c.in, "tx")
	st.assume(u.eq(tx, u.Nil), false)
	st.mon["bolt.ver"] = u.nonce(c.ctx, c.in, "ver")
	if c.args[1] == u.False {
		st.mon["bolt.mode"] = u.str("r")
	} else {
		st.mon["bolt.mode"] = u.str("w")
		st.mon["bolt.result"] = u.str("open")
		st.mon["bolt.base"] = st.mon["bolt.ver"]
		countTxn(st)
	}
	return errFork(c, st, bad, []*Term{tx}, []*Term{u.Nil})
}

func boltCommit(c *Call, st *State) []*Outcome {
	u := c.x.u
	bad := st.clone()
	st.mon["bolt.log"] = st.mon["bolt.ver"]
	for s, r := range map[*State]string{st: "commit", bad: "rollback"} {
		s.mon["bolt.result"] = u.str(r)
		delete(s.mon, "bolt.mode")
		delete(s.mon, "bolt.ver")
		if s.mon["bolt.log"] == nil {
			delete(s.mon, "bolt.log")
		}
	}
	return errFork(c, st, bad, nil, nil)
}

func boltRollback(c *Call, st *State) []*Outcome {
	u := c.x.u
	if m := st.mon["bolt.mode"]; m != nil {
		if m == u.str("w") {
			st.mon["bolt.result"] = u.str("rollback")
		}
		delete(st.mon, "bolt.mode")
		delete(st.mon, "bolt.ver")
	}
	e := u.nonce(c.ctx, c.in, "rollback error")
	return one(st, e)
}

// readFull models io.ReadFull: the buffer holds the next piece of the reader's data, or the call fails.
func readFull(c *Call, st *State) []*Outcome {
	u := c.x.u
	r, buf := c.args[0], c.args[1]
	bad := st.clone()
	if segs, ok := u.segments(readerContent(c, st, r)); ok {
		if r.op == OIface {
			r = r.a[0]
		}
		n, isC := st.length(buf).intConst()
		if isC && n > 0 && n%8 == 0 && int(n/8) <= len(segs) && buf.op == OAlloc {
			st.setContent(buf, u.fromSegments(segs[:n/8]))
			st.mem[u.contentOf(r)] = u.fromSegments(segs[n/8:])
			return one(st, u.tuple(u.num(n), u.Nil))
		}
		if isC && n > int64(8*len(segs)) {
			bad.havoc(buf, u.nonce(c.ctx, c.in, "short"))
			bad.mem[u.contentOf(r)] = u.EmptyS
			bad.mem[u.lenKey(buf)] = u.num(n)
			return errFork(c, st, bad, []*Term{u.Zero}, []*Term{u.num(int64(8 * len(segs)))})[1:]
		}
	}
	bad.havoc(buf, u.nonce(c.ctx, c.in, "short"))
	bad.mon["read.end"] = readerContent(c, st, r)
	n := u.nonce(c.ctx, c.in, "chunk")
	chunk := u.callN("chunk", types.NewSlice(types.Typ[types.Byte]), n, readerContent(c, st, r))
	st.setContent(buf, chunk)
	l := st.length(buf)
	return errFork(c, st, bad, []*Term{l}, []*Term{u.nonce(c.ctx, c.in, "n")})
}

// binaryRead models binary.Read into a slice of 64 bit numbers.
func binaryRead(c *Call, st *State) []*Outcome {
	u := c.x.u
	d := c.args[2]
	if d.op != OIface {
		return nil
	}
	d = d.a[0]
	sl := d
	if v, ok := st.mem[d]; ok {
		sl = v
	}
	order := "le"
	if o := c.args[1]; o.op == OIface && strings.Contains(types.TypeString(o.t, nil), "big") {
		order = "be"
	}
	bad := st.clone()
	if sl.op != OAlloc {
		return nil
	}
	l, hasL := st.mem[u.lenKey(sl)]
	if segs, ok := u.segments(readerContent(c, st, c.args[0])); ok && hasL {
		if n, isC := l.intConst(); isC && int(n) == len(segs) {
			els := []*Term{u.Nil}
			for _, s := range segs {
				els = append(els, u.u64(order, s))
			}
			v := u.Nil
			if len(segs) > 0 {
				v = u.mk(&Term{op: OAppend, a: els})
			}
			st.setContent(sl, v)
			st.mem[u.lenKey(sl)] = l
			return one(st, u.Nil)
		}
	}
	st.setContent(sl, u.mk(&Term{op: OCall, s: "u64s", a: []*Term{readerContent(c, st, c.args[0]), u.str(order)}, t: types.NewSlice(types.Typ[types.Uint64])}))
	bad.havoc(sl, u.nonce(c.ctx, c.in, "short"))
	if hasL {
		st.mem[u.lenKey(sl)] = l
		bad.mem[u.lenKey(sl)] = l
	}
	return errFork(c, st, bad, nil, nil)
}

func pureAs(name string) Model {
	return func(c *Call, st *State) []*Outcome {
		args := make([]*Term, len(c.args))
		for i, a := range c.args {
			args[i] = st.snapshotArg(a, c.x.argType(c, i))
		}
		return one(st, c.x.typed(c.x.u.call(name, nil, args...), c))
	}
}

func exitModel(c *Call, st *State) []*Outcome {
	return []*Outcome{{st: st, kind: KExit, ret: c.x.u.sym("exit")}}
}

func bufContent(c *Call, st *State, a *Term) *Term {
	u := c.x.u
	if v, ok := st.mem[u.contentOf(a)]; ok {
		return v
	}
	if root(a).op == OAlloc {
		if h, ok := st.mem[u.havMark(root(a))]; ok {
			return u.mk(&Term{op: OHav, a: []*Term{h, a}})
		}
		return u.EmptyS
	}
	return u.initOf(a, types.Typ[types.String])
}

func bufWrite(conv func(u *Universe, t *Term) *Term) Model {
	return func(c *Call, st *State) []*Outcome {
		u := c.x.u
		a := c.args[0]
		v := st.snapshotSlice(c.args[1])
		if conv != nil {
			v = conv(u, v)
		}
		st.mem[u.contentOf(a)] = u.concat(c.in, c.ctx, bufContent(c, st, a), v)
		if c.sig.Results().Len() == 2 {
			return one(st, u.tuple(st.length(v), u.Nil))
		}
		return one(st, u.Nil)
	}
}

func init() {
	baseModels = map[string]Model{
		"(*" + boltP + "DB).Update":   boltTx(true),
		"(*" + boltP + "DB).Batch":    boltTx(true),
		"(*" + boltP + "DB).View":     boltTx(false),
		"(*" + boltP + "DB).Begin":    boltBegin,
		"(*" + boltP + "Tx).Commit":   boltCommit,
		"(*" + boltP + "Tx).Rollback": boltRollback,
		"io.ReadFull":                 readFull,
		"encoding/binary.Read":        binaryRead,
		ldapP + "ParseDN": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			a := st.snapshot(c.args[0], 3)
			if a.op == OCall && a.s == dnPkg+".Normalize" && a.a[0].op == OInit {
				// a normalised name parses and is its own normal form
				return one(st, u.tuple(a.a[0].a[0], u.Nil))
			}
			r := u.call(c.name, nil, a)
			p, e := u.ext(r, 0), u.ext(r, 1)
			if p.t == nil {
				p.t = c.sig.Results().At(0).Type()
				e.t = c.sig.Results().At(1).Type()
			}
			if v, k := st.decide(u.eq(e, u.Nil)); k {
				if v {
					return one(st, u.tuple(p, u.Nil))
				}
				return one(st, u.tuple(u.Nil, e))
			}
			bad := st.clone()
			bad.assume(u.eq(e, u.Nil), false)
			bad.note(c.pos(), "name does not parse")
			st.assume(u.eq(e, u.Nil), true)
			st.assume(u.eq(p, u.Nil), false)
			return []*Outcome{{st: st, ret: u.tuple(p, u.Nil)}, {st: bad, ret: u.tuple(u.Nil, e)}}
		},
		"(*" + boltP + "Tx).Bucket": func(c *Call, st *State) []*Outcome {
			b := c.x.u.call("bolt.Bucket", nil, st.snapshotSlice(c.args[1]))
			return one(st, b)
		},
		"(*" + boltP + "Tx).CreateBucketIfNotExists": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			b := u.call("bolt.Bucket", nil, st.snapshotSlice(c.args[1]))
			bad := st.clone()
			if !st.assume(u.eq(b, u.Nil), false) {
				return nil
			}
			return errFork(c, st, bad, []*Term{b}, []*Term{u.Nil})
		},
		"(*" + boltP + "Bucket).Get": func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			if !st.assume(u.eq(c.args[0], u.Nil), false) {
				return []*Outcome{{st: st, kind: KPanic, ret: u.sym("panic")}}
			}
			g := x.boltGet(st, c.args[0], st.snapshotSlice(c.args[1]), x.boltVer(c, st))
			if split := x.spec.lists; split != nil && g.op == OCall && g.s == "bolt.Get" {
				k := "list|" + strconv.Itoa(g.id)
				if v, ok := st.mon[k]; ok {
					return one(st, v)
				}
				if vs := split(x, st, g); vs != nil {
					var outs []*Outcome
					for _, v := range vs {
						s := st.clone()
						s.mon[k] = v
						outs = append(outs, &Outcome{st: s, ret: v})
					}
					return outs
				}
			}
			return one(st, g)
		},
		"(*" + boltP + "Bucket).Put": func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			if !st.assume(u.eq(c.args[0], u.Nil), false) {
				return []*Outcome{{st: st, kind: KPanic, ret: u.sym("panic")}}
			}
			bad := st.clone()
			ver := x.boltVer(c, st)
			st.mon["bolt.ver"] = x.limitVer(c, u.call("bolt.put", nil, ver, c.args[0], st.snapshotSlice(c.args[1]), st.snapshotSlice(c.args[2])))
			return errFork(c, st, bad, nil, nil)
		},
		"(*" + boltP + "Bucket).Delete": func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			if !st.assume(u.eq(c.args[0], u.Nil), false) {
				return []*Outcome{{st: st, kind: KPanic, ret: u.sym("panic")}}
			}
			bad := st.clone()
			ver := x.boltVer(c, st)
			st.mon["bolt.ver"] = x.limitVer(c, u.call("bolt.del", nil, ver, c.args[0], st.snapshotSlice(c.args[1])))
			return errFork(c, st, bad, nil, nil)
		},
		"(*" + boltP + "Bucket).NextSequence": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			bad := st.clone()
			n := u.callN("bolt.seq", nil, u.nonce(c.ctx, c.in, "seq"), c.args[0])
			if n.t == nil {
				n.t = types.Typ[types.Uint64]
			}
			// bbolt sequences start at one
			st.assume(u.eq(n, u.Zero), false)
			return errFork(c, st, bad, []*Term{n}, []*Term{u.Zero})
		},
		"(*" + boltP + "Bucket).ForEach": func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			k := u.nonce(c.ctx, c.in, "key")
			v := x.boltGet(st, c.args[0], k, x.boltVer(c, st))
			none := st.clone()
			ins := x.callValue(c, c.args[1], []*Term{k, v}, st, c.args...)
			if ins == nil {
				return nil
			}
			return append(ins, &Outcome{st: none, ret: u.Nil})
		},

		"slices.DeleteFunc": deleteFunc,
		"strings.ToLower":   func(c *Call, st *State) []*Outcome { return one(st, lower(c.x.u, c.args[0])) },
		"strings.EqualFold": func(c *Call, st *State) []*Outcome {
			return one(st, c.x.u.eq(lower(c.x.u, c.args[0]), lower(c.x.u, c.args[1])))
		},
		"bytes.Equal": func(c *Call, st *State) []*Outcome {
			return one(st, c.x.u.eq(st.snapshotSlice(c.args[0]), st.snapshotSlice(c.args[1])))
		},
		"strings.Compare": func(c *Call, st *State) []*Outcome { return nil },
		"strings.Clone":   func(c *Call, st *State) []*Outcome { return one(st, c.args[0]) },
		"bytes.Clone":     func(c *Call, st *State) []*Outcome { return one(st, st.snapshotSlice(c.args[0])) },
		"fmt.Sprintf":     sprintf,

		"(encoding/binary.littleEndian).Uint64": func(c *Call, st *State) []*Outcome {
			t := c.x.u.u64("le", st.snapshotSlice(c.args[len(c.args)-1]))
			if t.t == nil {
				t.t = types.Typ[types.Uint64]
			}
			return one(st, t)
		},
		"(encoding/binary.bigEndian).Uint64": func(c *Call, st *State) []*Outcome {
			t := c.x.u.u64("be", st.snapshotSlice(c.args[len(c.args)-1]))
			if t.t == nil {
				t.t = types.Typ[types.Uint64]
			}
			return one(st, t)
		},
		"(encoding/binary.littleEndian).PutUint64":    putU64("le"),
		"(encoding/binary.bigEndian).PutUint64":       putU64("be"),
		"(encoding/binary.littleEndian).AppendUint64": appendU64("le"),
		"(encoding/binary.bigEndian).AppendUint64":    appendU64("be"),

		"bytes.NewBuffer": func(c *Call, st *State) []*Outcome {
			a := newObj(c, st, "buf")
			st.mem[c.x.u.contentOf(a)] = st.snapshotSlice(c.args[0])
			if c.args[0] == c.x.u.Nil {
				st.mem[c.x.u.contentOf(a)] = c.x.u.EmptyS
			}
			return one(st, a)
		},
		"bytes.NewBufferString":          newReader,
		"bytes.NewReader":                newReader,
		"strings.NewReader":              newReader,
		"(*bytes.Buffer).Write":          bufWrite(nil),
		"(*bytes.Buffer).WriteString":    bufWrite(nil),
		"(*bytes.Buffer).WriteByte":      bufWrite(byteStr),
		"(*bytes.Buffer).WriteRune":      bufWrite(byteStr),
		"(*strings.Builder).Write":       bufWrite(nil),
		"(*strings.Builder).WriteString": bufWrite(nil),
		"(*strings.Builder).WriteByte":   bufWrite(byteStr),
		"(*strings.Builder).WriteRune":   bufWrite(byteStr),
		"(*strings.Builder).Grow":        func(c *Call, st *State) []*Outcome { return one(st, nil) },
		"(*bytes.Buffer).Grow":           func(c *Call, st *State) []*Outcome { return one(st, nil) },
		"(*bytes.Buffer).Bytes":          func(c *Call, st *State) []*Outcome { return one(st, bufContent(c, st, c.args[0])) },
		"(*bytes.Buffer).String":         func(c *Call, st *State) []*Outcome { return one(st, bufContent(c, st, c.args[0])) },
		"(*strings.Builder).String":      func(c *Call, st *State) []*Outcome { return one(st, bufContent(c, st, c.args[0])) },
		"(*bytes.Buffer).Len":            func(c *Call, st *State) []*Outcome { return one(st, c.x.u.length(bufContent(c, st, c.args[0]))) },
		"(*strings.Builder).Len":         func(c *Call, st *State) []*Outcome { return one(st, c.x.u.length(bufContent(c, st, c.args[0]))) },
		"(*bytes.Buffer).Reset":          bufReset,
		"(*strings.Builder).Reset":       bufReset,

		"encoding/gob.NewDecoder": func(c *Call, st *State) []*Outcome {
			return one(st, c.x.u.call("gob.dec", nil, readerContent(c, st, c.args[0])))
		},
		"(*encoding/gob.Decoder).Decode": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			d, dst := c.args[0], c.args[1]
			if dst.op == OIface {
				dst = dst.a[0]
			}
			if d.op != OCall || d.s != "gob.dec" {
				return nil
			}
			v := u.call("gobdecode", nil, d.a[0])
			if d.a[0].op == OCall && d.a[0].s == "gobencode" {
				v = d.a[0].a[0]
			}
			et := pointee(c, dst)
			if et == nil {
				return nil
			}
			if v.t == nil {
				v.t = et
			}
			bad := st.clone()
			bad.havoc(dst, u.nonce(c.ctx, c.in, "baddecode"))
			st.store(dst, v, et)
			return errFork(c, st, bad, nil, nil)
		},
		"encoding/gob.NewEncoder": func(c *Call, st *State) []*Outcome {
			w := c.args[0]
			if w.op == OIface {
				w = w.a[0]
			}
			return one(st, c.x.u.call("gob.enc", nil, w))
		},
		"(*encoding/gob.Encoder).Encode": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			e, v := c.args[0], c.args[1]
			if e.op != OCall || e.s != "gob.enc" {
				return nil
			}
			var vt types.Type
			if v.op == OIface {
				vt = v.t
				v = v.a[0]
			}
			v = st.snapshotArg(v, vt)
			bad := st.clone()
			st.mem[u.contentOf(e.a[0])] = u.call("gobencode", nil, v)
			return errFork(c, st, bad, nil, nil)
		},

		"errors.Is": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			if c.args[0] == c.args[1] {
				return one(st, u.True)
			}
			if c.args[0].op == ONil || st.isNil(c.args[0]) {
				return one(st, u.eq(c.args[1], u.Nil))
			}
			if c.args[0].op == OInit && c.args[1].op == OInit && c.args[0].a[0].op == OGlobal && c.args[1].a[0].op == OGlobal {
				return one(st, u.False)
			}
			return one(st, u.call("errors.Is", types.Typ[types.Bool], c.args[0], c.args[1]))
		},
		"errors.As": errorsAs,

		"os.Exit":               exitModel,
		"runtime.Goexit":        exitModel,
		"log.Fatal":             exitModel,
		"log.Fatalf":            exitModel,
		"log.Fatalln":           exitModel,
		"syscall.Exit":          exitModel,
		"(*log.Logger).Fatal":   exitModel,
		"(*log.Logger).Fatalf":  exitModel,
		"(*log.Logger).Fatalln": exitModel,

		"sync.OnceFunc": nil,

		berP + "Encode": func(c *Call, st *State) []*Outcome {
			return one(st, newPacket(c, st, c.args[0], c.args[1], c.args[2], c.args[3], c.args[4]))
		},
		berP + "NewString": func(c *Call, st *State) []*Outcome {
			return one(st, newPacket(c, st, c.args[0], c.args[1], c.args[2], wrapIface(c, types.Typ[types.String], c.args[3]), c.args[4]))
		},
		berP + "NewInteger": func(c *Call, st *State) []*Outcome {
			return one(st, newPacket(c, st, c.args[0], c.args[1], c.args[2], c.args[3], c.args[4]))
		},
		berP + "NewBoolean": func(c *Call, st *State) []*Outcome {
			return one(st, newPacket(c, st, c.args[0], c.args[1], c.args[2], wrapIface(c, types.Typ[types.Bool], c.args[3]), c.args[4]))
		},
		berP + "NewSequence": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			return one(st, newPacket(c, st, u.Zero, u.num(32), u.num(16), u.Nil, c.args[0]))
		},
		"(*" + berP + "Packet).AppendChild": func(c *Call, st *State) []*Outcome {
			u := c.x.u
			p, ch := c.args[0], c.args[1]
			ca := u.fieldA(p, "Children")
			cur := st.load(ca, types.NewSlice(types.Typ[types.UnsafePointer]))
			if cur.op == OAppend {
				cur = u.mk(&Term{op: OAppend, a: append(append([]*Term{}, cur.a...), ch)})
			} else {
				cur = u.mk(&Term{op: OAppend, a: []*Term{cur, ch}})
			}
			st.mem[ca] = cur
			return one(st, nil)
		},
		"(*" + berP + "Packet).Bytes": pureAs("ber.Bytes"),
	}
	for k, m := range baseModels {
		if m == nil {
			delete(baseModels, k)
		}
	}
}

// deleteFunc filters a list whose elements are known.
func deleteFunc(c *Call, st *State) []*Outcome {
	x, u := c.x, c.x.u
	l := st.snapshotSlice(c.args[0])
	if l == u.Nil {
		return one(st, l)
	}
	if l.op != OAppend || l.a[0] != u.Nil {
		return nil
	}
	type part struct {
		st   *State
		kept []*Term
	}
	cur := []part{{st, nil}}
	var outs []*Outcome
	for _, e := range l.a[1:] {
		var next []part
		for _, p := range cur {
			rs := x.callValue(c, c.args[1], []*Term{e}, p.st)
			if rs == nil {
				return nil
			}
			for _, o := range rs {
				if o.kind != KRet {
					outs = append(outs, o)
					continue
				}
				keep := append([]*Term(nil), p.kept...)
				if v, ok := o.st.decide(o.ret); ok {
					if !v {
						keep = append(keep, e)
					}
					next = append(next, part{o.st, keep})
					continue
				}
				s2 := o.st.clone()
				if s2.assume(o.ret, true) {
					next = append(next, part{s2, keep})
				}
				if o.st.assume(o.ret, false) {
					next = append(next, part{o.st, append(append([]*Term(nil), p.kept...), e)})
				}
			}
		}
		cur = next
	}
	for _, p := range cur {
		r := u.Nil
		if len(p.kept) > 0 {
			r = u.mk(&Term{op: OAppend, a: append([]*Term{u.Nil}, p.kept...)})
		} else {
			r = u.EmptyS
		}
		outs = append(outs, &Outcome{st: p.st, ret: r})
	}
	return outs
}

func wrapIface(c *Call, t types.Type, v *Term) *Term {
	return c.x.u.mk(&Term{op: OIface, t: t, a: []*Term{v}})
}

func newObj(c *Call, st *State, kind string) *Term {
	u := c.x.u
	a := u.alloc(c.ctx, c.in, kind)
	for k := range st.mem {
		if k.hasN && root(k) == a {
			delete(st.mem, k)
		}
	}
	return a
}

func newReader(c *Call, st *State) []*Outcome {
	a := newObj(c, st, "reader")
	st.mem[c.x.u.contentOf(a)] = st.snapshotSlice(c.args[0])
	return one(st, a)
}

func readerContent(c *Call, st *State, r *Term) *Term {
	if r.op == OIface {
		r = r.a[0]
	}
	if v, ok := st.mem[c.x.u.contentOf(r)]; ok {
		return v
	}
	return c.x.u.call("content", nil, r)
}

func bufReset(c *Call, st *State) []*Outcome {
	st.mem[c.x.u.contentOf(c.args[0])] = c.x.u.EmptyS
	return one(st, nil)
}

func byteStr(u *Universe, t *Term) *Term {
	if n, ok := t.intConst(); ok {
		return u.str(string(rune(n)))
	}
	return u.mk(&Term{op: OConv, t: types.Typ[types.String], a: []*Term{t}})
}

func pointee(c *Call, p *Term) types.Type {
	if p.op == OAlloc {
		return p.t
	}
	// the static type of the argument
	if c.common != nil {
		for _, a := range c.common.Args {
			v := a
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if pt, ok := v.Type().Underlying().(*types.Pointer); ok && a != c.common.Args[0] {
				return pt.Elem()
			}
		}
	}
	return nil
}

func putU64(order string) Model {
	return func(c *Call, st *State) []*Outcome {
		u := c.x.u
		n := len(c.args)
		dst := c.args[n-2]
		v := u.mk(&Term{op: OLE64, s: order, a: []*Term{c.args[n-1]}})
		if !c.x.putSegments(st, dst, v) {
			st.setContent(dst, v)
		}
		return one(st, nil)
	}
}

func appendU64(order string) Model {
	return func(c *Call, st *State) []*Outcome {
		u := c.x.u
		n := len(c.args)
		b, v := st.snapshotSlice(c.args[n-2]), c.args[n-1]
		e := u.mk(&Term{op: OLE64, s: order, a: []*Term{v}})
		if b == u.Nil || st.length(b) == u.Zero {
			return one(st, e)
		}
		return one(st, u.mk(&Term{op: OAppendS, a: []*Term{b, e}}))
	}
}

func newPacket(c *Call, st *State, class, typ, tag, val, desc *Term) *Term {
	u := c.x.u
	p := newObj(c, st, "packet")
	if p.t == nil && c.sig.Results().Len() == 1 {
		if pt, ok := c.sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			p.t = pt.Elem()
		}
	}
	id := u.fieldA(p, "Identifier")
	st.mem[u.fieldA(id, "ClassType")] = class
	st.mem[u.fieldA(id, "TagType")] = typ
	st.mem[u.fieldA(id, "Tag")] = tag
	st.mem[u.fieldA(p, "Value")] = val
	st.mem[u.fieldA(p, "Description")] = desc
	return p
}

func sprintf(c *Call, st *State) []*Outcome {
	u := c.x.u
	f, ok := c.args[0].strConst()
	if !ok {
		return nil
	}
	list := st.snapshotSlice(c.args[1])
	var elems []*Term
	if list.op == OAppend && list.a[0] == u.Nil {
		elems = list.a[1:]
	} else if list != u.Nil {
		return nil
	}
	r := u.EmptyS
	i := 0
	for len(f) > 0 {
		j := strings.IndexByte(f, '%')
		if j < 0 {
			r = u.concat(c.in, c.ctx, r, u.str(f))
			break
		}
		if j > 0 {
			r = u.concat(c.in, c.ctx, r, u.str(f[:j]))
		}
		if j+1 >= len(f) {
			return nil
		}
		v := f[j+1]
		f = f[j+2:]
		if v == '%' {
			r = u.concat(c.in, c.ctx, r, u.str("%"))
			continue
		}
		if strings.IndexByte("0.", v) >= 0 && len(f) > 1 && f[0] == '2' && (f[1] == 'x' || f[1] == 'X') && i < len(elems) && elems[i].op == OIface && isInt(elems[i].t) {
			r = u.concat(c.in, c.ctx, r, u.call("sprintf %02x", types.Typ[types.String], elems[i].a[0]))
			f = f[2:]
			i++
			continue
		}
		if v != 's' && v != 'v' || i >= len(elems) {
			return nil
		}
		e := elems[i]
		i++
		if e.op != OIface || !isStringType(e.t) && !isBytes(e.t) {
			return nil
		}
		r = u.concat(c.in, c.ctx, r, st.snapshot(e.a[0], 4))
	}
	return one(st, r)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func errorsAs(c *Call, st *State) []*Outcome {
	u := c.x.u
	err, dst := c.args[0], c.args[1]
	if dst.op == OIface {
		dst = dst.a[0]
	}
	et := pointee(c, dst)
	if et == nil {
		return nil
	}
	if err.op == ONil || st.isNil(err) {
		return one(st, u.False)
	}
	if err.op == OIface {
		if types.Identical(err.t, et) {
			st.store(dst, err.a[0], et)
			return one(st, u.True)
		}
		return one(st, u.False)
	}
	if err.op == OCall && err.s == "errors.New" {
		return one(st, u.False)
	}
	atom := u.mk(&Term{op: OIsT, t: et, a: []*Term{err}})
	no := st.clone()
	var outs []*Outcome
	if st.assume(atom, true) && st.assume(u.eq(err, u.Nil), false) {
		v := u.mk(&Term{op: OTA, t: et, a: []*Term{err}})
		if types.IsInterface(et) {
			v = err
		}
		st.assume(u.eq(v, u.Nil), false)
		st.store(dst, v, et)
		outs = append(outs, &Outcome{st: st, ret: u.True})
	}
	if no.assume(atom, false) {
		outs = append(outs, &Outcome{st: no, ret: u.False})
	}
	return outs
}

// limitVer keeps the chain of writes of one transaction finite.
func (x *Exec) limitVer(c *Call, v *Term) *Term {
	n := 0
	for t := v; t.op == OCall && (t.s == "bolt.put" || t.s == "bolt.del"); t = t.a[0] {
		n++
	}
	if n > 12 {
		return x.u.nonce(c.ctx, c.in, "ver")
	}
	return v
}
