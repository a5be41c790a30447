package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C11"] = checkC11
	props["C12"] = checkC12
	props["C13"] = checkC13
	props["C14"] = checkC14
	props["C15"] = checkC15
	props["C16"] = checkC16
}

const applyModify = entryPkg + ".ApplyModify"

var writeOps = []string{"Add", "Delete", "Modify", "ModifyDN", "ModifyPasswordExop"}

// storePolicy keeps the functions that belong to other properties abstract.
var storePolicy = map[string]string{
	dnPkg + ".Normalize": "pure",
	applyModify:          "pure",
	pwPkg + ".Validate":  "pure",
	pwPkg + ".Hash":      "pure",
	"(*github.com/go-ldap/ldap/v3.Entry).GetEqualFoldAttributeValue": "pure",
}

// boltRun analyses one operation of the database backend on a freshly built handler.
func (r *Run) boltRun(op string, s *Spec, each func(x *Exec, o *Outcome, report func(rule, construct, msg string))) {
	s.id = r.id
	if s.policy == nil {
		s.policy = storePolicy
	}
	live := false
	pre, post, store := s.pre, s.post, s.store
	s.pre = func(c *Call, st *State) {
		if live && pre != nil {
			pre(c, st)
		}
	}
	s.post = func(c *Call, o *Outcome) {
		if live && post != nil {
			post(c, o)
		}
	}
	if store != nil {
		s.store = nil
	}
	r.analyse(op, s, func(x *Exec) {
		ws := x.build(boltdbPkg, "NewBoltDBHandler", newState(x.u), "", "", "options")
		live = true
		s.store = store
		for _, w := range ws {
			for k := range w.st.mon {
				if strings.HasPrefix(k, "bolt.") || strings.HasPrefix(k, "list|") {
					delete(w.st.mon, k)
				}
			}
			m, _ := x.methodOfValue(w.recv, op)
			if m == nil {
				x.undecided("method %s not found", op)
			}
			names := []string{"boundDN", "req", "conn"}
			if op == "Bind" {
				names = []string{"bindDN", "bindPw", "conn"}
			}
			for _, o := range x.callMethod(w, op, names...) {
				if o.kind != KRet {
					continue
				}
				if each != nil {
					each(x, o, func(rule, construct, msg string) {
						x.report(rule, m.Blocks[0].Instrs[0], op+": "+construct, msg, o.st)
					})
				}
			}
		}
	})
}

// wr is one write of a transaction.
type wr struct {
	del         bool
	bucket      string
	key, val    *Term
	bucketKnown bool
}

// writeLog lists the writes of a transaction in order.
func (x *Exec) writeLog(ver *Term) []wr {
	var out []wr
	for ver != nil && ver.op == OCall && (ver.s == "bolt.put" || ver.s == "bolt.del") {
		w := wr{del: ver.s == "bolt.del", key: ver.a[2]}
		w.bucket = bucketName(ver.a[1])
		if !w.del {
			w.val = ver.a[3]
		}
		out = append(out, w)
		ver = ver.a[0]
	}
	if ver != nil && !(ver.op == ONonce && ver.n.kind == "ver") {
		x.undecided("write sequence %s not understood", clip(ver.String()))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func bucketName(b *Term) string {
	if b.op == OCall && b.s == "bolt.Bucket" && len(b.a) > 0 {
		if s, ok := b.a[0].strConst(); ok {
			return s
		}
	}
	return "?" + b.String()
}

// baseVer is the state of the database at the start of the transaction.
func baseVer(v *Term) *Term {
	for v != nil && v.op == OCall && (v.s == "bolt.put" || v.s == "bolt.del") {
		v = v.a[0]
	}
	return v
}

func resultCode(x *Exec, o *Outcome) *Term { return x.u.ext(o.ret, 0) }

func mayBe(st *State, t *Term, n int64) bool { return !st.refuted(st.u.eq(t, st.u.num(n))) }

// succeeds: the operation may have returned success. A code taken from an LDAP
// error value is not success (see scanErrorCodes).
func succeeds(x *Exec, o *Outcome) bool {
	c := resultCode(x, o)
	t := c
	for t.op == OConv {
		t = t.a[0]
	}
	if t.op == OInit && t.a[0].op == OFieldA && t.a[0].s == "ResultCode" && t.a[0].a[0].op == OTA {
		return false
	}
	return mayBe(o.st, c, 0)
}

func callFailed(o *Outcome) bool {
	if o.kind != KRet || o.ret == nil {
		return false
	}
	e := o.ret
	if e.op == OTuple {
		e = e.a[len(e.a)-1]
	}
	return o.st.notNil(e)
}

func checkC11(r *Run) {
	r.rule("write-transaction", "every database write of an operation happens inside a write transaction, and all writes of one operation in the same one", 5)
	r.rule("failed-step", "an operation whose transaction had a failing step (storage, encoding or change application) is rolled back and returns an error code", 20)
	r.rule("error-code", "every LDAP error value created by the storage code carries a non-success code", 1)
	scanErrorCodes(r, "error-code")
	for _, op := range writeOps {
		s := &Spec{}
		s.pre = func(c *Call, st *State) {
			if !isBucketWrite(c.name) {
				return
			}
			u := c.x.u
			c.x.obligation("write-transaction", c.in)
			if st.mon["bolt.mode"] != u.str("w") {
				c.x.report("write-transaction", c.in, short(c.name), "database write outside a write transaction", st)
			}
			b := baseVer(c.x.boltVer(c, st))
			if p := st.mon["firsttx"]; p != nil && p != b {
				c.x.report("write-transaction", c.in, short(c.name), "the operation writes in more than one transaction", st)
			}
			st.mon["firsttx"] = b
		}
		s.post = func(c *Call, o *Outcome) {
			if o.st.mon["bolt.mode"] != c.x.u.str("w") || !callFailed(o) {
				return
			}
			if isBucketWrite(c.name) || strings.HasPrefix(c.name, "(*encoding/gob.") {
				o.st.mon["stepfail"] = c.x.u.True
			}
		}
		r.boltRun(op, s, func(x *Exec, o *Outcome, report func(rule, construct, msg string)) {
			u := x.u
			x.oblig["failed-step"]++
			commit := o.st.mon["bolt.result"] == u.str("commit")
			if o.st.mon["bolt.result"] == u.str("open") {
				report("write-transaction", "end", "transaction left open")
			}
			bad := o.st.mon["stepfail"] != nil
			if log := o.st.mon["bolt.log"]; log != nil {
				for _, w := range x.writeLog(log) {
					if w.val == nil {
						continue
					}
					w.val.any(func(t *Term) bool {
						if t.op == OExt && t.s == "0" && t.a[0].op == OCall && t.a[0].s == applyModify && !o.st.isNil(u.ext(t.a[0], 1)) {
							bad = true
						}
						return false
					})
				}
			}
			if !bad {
				return
			}
			if commit {
				report("failed-step", "commit", "a step inside the transaction failed but the transaction is committed")
			}
			if succeeds(x, o) {
				report("failed-step", "result", "a step inside the transaction failed but the operation may return success")
			}
		})
	}
}

func checkC12(r *Run) {
	r.rule("committed", "an operation returns success only after its write transaction returned no error and contained a write", 5)
	r.rule("sync", "no code of the repository relaxes syncing of the database (NoSync, NoGrowSync)", 1)
	for _, op := range writeOps {
		r.boltRun(op, &Spec{}, func(x *Exec, o *Outcome, report func(rule, construct, msg string)) {
			u := x.u
			if !succeeds(x, o) {
				return
			}
			x.oblig["committed"]++
			if o.st.mon["bolt.result"] != u.str("commit") {
				report("committed", "result", "success may be returned although no write transaction was committed")
				return
			}
			if len(x.writeLog(o.st.mon["bolt.log"])) == 0 {
				report("committed", "empty", "success may be returned although the transaction wrote nothing")
			}
		})
	}
	scanSync(r)
}

// ---- C13, C14, C15 ------------------------------------------------------

// childLists splits the value of a child index record into lists of up to three elements.
func childLists(x *Exec, st *State, g *Term) []*Term {
	if bucketName(g.a[0]) != "id2children" {
		return nil
	}
	u := x.u
	out := []*Term{u.Nil, u.EmptyS}
	var segs []*Term
	for i := int64(0); i < 3; i++ {
		e := u.call("child", types.Typ[types.Uint64], g, u.num(i))
		segs = append(segs, u.mk(&Term{op: OLE64, s: "le", a: []*Term{e}}))
		out = append(out, u.fromSegments(append([]*Term(nil), segs...)))
	}
	return out
}

// listOf returns the assumed content of the child record of an id at the start of the transaction.
func (x *Exec) listOf(st *State, id *Term) (*Term, bool) {
	for _, g := range x.u.gets {
		if bucketName(g.a[0]) != "id2children" || baseVer(g.a[2]) != st.mon["bolt.base"] {
			continue
		}
		if v, ok := st.mon["list|"+strconv.Itoa(g.id)]; ok && st.same(g.a[1], x.le(id)) {
			return v, true
		}
	}
	return nil, false
}

func (x *Exec) le(id *Term) *Term {
	return x.u.mk(&Term{op: OLE64, s: "le", a: []*Term{id}})
}

func (x *Exec) bucket(name string) *Term {
	return x.u.call("bolt.Bucket", nil, x.u.str(name))
}

// startGet is the value of a record at the start of the transaction.
func (x *Exec) startGet(st *State, bucket string, key *Term) *Term {
	base := st.mon["bolt.base"]
	if base == nil {
		base = x.u.Nil
	}
	for _, g := range x.u.gets {
		if bucketName(g.a[0]) == bucket && g.a[2] == base && st.same(g.a[1], key) {
			return g
		}
	}
	return x.u.mk(&Term{op: OCall, s: "bolt.Get", a: []*Term{x.bucket(bucket), key, base}, t: types.NewSlice(types.Typ[types.Byte])})
}

// idOf is the entry id stored for a name at the start of the transaction.
func (x *Exec) idOf(st *State, name *Term) *Term {
	return x.u.u64("le", x.startGet(st, "dn2id", name))
}

// absent: the name has no record at the start of the transaction.
func (x *Exec) absent(st *State, name *Term) bool {
	u := x.u
	g := x.startGet(st, "dn2id", name)
	return st.isNil(g) || st.holds(u.eq(u.u64("le", g), u.Zero)) || st.holds(u.eq(u.length(g), u.Zero))
}

// present: the name has a record at the start of the transaction. A record holds an id,
// which is not zero.
func (x *Exec) present(st *State, name *Term) bool {
	u := x.u
	g := x.startGet(st, "dn2id", name)
	return st.notNil(g) && !x.absent(st, name) || st.refuted(u.eq(u.u64("le", g), u.Zero)) || st.refuted(u.eq(u.length(g), u.Zero))
}

// names used by the operations
func (x *Exec) reqDN() *Term { return x.fieldInit(x.u.sym("req"), "DN") }
func (x *Exec) parsed(dn *Term) *Term {
	return x.u.ext(x.u.call(ldapP+"ParseDN", nil, dn), 0)
}

func storeSpec() *Spec {
	return &Spec{policy: storePolicy, unroll: 8, unrollIn: []string{ldbPkg, boltdbPkg}, lists: childLists}
}

// netWrites drops writes that a later write to the same record replaces.
func netWrites(st *State, log []wr) []wr {
	var out []wr
	for i, w := range log {
		gone := false
		for _, v := range log[i+1:] {
			if v.bucket == w.bucket && st.same(v.key, w.key) {
				gone = true
			}
		}
		if !gone {
			out = append(out, w)
		}
	}
	return out
}

func pick(ws []wr, bucket string, del bool) []wr {
	var out []wr
	for _, w := range ws {
		if w.bucket == bucket && w.del == del {
			out = append(out, w)
		}
	}
	return out
}

// parentOf recognises the normalised parent name of the parsed name p.
func (x *Exec) isParentOf(st *State, name, p *Term) bool {
	if name.op != OCall || name.s != dnPkg+".Normalize" {
		return false
	}
	a := name.a[0]
	if a.op != OStruct || len(a.a) == 0 {
		return false
	}
	l := a.a[0]
	if l.op != OSliceOf || l.a[2] != x.u.Nil {
		return false
	}
	if n, ok := l.a[1].intConst(); !ok || n != 1 {
		return false
	}
	return l.a[0] == x.fieldInit(p, "RDNs")
}

// parsedOf returns the parsed name behind a normalised name.
func parsedOf(name *Term) *Term {
	if name.op == OCall && name.s == dnPkg+".Normalize" && name.a[0].op == OInit {
		return name.a[0].a[0]
	}
	return nil
}

// sameList compares the written child list with the expected one; unknown forms are
// accepted if they are computed from all of need.
func (x *Exec) sameList(st *State, val *Term, want []*Term, need ...*Term) bool {
	if val == nil {
		return false
	}
	got, ok := x.u.segments(val)
	if !ok {
		for _, n := range need {
			if !val.contains(n) {
				return false
			}
		}
		return true
	}
	if len(got) != len(want) {
		return false
	}
	used := make([]bool, len(want))
	for _, g := range got {
		hit := false
		for i, w := range want {
			if !used[i] && st.same(g, w) {
				used[i] = true
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

func checkC13(r *Run) {
	r.rule("index-agreement", "the writes of every successful operation keep name index, child index and entry table in agreement", 5)
	r.assumption("Child lists are analysed element by element for up to three elements; longer lists behave the same way because the loops treat all elements alike.")
	for _, op := range writeOps {
		op := op
		r.boltRun(op, storeSpec(), func(x *Exec, o *Outcome, report func(rule, construct, msg string)) {
			if !succeeds(x, o) || o.st.mon["bolt.log"] == nil {
				return
			}
			x.oblig["index-agreement"]++
			if msg := x.indexRule(op, o.st); msg != "" {
				i := strings.Index(msg, ": ")
				report("index-agreement", msg[:i], msg[i+2:])
			}
		})
	}
}

// indexRule checks the writes of one successful operation; the result names what is wrong.
func (x *Exec) indexRule(op string, st *State) string {
	u := x.u
	log := x.writeLog(st.mon["bolt.log"])
	net := netWrites(st, log)
	for _, w := range net {
		if strings.HasPrefix(w.bucket, "?") {
			return "bucket: a write goes to a bucket whose name is not known"
		}
	}
	eput, edel := pick(net, "id2entry", false), pick(net, "id2entry", true)
	nput, ndel := pick(net, "dn2id", false), pick(net, "dn2id", true)
	cput, cdel := pick(net, "id2children", false), pick(net, "id2children", true)
	base := x.normDN(x.fieldInit(u.sym("options"), "BaseDN"))
	switch op {
	case "Add":
		if len(eput) != 1 || len(edel) != 0 {
			return "entry: an add must write exactly one entry record"
		}
		k := eput[0].key
		if k.op != OLE64 || k.s != "le" || k.a[0].op != OCall || k.a[0].s != "bolt.seq" || bucketName(k.a[0].a[0]) != "id2entry" {
			return "entry: the new entry record does not use a fresh id of the entry table"
		}
		if len(nput) != 1 || len(ndel) != 0 || !st.same(nput[0].val, k) {
			return "name: an add must write exactly one name record with the new id"
		}
		name := nput[0].key
		p := parsedOf(name)
		if p == nil {
			return "name: the name record is not keyed by the normalised name of the entry"
		}
		if p.op == OExt && p.a[0].op == OCall && p.a[0].s == ldapP+"ParseDN" && !eput[0].val.contains(p.a[0].a[0]) {
			return "entry: the stored entry does not carry the name it is indexed under"
		}
		if len(cdel) != 0 {
			return "children: an add removes a child record"
		}
		if st.same(name, base) {
			if len(cput) != 0 {
				return "children: the base entry is listed as a child"
			}
			return ""
		}
		if len(cput) != 1 {
			return "children: an add must list the new entry under its parent exactly once"
		}
		pn := x.nameOfID(cput[0].key)
		if pn == nil || !x.isParentOf(st, pn, p) {
			return "children: the updated child record is not the one of the entry's parent"
		}
		old, ok := x.listOf(st, x.idOf(st, pn))
		if !ok {
			return "children: the child record is replaced without regard to its old content"
		}
		segs, _ := u.segments(old)
		if !x.sameList(st, cput[0].val, append(append([]*Term{}, segs...), k), append(segs, k.a[0])...) {
			return "children: the new child record is not the old one plus the new id"
		}
	case "Delete":
		if len(nput) != 0 || len(ndel) != 1 {
			return "name: a delete must remove exactly one name record"
		}
		name := ndel[0].key
		if !st.same(name, x.normDN(x.reqDN())) {
			return "name: a delete removes the name record of a different entry"
		}
		id := x.idOf(st, name)
		if len(eput) != 0 || len(edel) != 1 || !st.same(edel[0].key, x.le(id)) {
			return "entry: a delete must remove exactly the entry record of the named entry"
		}
		for _, c := range cdel {
			if !st.same(c.key, x.le(id)) {
				return "children: a delete removes the child record of a different entry"
			}
		}
		p := parsedOf(name)
		if len(cput) != 1 {
			return "children: a delete must update exactly the child record of the parent"
		}
		pn := x.nameOfID(cput[0].key)
		if p == nil || pn == nil || !x.isParentOf(st, pn, p) {
			return "children: the updated child record is not the one of the entry's parent"
		}
		old, ok := x.listOf(st, x.idOf(st, pn))
		if !ok {
			return "children: the child record is replaced without regard to its old content"
		}
		segs, _ := u.segments(old)
		var want []*Term
		for _, s := range segs {
			switch e := u.eq(s.a[0], id); {
			case st.holds(e):
			case st.refuted(e):
				want = append(want, s)
			default:
				// not looked at: it must survive unless it is the removed id
				if v := cput[0].val; v == nil || !v.contains(s.a[0]) {
					return "children: a child that was not compared with the removed id is dropped"
				}
				// the kept element may be the removed one; accept only if the id was found elsewhere
				found := false
				for _, q := range segs {
					found = found || st.holds(u.eq(q.a[0], id))
				}
				if !found {
					return "children: a child that was not compared with the removed id is kept"
				}
				want = append(want, s)
			}
		}
		if !x.sameList(st, cput[0].val, want, x.idsOf(want)...) {
			return "children: the new child record is not the old one without the removed id"
		}
	case "Modify", "ModifyPasswordExop":
		dn := x.reqDN()
		if op != "Modify" {
			dn = x.fieldInit(u.sym("req"), "UserIdentity")
		}
		if len(nput)+len(ndel)+len(cput)+len(cdel)+len(edel) != 0 {
			return "index: a modification must not touch names or children"
		}
		id := x.idOf(st, x.normDN(dn))
		if len(eput) != 1 || !st.same(eput[0].key, x.le(id)) {
			return "entry: a modification must rewrite exactly the named entry"
		}
		if !x.fromEntry(st, eput[0].val, id) {
			return "entry: the rewritten entry is not derived from the stored entry of the same id"
		}
	case "ModifyDN":
		old := x.normDN(x.reqDN())
		id := x.idOf(st, old)
		if len(ndel) != 1 || !st.same(ndel[0].key, old) {
			return "name: a rename must remove exactly the old name record"
		}
		if len(nput) != 1 || !st.same(nput[0].val, x.le(id)) {
			return "name: a rename must write exactly one new name record with the same id"
		}
		name := nput[0].key
		last := log[len(log)-1]
		_ = last
		if !st.refuted(u.eq(name, old)) && !(x.absent(st, name) && x.present(st, old)) {
			return "name: the new name may be the old one, whose record is removed"
		}
		if len(eput) != 1 || len(edel) != 0 || !st.same(eput[0].key, x.le(id)) {
			return "entry: a rename must rewrite exactly the renamed entry"
		}
		if !x.fromEntry(st, eput[0].val, id) {
			return "entry: the rewritten entry is not derived from the stored entry of the same id"
		}
		if !eput[0].val.contains(name) {
			return "entry: the stored entry does not carry its new name"
		}
		if len(cput)+len(cdel) != 0 {
			return "children: a rename below the same parent must not touch child records"
		}
		if !x.isSibling(name, parsedOf(old)) {
			return "name: the new name is not a sibling of the old one"
		}
	}
	return ""
}

func (x *Exec) idsOf(segs []*Term) []*Term {
	var out []*Term
	for _, s := range segs {
		out = append(out, s.a[0])
	}
	return out
}

// nameOfID returns the name whose index record yields the id used as key.
func (x *Exec) nameOfID(key *Term) *Term {
	if key.op != OLE64 || key.s != "le" {
		return nil
	}
	id := key.a[0]
	if id.op != OU64 || id.s != "le" {
		return nil
	}
	g := id.a[0]
	if g.op != OCall || g.s != "bolt.Get" || bucketName(g.a[0]) != "dn2id" {
		return nil
	}
	return g.a[1]
}

// fromEntry: the value is computed from the stored entry with that id.
func (x *Exec) fromEntry(st *State, val, id *Term) bool {
	key := x.le(id)
	return val.any(func(t *Term) bool {
		return t.op == OCall && t.s == "bolt.Get" && bucketName(t.a[0]) == "id2entry" && st.same(t.a[1], key)
	})
}

// isSibling recognises the normalised name made of one new component and the parent of p.
func (x *Exec) isSibling(name, p *Term) bool {
	if p == nil || name.op != OCall || name.s != dnPkg+".Normalize" || name.a[0].op != OStruct {
		return false
	}
	var parts []*Term
	flatten(name.a[0].a[0], "append", &parts)
	n := 0
	tail := false
	for _, t := range parts {
		switch {
		case t == x.u.Nil:
		case t.op == OSliceOf && t.a[0] == x.fieldInit(p, "RDNs") && t.a[2] == x.u.Nil && t.a[1] == x.u.num(1):
			tail = true
		default:
			n++
			if tail {
				return false
			}
		}
	}
	return n == 1 && tail
}

func checkC14(r *Run) {
	r.rule("free-name", "a name record is written only where the name has no record in the same transaction", 2)
	r.rule("exists-result", "where the target name is taken the operation returns the already-exists code and commits nothing", 2)
	for _, op := range []string{"Add", "ModifyDN"} {
		op := op
		s := storeSpec()
		s.lists = nil
		s.pre = func(c *Call, st *State) {
			if c.name != "(*"+boltP+"Bucket).Put" || bucketName(c.args[0]) != "dn2id" {
				return
			}
			c.x.obligation("free-name", c.in)
			if !c.x.absent(st, st.snapshotSlice(c.args[1])) || st.mon["bolt.mode"] != c.x.u.str("w") {
				c.x.report("free-name", c.in, op, "a name record is written without making sure in the same transaction that the name is free", st)
			}
		}
		s.post = stepFail
		r.boltRun(op, s, func(x *Exec, o *Outcome, report func(rule, construct, msg string)) {
			if o.st.mon["bolt.base"] == nil {
				return
			}
			var name *Term
			for _, g := range x.u.gets {
				if bucketName(g.a[0]) != "dn2id" || g.a[2] != o.st.mon["bolt.base"] || !g.a[1].contains(x.u.sym("req")) {
					continue
				}
				if op == "Add" && parsedOf(g.a[1]) != nil || op == "ModifyDN" && parsedOf(g.a[1]) == nil {
					name = g.a[1]
				}
			}
			if name == nil {
				x.undecided("%s: the lookup of the target name was not found", op)
			}
			if !x.present(o.st, name) {
				return
			}
			x.oblig["exists-result"]++
			if o.st.mon["bolt.result"] == x.u.str("commit") {
				report("exists-result", "commit", "the transaction is committed although the name is taken")
			}
			if o.st.mon["stepfail"] != nil {
				return
			}
			if op == "ModifyDN" && !x.present(o.st, x.normDN(x.reqDN())) && !mayBe(o.st, resultCode(x, o), 0) && x.looked(o.st, x.normDN(x.reqDN())) {
				return
			}
			if !o.st.same(resultCode(x, o), x.u.num(68)) {
				report("exists-result", "code", "the name is taken but the result is "+clip(resultCode(x, o).String()))
			}
		})
	}
}

// looked: the name was looked up in the transaction.
func (x *Exec) looked(st *State, name *Term) bool {
	for a := range st.facts {
		if a.any(func(t *Term) bool {
			return t.op == OCall && t.s == "bolt.Get" && bucketName(t.a[0]) == "dn2id" && st.same(t.a[1], name)
		}) {
			return true
		}
	}
	return false
}

// stepFail marks paths on which a step inside a write transaction failed.
func stepFail(c *Call, o *Outcome) {
	if o.st.mon["bolt.mode"] == c.x.u.str("w") && callFailed(o) && (isBucketWrite(c.name) || strings.HasPrefix(c.name, "(*encoding/gob.")) {
		o.st.mon["stepfail"] = c.x.u.True
	}
}

func checkC15(r *Run) {
	r.rule("parent-exists", "an entry is added only if it is the base entry or its parent has a record in the same transaction", 1)
	r.rule("leaf-only", "an entry is deleted or renamed only if its child record is empty in the same transaction", 2)
	r.assumption("Everything already stored lies below the base (the induction hypothesis of the tree property).")
	for _, op := range []string{"Add", "Delete", "ModifyDN"} {
		op := op
		r.boltRun(op, storeSpec(), func(x *Exec, o *Outcome, report func(rule, construct, msg string)) {
			st, u := o.st, x.u
			if st.mon["bolt.log"] == nil || st.mon["bolt.result"] != u.str("commit") {
				return
			}
			log := x.writeLog(st.mon["bolt.log"])
			if op == "Add" {
				base := x.normDN(x.fieldInit(u.sym("options"), "BaseDN"))
				for _, w := range pick(log, "dn2id", false) {
					x.oblig["parent-exists"]++
					if st.same(w.key, base) {
						continue
					}
					ok := false
					p := parsedOf(w.key)
					for _, g := range u.gets {
						if p != nil && bucketName(g.a[0]) == "dn2id" && g.a[2] == st.mon["bolt.base"] && x.isParentOf(st, g.a[1], p) && x.present(st, g.a[1]) {
							ok = true
						}
					}
					if !ok {
						report("parent-exists", "add", "an entry other than the base is added although its parent is not known to exist")
					}
				}
				return
			}
			for _, w := range pick(log, "dn2id", true) {
				x.oblig["leaf-only"]++
				l, ok := x.listOf(st, x.idOf(st, w.key))
				if !ok {
					report("leaf-only", "unchecked", "the entry is removed or renamed without looking at its children")
					continue
				}
				if segs, _ := u.segments(l); len(segs) > 0 {
					report("leaf-only", "children", "an entry that has children is removed or renamed")
				}
			}
		})
	}
}

// comparing lists the functions that compare two texts.
var comparing = map[string]bool{
	"strings.HasSuffix": true, "strings.HasPrefix": true, "strings.EqualFold": true, "strings.Contains": true, "strings.Compare": true, "strings.Index": true, "strings.LastIndex": true,
	"strings.TrimSuffix": true, "strings.CutSuffix": true, "bytes.Equal": true, "bytes.HasSuffix": true, "bytes.HasPrefix": true, "bytes.EqualFold": true, "bytes.Compare": true, "bytes.Contains": true,
}

func backendCode(fn *ssa.Function) bool {
	for fn != nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn != nil && fn.Pkg != nil && (fn.Pkg.Pkg.Path() == ldbPkg || fn.Pkg.Pkg.Path() == boltdbPkg)
}

// nameKind tells whether a text is a normalised name or identity, or made from a name as
// it was given.
func (x *Exec) nameKind(t *Term) string {
	u := x.u
	if t == u.sym("boundDN") || t.op == OCall && t.s == dnPkg+".Normalize" {
		return "normalised"
	}
	switch t.op {
	case OSym:
		if t == u.sym("bindDN") {
			return "raw"
		}
	case OInit:
		if a := t.a[0]; a.op == OFieldA && (a.a[0] == u.sym("req") || a.a[0] == u.sym("options")) {
			switch a.s {
			case "DN", "BaseDN", "UserIdentity", "NewRDN", "AdminDN":
				return "raw"
			}
		}
		return ""
	case OCall:
		if strings.HasPrefix(t.s, ldapP) {
			return ""
		}
		fallthrough
	case OConcat, OSliceOf, OConv, OExt, OIndex:
		for _, a := range t.a {
			if x.nameKind(a) == "raw" {
				return "raw"
			}
		}
	}
	return ""
}

func (x *Exec) namesCompared(in ssa.Instruction, st *State, a, b *Term) {
	ka, kb := x.nameKind(a), x.nameKind(b)
	if ka == "" || kb == "" {
		return
	}
	x.obligation("compared", in)
	if ka == "raw" || kb == "raw" {
		x.report("compared", in, "name", "a name is compared that is not normalised: "+clip(a.String())+" with "+clip(b.String()), st)
	}
}

func checkC16(r *Run) {
	r.rule("normalised-key", "every key of the name index is the normalised form of a name from the request", 7)
	r.rule("compared", "a name is compared with another name, or searched for in one, only where both are normalised", 1)
	// keys and comparisons of one operation
	mk := func(op string) *Spec {
		s := &Spec{policy: storePolicy}
		s.instr = func(x *Exec, in ssa.Instruction, ev func(ssa.Value) *Term, st *State) {
			b, ok := in.(*ssa.BinOp)
			if ok && (b.Op == token.EQL || b.Op == token.NEQ) && isStringType(b.X.Type()) && backendCode(in.Parent()) {
				x.namesCompared(in, st, ev(b.X), ev(b.Y))
			}
		}
		s.pre = func(c *Call, st *State) {
			if len(c.args) == 2 && comparing[c.name] && backendCode(c.in.Parent()) {
				c.x.namesCompared(c.in, st, st.snapshotSlice(c.args[0]), st.snapshotSlice(c.args[1]))
			}
			switch c.name {
			case "(*" + boltP + "Bucket).Get", "(*" + boltP + "Bucket).Put", "(*" + boltP + "Bucket).Delete":
			default:
				return
			}
			if b := bucketName(c.args[0]); b != "dn2id" {
				if strings.HasPrefix(b, "?") {
					c.x.report("normalised-key", c.in, op, "the bucket name is not known", st)
				}
				return
			}
			c.x.obligation("normalised-key", c.in)
			k := st.snapshotSlice(c.args[1])
			if k.op != OCall || k.s != dnPkg+".Normalize" || !k.any(func(t *Term) bool { return t == c.x.u.sym("req") || t == c.x.u.sym("bindDN") }) {
				c.x.report("normalised-key", c.in, op, "the name index is used with "+clip(k.String()), st)
			}
		}
		return s
	}
	for _, op := range append([]string{"Bind", "Search"}, writeOps...) {
		op := op
		r.boltRun(op, mk(op), nil)
	}
	// the way of the command that loads a database
	s := mk("load")
	s.id = r.id
	r.analyse("load", s, func(x *Exec) {
		t := types.NewPointer(x.typeByName(ldbPkg, "LdbBolt"))
		configure, put := r.p.method(t, "Configure"), r.p.method(t, "EntryPut")
		if configure == nil || put == nil {
			x.undecided("Configure or EntryPut not found")
		}
		st := newState(x.u)
		db := x.symT("db", t)
		st.mon["db"] = db
		args := []*Term{db}
		n := 0
		for _, v := range configure.Params[1:] {
			name := v.Name()
			if isStringType(v.Type()) {
				if n++; n == 1 {
					name = "bindDN" // the base, as it was given
				}
			}
			args = append(args, x.symT("load "+name, v.Type()))
			if name == "bindDN" {
				args[len(args)-1] = x.symT(name, v.Type())
			}
		}
		st.assume(x.u.eq(db, x.u.Nil), false)
		for _, o := range x.runFn(configure, args, st) {
			if e := x.lastError(configure, o.ret); o.kind != KRet || o.st.refuted(x.u.eq(e, x.u.Nil)) {
				continue
			}
			req := x.symT("req", put.Params[1].Type())
			o.st.assume(x.u.eq(req, x.u.Nil), false)
			x.runFn(put, []*Term{db, req}, o.st)
		}
	})
}
