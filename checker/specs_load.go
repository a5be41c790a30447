package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C21"] = checkC21
	props["C22"] = checkC22
}

const (
	atomicStore = "(*sync/atomic.Value).Store"
	atomicLoad  = "(*sync/atomic.Value).Load"
	parseFn     = "github.com/go-ldap/ldif.Unmarshal"
)

// endsInError: the last result of the call is an error.
func endsInError(c *Call) bool {
	if c.sig == nil {
		return false
	}
	rs := c.sig.Results()
	return rs.Len() > 0 && types.TypeString(rs.At(rs.Len()-1).Type(), nil) == "error"
}

// neverFails: calls that only make an error value, or whose error is of no consequence.
func neverFails(name string) bool {
	return hasAnyPrefix(name, []string{"fmt.", "errors.", "(*bytes.Buffer).Write", "(*strings.Builder).", "(error)."}) || strings.HasSuffix(name, ".Close") || isNoEffect(name)
}

// stepFails makes the outcomes of a step that may fail; a failure is remembered.
func stepFails(c *Call, st *State, vals ...*Term) []*Outcome {
	u := c.x.u
	bad := st.clone()
	first := st.mon["failed"] == nil
	if first {
		bad.mon["failed"] = u.str(short(c.name))
	}
	var zero []*Term
	rs := c.sig.Results()
	for i := 0; i < rs.Len()-1; i++ {
		zero = append(zero, u.zero(rs.At(i).Type()))
		if i >= len(vals) {
			v := u.mk(&Term{op: OCall, s: "result " + strconv.Itoa(i) + " of " + c.name, a: append([]*Term{}, c.args...), t: rs.At(i).Type()})
			vals = append(vals, v)
		}
		switch rs.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if vals[i] != u.Nil {
				st.assume(u.eq(vals[i], u.Nil), false)
			}
		}
	}
	outs := errFork(c, st, bad, vals, zero)
	if !first {
		return outs[:1] // one failure at a time
	}
	return outs
}

// count reads and updates a small counter of a state.
func (st *State) count(key string, add int64) int64 {
	n := int64(0)
	if t := st.mon[key]; t != nil {
		n, _ = t.intConst()
	}
	if add != 0 {
		st.mon[key] = st.u.num(n + add)
	}
	return n + add
}

// loadModels describes reading, expanding and parsing of LDIF sources: every step may fail.
func loadModels(c *Call, st *State) []*Outcome {
	x, u := c.x, c.x.u
	plain := func(t *Term) *Term {
		if t.op == OIface {
			return t.a[0]
		}
		return t
	}
	reads := func(t *Term) *Term { return readerContent(c, st, t) }
	switch c.name {
	case "path/filepath.Glob":
		outs := stepFails(c, st, u.list(x.symT("path0", types.Typ[types.String]), x.symT("path1", types.Typ[types.String])))
		outs[0].st.mon["files"] = u.num(2)
		return outs
	case "os.Open", "os.OpenFile":
		f := u.call("open", nil, c.args[0])
		if f.t == nil {
			f.t = c.sig.Results().At(0).Type()
		}
		outs := stepFails(c, st, f)
		outs[0].st.mon["opened"] = c.args[0]
		return outs
	case "io.Copy":
		d := plain(c.args[0])
		outs := stepFails(c, st, u.nonce(c.ctx, c.in, "n"))
		st.mem[u.contentOf(d)] = u.concat(c.in, c.ctx, bufContent(c, st, d), reads(c.args[1]))
		return outs
	case "io.ReadAll", "(*bytes.Buffer).ReadFrom":
		if c.name == "io.ReadAll" {
			return stepFails(c, st, reads(c.args[0]))
		}
		outs := stepFails(c, st, u.nonce(c.ctx, c.in, "n"))
		st.mem[u.contentOf(c.args[0])] = u.concat(c.in, c.ctx, bufContent(c, st, c.args[0]), reads(c.args[1]))
		return outs
	case "os.ReadFile":
		return stepFails(c, st, u.call("content", nil, u.call("open", nil, c.args[0])))
	case "bufio.NewScanner":
		s := u.call("scanner", nil, reads(c.args[0]))
		return one(st, s)
	case "(*bufio.Scanner).Split", "(*bufio.Scanner).Buffer":
		return one(st, nil)
	case "(*bufio.Scanner).Scan":
		key := "lines" + strconv.Itoa(c.args[0].id)
		n := st.count(key, 0)
		var outs []*Outcome
		if n < 2 {
			more := st.clone()
			more.count(key, 1)
			outs = append(outs, &Outcome{st: more, ret: u.True})
		}
		if n > 0 {
			if st.mon["failed"] == nil {
				bad := st.clone()
				bad.mon["failed"] = u.str("bufio.Scanner")
				bad.mon["scanfailed"+strconv.Itoa(c.args[0].id)] = u.True
				bad.note(c.pos(), "reading stops with an error")
				outs = append(outs, &Outcome{st: bad, ret: u.False})
			}
			outs = append(outs, &Outcome{st: st, ret: u.False})
		}
		return outs
	case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
		return one(st, u.call("line", types.Typ[types.String], c.args[0], u.num(st.count("lines"+strconv.Itoa(c.args[0].id), 0))))
	case "(*bufio.Scanner).Err":
		if st.mon["scanfailed"+strconv.Itoa(c.args[0].id)] != nil {
			e := u.nonce(c.ctx, c.in, "scan error")
			st.assume(u.eq(e, u.Nil), false)
			return one(st, e)
		}
		return one(st, u.Nil)
	case "text/template.New":
		t := u.call("template", nil)
		st.assume(u.eq(t, u.Nil), false)
		return one(st, t)
	case "(*text/template.Template).Funcs", "(*text/template.Template).Option", "(*text/template.Template).Delims":
		return one(st, c.args[0])
	case "(*text/template.Template).Parse":
		t := u.call("template", nil, st.snapshot(c.args[1], 6))
		return stepFails(c, st, t)
	case "(*text/template.Template).Execute":
		d := plain(c.args[1])
		outs := stepFails(c, st)
		st.mem[u.contentOf(d)] = u.concat(c.in, c.ctx, bufContent(c, st, d), u.call("expanded", nil, c.args[0]))
		return outs
	case parseFn, "github.com/go-ldap/ldif.Parse":
		src := st.snapshotSlice(plain(c.args[0]))
		if c.name == parseFn {
			src = reads(c.args[0])
			st.havoc(c.args[1], u.nonce(c.ctx, c.in, "parsed"))
		}
		outs := stepFails(c, st)
		outs[0].st.mon["parsed"] = src
		return outs
	}
	if endsInError(c) && !neverFails(c.name) {
		return stepFails(c, st)
	}
	return nil
}

// treeModel stands for making the tree of entries from parsed data.
// treeBuilder is the function that makes the tree of entries from parsed data.
func (p *Program) treeBuilder() *ssa.Function {
	for _, f := range p.funcs {
		sig := f.Signature
		if pkgPath(f) != ldifPkg || f.Parent() != nil || sig.Params().Len() == 0 || sig.Results().Len() == 0 {
			continue
		}
		if sig.Recv() == nil && strings.HasSuffix(types.TypeString(sig.Params().At(0).Type(), nil), "go-ldap/ldif.LDIF") && strings.HasSuffix(types.TypeString(sig.Results().At(0).Type(), nil), "go-suffix-tree.Tree") {
			return f
		}
	}
	panic(undecided{"the function that makes the tree of entries from LDIF data was not found"})
}

func treeModel(c *Call, st *State) []*Outcome {
	u := c.x.u
	t := u.call("tree", nil, c.args[0], c.args[1])
	if t.t == nil {
		t.t = c.sig.Results().At(0).Type()
	}
	outs := stepFails(c, st, t)
	outs[0].st.mon["tree"] = t
	return outs
}

// loadSpec follows the loading of LDIF data.
func (r *Run) loadSpec() *Spec {
	s := &Spec{id: r.id, policy: policy(dnPolicy, map[string]string{ldifPkg + ".TemplateFuncs": "opaque", ldifPkg + ".newIndexMapRegister": "opaque", "sort.Slice": "pure", "sort.Strings": "pure"})}
	s.unroll, s.unrollIn = 8, []string{ldifPkg}
	s.outside = loadModels
	s.models = map[string]Model{fname(r.p.treeBuilder()): treeModel}
	s.iface = func(c *Call, st *State) []*Outcome {
		if strings.HasSuffix(c.name, ".Reload") {
			outs := stepFails(c, st)
			for _, o := range outs {
				o.st.mon["next"] = c.x.u.True
			}
			return outs
		}
		return nil
	}
	return s
}

// ldifLoads analyses the constructors and reloads of the LDIF backends.
func (r *Run) ldifLoads(mk func() *Spec, each func(x *Exec, b backend, op string, at ssa.Instruction, o *Outcome)) {
	for _, b := range backends {
		if b.pkg != ldifPkg {
			continue
		}
		b := b
		for _, op := range []string{"start", "Reload"} {
			op := op
			s := mk()
			r.analyse(b.name+" "+op, s, func(x *Exec) {
				if op == "start" {
					fn := x.mustFn(b.pkg, b.ctor)
					st := newState(x.u)
					args := x.symArgs(fn, "logger", "file", "options")
					st.assume(x.u.eq(args[2], x.u.Nil), false)
					for _, o := range x.runFn(fn, args, st) {
						if o.kind == KRet {
							each(x, b, op, fn.Blocks[0].Instrs[0], o)
						}
					}
					return
				}
				pre, post, store := s.pre, s.post, s.store
				s.pre, s.post, s.store = nil, nil, nil
				ws := x.buildBackend(b)
				s.pre, s.post, s.store = pre, post, store
				seen := map[string]bool{}
				for _, w := range ws {
					w.st.mon = map[string]*Term{}
					w.st.trace = nil
					for a := range w.st.facts {
						if a.any(func(t *Term) bool { return t.op == ONonce || t.op == OCall && (t.s == "line" || t.s == "open") }) {
							delete(w.st.facts, a) // about the first load
						}
					}
					w.st.repValid = false
					if k := w.st.key([]*Term{w.recv}); seen[k] {
						continue
					} else {
						seen[k] = true
					}
					m, _ := x.methodOfValue(w.recv, op)
					if m == nil {
						x.undecided("method %s not found", op)
					}
					for _, o := range x.callMethod(w, op, "ctx") {
						if o.kind == KRet {
							each(x, b, op, m.Blocks[0].Instrs[0], o)
						}
					}
				}
			})
		}
	}
}

// lastError is the error among the results of a function.
func (x *Exec) lastError(fn *ssa.Function, ret *Term) *Term {
	n := fn.Signature.Results().Len()
	if n == 1 {
		return ret
	}
	return x.u.ext(ret, n-1)
}

// comment: the path found the line to be a comment.
func (x *Exec) comment(st *State, line *Term) bool {
	for a, v := range st.facts {
		if !v {
			continue
		}
		switch {
		case a.op == OEq && a.contains(line) && a.contains(x.u.num('#')):
			return true
		case a.op == OEq && a.contains(line) && a.contains(x.u.str("#")):
			return true
		case a.op == OCall && (a.s == "strings.HasPrefix" || a.s == "bytes.HasPrefix") && a.a[0] == line:
			if p, ok := a.a[1].strConst(); ok && strings.HasPrefix(p, "#") {
				return true
			}
		}
	}
	return false
}

func checkC22(r *Run) {
	r.rule("load-error", "loading reports success, and publishes data, only where no step of it failed: opening, reading, expanding, parsing and making the tree of entries", 8)
	r.rule("whole-source", "the parsed text has the content of every source file; only comment lines are left out", 4)
	r.rule("duplicate", "an entry whose name is already in the tree ends the loading with an error", 4)
	r.rule("every-entry", "every entry of the parsed data is inserted under its own name with all its attributes and values", 8)
	r.assumption("Folders are analysed with two files of up to two lines, and parsed data with up to two records of up to three attributes; the loops treat all elements alike.")
	mk := func() *Spec {
		s := r.loadSpec()
		s.pre = func(c *Call, st *State) {
			if c.name == atomicStore {
				c.x.oblig["load-error"]++
				if f := st.mon["failed"]; f != nil {
					n, _ := f.strConst()
					c.x.report("load-error", c.in, "publish after "+n, "data is published although "+n+" failed", st)
				}
				c.x.wholeSource("whole-source", c.in, st)
			}
		}
		return s
	}
	r.ldifLoads(mk, func(x *Exec, b backend, op string, at ssa.Instruction, o *Outcome) {
		x.oblig["load-error"]++
		e := x.lastError(at.Parent(), o.ret)
		f := o.st.mon["failed"]
		if f == nil || o.st.refuted(x.u.eq(e, x.u.Nil)) {
			return
		}
		n, _ := f.strConst()
		x.report("load-error", at, b.name+" "+op+" after "+n, "success is reported although "+n+" failed", o.st)
	})
	r.loadedEntries("duplicate", "every-entry")
	r.p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		s, ok := in.(*ssa.Slice)
		if !ok || pkgPath(fn) != ldifPkg || s.High == nil {
			return
		}
		if t := types.TypeString(s.X.Type(), nil); t == "[]string" || strings.HasSuffix(t, "go-ldap/ldif.Entry") {
			r.failAt("whole-source", in, "slice", "a list of source files, lines or records is cut off")
		}
	})
}

// wholeSource: everything that was opened is part of the parsed text.
func (x *Exec) wholeSource(rule string, in ssa.Instruction, st *State) {
	u := x.u
	x.oblig[rule]++
	parsed := st.mon["parsed"]
	if parsed == nil {
		x.report(rule, in, "parsed", "data is published without parsing a source", st)
		return
	}
	var paths []*Term
	if st.mon["files"] != nil {
		paths = []*Term{u.sym("path0"), u.sym("path1")}
	} else if p := st.mon["opened"]; p != nil {
		paths = []*Term{p}
	}
	if len(paths) > 1 && !x.apart(parsed, paths[0], paths[1]) {
		x.report(rule, in, "separator", "the last line of a file and the first line of the next one become one line", st)
	}
	for i, p := range paths {
		src := u.call("content", nil, u.call("open", nil, p))
		sc := u.call("scanner", nil, src)
		key := "lines" + strconv.Itoa(sc.id)
		n := st.count(key, 0)
		if n == 0 {
			if !parsed.contains(src) {
				x.report(rule, in, "file "+strconv.Itoa(i), "a source file is not part of the parsed text", st)
			}
			continue
		}
		for j := int64(1); j <= n; j++ {
			l := u.call("line", types.Typ[types.String], sc, u.num(j))
			if !parsed.contains(l) && !x.comment(st, l) {
				x.report(rule, in, "line", "a line that is no comment is left out of the parsed text", st)
			}
		}
	}
}

// apart: a line ends between two files of the parsed text.
func (x *Exec) apart(parsed, a, b *Term) bool {
	u := x.u
	from, ended := false, false
	of := func(t, p *Term) bool { return t.contains(u.call("open", nil, p)) }
	var flat func(t *Term) []*Term
	flat = func(t *Term) []*Term {
		if t.op != OConcat && t.op != OAppendS && t.op != OContent && t.op != OConv {
			return []*Term{t}
		}
		var out []*Term
		for _, a := range t.a {
			out = append(out, flat(a)...)
		}
		return out
	}
	for _, s := range flat(parsed) {
		switch {
		case of(s, a) && of(s, b):
			return true // cannot be told apart here
		case of(s, b):
			if from && !ended {
				return false
			}
		case of(s, a):
			from, ended = true, false
		default:
			if c, ok := s.strConst(); ok && strings.Contains(c, "\n") {
				ended = true
			}
		}
	}
	return true
}

// loadedEntries checks how the tree of entries is made from the parsed data.
func (r *Run) loadedEntries(dup, every string) {
	r.buildTree(ldifShapes, func(x *Exec, at ssa.Instruction, recs []ldifRecord, bs []*builtEntry) {
		u := x.u
		if len(bs) > 0 {
			x.oblig[dup]++
			if bs[0].st.mon["ldif.duplicate"] != nil {
				x.report(dup, at, "duplicate", "loading succeeds although two entries have the same name", bs[0].st)
			}
		}
		for i, rec := range recs {
			x.oblig[every]++
			if i >= len(bs) {
				var st *State
				if len(bs) > 0 {
					st = bs[0].st
				}
				x.report(every, at, "entry", "an entry of the LDIF data is not inserted", st)
				continue
			}
			b := bs[i]
			dn := x.fieldInit(rec.entry, "DN")
			if b.dn == nil || lower(u, b.dn) != lower(u, dn) || lower(u, b.key) != lower(u, dn) {
				x.report(every, at, "name", "an entry of the LDIF data is inserted under another name", b.st)
				continue
			}
			if !b.known {
				x.report(every, at, "attributes", "the attributes of a loaded entry cannot be determined", b.st)
				continue
			}
			has := func(p, q *Term) bool {
				if p == q {
					return true
				}
				v := b.st.snapshot(b.st.load(p, q.t.Underlying().(*types.Pointer).Elem()), 4)
				if v.op != OStruct {
					return false
				}
				name, vals := false, false
				for _, f := range v.a {
					if f == x.fieldInit(q, "Name") {
						name = true
					}
					if f == x.fieldInit(q, "Values") {
						vals = true
					}
				}
				return name && vals
			}
			for _, q := range rec.attrs {
				n := 0
				for _, p := range b.attrs {
					if has(p, q) {
						n++
					}
				}
				if b.password != nil && b.password != u.Nil && has(b.password, q) {
					n++
				}
				if n == 0 && !b.st.holds(u.eq(lower(u, x.fieldInit(q, "Name")), u.str("userpassword"))) {
					x.report(every, at, "attribute", "an attribute of the LDIF data is missing from its entry", b.st)
				}
				if n == 0 && (b.password == nil || b.password == u.Nil) {
					x.report(every, at, "password", "the password of the LDIF data is missing from its entry", b.st)
				}
				if n > 1 {
					x.report(every, at, "twice", "an attribute of the LDIF data appears twice in its entry", b.st)
				}
			}
			for _, p := range b.attrs {
				own := false
				for _, q := range rec.attrs {
					if has(p, q) {
						own = true
					}
				}
				if !own {
					x.report(every, at, "foreign attribute", "an entry has an attribute that the LDIF data does not give it", b.st)
				}
			}
		}
	}, nil)
}

func checkC21(r *Run) {
	r.rule("complete", "the published data is a new object with the tree made by this load from the data parsed by this load, and with the index filled along with it", 4)
	r.rule("not-after", "nothing is added to the data after it was published", 4)
	r.rule("kept", "a load that reports success has published its data exactly once, and a load in which a step failed publishes nothing after that", 4)
	r.rule("one-version", "a search takes the data from the published value at most once", 1)
	r.rule("same-place", "a search reads the data from the place a reload of the same handler publishes it", 1)
	r.rule("served-handler", "reloads are made on the handler that is registered for requests", 1)
	r.rule("chain", "a reload of the middleware also reloads the next backend", 1)
	isAdd := func(name string) bool {
		return name == fname(r.p.treeBuilder()) || strings.HasPrefix(name, "(*github.com/spacewander/go-suffix-tree.Tree).") && hasSuffixAny(name, ".Insert", ".Remove") || strings.HasSuffix(name, "Index).Add")
	}
	mk := func() *Spec {
		s := r.loadSpec()
		s.pre = func(c *Call, st *State) {
			x, u := c.x, c.x.u
			switch {
			case c.name == atomicStore:
				x.oblig["complete"]++
				x.oblig["kept"]++
				if f := st.mon["failed"]; f != nil {
					n, _ := f.strConst()
					x.report("kept", c.in, "publish after "+n, "data is published although "+n+" failed", st)
				}
				st.count("published", 1)
				v := c.args[1]
				tree := st.mon["tree"]
				if tree == nil {
					x.report("complete", c.in, "tree", "data is published before the tree of entries was made", st)
					return
				}
				if v.op != OIface || v.a[0].op != OAlloc {
					x.report("complete", c.in, "value", "the published data is not a new object", st)
					return
				}
				st.mon["value"] = v.a[0]
				val := st.snapshot(v.a[0], 2)
				has := false
				if val.op == OStruct {
					for _, f := range val.a {
						if f == tree {
							has = true
						}
						if f.op == OIface && f != tree.a[1] && types.IsInterface(tree.a[1].t) {
							x.report("complete", c.in, "index", "the published index is not the one filled by this load", st)
						}
					}
				}
				if !has {
					x.report("complete", c.in, "tree", "the published data does not hold the tree made by this load", st)
				}
				idx, _ := x.ptrField(st, v.a[0], types.NewPointer(v.t.Underlying().(*types.Pointer).Elem()), "index")
				if idx != nil && idx != u.Nil && !sameObject(st, idx, tree.a[1]) {
					x.report("complete", c.in, "index", "the published index is not the one filled by this load", st)
				}
				if idx == u.Nil && tree.a[1] != u.Nil {
					x.report("complete", c.in, "index", "the index filled by this load is not published", st)
				}
			case st.count("published", 0) > 0 && isAdd(c.name):
				x.report("not-after", c.in, short(c.name), "the data is changed after it was published", st)
			}
		}
		s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, addr, val *Term) {
			if v := st.mon["value"]; v != nil && root(addr) == v {
				x.report("not-after", in, "store", "the data is changed after it was published", st)
			}
		}
		return s
	}
	r.ldifLoads(mk, func(x *Exec, b backend, op string, at ssa.Instruction, o *Outcome) {
		e := x.lastError(at.Parent(), o.ret)
		x.oblig["not-after"]++
		if b.middleware && op == "Reload" && o.st.isNil(e) {
			x.oblig["chain"]++
			if o.st.mon["next"] == nil {
				x.report("chain", at, "next", "the reload of the middleware does not reload the next backend", o.st)
			}
		}
		if o.st.isNil(e) && o.st.count("published", 0) != 1 {
			x.report("kept", at, b.name+" "+op, "success is reported, but the loaded data was not published exactly once", o.st)
		}
	})
	r.versions()
	r.served("served-handler")
}

func sameObject(st *State, a, b *Term) bool {
	p := func(t *Term) *Term {
		for t.op == OIface {
			t = t.a[0]
		}
		return t
	}
	return p(a) == p(b) || st.same(p(a), p(b))
}

// ldifSearchPolicy leaves out what decides which entries match.
var ldifSearchPolicy = policy(authPolicy, map[string]string{
	lsPkg + ".CompileFilter":     "opaque",
	lsPkg + ".ServerApplyFilter": "opaque",
	lsPkg + ".ServerFilterScope": "opaque",
})

// versions: where searches take their data from.
func (r *Run) versions() {
	for _, b := range backends {
		if b.pkg != ldifPkg {
			continue
		}
		b := b
		places := map[*Term]bool{}
		reading := false
		s := &Spec{id: r.id, policy: policy(ldifSearchPolicy, map[string]string{lsPkg + ".ServerFilterAttributes": "opaque", ldifPkg + ".newIndexMapRegister": "opaque", ldifPkg + ".TemplateFuncs": "opaque"})}
		s.follow = func(c *Call, st *State) bool { return true }
		s.models = map[string]Model{fname(r.p.treeBuilder()): treeModel}
		s.pre = func(c *Call, st *State) {
			x := c.x
			switch c.name {
			case atomicStore, "(*sync/atomic.Value).Swap", "(*sync/atomic.Value).CompareAndSwap":
				if !reading {
					places[c.args[0]] = true
				} else {
					x.report("one-version", c.in, "store", "a search replaces the published data", st)
				}
			case atomicLoad:
				if !reading {
					return
				}
				x.obligation("same-place", c.in)
				x.obligation("one-version", c.in)
				if !places[c.args[0]] {
					x.report("same-place", c.in, b.name, "the data is read from another place than a reload of the same handler publishes it to", st)
				}
				if st.count("loads", 1) > 1 {
					x.report("one-version", c.in, b.name, "a search takes the published data more than once and may work on two versions of it", st)
				}
			}
		}
		r.analyse(b.name+" data of searches", s, func(x *Exec) {
			ws := x.buildBackend(b)
			places = map[*Term]bool{}
			for _, w := range ws[:1] {
				w.st.mon = map[string]*Term{}
				x.callMethod(w, "Reload", "ctx")
				if len(places) == 0 {
					x.undecided("no place found where a reload publishes data")
				}
				reading = true
				for _, op := range []string{"Search", "Bind"} {
					names := []string{"boundDN", "req", "conn"}
					if op == "Bind" {
						names = []string{"bindDN", "bindPw", "conn"}
					}
					x.callMethod(w, op, names...)
				}
			}
		})
	}
}

// served: the handler that is reloaded is the one registered for requests.
func (r *Run) served(rule string) {
	s := &Spec{id: r.id, policy: map[string]string{}}
	var registered, reloaded []*Term
	var at ssa.Instruction
	s.follow = func(c *Call, st *State) bool { return c.fn == nil || strings.HasPrefix(pkgPath(c.fn), srvPkg) }
	s.pre = func(c *Call, st *State) {
		switch {
		case strings.HasPrefix(c.name, "(*"+lsPkg+".Server).") && strings.HasSuffix(c.name, "Func"):
			if len(c.args) > 2 {
				registered = append(registered, c.args[2])
			}
		case strings.HasSuffix(c.name, ".Reload"):
			reloaded = append(reloaded, c.args[0])
			at = c.in
		}
	}
	s.iface = func(c *Call, st *State) []*Outcome {
		if strings.HasSuffix(c.name, ".WithContext") {
			return one(st, c.x.typed(c.x.u.call(c.name, nil, c.args...), c))
		}
		return nil
	}
	s.inline = func(fn *ssa.Function) bool { return false }
	for _, n := range []string{"AddFunc", "BindFunc", "DeleteFunc", "ModifyFunc", "ModifyDNFunc", "PasswordExOpFunc", "SearchFunc", "CloseFunc", "ListenAndServe", "ListenAndServeTLS"} {
		s.policy["(*"+lsPkg+".Server)."+n] = "pure"
	}
	r.analyse("reload of the served handler", s, func(x *Exec) {
		fn := x.p.method(types.NewPointer(x.typeByName(srvPkg, "Server")), "Serve")
		st := newState(x.u)
		args := x.symArgs(fn, "server", "ctx")
		st.assume(x.u.eq(args[0], x.u.Nil), false)
		x.runFn(fn, args, st)
		ok := func(t *Term) bool {
			for _, g := range registered {
				if g == t {
					return true
				}
			}
			return false
		}
		for _, h := range reloaded {
			x.oblig[rule]++
			if !ok(h) {
				x.report(rule, at, "reload", "a reload is made on another handler than the one registered for requests", nil)
			}
		}
	})
}
