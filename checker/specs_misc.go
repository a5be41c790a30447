package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C29"] = checkC29
	props["C35"] = checkC35
	props["C36"] = checkC36
}

const maxEmbedded = 1 << 20

// templateModels describes reading files.
func templateModels(base *Term, sink func(c *Call, st *State, path *Term)) Model {
	return func(c *Call, st *State) []*Outcome {
		u := c.x.u
		str := types.Typ[types.String]
		switch c.name {
		case "path/filepath.Abs":
			return stepFails(c, st, u.call(c.name, str, c.args[0]))
		case "path/filepath.Rel", "path/filepath.EvalSymlinks":
			return stepFails(c, st, u.call(c.name, str, c.args...))
		case "path/filepath.Clean", "path/filepath.Dir", "path/filepath.IsAbs":
			return one(st, u.call(c.name, c.sig.Results().At(0).Type(), c.args[0]))
		case "path/filepath.Join":
			return one(st, u.call(c.name, str, st.snapshot(c.args[0], 3)))
		case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile":
			sink(c, st, c.args[0])
			f := u.call("open", nil, c.args[0])
			if strings.HasSuffix(c.name, "ReadFile") {
				f = u.call("content", c.sig.Results().At(0).Type(), f)
				st.mon["size"] = u.tuple(u.length(f), u.Nil)
			} else if f.t == nil {
				f.t = c.sig.Results().At(0).Type()
			}
			outs := stepFails(c, st, f)
			st.mon["opened"] = c.args[0]
			return outs
		case "io.LimitReader":
			return one(st, u.call("limited", nil, unwrap(c.args[0]), c.args[1]))
		case "encoding/base64.NewEncoder":
			st.mon["unflushed"] = u.True
			return one(st, u.call("encoder", nil, unwrap(c.args[1])))
		case "io.Copy", "io.CopyN", "io.ReadAll", "io/ioutil.ReadAll":
			src := c.args[0]
			n := u.nonce(c.ctx, c.in, "n")
			v := n
			if strings.Contains(c.name, "Copy") {
				src = c.args[1]
			} else {
				v = u.call("content", c.sig.Results().At(0).Type(), unwrap(src))
				n = u.length(v)
			}
			limit := u.Nil
			if s := unwrap(src); s.op == OCall && s.s == "limited" {
				limit = s.a[1]
			}
			st.mon["size"] = u.tuple(n, limit)
			return stepFails(c, st, v)
		case "(*os.File).Close":
			return one(st, u.Nil)
		}
		return nil
	}
}

func checkC29(r *Run) {
	r.rule("inside", "a template function opens a file only where its cleaned absolute name was found to begin with the non-empty directory of the LDIF data and a separator", 1)
	r.rule("limited", "a template function returns what it read only where the whole file was found to be not larger than one mebibyte", 1)
	r.rule("complete", "a template function returns the content of a file only after all of it was encoded", 1)
	r.rule("directory", "the directory of the LDIF data is the configured folder, or the folder of the configured file", 2)
	r.assumption("Symbolic links below the LDIF directory belong to the administrator.")
	s := &Spec{id: r.id, noPanic: true}
	var base *Term
	s.outside = templateModels(nil, func(c *Call, st *State, path *Term) {
		x, u := c.x, c.x.u
		x.obligation("inside", c.in)
		ok := false
		for a, v := range st.facts {
			if a.op != OCall || !strings.HasSuffix(a.s, ".HasPrefix") || len(a.a) != 2 {
				continue
			}
			if v && a.a[0] == path && x.belowBase(a.a[1], base) {
				ok = true
			}
			if rel := a.a[0]; !v && rel.op == OCall && strings.HasSuffix(rel.s, "filepath.Rel") && rel.a[0] == base && rel.a[1] == path && a.a[1] == u.str("..") {
				ok = true
			}
		}
		if !ok {
			x.report("inside", c.in, "prefix", "a template opens a file that was not found to be below the LDIF directory", st)
		}
		if !st.refuted(u.eq(base, u.EmptyS)) {
			x.report("inside", c.in, "no directory", "a template opens a file although there may be no LDIF directory", st)
		}
		if path.op != OCall || !hasSuffixAny(path.s, "filepath.Abs", "filepath.Clean", "filepath.Join", "filepath.EvalSymlinks") {
			x.report("inside", c.in, "not cleaned", "a template opens a file by a name that was not cleaned", st)
		}
	})
	s.iface = func(c *Call, st *State) []*Outcome {
		if len(c.args) > 0 && unwrap(c.args[0]).op == OCall && unwrap(c.args[0]).s == "encoder" && strings.HasSuffix(c.name, ".Close") {
			delete(st.mon, "unflushed")
			return stepFails(c, st)
		}
		return nil
	}
	r.analyse("template functions", s, func(x *Exec) {
		u := x.u
		f := x.mustFn(ldifPkg, "TemplateFuncs")
		st := newState(u)
		args := x.symArgs(f, "m", "options")
		st.assume(u.eq(args[1], u.Nil), false)
		base = x.fieldInit(args[1], x.templateDir())
		seen := map[*ssa.Function]bool{}
		for _, o := range x.runFn(f, args, st) {
			if o.kind != KRet {
				continue
			}
			var fns []*Term
			for a, v := range o.st.mem {
				if a.op == OMapE && a.a[0] == o.ret {
					if v = unwrap(v); v.fn != nil {
						fns = append(fns, v)
					}
				}
			}
			sort.Slice(fns, func(i, j int) bool { return fns[i].id < fns[j].id })
			for _, fv := range fns {
				if seen[fv.fn] {
					continue
				}
				seen[fv.fn] = true
				at := fv.fn.Blocks[0].Instrs[0]
				c := &Call{x: x, in: at, ctx: u.ctx(nil, nil, fv.fn), caller: fv.fn}
				for _, q := range x.callValue(c, fv, x.symArgs(fv.fn), o.st.clone()) {
					if q.kind != KRet || q.st.mon["opened"] == nil || q.ret == nil {
						continue
					}
					if q.ret.op == OTuple && q.st.refuted(u.eq(q.ret.a[len(q.ret.a)-1], u.Nil)) {
						if v := q.ret.a[0]; v != u.EmptyS && v.op != OConst {
							x.report("limited", at, "content with error", "file content is returned together with an error", q.st)
						}
						continue
					}
					x.oblig["limited"]++
					x.oblig["complete"]++
					if q.st.mon["unflushed"] != nil {
						x.report("complete", at, "not closed", "the encoder is not closed, so the end of the file is missing", q.st)
					}
					if msg := sizeChecked(q.st); msg != "" {
						x.report("limited", at, "size", msg, q.st)
					}
				}
			}
		}
	})
	r.templateFolder("directory")
}

// belowBase: the prefix is the directory followed by a separator.
func (x *Exec) belowBase(p, base *Term) bool {
	if p.op != OConcat && p.op != OBin {
		return false
	}
	if len(p.a) != 2 {
		return false
	}
	sep, ok := p.a[1].strConst()
	if !ok || sep != "/" {
		return false
	}
	d := p.a[0]
	if d.op == OCall && hasSuffixAny(d.s, "strings.TrimRight", "strings.TrimSuffix") {
		if cut, ok := d.a[1].strConst(); !ok || cut != "/" {
			return false
		}
		d = d.a[0]
	}
	if d.op == OCall && strings.HasSuffix(d.s, "filepath.Clean") {
		d = d.a[0]
	}
	return d == base
}

// sizeChecked: the path found that all was read and that it is not too large.
func sizeChecked(st *State) string {
	sz := st.mon["size"]
	if sz == nil {
		return "file content is returned without looking at its size"
	}
	n, lim := sz.a[0], sz.a[1]
	bound := int64(-1)
	for a, v := range st.facts {
		if a.op != OLt {
			continue
		}
		k := int64(-1)
		if c, ok := a.a[0].intConst(); ok && a.a[1] == n && !v {
			k = c
		} else if c, ok := a.a[1].intConst(); ok && a.a[0] == n && v {
			k = c - 1
		}
		if k >= 0 && (bound < 0 || k < bound) {
			bound = k
		}
	}
	if bound < 0 {
		return "file content is returned without a check of its size"
	}
	if bound > maxEmbedded {
		return "more than one mebibyte of a file may be returned"
	}
	if lim.op != ONil {
		if l, ok := lim.intConst(); !ok || l <= bound {
			return "a file that is too large is cut off without an error"
		}
	}
	return ""
}

// templateDir is the option that holds the directory for templates.
func (x *Exec) templateDir() string {
	return plainField(x.typeByName(ldifPkg, "Options"), "string")
}

// templateFolder looks at where the directory for templates comes from.
func (r *Run) templateFolder(rule string) {
	b := backends[1]
	s := &Spec{id: r.id, noPanic: true}
	s.policy = policy(ldifSearchPolicy, map[string]string{ldifPkg + ".TemplateFuncs": "opaque", ldifPkg + ".newIndexMapRegister": "opaque"})
	s.models = map[string]Model{fname(r.p.treeBuilder()): treeModel}
	s.outside = func(c *Call, st *State) []*Outcome {
		switch c.name {
		case "path/filepath.Abs", "path/filepath.Dir":
			return templateModels(nil, nil)(c, st)
		}
		return loadModels(c, st)
	}
	s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, addr, val *Term) {
		if addr.op != OFieldA || addr.s != x.templateDir() {
			return
		}
		u := x.u
		x.obligation(rule, in)
		isFn := func(t *Term) bool {
			return t.op == OCall && hasSuffixAny(t.s, "filepath.Abs") && t.a[0] == u.sym("fn")
		}
		if val.op == OCall && hasSuffixAny(val.s, "filepath.Dir") && isFn(val.a[0]) {
			return
		}
		dir := false
		for a, v := range st.facts {
			if v && strings.Contains(a.String(), "IsDir") {
				dir = true
			}
		}
		if !(isFn(val) && dir) {
			x.report(rule, in, "folder", "templates may read below "+clip(val.String())+", which is not the folder of the LDIF data", st)
		}
	}
	r.analyse("LDIF folder", s, func(x *Exec) {
		fn := x.mustFn(b.pkg, b.ctor)
		st := newState(x.u)
		args := x.symArgs(fn, "", "fn", "options")
		st.assume(x.u.eq(args[2], x.u.Nil), false)
		x.runFn(fn, args, st)
	})
}

func checkC35(r *Run) {
	r.rule("refused", "every add, delete, modify, rename and password change ends with a code other than success in the LDIF backend and in the layer of bind entries", 10)
	r.rule("no-file-writes", "the LDIF backend calls nothing that changes files", 1)
	r.rule("read-only-open", "the export command opens the database read-only", 1)
	r.rule("no-writes", "the export command starts no write transaction and changes no bucket", 1)
	for _, b := range backends {
		if b.pkg != ldifPkg {
			continue
		}
		b := b
		for _, op := range []string{"Add", "Delete", "Modify", "ModifyDN", "ModifyPasswordExop"} {
			op := op
			s := &Spec{policy: authPolicy, iface: nextBackend, noPanic: true}
			r.backendRun(b, op, s, func(x *Exec, m *ssa.Function, o *Outcome) {
				x.oblig["refused"]++
				code := x.u.ext(o.ret, 0)
				if code.op == OExt && code.a[0].op == OCall && strings.HasSuffix(code.a[0].s, "."+op) && isNext(code.a[0].a[0]) {
					return // the next layer answers
				}
				if mayBe(o.st, code, 0) {
					x.report("refused", m.Blocks[0].Instrs[0], b.name+" "+op, "the "+b.name+" backend may answer "+op+" with success", o.st)
				}
			})
		}
	}
	changes := []string{"os.Create", "os.WriteFile", "os.Rename", "os.Remove", "os.Truncate", "os.Mkdir", "os.Chmod", "os.Chown", "os.Symlink", "os.Link", "io/ioutil.WriteFile", "io/ioutil.TempFile", "(*os.File).Write", "(*os.File).Truncate", "(*os.File).ReadFrom"}
	r.p.eachInstr(func(_ *ssa.Function, in ssa.Instruction) {
		c := callOf(in)
		if c == nil {
			return
		}
		n := calleeName(c)
		r.ok("no-file-writes")
		if hasAnyPrefix(n, changes) {
			r.failAt("no-file-writes", in, n, "the LDIF backend changes files with "+n)
		}
		if n == "os.OpenFile" {
			if v, ok := constInt(c.Args[1]); !ok || v&3 != 0 {
				r.failAt("no-file-writes", in, n, "the LDIF backend opens a file for writing")
			}
		}
	}, ldifPkg)
	opened := false
	mk := func() *Spec {
		s := r.cmdSpec()
		s.policy = policy(storePolicy, s.policy)
		outside := s.outside
		s.outside = func(c *Call, st *State) []*Outcome {
			if c.name == boltP+"Open" {
				db := c.x.symT("db", c.sig.Results().At(0).Type())
				st.assume(c.x.u.eq(db, c.x.u.Nil), false)
				return stepFails(c, st, db)
			}
			return outside(c, st)
		}
		s.pre = func(c *Call, st *State) {
			x, u := c.x, c.x.u
			writes := false
			switch {
			case c.name == boltP+"Open":
				opened = true
				x.obligation("read-only-open", c.in)
				if c.args[2].op == ONil || st.load(u.fieldA(c.args[2], "ReadOnly"), types.Typ[types.Bool]) != u.True {
					x.report("read-only-open", c.in, "options", "the export command opens the database for writing", st)
				}
			case strings.HasPrefix(c.name, "(*"+boltP):
				x.obligation("no-writes", c.in)
				switch c.name[strings.LastIndex(c.name, ".")+1:] {
				case "Update", "Batch", "Put", "Delete", "CreateBucket", "CreateBucketIfNotExists", "DeleteBucket", "NextSequence", "SetSequence", "Compact":
					writes = true
				case "Begin":
					writes = c.args[1] != u.False
				}
			}
			if writes {
				x.report("no-writes", c.in, c.name, "the export command changes the database", st)
			}
		}
		return s
	}
	r.eachCommand(func(f *ssa.Function) bool { return strings.HasPrefix(pkgPath(f), modPath+"/cmd/idmd/boltdb") }, mk, func(x *Exec, cm *command) {
		if cm.name == "export" {
			cm.run(x, func(string, ssa.Instruction, *Outcome) {})
		}
	})
	if !opened {
		r.fail("decidable", "", "", "export", "the export command does not open the database")
	}
}

// randomModels describes the random source: every call is a new draw.
func randomModels(c *Call, st *State) []*Outcome {
	u := c.x.u
	switch c.name {
	case "crypto/rand.Int":
		v := u.call("drawn", nil, c.args[0], c.args[1], u.nonce(c.ctx, c.in, "draw"))
		if v.t == nil {
			v.t = c.sig.Results().At(0).Type()
		}
		return stepFails(c, st, v)
	case "math/big.NewInt":
		v := u.call("big", nil, c.args[0])
		if v.t == nil {
			v.t = c.sig.Results().At(0).Type()
		}
		st.assume(u.eq(v, u.Nil), false)
		return one(st, v)
	case "(*math/big.Int).Int64", "(*math/big.Int).Uint64":
		return one(st, u.call("number", c.sig.Results().At(0).Type(), c.args[0]))
	case "github.com/longsleep/rndm.GenerateRandomBytes":
		return one(st, u.call("random", c.sig.Results().At(0).Type(), c.args[0], u.nonce(c.ctx, c.in, "random")))
	case "crypto/rand.Read", "github.com/longsleep/rndm.ReadRandomBytes":
		n := st.length(c.args[0])
		st.setContent(c.args[0], u.call("random", nil, n, u.nonce(c.ctx, c.in, "random")))
		return stepFails(c, st)
	case "io.ReadFull":
		if isRandReader(c.args[0]) {
			n := st.length(c.args[1])
			st.setContent(c.args[1], u.call("random", nil, n, u.nonce(c.ctx, c.in, "random")))
			return stepFails(c, st)
		}
	}
	return nil
}

func isRandReader(t *Term) bool {
	t = unwrap(t)
	return t.op == OInit && t.a[0].op == OGlobal && t.a[0].s == "crypto/rand.Reader"
}

func checkC36(r *Run) {
	r.rule("characters", "every character of a generated password is picked from one fixed set of at least 62 different characters by a draw of its own from the cryptographic source over exactly that set, and there are as many as asked for", 2)
	r.rule("random-errors", "an error of the random source makes the generation fail", 1)
	r.rule("length", "the server asks for the configured number of characters, at least 12 by default", 1)
	r.rule("cookies", "a paging cookie under which a search is registered has at least 8 bytes from the cryptographic source", 1)
	r.rule("no-weak-source", "no package of the repository uses the non-cryptographic random source", 10)
	r.assumption("The generator library used by the password command draws from the cryptographic source, unless it is given another reader.")
	f := r.p.fn(pwPkg, "GenerateRandomPassword")
	if f == nil {
		r.fail("decidable", "", "", "GenerateRandomPassword", "the password generator was not found")
		return
	}
	for _, n := range []int64{1, 3} {
		n := n
		s := &Spec{id: r.id, noPanic: true, unroll: 6, unrollIn: []string{pwPkg}, outside: randomModels}
		r.analyse("generated password", s, func(x *Exec) {
			u := x.u
			at := f.Blocks[0].Instrs[0]
			for _, o := range x.runFn(f, []*Term{u.num(n)}, newState(u)) {
				if o.kind != KRet {
					continue
				}
				e := u.ext(o.ret, 1)
				if o.st.mon["failed"] != nil {
					x.oblig["random-errors"]++
					if !o.st.refuted(u.eq(e, u.Nil)) {
						x.report("random-errors", at, "error", "a password is returned although the random source failed", o.st)
					}
					continue
				}
				if o.st.refuted(u.eq(e, u.Nil)) {
					continue
				}
				x.oblig["characters"]++
				if msg := x.picked(o.st, u.ext(o.ret, 0), int(n)); msg != "" {
					x.report("characters", at, "password", msg, o.st)
				}
			}
		})
	}
	// callers and the configured length
	fl := r.p.newFlow()
	r.p.eachInstr(func(_ *ssa.Function, in ssa.Instruction) {
		if c := callOf(in); c != nil && calleeName(c) == fname(f) {
			r.ok("length")
			if !configuredLength(fl, c.Args[0], 0) {
				r.failAt("length", in, "length", "a password is not generated with the configured length")
			}
		}
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		typ, field := fieldOf(st.Addr)
		if field == "GeneratedPasswordLength" {
			r.ok("length")
			if v, ok := constInt(st.Val); ok && v < 12 {
				r.failAt("length", in, "default", "generated passwords are shorter than 12 characters")
			}
		}
		if field == "Reader" && strings.Contains(typ, "go-password/password.") {
			r.failAt("no-weak-source", in, "reader", "the generator library is given another random source")
		}
	})
	for path, pkg := range r.p.byPkg {
		if path != modPath && !strings.HasPrefix(path, modPath+"/") {
			continue
		}
		r.ok("no-weak-source")
		for _, imp := range pkg.Pkg.Imports() {
			if strings.HasPrefix(imp.Path(), "math/rand") {
				r.fail("no-weak-source", path, "", imp.Path(), "the package "+path+" uses "+imp.Path())
			}
		}
	}
	s := &Spec{id: r.id, noPanic: true}
	s.policy = policy(ldifSearchPolicy, map[string]string{lsPkg + ".ServerFilterAttributes": "opaque", ldifPkg + ".newIndexMapRegister": "opaque", ldifPkg + ".TemplateFuncs": "opaque", ldifPkg + ".parseFilterToIndexFilter": "pure"})
	s.outside = randomModels
	s.pre = func(c *Call, st *State) {
		if !pagingTable(c.name) || !hasSuffixAny(c.name, ".Set", ".Store", ".SetIfAbsent", ".LoadOrStore") {
			return
		}
		x := c.x
		x.obligation("cookies", c.in)
		key := st.snapshot(c.args[1], 4)
		ok := key.any(func(t *Term) bool {
			if t.op != OCall || t.s != "random" {
				return false
			}
			n, isC := t.a[0].intConst()
			return isC && n >= 8
		})
		if !ok || key.any(func(t *Term) bool { return t.op == OSliceOf }) {
			x.report("cookies", c.in, "cookie", "a search is registered under a cookie without 8 bytes from the cryptographic source", st)
		}
	}
	r.backendRun(backends[1], "Search", s, func(x *Exec, m *ssa.Function, o *Outcome) {})
}

// picked: the text consists of n characters, each picked by a draw of its own.
func (x *Exec) picked(st *State, t *Term, n int) string {
	draws := map[*Term]bool{}
	count := 0
	msg := ""
	st.snapshot(t, 6).any(func(t *Term) bool {
		if t.op != OIndex {
			return false
		}
		set, ok := t.a[0].strConst()
		if !ok {
			return false
		}
		count++
		seen := map[byte]bool{}
		for i := 0; i < len(set); i++ {
			seen[set[i]] = true
		}
		if len(seen) != len(set) || len(set) < 62 {
			msg = "the characters of a generated password come from a small or repeating set"
			return true
		}
		d := t.a[1]
		for d.op == OConv || d.op == OCall && d.s == "number" {
			d = d.a[0]
		}
		if d.op != OCall || d.s != "drawn" {
			msg = "a character of a generated password is not picked by a random draw"
			return true
		}
		if !isRandReader(d.a[0]) {
			msg = "a character of a generated password is not drawn from the cryptographic source"
		}
		if m := d.a[1]; m.op != OCall || m.s != "big" || m.a[0] != x.u.num(int64(len(set))) {
			msg = "a character of a generated password is not drawn over the whole set"
		}
		draws[d] = true
		return false
	})
	if msg == "" && (count < n || len(draws) < n) {
		msg = "not every character of a generated password has a draw of its own"
	}
	return msg
}

// configuredLength: the value is the configured length, or a long enough constant.
func configuredLength(fl *Flow, v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	if n, ok := constInt(v); ok {
		return n >= 12
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		_, field := fieldOf(v.X)
		return field == "GeneratedPasswordLength"
	case *ssa.Convert:
		return configuredLength(fl, v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !configuredLength(fl, e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := v.Parent()
		i := -1
		for k, q := range fn.Params {
			if q == v {
				i = k
			}
		}
		cs := fl.callers[fn]
		for _, c := range cs {
			if i >= len(c.Common().Args) || !configuredLength(fl, c.Common().Args[i], depth+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}
