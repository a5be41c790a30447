package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C30"] = checkC30
	props["C31"] = checkC31
	props["C32"] = checkC32
	props["C33"] = checkC33
}

const (
	cobraP  = "(*github.com/spf13/cobra.Command)."
	pflagP  = "(*github.com/spf13/pflag.FlagSet)."
	cobraT  = "*github.com/spf13/cobra.Command"
	flagPre = "flag:"
)

// command is one command of the command line interface.
type command struct {
	name   string
	obj    *Term
	hooks  map[string]*Term // PreRun, Run, RunE, ...
	states []*State
	flags  map[string]*Term // default values
}

var runHooks = []string{"PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE", "Run", "RunE", "PostRun", "PostRunE"}

// flagValue is what the command line gives for a flag.
func (x *Exec) flagValue(name string, t types.Type) *Term { return x.symT(flagPre+name, t) }

// commands lists the functions that make commands.
func (p *Program) commands() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		sig := f.Signature
		if f.Parent() == nil && sig.Recv() == nil && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.TypeString(sig.Results().At(0).Type(), nil) == cobraT && inModule(f) {
			out = append(out, f)
		}
	}
	// a command before those that contain it
	sort.Slice(out, func(i, j int) bool {
		a, b := strings.Count(fname(out[i]), "/"), strings.Count(fname(out[j]), "/")
		return a > b || a == b && fname(out[i]) < fname(out[j])
	})
	return out
}

// flagModels describes the command line library: every flag gets an arbitrary value.
func flagModels(c *Call, st *State) []*Outcome {
	x, u := c.x, c.x.u
	switch {
	case strings.HasPrefix(c.name, pflagP):
		op := strings.TrimPrefix(c.name, pflagP)
		rs := c.sig.Results()
		ps := c.sig.Params()
		switch {
		case (strings.HasSuffix(op, "Var") || strings.HasSuffix(op, "VarP")) && ps.Len() > 2 && rs.Len() == 0:
			pt, ok := ps.At(0).Type().Underlying().(*types.Pointer)
			name, isC := c.args[2].strConst()
			if !ok || !isC {
				x.undecided("flag with an unknown name at %s", c.pos())
			}
			def := c.args[len(c.args)-2]
			st.mon["default:"+name] = st.snapshot(def, 3)
			st.store(c.args[1], x.flagValue(name, pt.Elem()), pt.Elem())
			return one(st, nil)
		case op == "Changed":
			return one(st, u.call("changed", types.Typ[types.Bool], c.args[1]))
		case strings.HasPrefix(op, "Get") && rs.Len() == 2:
			if name, ok := c.args[1].strConst(); ok {
				return one(st, u.tuple(x.flagValue(name, rs.At(0).Type()), u.Nil))
			}
		case rs.Len() == 1 && ps.Len() >= 3:
			if pt, ok := rs.At(0).Type().Underlying().(*types.Pointer); ok {
				name, isC := c.args[1].strConst()
				if isC {
					st.mon["default:"+name] = st.snapshot(c.args[len(c.args)-2], 3)
					p := u.alloc(c.ctx, c.in, "flag")
					st.mem[p] = x.flagValue(name, pt.Elem())
					return one(st, p)
				}
			}
		}
		return one(st, x.typed(u.nonce(c.ctx, c.in, op), c))
	case strings.HasPrefix(c.name, cobraP):
		switch strings.TrimPrefix(c.name, cobraP) {
		case "Flags", "PersistentFlags", "LocalFlags":
			return one(st, u.call(c.name, c.sig.Results().At(0).Type(), c.args[0]))
		case "AddCommand":
			return one(st, nil)
		case "MarkFlagRequired", "MarkPersistentFlagRequired":
			return one(st, u.Nil)
		case "Execute", "ExecuteContext":
			return stepFails(c, st)
		}
		return one(st, x.typed(u.nonce(c.ctx, c.in, "cobra"), c))
	case c.name == "os.Getenv":
		return one(st, u.call("getenv", types.Typ[types.String], st.snapshot(c.args[0], 3)))
	case c.name == "os.LookupEnv":
		return one(st, u.tuple(u.call("getenv", types.Typ[types.String], c.args[0]), u.call("isset", types.Typ[types.Bool], c.args[0])))
	}
	return nil
}

// stdStream recognises one of the standard streams.
func stdStream(t *Term, name string) bool {
	for t.op == OIface || t.op == OConv {
		t = t.a[0]
	}
	return t.op == OInit && t.a[0].op == OGlobal && strings.HasSuffix(t.a[0].s, "os."+name)
}

// cmdModels describes what commands use: every step may fail.
func cmdModels(c *Call, st *State) []*Outcome {
	x, u := c.x, c.x.u
	if o := flagModels(c, st); o != nil {
		return o
	}
	content := func(args []*Term) *Term {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, st.snapshot(a, 4))
		}
		return u.tuple(ts...)
	}
	written := func(v *Term, outs []*Outcome) []*Outcome {
		v.any(func(t *Term) bool {
			if t.op == OCall && (t.s == "line" || t.s == "found entries") {
				outs[0].st.mon["wrote|"+t.String()] = t
			}
			return false
		})
		return outs
	}
	switch c.name {
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		v := content(c.args)
		return written(v, stepFails(c, st, u.nonce(c.ctx, c.in, "n")))
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString":
		if stdStream(c.args[0], "Stdout") {
			v := content(c.args[1:])
			return written(v, stepFails(c, st, u.nonce(c.ctx, c.in, "n")))
		}
		if stdStream(c.args[0], "Stderr") {
			st.mon["stderr"] = u.True
			return one(st, u.tuple(u.nonce(c.ctx, c.in, "n"), u.Nil))
		}
	case "(*os.File).WriteString", "(*os.File).Write":
		if stdStream(c.args[0], "Stdout") {
			v := content(c.args[1:])
			return written(v, stepFails(c, st, u.nonce(c.ctx, c.in, "n")))
		}
		if stdStream(c.args[0], "Stderr") {
			st.mon["stderr"] = u.True
		}
	case "(*text/template.Template).Execute":
		d := c.args[1]
		if stdStream(d, "Stdout") {
			v := u.call("expanded", nil, c.args[0], snapshotMap(st, c.args[2]))
			return written(v, stepFails(c, st))
		}
	case "errors.As":
		return asKnown(c, st)
	case "errors.Is":
		return nil
	case "io/ioutil.ReadFile":
		return stepFails(c, st, u.call("content", nil, u.call("open", nil, c.args[0])))
	case "io/ioutil.ReadAll":
		return stepFails(c, st, readerContent(c, st, c.args[0]))
	case "strings.Split", "strings.SplitN":
		if c.args[0].any(func(t *Term) bool { return t.op == OCall && t.s == c.name }) {
			// parts of a field: one or two
			p := func(i int64) *Term { return u.call("part", types.Typ[types.String], c.args[0], u.num(i)) }
			s2 := st.clone()
			return []*Outcome{{st: st, kind: KRet, ret: u.list(p(0))}, {st: s2, kind: KRet, ret: u.list(p(0), p(1))}}
		}
	case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
		return stepFails(c, st, x.symT("number", c.sig.Results().At(0).Type()))
	case "os/signal.Notify", "os/signal.Stop":
		return one(st, nil)
	case "(*github.com/sirupsen/logrus.Logger).Fatal", "(*github.com/sirupsen/logrus.Logger).Fatalf":
		return []*Outcome{{st: st, kind: KExit, ret: u.sym("exit")}}
	case "(*github.com/Songmu/prompter.Prompter).Prompt":
		return one(st, x.typed(u.nonce(c.ctx, c.in, "prompt"), c))
	case "github.com/go-ldap/ldif.ToLDIF", "github.com/go-ldap/ldif.Marshal":
		v := u.call(c.name, c.sig.Results().At(0).Type(), content(c.args))
		return stepFails(c, st, v)
	case "(*github.com/go-ldap/ldif.LDIF).AllEntries":
		l, ok := c.sig.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		var es []*Term
		for i := 0; i < 2; i++ {
			e := x.symT(fmt.Sprintf("record%d", i), l.Elem())
			st.assume(u.eq(e, u.Nil), false)
			es = append(es, e)
		}
		st.mon["records"] = u.num(2)
		return one(st, u.list(es...))
	}
	if isNoEffect(c.name) && !endsInError(c) || strings.HasPrefix(c.name, "(error)") {
		return nil
	}
	return loadModels(c, st)
}

// snapshotMap includes the entries of a map.
func snapshotMap(st *State, m *Term) *Term {
	u := st.u
	if m.op == OIface {
		m = m.a[0]
	}
	out := []*Term{st.snapshot(m, 5)}
	var ks []*Term
	for a := range st.mem {
		if a.op == OMapE && a.a[0] == m {
			ks = append(ks, a)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, a := range ks {
		out = append(out, st.snapshot(st.mem[a], 5))
	}
	return u.tuple(out...)
}

// asKnown decides errors.As for types of the repository: only the repository makes such errors.
func asKnown(c *Call, st *State) []*Outcome {
	u := c.x.u
	dst := c.args[1]
	if dst.op == OIface {
		dst = dst.a[0]
	}
	et := pointee(c, dst)
	if et == nil {
		return nil
	}
	var found *Term
	st.snapshot(c.args[0], 4).any(func(t *Term) bool {
		if t.op == OIface && types.Identical(t.t, et) {
			found = t
		}
		return found != nil
	})
	c.args[0].any(func(t *Term) bool {
		if t.op == OIface && types.Identical(t.t, et) {
			found = t
		}
		return found != nil
	})
	if found == nil {
		return one(st, u.False)
	}
	st.store(dst, found.a[0], et)
	return one(st, u.True)
}

// cmdSpec follows the commands.
func (r *Run) cmdSpec() *Spec {
	s := &Spec{id: r.id, noPanic: true}
	s.policy = policy(dnPolicy, map[string]string{
		pwPkg + ".EstimatePasswordStrength": "pure",
		ldifPkg + ".TemplateFuncs":          "opaque",
	})
	s.unroll = 4
	for _, f := range r.p.commands() {
		if f.Pkg != nil {
			s.unrollIn = append(s.unrollIn, pkgPath(f))
		}
	}
	s.outside = cmdModels
	s.models = map[string]Model{
		pwPkg + ".Hash": func(c *Call, st *State) []*Outcome {
			return stepFails(c, st, c.x.u.call("hash", types.Typ[types.String], st.snapshot(c.args[0], 3), c.args[1]))
		},
	}
	// details of the fields of an input line decide nothing here
	drop := func(a *Term) bool {
		return a.any(func(t *Term) bool {
			return t.op == OCall && strings.HasPrefix(t.s, "strings.Split") || t.op == OSym && t.s == "number"
		}) &&
			!a.any(func(t *Term) bool { return t.op == OCall && strings.HasSuffix(t.s, ".EstimatePasswordStrength") })
	}
	s.ignoreStore = looseEntry
	s.keep = func(a, _ *Term) bool { return !drop(a) }
	s.keepLoop = func(a *Term, _ *State) bool { return !drop(a) }
	return s
}

// startState has the values that package variables have when the program starts.
func (x *Exec) startState() *State {
	u := x.u
	st := newState(u)
	for _, pkg := range x.p.byPkg {
		if pkg.Pkg.Path() != modPath && !strings.HasPrefix(pkg.Pkg.Path(), modPath+"/cmd") {
			continue
		}
		first := map[*ssa.Global][]*Term{}
		for _, m := range pkg.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							v := u.sym("computed")
							if k, ok := s.Val.(*ssa.Const); ok {
								v = u.constant(k)
							}
							first[g] = append(first[g], v)
						}
					}
				}
			}
		}
		for _, m := range pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			vs := first[g]
			switch t.Underlying().(type) {
			case *types.Struct, *types.Array:
				continue
			}
			switch {
			case len(vs) == 0:
				st.mem[u.mk(&Term{op: OGlobal, s: g.String(), t: t})] = u.zero(t)
			case len(vs) == 1 && (vs[0].op == OConst || vs[0].op == ONil):
				st.mem[u.mk(&Term{op: OGlobal, s: g.String(), t: t})] = vs[0]
			}
		}
	}
	return st
}

// looseEntry keeps simple values put into a map together, without their keys: only the input they come from matters.
func looseEntry(st *State, addr, val *Term) bool {
	u := st.u
	if addr.op != OMapE || val.op != OIface {
		return false
	}
	if _, ok := val.t.Underlying().(*types.Pointer); ok {
		return false
	}
	if _, ok := val.t.Underlying().(*types.Map); ok {
		return false
	}
	all := u.mk(&Term{op: OMapE, a: []*Term{addr.a[0], u.sym("any key")}})
	set := map[*Term]bool{}
	if old := st.mem[all]; old != nil {
		for _, t := range old.a {
			set[t] = true
		}
	}
	st.snapshot(val, 5).any(func(t *Term) bool {
		if t.op == OCall && t.s == "line" {
			set[t] = true
		}
		return false
	})
	var ts []*Term
	for t := range set {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	st.mem[all] = u.tuple(ts...)
	return true
}

// eachCommand makes every command, and hands it over with the states its hooks start from.
func (r *Run) eachCommand(want func(ctor *ssa.Function) bool, mk func() *Spec, body func(x *Exec, cm *command)) {
	seen := map[*ssa.Function]bool{}
	for _, ctor := range r.p.commands() {
		if want != nil && !want(ctor) {
			continue
		}
		ctor := ctor
		s := mk()
		objs := map[*Term]map[string]*Term{}
		var order []*Term
		pre, post, store := s.pre, s.post, s.store
		s.pre, s.post = nil, nil
		s.store = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, addr, val *Term) {
			if addr.op != OFieldA {
				return
			}
			o := addr.a[0]
			name := addr.s
			if name != "Use" && (val.op != OFunc && val.op != OClosure) {
				return
			}
			if fa, ok := in.(*ssa.Store); !ok || !strings.HasSuffix(types.TypeString(fa.Addr.(*ssa.FieldAddr).X.Type(), nil), "spf13/cobra.Command") {
				return
			}
			if objs[o] == nil {
				objs[o] = map[string]*Term{}
				order = append(order, o)
			}
			objs[o][name] = val
		}
		r.analyse("command "+fnLabel(ctor), s, func(x *Exec) {
			var states []*State
			keys := map[string]bool{}
			defaults := map[string]*Term{}
			for _, o := range x.runFn(ctor, nil, x.startState()) {
				if o.kind != KRet {
					continue
				}
				for k, v := range o.st.mon {
					if strings.HasPrefix(k, "default:") {
						d := defaults[k]
						if d == nil {
							d = x.u.tuple(v)
						} else if !d.contains(v) {
							d = x.u.tuple(append(append([]*Term{}, d.a...), v)...)
						}
						defaults[k] = d
					}
				}
				o.st.mon = map[string]*Term{}
				o.st.facts = map[*Term]bool{}
				o.st.trace = nil
				o.st.repValid = false
				var roots []*Term
				roots = append(roots, order...)
				for a := range o.st.mem {
					if a.op == OGlobal {
						roots = append(roots, a)
					}
				}
				sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
				if k := o.st.key(roots); !keys[k] {
					keys[k] = true
					states = append(states, o.st)
				}
			}
			s.pre, s.post, s.store = pre, post, store
			for _, o := range order {
				cm := &command{obj: o, hooks: map[string]*Term{}, states: states, flags: map[string]*Term{}}
				for k, d := range defaults {
					cm.flags[strings.TrimPrefix(k, "default:")] = d
				}
				run := false
				for _, h := range runHooks {
					if v := objs[o][h]; v != nil {
						cm.hooks[h] = v
						run = run || !seen[v.fn]
						seen[v.fn] = true
					}
				}
				if use := objs[o]["Use"]; use != nil {
					cm.name, _ = use.strConst()
					cm.name = strings.Fields(cm.name + " ?")[0]
				}
				if run {
					body(x, cm)
				}
			}
		})
	}
}

// run analyses the hooks of a command one after the other.
func (cm *command) run(x *Exec, each func(hook string, at ssa.Instruction, o *Outcome)) {
	states := cm.states
	for _, h := range runHooks {
		fv := cm.hooks[h]
		if fv == nil {
			continue
		}
		at := fv.fn.Blocks[0].Instrs[0]
		var next []*State
		for _, st := range states {
			args := x.symArgs(fv.fn, "cmd", "args")
			st := st.clone()
			st.assume(x.u.eq(args[0], x.u.Nil), false)
			c := &Call{x: x, in: at, ctx: x.u.ctx(nil, nil, fv.fn), caller: fv.fn}
			for _, o := range x.callValue(c, fv, args, st) {
				if strings.HasSuffix(h, "E") && o.kind == KRet {
					if o.st.isNil(o.ret) || o.st.assume(x.u.eq(o.ret, x.u.Nil), true) {
						next = append(next, o.st)
					} else {
						o.kind = KExit // reported by the command line library
						o.ret = x.u.num(1)
					}
				} else if o.kind == KRet {
					next = append(next, o.st)
				}
				each(h, at, o)
			}
		}
		states = next
	}
}

// leaves checks an exit of the process: after a failure the status is not zero and the error was reported.
func leaves(rule string, c *Call, st *State) {
	switch c.name {
	case "os.Exit", "syscall.Exit":
	default:
		return
	}
	x := c.x
	x.obligation(rule, c.in)
	if f := st.mon["failed"]; f != nil {
		n, _ := f.strConst()
		if v, ok := c.args[0].intConst(); !ok || v == 0 {
			x.report(rule, c.in, "exit status", "the process may end with status 0 although "+n+" failed", st)
		}
		if st.mon["stderr"] == nil {
			x.report(rule, c.in, "silent", "the process ends without reporting that "+n+" failed", st)
		}
	}
}

func checkC33(r *Run) {
	r.rule("exit-status", "a command returns normally, or ends with status 0, only where none of its steps failed: opening, reading, parsing, converting, storing, hashing and writing its output", 20)
	r.rule("every-record", "a successful load has stored every record of the input, a successful creation of users has written an entry for every input line that is neither blank nor a comment, and a successful export has written the entries found", 3)
	r.rule("store-error", "opening, initialising and searching the database and storing an entry report success only where every step in the database succeeded", 4)
	r.rule("hash-error", "hashing a password reports success only where every step of it succeeded", 2)
	r.rule("listener-error", "a listener that ends with an error makes the serve command end with an error", 2)
	r.assumption("Closing files and the database is not counted as a step: all data has been written and synchronised by then.")
	r.assumption("Input of commands is analysed with up to two lines or records.")
	step := func(name string) string { return "(*" + ldbPkg + ".LdbBolt)." + name }
	mk := func() *Spec {
		s := r.cmdSpec()
		for _, n := range []string{"Configure", "Initialize", "Search", "EntryPut"} {
			n := n
			s.models[step(n)] = func(c *Call, st *State) []*Outcome {
				if n == "EntryPut" {
					st.mon["stored|"+c.args[1].String()] = c.x.u.True
				}
				if n == "Search" {
					return stepFails(c, st, c.x.u.call("found entries", c.sig.Results().At(0).Type()))
				}
				return stepFails(c, st)
			}
		}
		r.serveModels(s, "listener-error", nil)
		s.pre = func(c *Call, st *State) { leaves("exit-status", c, st) }
		return s
	}
	r.eachCommand(nil, mk, func(x *Exec, cm *command) {
		if cm.name == "version" {
			return // does nothing but print
		}
		cm.run(x, func(hook string, at ssa.Instruction, o *Outcome) {
			x.oblig["exit-status"]++
			if o.kind != KRet {
				return
			}
			if f := o.st.mon["failed"]; f != nil {
				n, _ := f.strConst()
				x.report("exit-status", at, cm.name+" after "+n, "the command "+cm.name+" returns normally although "+n+" failed", o.st)
				return
			}
			if hook == "Run" || hook == "RunE" {
				x.complete("every-record", at, cm, o.st)
			}
		})
	})
	// the start of the program
	s := mk()
	r.analyse("main", s, func(x *Exec) {
		var mains []*ssa.Function
		for _, f := range r.p.funcs {
			if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil && f.Signature.Recv() == nil && inModule(f) {
				mains = append(mains, f)
			}
		}
		if len(mains) == 0 {
			x.undecided("no main function")
		}
		s.policy = policy(s.policy, map[string]string{})
		for _, c := range r.p.commands() {
			s.policy[fname(c)] = "opaque"
		}
		for _, m := range mains {
			for _, o := range x.runFn(m, nil, newState(x.u)) {
				x.oblig["exit-status"]++
				if f := o.st.mon["failed"]; o.kind == KRet && f != nil {
					x.report("exit-status", m.Blocks[0].Instrs[0], "main", "the program ends with status 0 although a command failed", o.st)
				}
			}
		}
	})
	r.storeErrors("store-error")
	h := r.cmdSpec()
	h.models = nil
	r.analyse("hash", h, func(x *Exec) {
		f := x.mustFn(pwPkg, "Hash")
		for _, o := range x.runFn(f, x.symArgs(f), newState(x.u)) {
			if o.kind != KRet {
				continue
			}
			x.oblig["hash-error"]++
			if e := x.lastError(f, o.ret); o.st.mon["failed"] != nil && !o.st.refuted(x.u.eq(e, x.u.Nil)) {
				what, _ := o.st.mon["failed"].strConst()
				x.report("hash-error", f.Blocks[0].Instrs[0], "hash after "+what, "the password is hashed without an error although "+what+" failed", o.st)
			}
		}
	})
}

// complete: a successful command has dealt with all of its input.
func (x *Exec) complete(rule string, at ssa.Instruction, cm *command, st *State) {
	u := x.u
	wrote := func(like func(t *Term) bool) bool {
		for k := range st.mon {
			if strings.HasPrefix(k, "wrote|") && like(st.mon[k]) {
				return true
			}
		}
		return false
	}
	if st.mon["records"] != nil {
		x.oblig[rule]++
		for i := 0; i < 2; i++ {
			if st.mon["stored|"+u.sym(fmt.Sprintf("record%d", i)).String()] == nil {
				x.report(rule, at, cm.name+" record", "the command "+cm.name+" succeeds, but a record of the input was not stored", st)
			}
		}
	}
	for k, v := range st.mon {
		if !strings.HasPrefix(k, "lines") {
			continue
		}
		n, _ := v.intConst()
		for j := int64(1); j <= n; j++ {
			x.oblig[rule]++
			isLine := func(t *Term) bool {
				return t.op == OCall && t.s == "line" && len(t.a) == 2 && t.a[1] == u.num(j)
			}
			if wrote(isLine) || x.skippedLine(st, isLine) {
				continue
			}
			x.report(rule, at, cm.name+" line", "the command "+cm.name+" succeeds, but an input line was skipped", st)
		}
	}
	if cm.name == "export" {
		x.oblig[rule]++
		if !wrote(func(t *Term) bool { return t.op == OCall && t.s == "found entries" }) {
			x.report(rule, at, cm.name+" output", "the command "+cm.name+" succeeds, but the entries found were not written", st)
		}
	}
}

// skippedLine: the path found the line to be blank or a comment.
func (x *Exec) skippedLine(st *State, isLine func(*Term) bool) bool {
	u := x.u
	for a, v := range st.facts {
		if !v || !a.any(isLine) {
			continue
		}
		switch {
		case a.op == OEq && (a.contains(u.num('#')) || a.contains(u.str("#")) || a.contains(u.EmptyS)):
			return true
		case a.op == OEq && a.contains(u.num(0)) && a.any(func(t *Term) bool { return t.op == OLen }):
			return true
		case a.op == OCall && strings.HasSuffix(a.s, ".HasPrefix"):
			if p, ok := a.a[1].strConst(); ok && strings.HasPrefix(p, "#") {
				return true
			}
		}
	}
	return false
}

// storeErrors: database operations of the commands pass on errors.
func (r *Run) storeErrors(rule string) {
	for _, n := range []string{"Configure", "Initialize", "Search", "EntryPut"} {
		n := n
		s := &Spec{id: r.id, policy: storePolicy, noPanic: true, faults: true}
		s.outside = func(c *Call, st *State) []*Outcome {
			if c.name == "github.com/go-ldap/ldap/v3.ParseDN" || c.name == boltP+"Open" {
				return stepFails(c, st)
			}
			return nil
		}
		r.analyse("store "+n, s, func(x *Exec) {
			m := r.p.method(types.NewPointer(x.typeByName(ldbPkg, "LdbBolt")), n)
			if m == nil {
				x.undecided("method %s not found", n)
			}
			st := newState(x.u)
			args := x.symArgs(m)
			st.assume(x.u.eq(args[0], x.u.Nil), false)
			for _, o := range x.runFn(m, args, st) {
				if o.kind != KRet {
					continue
				}
				x.oblig[rule]++
				f := o.st.mon["failed"]
				e := x.lastError(m, o.ret)
				if f == nil || o.st.refuted(x.u.eq(e, x.u.Nil)) {
					continue
				}
				what, _ := f.strConst()
				x.report(rule, m.Blocks[0].Instrs[0], n+" after "+what, n+" reports success although "+what+" failed", o.st)
			}
		})
	}
}

// served are the operations that the front end passes to a backend.
var served = []string{"Add", "Bind", "Delete", "Modify", "ModifyDN", "PasswordExOp", "Search", "Close"}

// serveModels follows the serve command down to its listeners and backends.
func (r *Run) serveModels(s *Spec, errRule string, sink func(kind string, c *Call, st *State)) {
	if s.models == nil {
		s.models = map[string]Model{}
	}
	for _, b := range backends {
		b := b
		s.models[b.pkg+"."+b.ctor] = func(c *Call, st *State) []*Outcome {
			if sink != nil {
				sink("backend "+b.name, c, st)
			}
			h := c.x.symT("backend "+b.name, c.sig.Results().At(0).Type())
			outs := stepFails(c, st, h)
			outs[0].st.mon["backend"] = c.x.u.str(b.name)
			return outs
		}
	}
	s.models["(*"+lsPkg+".Server).Serve"] = func(c *Call, st *State) []*Outcome {
		if sink != nil {
			sink("serve", c, st)
		}
		return stepFails(c, st)
	}
	for _, op := range served {
		op := op
		s.models["(*"+lsPkg+".Server)."+op+"Func"] = func(c *Call, st *State) []*Outcome {
			if c.args[1] == c.x.u.EmptyS {
				st.mon["serves "+op] = unwrap(c.args[2])
			}
			return one(st, nil)
		}
	}
	s.final = r.p.finalFields()
	outside := s.outside
	s.outside = func(c *Call, st *State) []*Outcome {
		u := c.x.u
		plain := func(t *Term) *Term {
			for t.op == OIface {
				t = t.a[0]
			}
			return t
		}
		switch c.name {
		case "net.Listen":
			return stepFails(c, st, u.call("listener", nil, c.args[1]))
		case "crypto/tls.Listen":
			return stepFails(c, st, u.call("tls", nil, u.call("listener", nil, c.args[1]), st.snapshot(c.args[2], 6)))
		case "crypto/tls.NewListener":
			return one(st, u.call("tls", nil, plain(c.args[0]), st.snapshot(c.args[1], 6)))
		case "crypto/tls.LoadX509KeyPair":
			return stepFails(c, st, u.call("keypair", c.sig.Results().At(0).Type(), c.args[0], c.args[1]))
		}
		return outside(c, st)
	}
	s.iface = func(c *Call, st *State) []*Outcome {
		if len(c.args) > 0 && c.args[0].any(func(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "backend ") }) {
			switch {
			case hasSuffixAny(c.name, ".WithContext"):
				return one(st, c.args[0])
			case hasSuffixAny(c.name, ".WithHandler"):
				h := c.x.symT("backend chain", c.sig.Results().At(0).Type())
				st.assume(c.x.u.eq(h, c.x.u.Nil), false)
				st.mon["chain"] = unwrap(c.args[1])
				return one(st, h)
			}
			return one(st, c.x.typed(c.x.u.nonce(c.ctx, c.in, "handler"), c))
		}
		return nil
	}
	isErr := func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && types.TypeString(ch.Elem(), nil) == "error"
	}
	s.follow = func(c *Call, st *State) bool {
		if c.fn == nil || pkgPath(c.fn) != srvPkg {
			return false
		}
		delete(st.mon, "failed")
		delete(st.mon, "reported")
		return true
	}
	s.send = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch, v *Term) {
		var t types.Type
		switch in := in.(type) {
		case *ssa.Send:
			t = in.Chan.Type()
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.SendOnly && isErr(s.Chan.Type()) {
					t = s.Chan.Type()
				}
			}
		}
		if t != nil && isErr(t) && st.refuted(x.u.eq(v, x.u.Nil)) {
			st.mon["reported"] = x.u.True
		}
	}
	s.goDone = func(c *Call, outs []*Outcome) {
		for _, o := range outs {
			f := o.st.mon["failed"]
			if o.kind != KRet || f == nil {
				continue
			}
			c.x.obligation(errRule, c.in)
			if o.st.mon["reported"] == nil {
				n, _ := f.strConst()
				c.x.report(errRule, c.in, "goroutine after "+n, "a listener ends without reporting that "+n+" failed", o.st)
			}
		}
	}
	s.recv = func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch *Term) *Term {
		var t types.Type
		switch in := in.(type) {
		case *ssa.UnOp:
			t = in.X.Type()
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.RecvOnly && ch.t != nil && types.Identical(s.Chan.Type(), ch.t) {
					t = s.Chan.Type()
				}
			}
		}
		if t == nil || !isErr(t) {
			return nil
		}
		e := x.symT("listener error", t.Underlying().(*types.Chan).Elem())
		st.assume(x.u.eq(e, x.u.Nil), false)
		st.mon["failed"] = x.u.str("a listener")
		x.obligation(errRule, in)
		return e
	}
}

// serveRun follows the serve command; want is asked at the backends and listeners it sets up.
func (r *Run) serveRun(errRule string, sink func(kind string, c *Call, st *State), each func(x *Exec, cm *command, o *Outcome), hooks ...func(s *Spec)) {
	mk := func() *Spec {
		s := r.cmdSpec()
		r.serveModels(s, errRule, sink)
		for _, h := range hooks {
			h(s)
		}
		return s
	}
	found := false
	r.eachCommand(func(f *ssa.Function) bool {
		return f.Name() == "CommandServe" || pkgPath(f) == modPath+"/cmd/idmd/serve"
	}, mk, func(x *Exec, cm *command) {
		found = true
		cm.run(x, func(hook string, at ssa.Instruction, o *Outcome) {
			if each != nil && o.kind == KRet && (hook == "Run" || hook == "RunE") {
				each(x, cm, o)
			}
		})
		if each != nil {
			each(x, cm, nil)
		}
	})
	if !found {
		r.fail("decidable", "", "", "serve command", "the serve command was not found")
	}
}

func unwrap(t *Term) *Term {
	for t.op == OIface || t.op == OConv {
		t = t.a[0]
	}
	return t
}

func (x *Exec) strFlag(name string) *Term { return x.flagValue(name, types.Typ[types.String]) }

func checkC30(r *Run) {
	r.rule("tls-only", "a connection is accepted on the LDAPS address only through a TLS listener whose certificates are exactly the key pair loaded from the configured certificate and key files", 1)
	r.rule("plain-address", "a listener without TLS is opened on the plain LDAP address only", 1)
	r.rule("no-key-no-start", "where the key pair cannot be loaded, or a listener cannot be opened, nothing is served and the serve command ends with an error", 2)
	r.assumption("crypto/tls serves only TLS on its listeners.")
	flag := func(x *Exec, name string) *Term { return x.strFlag(name) }
	sink := func(kind string, c *Call, st *State) {
		if kind != "serve" {
			return
		}
		x := c.x
		ln := unwrap(c.args[1])
		switch {
		case ln.op == OCall && ln.s == "tls":
			x.obligation("tls-only", c.in)
			if a := ln.a[0]; a.op != OCall || a.s != "listener" || !st.same(a.a[0], flag(x, "ldaps-listen")) {
				x.report("tls-only", c.in, "address", "the TLS listener is not on the address configured for LDAPS", st)
			}
			pair := func(t *Term) bool { return t.op == OCall && t.s == "keypair" }
			n := 0
			ln.a[1].any(func(t *Term) bool {
				if pair(t) {
					n++
					if !st.same(t.a[0], flag(x, "tls-cert-file")) || !st.same(t.a[1], flag(x, "tls-key-file")) {
						x.report("tls-only", c.in, "key pair", "the TLS listener uses files other than the configured certificate and key", st)
					}
				}
				return false
			})
			if n == 0 {
				x.report("tls-only", c.in, "certificate", "the TLS listener does not use the loaded key pair", st)
			}
		case ln.op == OCall && ln.s == "listener":
			x.obligation("plain-address", c.in)
			if !st.same(ln.a[0], flag(x, "ldap-listen")) {
				x.report("plain-address", c.in, "address", "clear text is served on an address other than the plain LDAP address", st)
			}
		default:
			x.report("plain-address", c.in, "listener", "an unknown listener is served: "+clip(ln.String()), st)
		}
		if st.mon["failed"] != nil {
			x.report("no-key-no-start", c.in, "serving after failure", "connections are served although a step failed before", st)
		}
	}
	// which goroutines set up TLS
	var cur ssa.Instruction
	tlsBy := map[ssa.Instruction]bool{}
	hook := func(s *Spec) {
		follow, goDone, outside := s.follow, s.goDone, s.outside
		s.pre = func(c *Call, st *State) {
			if c.isGo {
				st.mon["started "+r.p.instrPos(c.in)] = c.x.u.True
			}
		}
		s.follow = func(c *Call, st *State) bool {
			cur = c.in
			return follow(c, st)
		}
		s.goDone = func(c *Call, outs []*Outcome) {
			cur = nil
			goDone(c, outs)
		}
		s.outside = func(c *Call, st *State) []*Outcome {
			if c.name == "crypto/tls.LoadX509KeyPair" && cur != nil {
				tlsBy[cur] = true
			}
			return outside(c, st)
		}
	}
	ended := func(x *Exec, at ssa.Instruction, o *Outcome) {
		x.oblig["no-key-no-start"]++
		if f := o.st.mon["failed"]; f != nil {
			n, _ := f.strConst()
			x.report("no-key-no-start", at, "serve after "+n, "the server ends without an error although "+n+" failed", o.st)
		}
		if o.st.holds(x.u.eq(flag(x, "ldaps-listen"), x.u.EmptyS)) {
			return
		}
		for in := range tlsBy {
			if o.st.mon["started "+r.p.instrPos(in)] != nil {
				return
			}
		}
		x.report("no-key-no-start", at, "no listener", "the server runs without the configured LDAPS listener and without an error", o.st)
	}
	r.serveRun("no-key-no-start", sink, func(x *Exec, cm *command, o *Outcome) {
		if o != nil {
			ended(x, cm.hooks["Run"].fn.Blocks[0].Instrs[0], o)
		}
	}, hook)
	// a server that is set up without the command
	s := r.cmdSpec()
	r.serveModels(s, "no-key-no-start", sink)
	hook(s)
	r.analyse("server", s, func(x *Exec) {
		u := x.u
		mk := x.mustFn(srvPkg, "NewServer")
		run := r.p.method(types.NewPointer(r.p.namedType(srvPkg, "Server")), "Serve")
		if run == nil {
			x.undecided("anchor Serve not found")
			return
		}
		st := newState(u)
		args := x.symArgs(mk, "config")
		st.assume(u.eq(args[0], u.Nil), false)
		flag = func(x *Exec, name string) *Term {
			return x.fieldInit(args[0], map[string]string{"ldap-listen": "LDAPListenAddr", "ldaps-listen": "LDAPSListenAddr", "tls-cert-file": "TLSCertFile", "tls-key-file": "TLSKeyFile"}[name])
		}
		for _, o := range x.runFn(mk, args, st) {
			if o.kind != KRet || !o.st.isNil(u.ext(o.ret, 1)) {
				continue
			}
			ps := x.symArgs(run, "", "ctx")
			ps[0] = u.ext(o.ret, 0)
			for _, q := range x.runFn(run, ps, o.st) {
				if q.kind == KRet && q.st.isNil(q.ret) {
					ended(x, run.Blocks[0].Instrs[0], q)
				}
			}
		}
	})
}

func checkC31(r *Run) {
	r.rule("backend-options", "the selected backend is constructed with the file, base DN, administrator DN and local-anonymous switch from the flags of these names, and only the backend that was named", 3)
	r.rule("listener-address", "each listener is opened on the address from the flag for it, with the files from the flags for these", 2)
	r.rule("config-layer", "with the database of bind entries configured, requests pass through it", 1)
	r.rule("served-backend", "connections are accepted only after a backend was built: an unknown backend name ends with an error", 2)
	r.rule("default-values", "without a flag and its environment variable local-anonymous access is off and there is no administrator DN, and a flag takes its default from its own environment variable only", 9)
	r.rule("backend-settings", "the names and the local-anonymous switch that a backend keeps are those from its options", 0)
	r.rule("backend-file", "the database backend opens the file and base DN it was given", 1)
	sink := func(kind string, c *Call, st *State) {
		x, u := c.x, c.x.u
		b := strings.TrimPrefix(kind, "backend ")
		if b != kind {
			x.obligation("backend-options", c.in)
			want := map[string][2]string{"boltdb": {"boltdb-file", "boltdb"}, "ldif": {"ldif-main", "ldif"}, "ldif middleware": {"ldif-config", "ldif"}}[b]
			bad := func(what string) {
				x.report("backend-options", c.in, b+" "+what, "the "+b+" backend does not get the configured "+what, st)
			}
			if !st.same(c.args[1], x.strFlag(want[0])) {
				bad("file")
			}
			opt := func(n string, t types.Type) *Term { return st.load(u.fieldA(c.args[2], n), t) }
			if !st.same(opt("BaseDN", types.Typ[types.String]), x.strFlag("ldap-base-dn")) {
				bad("base DN")
			}
			if !st.same(opt("AdminDN", types.Typ[types.String]), x.strFlag("ldap-admin-dn")) {
				bad("administrator DN")
			}
			a, f := opt("AllowLocalAnonymousBind", types.Typ[types.Bool]), x.flagValue("ldap-allow-local-anonymous", types.Typ[types.Bool])
			if a != f && !(a == u.True && st.holds(f)) && !(a == u.False && st.refuted(f)) {
				bad("local-anonymous switch")
			}
			if !st.holds(u.eq(x.strFlag("ldap-handler"), u.str(want[1]))) {
				x.report("backend-options", c.in, b+" selection", "the "+b+" backend is built although another backend is configured", st)
			}
			return
		}
		ln := unwrap(c.args[1])
		x.obligation("listener-address", c.in)
		x.obligation("served-backend", c.in)
		if st.mon["backend"] == nil {
			x.report("served-backend", c.in, "no backend", "connections are accepted without a backend", st)
		}
		addr := ln
		flag := "ldap-listen"
		if ln.op == OCall && ln.s == "tls" {
			addr = ln.a[0]
			flag = "ldaps-listen"
			ln.a[1].any(func(t *Term) bool {
				if t.op == OCall && t.s == "keypair" && (!st.same(t.a[0], x.strFlag("tls-cert-file")) || !st.same(t.a[1], x.strFlag("tls-key-file"))) {
					x.report("listener-address", c.in, "key pair", "certificate and key do not come from the flags for them", st)
				}
				return false
			})
		}
		if addr.op != OCall || addr.s != "listener" || !st.same(addr.a[0], x.strFlag(flag)) {
			x.report("listener-address", c.in, flag, "a listener is not opened on the address given with --"+flag, st)
		}
		if b := st.mon["backend"]; b != nil && !st.holds(u.eq(x.strFlag("ldif-config"), u.EmptyS)) && st.holds(u.eq(x.strFlag("ldap-handler"), u.str("ldif"))) {
			x.obligation("config-layer", c.in)
			if next := st.mon["chain"]; next == nil || next.op != OSym || next.s != "backend ldif" {
				x.report("config-layer", c.in, "bind entries", "the configured bind entries are not put in front of the directory data", st)
			}
		}
		want := "backend "
		switch {
		case st.mon["chain"] != nil:
			want = "backend chain"
		case st.holds(u.eq(x.strFlag("ldap-handler"), u.str("ldif"))):
			want = "backend ldif"
		case st.holds(u.eq(x.strFlag("ldap-handler"), u.str("boltdb"))):
			want = "backend boltdb"
		}
		for _, op := range served {
			x.obligation("served-backend", c.in)
			if h := st.mon["serves "+op]; h == nil || h.op != OSym || h.s != want {
				x.report("served-backend", c.in, op, "the operation "+op+" does not reach the configured backend", st)
			}
		}
	}
	env := map[string]string{
		"ldap-admin-dn": "LDAP_ADMINDN", "ldap-base-dn": "LDAP_BASEDN", "ldap-listen": "LDAP_LISTEN", "ldaps-listen": "LDAPS_LISTEN",
		"tls-cert-file": "TLS_CERT_FILE", "tls-key-file": "TLS_KEY_FILE", "boltdb-file": "BOLTDB_FILE",
		"ldif-main": "LDIF_MAIN_PATH", "ldif-config": "LDIF_CONFIG_PATH", "ldap-allow-local-anonymous": "LDAP_ALLOW_LOCAL_ANONYMOUS",
	}
	off := map[string]string{"ldap-admin-dn": `""`, "ldap-allow-local-anonymous": "false", "ldaps-listen": `""`}
	r.serveRun("listener-address", sink, func(x *Exec, cm *command, o *Outcome) {
		if o != nil {
			return
		}
		at := cm.hooks["Run"].fn.Blocks[0].Instrs[0]
		for _, name := range sortedKeys(env) {
			d := cm.flags[name]
			if d == nil {
				x.report("default-values", at, name, "there is no flag --"+name, nil)
				continue
			}
			x.oblig["default-values"]++
			for _, v := range d.a {
				own := false
				v.any(func(t *Term) bool {
					if t.op == OCall && t.s == "getenv" {
						n := t.a[0].String()
						if strings.HasSuffix(strings.TrimSuffix(n, `"`), "_DEFAULT_"+env[name]) {
							own = true
						} else {
							x.report("default-values", at, name+" "+n, "the default of --"+name+" comes from the environment variable "+n, nil)
						}
					}
					return false
				})
				if want, ok := off[name]; ok && !own && v.String() != want {
					x.report("default-values", at, name+" default", "the default of --"+name+" is "+clip(v.String())+" instead of "+want, nil)
				}
			}
		}
	})
	for _, b := range backends {
		b := b
		s := &Spec{id: r.id, policy: authPolicy, noPanic: true}
		r.analyse(b.name+" constructor", s, func(x *Exec) {
			for _, w := range x.buildBackend(b) {
				r.ownSettings(x, b, w)
			}
		})
	}
	// the database backend passes on what it got
	s := &Spec{id: r.id, noPanic: true}
	s.policy = policy(dnPolicy, map[string]string{})
	s.models = map[string]Model{}
	for _, n := range []string{"Configure", "Initialize"} {
		n := n
		s.models["(*"+ldbPkg+".LdbBolt)."+n] = func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			if n == "Configure" {
				x.obligation("backend-file", c.in)
				from := func(t *Term, what string) bool {
					return t.any(func(t *Term) bool {
						return t == u.sym(what) || t.op == OInit && t.a[0] == u.fieldA(u.sym("options"), what)
					})
				}
				if !from(c.args[3], "fn") || from(c.args[3], "BaseDN") {
					x.report("backend-file", c.in, "file", "the database backend opens a file other than the given one", st)
				}
				if !from(c.args[2], "BaseDN") || from(c.args[2], "AdminDN") {
					x.report("backend-file", c.in, "base", "the database is opened with a base other than the given base DN", st)
				}
			}
			return stepFails(c, st)
		}
	}
	r.analyse("boltdb constructor", s, func(x *Exec) {
		fn := x.mustFn(boltdbPkg, "NewBoltDBHandler")
		st := newState(x.u)
		args := x.symArgs(fn, "", "fn", "options")
		st.assume(x.u.eq(args[2], x.u.Nil), false)
		x.runFn(fn, args, st)
	})
}

// ownSettings compares what a backend keeps with its options.
func (r *Run) ownSettings(x *Exec, b backend, w world) {
	u, st := x.u, w.st
	if w.recv.op != OIface {
		return
	}
	p := w.recv.a[0]
	pt, ok := w.recv.t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	str, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	opt := func(n string) *Term { return x.fieldInit(u.sym("options"), n) }
	at := x.mustFn(b.pkg, b.ctor).Blocks[0].Instrs[0]
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		name := strings.ToLower(f.Name())
		v := st.load(u.fieldA(p, f.Name()), f.Type())
		bad := false
		switch {
		case isRoleType(f.Type(), "bool") && strings.Contains(name, "anonymous"):
			a := opt("AllowLocalAnonymousBind")
			bad = v != a && !(v == u.True && st.holds(a)) && !(v == u.False && st.refuted(a))
		case isRoleType(f.Type(), "string") && (strings.Contains(name, "admindn") || strings.Contains(name, "basedn")):
			own, other := opt("AdminDN"), opt("BaseDN")
			if strings.Contains(name, "basedn") {
				own, other = other, own
			}
			bad = !v.contains(own) && !st.same(v, own) && v != own || v.contains(other)
			if bad && v == u.EmptyS && st.holds(u.eq(own, u.EmptyS)) {
				bad = false
			}
		default:
			continue
		}
		x.oblig["backend-settings"]++
		if bad {
			x.report("backend-settings", at, b.name+" "+f.Name(), "the "+b.name+" backend keeps "+clip(v.String())+" as "+f.Name(), st)
		}
	}
}

func checkC32(r *Run) {
	r.rule("strong-enough", "a secret is hashed only where its estimated strength was found to be not below the configured minimum", 2)
	r.rule("not-empty", "the password command hashes only a secret that was found not to be empty", 1)
	r.rule("only-hashes", "what the password command prints contains the secret only in hashed form", 1)
	r.rule("minimum-default", "the minimum strength defaults to 3", 2)
	r.rule("estimate", "the estimated strength is the score of the strength estimator for the whole secret", 1)
	r.assumption("An entry without a password is not a supplied secret.")
	// what is estimated or hashed
	secrets := map[string]bool{}
	find := func() *Spec {
		s := r.cmdSpec()
		s.pre = func(c *Call, st *State) {
			if strings.HasPrefix(c.name, pwPkg+".") && len(c.args) > 0 {
				secrets[st.snapshot(c.args[0], 3).String()] = true
			}
		}
		return s
	}
	mk := func() *Spec {
		s := r.cmdSpec()
		// it matters which secrets are empty
		empty := func(a *Term) bool {
			if a.op != OEq {
				return false
			}
			s0, c0 := a.a[0].strConst()
			s1, c1 := a.a[1].strConst()
			return (c0 && s0 == "" || c1 && s1 == "") && a.any(func(t *Term) bool { return secrets[t.String()] })
		}
		keep, keepLoop := s.keep, s.keepLoop
		s.keep = func(a, ret *Term) bool { return empty(a) || keep(a, ret) }
		s.keepLoop = func(a *Term, st *State) bool { return empty(a) || keepLoop(a, st) }
		hash := s.models[pwPkg+".Hash"]
		s.models[pwPkg+".Hash"] = func(c *Call, st *State) []*Outcome {
			x, u := c.x, c.x.u
			x.obligation("strong-enough", c.in)
			secret := st.snapshot(c.args[0], 3)
			min := x.flagValue("min-password-strength", types.Typ[types.Int])
			ok := false
			for a, v := range st.facts {
				if !v && a.op == OLt && a.a[1] == min && a.a[0].op == OCall && strings.HasSuffix(a.a[0].s, ".EstimatePasswordStrength") && st.same(a.a[0].a[0], secret) {
					ok = true
				}
			}
			if !ok {
				x.report("strong-enough", c.in, "hash", "a secret is hashed although its strength may be below the configured minimum", st)
			}
			if strings.Contains(pkgPath(c.caller), "/gen/passwd") {
				x.obligation("not-empty", c.in)
				trimmed := u.call("strings.TrimSpace", types.Typ[types.String], secret)
				if !st.refuted(u.eq(secret, u.EmptyS)) && !st.refuted(u.eq(trimmed, u.EmptyS)) && !st.refuted(u.eq(u.length(trimmed), u.Zero)) {
					x.report("not-empty", c.in, "empty", "an empty secret may be hashed", st)
				}
			}
			return hash(c, st)
		}
		s.pre = func(c *Call, st *State) {
			x := c.x
			if !strings.Contains(pkgPath(c.caller), "/gen/passwd") {
				return
			}
			switch {
			case hasAnyPrefix(c.name, []string{"fmt.Print"}), hasAnyPrefix(c.name, []string{"fmt.Fprint", "io.WriteString", "(*os.File).Write"}) && stdStream(c.args[0], "Stdout"):
			default:
				return
			}
			x.obligation("only-hashes", c.in)
			var scan func(t *Term) bool
			scan = func(t *Term) bool {
				if t.op == OCall && t.s == "hash" {
					return false
				}
				if t.op == OSym && t.s == flagPre+"secret" || t.op == OCall && t.s == "content" || t.op == ONonce && (t.n.kind == "prompt" || strings.Contains(t.n.kind, "password.Generate")) {
					return true
				}
				for _, a := range t.a {
					if scan(a) {
						return true
					}
				}
				return false
			}
			for _, a := range c.args {
				if scan(st.snapshot(a, 4)) {
					x.report("only-hashes", c.in, "secret", "the secret is printed without being hashed", st)
				}
			}
		}
		return s
	}
	want := func(f *ssa.Function) bool { return strings.HasPrefix(pkgPath(f), modPath+"/cmd/idmd/gen") }
	r.eachCommand(want, find, func(x *Exec, cm *command) {
		cm.run(x, func(string, ssa.Instruction, *Outcome) {})
	})
	r.eachCommand(want, mk, func(x *Exec, cm *command) {
		if len(cm.hooks) == 0 {
			return
		}
		cm.run(x, func(string, ssa.Instruction, *Outcome) {})
		if d := cm.flags["min-password-strength"]; d != nil {
			x.oblig["minimum-default"]++
			for _, v := range d.a {
				if v != x.u.num(3) {
					x.report("minimum-default", firstHook(cm).Blocks[0].Instrs[0], cm.name, "the minimum strength of the command "+cm.name+" defaults to "+clip(v.String()), nil)
				}
			}
		}
	})
	s := &Spec{id: r.id, noPanic: true}
	s.outside = func(c *Call, st *State) []*Outcome {
		if strings.HasSuffix(c.name, "zxcvbn.PasswordStrength") {
			return one(st, c.x.u.call("estimate", c.sig.Results().At(0).Type(), c.args[0]))
		}
		return nil
	}
	r.analyse("estimate", s, func(x *Exec) {
		f := x.mustFn(pwPkg, "EstimatePasswordStrength")
		args := x.symArgs(f)
		for _, o := range x.runFn(f, args, newState(x.u)) {
			if o.kind != KRet {
				continue
			}
			x.oblig["estimate"]++
			e := o.ret
			if e.op != OField || e.s != "Score" || e.a[0].op != OCall || e.a[0].s != "estimate" || e.a[0].a[0] != args[0] {
				x.report("estimate", f.Blocks[0].Instrs[0], "score", "the estimated strength is "+clip(e.String())+", not the score of the whole secret", o.st)
			}
		}
	})
}

func firstHook(cm *command) *ssa.Function {
	for _, h := range runHooks {
		if f := cm.hooks[h]; f != nil {
			return f.fn
		}
	}
	return nil
}
