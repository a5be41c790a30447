package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Kind int

const (
	KRet Kind = iota
	KPanic
	KExit
)

// Outcome is one way a function can end.
type Outcome struct {
	st   *State
	kind Kind
	ret  *Term
}

// Call is one resolved call event.
type Call struct {
	x       *Exec
	in      ssa.Instruction
	ctx     *Ctx
	caller  *ssa.Function
	name    string
	fn      *ssa.Function
	fv      *Term // function value (closures)
	args    []*Term
	sig     *types.Signature
	iface   bool
	isGo    bool
	isDefer bool
	roots   []*Term
	common  *ssa.CallCommon
}

// arg returns the i-th argument, not counting a receiver.
func (c *Call) recv() *Term {
	if len(c.args) > 0 {
		return c.args[0]
	}
	return nil
}

func (c *Call) pos() string { return c.x.p.instrPos(c.in) }

type Model func(c *Call, st *State) []*Outcome

// Spec describes what one property monitors and how calls are treated.
type Spec struct {
	id          string
	policy      map[string]string // "pure", "opaque", "inline"
	models      map[string]Model
	pre         func(c *Call, st *State)
	post        func(c *Call, o *Outcome)
	store       func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, addr, val *Term)
	recv        func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch *Term) *Term
	send        func(x *Exec, in ssa.Instruction, fn *ssa.Function, st *State, ch, v *Term)
	enter       func(x *Exec, fn *ssa.Function, args []*Term, st *State)
	instr       func(x *Exec, in ssa.Instruction, ev func(ssa.Value) *Term, st *State)
	keep        func(atom, ret *Term) bool       // facts to keep across function returns (nil: all)
	remember    func(atom *Term) bool            // facts that survive even where nothing else mentions their values
	keepLoop    func(atom *Term, st *State) bool // facts to keep from one iteration to the next (nil: all)
	inline      func(fn *ssa.Function) bool
	iter        func(x *Exec, in ssa.Instruction, st *State, m *Term, more bool) // a step of a map iteration
	follow      func(c *Call, st *State) bool                                    // analyse a started goroutine (and prepare its state)
	recur       Model                                                            // calls of a function that is being analysed already
	goDone      func(c *Call, outs []*Outcome)
	iface       Model // interface calls with an unknown receiver
	outside     Model // calls of functions outside the repository
	ignoreStore func(st *State, addr, val *Term) bool
	loopEdge    func(f *frame, c *config, l *loop, exit bool) // end of an iteration (before ageing) or exit of a loop
	unroll      int                                           // loops are followed element by element up to this many iterations
	oneElement  bool                                          // a range over a locally built map of one element is followed exactly
	unrollIn    []string                                      // packages to which this applies (besides the generic slice helpers)
	lists       func(x *Exec, st *State, get *Term) []*Term   // the shapes a database value is split into
	final       map[string]bool                               // fields that keep their value when a goroutine is started
	faults      bool                                          // remember the first failing database step in the state
	noPanic     bool                                          // do not explore panics of opaque calls
	event       func(in ssa.Instruction) bool                 // constructs the property is about; functions that reach none may be summarised
}

type Violation struct {
	Rule      string   `json:"rule"`
	Pos       string   `json:"pos"`
	Func      string   `json:"function"`
	Construct string   `json:"construct"`
	Msg       string   `json:"message"`
	Trace     []string `json:"path"`
}

func (v *Violation) key() string { return v.Rule + "|" + v.Func + "|" + v.Construct }

var processStart = time.Now()

type undecided struct{ msg string }

// Exec runs the analysis of one property.
type Exec struct {
	p        *Program
	u        *Universe
	spec     *Spec
	stack    [][]*Term
	fns      []*ssa.Function
	steps    int
	maxSteps int
	rec      int // >0: a recovering defer is in scope
	viols    map[string]*Violation
	order    []string
	oblig    map[string]int
	sites    map[ssa.Instruction]bool
	visitedF map[*ssa.Function]bool
	paths    int
	counters map[*Term]bool
	obligAt  map[string]bool
	debug    bool
	prof     map[*ssa.Function]int
	reaches  map[*ssa.Function]bool // reaches an event of the property
	coarse   map[*ssa.Function]bool // summarised as unknown
	started  map[string]bool        // goroutines already analysed in the same state
}

func newExec(p *Program, s *Spec) *Exec {
	x := &Exec{p: p, u: newUniverse(), spec: s, maxSteps: 6000000, viols: map[string]*Violation{}, oblig: map[string]int{}, sites: map[ssa.Instruction]bool{}, visitedF: map[*ssa.Function]bool{}, counters: map[*Term]bool{}, obligAt: map[string]bool{}, coarse: map[*ssa.Function]bool{}, started: map[string]bool{}, prof: map[*ssa.Function]int{}}
	x.u.constGlobal = func(name string) *Term {
		if v := p.constGlobals[name]; v != nil {
			return x.u.constant(v)
		}
		return nil
	}
	return x
}

func (x *Exec) undecided(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

// obligation counts one decided instance of a rule at a construct.
func (x *Exec) obligation(rule string, in ssa.Instruction) {
	k := rule
	if in != nil {
		k += "|" + x.p.instrPos(in) + "|" + in.Parent().String()
	}
	if !x.obligAt[k] {
		x.obligAt[k] = true
		x.oblig[rule]++
	}
}

func fnLabel(fn *ssa.Function) string {
	if fn == nil {
		return "-"
	}
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

func (x *Exec) report(rule string, in ssa.Instruction, construct, msg string, st *State) {
	v := &Violation{Rule: rule, Construct: construct, Msg: msg}
	if in != nil {
		v.Pos = x.p.instrPos(in)
		v.Func = fnLabel(in.Parent())
	}
	if _, ok := x.viols[v.key()]; ok {
		return
	}
	if st != nil {
		for t := st.trace; t != nil && len(v.Trace) < 60; t = t.prev {
			v.Trace = append(v.Trace, t.pos+": "+t.what)
		}
		for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
			v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
		}
	}
	x.viols[v.key()] = v
	x.order = append(x.order, v.key())
}

// ---- defers -------------------------------------------------------------

type deferRec struct {
	prev *deferRec
	call *Call
	rec  bool
}

func hasRecover(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (d *deferRec) anyRec() bool {
	for ; d != nil; d = d.prev {
		if d.rec {
			return true
		}
	}
	return false
}

func (d *deferRec) terms() []*Term {
	var ts []*Term
	for ; d != nil; d = d.prev {
		ts = append(ts, d.call.args...)
		if d.call.fv != nil {
			ts = append(ts, d.call.fv)
		}
	}
	return ts
}

// ---- function execution -------------------------------------------------

type config struct {
	b   *ssa.BasicBlock
	i   int
	st  *State
	env map[ssa.Value]*Term
	def *deferRec
}

type frame struct {
	x       *Exec
	ctx     *Ctx
	fn      *ssa.Function
	work    []*config
	visited map[string]bool
	outs    []*Outcome
	outKeys map[string]bool
	li      *loopInfo
	lv      *liveInfo
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+2)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (x *Exec) execFunc(ctx *Ctx, fn *ssa.Function, args, binds []*Term, st *State) []*Outcome {
	if ctx.depth > 80 {
		x.undecided("inlining too deep at %s", fn)
	}
	x.visitedF[fn] = true
	if x.prof != nil {
		x.prof[fn]++
	}
	x.fns = append(x.fns, fn)
	defer func() { x.fns = x.fns[:len(x.fns)-1] }()
	if x.spec.enter != nil {
		x.spec.enter(x, fn, args, st)
	}
	f := &frame{x: x, ctx: ctx, fn: fn, visited: map[string]bool{}, outKeys: map[string]bool{}, li: x.p.loopsOf(fn), lv: x.p.liveOf(fn)}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			x.undecided("missing argument %d of %s", i, fn)
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			env[v] = binds[i]
		} else {
			x.undecided("missing binding %d of %s", i, fn)
		}
	}
	f.push(&config{b: fn.Blocks[0], st: st, env: env})
	small := x.summarisable(fn)
	start := x.steps
	for len(f.work) > 0 {
		if small && (len(f.outs) > coarseOuts || x.steps-start > coarseSteps) {
			panic(tooBig{fn})
		}
		c := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		f.run(c)
	}
	return f.outs
}

func (f *frame) push(c *config) { f.work = append(f.work, c) }

func (f *frame) emit(o *Outcome) {
	roots := []*Term{}
	if o.ret != nil {
		roots = append(roots, o.ret)
	}
	if f.x.spec.unroll > 0 {
		pre := strconv.Itoa(f.ctx.id) + "."
		for k := range o.st.mon {
			if (k[0] == '#' || k[0] == '!') && strings.HasPrefix(k[1:], pre) {
				delete(o.st.mon, k)
			}
		}
	}
	f.x.gc(o.st, roots)
	if k := f.x.spec.keep; k != nil {
		for a := range o.st.facts {
			if !k(a, o.ret) {
				delete(o.st.facts, a)
				o.st.repValid = false
			}
		}
	}
	k := fmt.Sprintf("%d|", o.kind) + o.st.key(roots)
	if f.outKeys[k] {
		return
	}
	f.outKeys[k] = true
	f.outs = append(f.outs, o)
	f.x.paths++
	if len(f.outs) > 6000 {
		f.x.undecided("too many distinct results of %s", f.fn)
	}
}

func (f *frame) eval(c *config, v ssa.Value) *Term {
	u := f.x.u
	switch v := v.(type) {
	case *ssa.Const:
		return u.constant(v)
	case *ssa.Global:
		return u.mk(&Term{op: OGlobal, s: v.String(), t: v.Type().Underlying().(*types.Pointer).Elem()})
	case *ssa.Function:
		return u.mk(&Term{op: OFunc, s: v.String(), fn: v})
	case *ssa.Builtin:
		return u.mk(&Term{op: OFunc, s: "builtin." + v.Name()})
	}
	if t, ok := c.env[v]; ok {
		return t
	}
	f.x.undecided("value %s of %s not available", v.Name(), f.fn)
	return nil
}

// run executes one basic block.
func (f *frame) run(c *config) {
	x := f.x
	for ; c.i < len(c.b.Instrs); c.i++ {
		x.steps++
		if x.steps&1023 == 0 && time.Since(processStart) > 600*time.Second {
			x.undecided("time budget exceeded in %s", f.fn)
		}
		if x.steps > x.maxSteps {
			x.undecided("step budget exceeded in %s", f.fn)
		}
		in := c.b.Instrs[c.i]
		if x.spec.instr != nil {
			x.spec.instr(x, in, func(v ssa.Value) *Term { return f.eval(c, v) }, c.st)
		}
		if !f.step(c, in) {
			return
		}
	}
}

// fork continues after the current instruction with another state.
func (f *frame) fork(c *config, st *State, v ssa.Value, t *Term) {
	env := cloneEnv(c.env)
	if v != nil {
		env[v] = t
	}
	f.push(&config{b: c.b, i: c.i + 1, st: st, env: env, def: c.def})
}

func (f *frame) mayPanic(c *config) {
	if f.x.spec.noPanic {
		return
	}
	if f.x.rec > 0 || c.def.anyRec() {
		st := c.st.clone()
		f.panicExit(c, st, f.x.u.sym("panic"))
	}
}

func (f *frame) step(c *config, in ssa.Instruction) bool {
	x, u, st := f.x, f.x.u, c.st
	ev := func(v ssa.Value) *Term { return f.eval(c, v) }
	set := func(v ssa.Value, t *Term) { c.env[v] = t }
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		a := u.allocT(f.ctx, in, "", t)
		for k := range st.mem {
			if k.hasN && root(k) == a {
				delete(st.mem, k)
			}
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			st.mem[u.lenKey(a)] = u.num(at.Len())
		}
		set(in, a)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			set(in, st.load(ev(in.X), in.Type()))
		case token.NOT:
			set(in, u.not(ev(in.X)))
		case token.ARROW:
			v := f.recv(c, in, ev(in.X), in)
			if in.CommaOk {
				v = u.tuple(v, f.recvOk(in, v, "recvok"))
			}
			set(in, v)
		case token.SUB:
			if n, ok := ev(in.X).intConst(); ok {
				set(in, u.num(-n))
			} else {
				set(in, u.mk(&Term{op: OBin, s: "neg", a: []*Term{ev(in.X)}, t: in.Type()}))
			}
		default:
			set(in, u.mk(&Term{op: OBin, s: in.Op.String(), a: []*Term{ev(in.X)}, t: in.Type()}))
		}
	case *ssa.BinOp:
		set(in, f.binop(c, in, ev(in.X), ev(in.Y)))
	case *ssa.ChangeType:
		set(in, ev(in.X))
	case *ssa.ChangeInterface:
		set(in, ev(in.X))
	case *ssa.Convert:
		set(in, f.convert(ev(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, ev(in.X))
	case *ssa.SliceToArrayPointer:
		set(in, ev(in.X))
	case *ssa.MakeInterface:
		set(in, u.mk(&Term{op: OIface, t: in.X.Type(), a: []*Term{ev(in.X)}}))
	case *ssa.TypeAssert:
		return f.typeAssert(c, in, ev(in.X))
	case *ssa.Extract:
		t := u.ext(ev(in.Tuple), in.Index)
		if t.t == nil {
			t.t = in.Type()
		}
		set(in, t)
	case *ssa.FieldAddr:
		stt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		b := ev(in.X)
		if b.op == ONil || st.isNil(b) {
			// nil dereference: the path panics here
			f.panicExit(c, st, u.sym("nil dereference"))
			return false
		}
		set(in, u.fieldA(b, stt.Field(in.Field).Name()))
	case *ssa.Field:
		stt := in.X.Type().Underlying().(*types.Struct)
		set(in, u.field(ev(in.X), in.Field, stt.Field(in.Field).Name(), in.Type()))
	case *ssa.IndexAddr:
		b := ev(in.X)
		if b.op == ONil {
			f.panicExit(c, st, u.sym("index out of range"))
			return false
		}
		if root(b).op != OAlloc {
			f.mayPanic(c)
		}
		i := ev(in.Index)
		for b.op == OSliceOf && (b.a[0].op == OAlloc || b.a[0].op == OAppend || b.a[0].op == OSliceOf) {
			lo, ok1 := b.a[1].intConst()
			n, ok2 := i.intConst()
			if b.a[1].op == ONil {
				lo, ok1 = 0, true
			}
			if !ok1 || !ok2 || lo < 0 || n < 0 {
				break
			}
			b, i = b.a[0], u.num(lo+n)
		}
		set(in, u.mk(&Term{op: OIndexA, a: []*Term{b, i}}))
	case *ssa.Index:
		b, i := ev(in.X), ev(in.Index)
		f.mayPanic(c)
		set(in, u.index(b, i, in.Type()))
	case *ssa.Lookup:
		m := ev(in.X)
		if isStringType(in.X.Type()) {
			f.mayPanic(c)
			set(in, u.index(m, ev(in.Index), in.Type()))
			break
		}
		return f.lookup(c, in, m, ev(in.Index))
	case *ssa.MapUpdate:
		m, k, v := ev(in.Map), ev(in.Key), ev(in.Value)
		if x.spec.store != nil {
			x.spec.store(x, in, f.fn, st, u.mk(&Term{op: OMapE, a: []*Term{m, k}}), v)
		}
		if x.spec.ignoreStore == nil || !x.spec.ignoreStore(st, u.mk(&Term{op: OMapE, a: []*Term{m, k}}), v) {
			if ks := f.openKeys(st, m, k); len(ks) > 0 {
				s2 := st
				for _, o := range ks {
					st := s2.clone()
					if st.assume(u.eq(o, k), true) {
						st.mem[u.mk(&Term{op: OMapE, a: []*Term{m, o}})] = v
						f.fork(c, st, nil, nil)
					}
					if !s2.assume(u.eq(o, k), false) {
						return false
					}
				}
				f.mapUpdate(s2, m, k, v)
				f.fork(c, s2, nil, nil)
				return false
			}
			f.mapUpdate(st, m, k, v)
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a := u.allocT(f.ctx, in, "", v.Type())
		for k := range st.mem {
			if k.hasN && root(k) == a {
				delete(st.mem, k)
			}
		}
		set(v, a)
	case *ssa.MakeSlice:
		a := u.allocT(f.ctx, in, "", in.Type())
		for k := range st.mem {
			if k.hasN && root(k) == a {
				delete(st.mem, k)
			}
		}
		st.mem[u.lenKey(a)] = ev(in.Len)
		set(in, a)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ev(b))
		}
		fn := in.Fn.(*ssa.Function)
		set(in, u.mk(&Term{op: OClosure, s: fn.String(), fn: fn, a: bs}))
	case *ssa.Slice:
		b := ev(in.X)
		lo, hi := u.Nil, u.Nil
		if in.Low != nil {
			lo = ev(in.Low)
		}
		if in.High != nil {
			hi = ev(in.High)
		}
		if in.Low != nil || in.High != nil {
			if root(b).op != OAlloc {
				f.mayPanic(c)
			}
		}
		set(in, f.slice(st, b, lo, hi, in.Type()))
	case *ssa.Range:
		set(in, u.mk(&Term{op: OCall, s: "range", a: []*Term{ev(in.X)}}))
	case *ssa.Next:
		return f.next(c, in, ev(in.Iter))
	case *ssa.Select:
		return f.sel(c, in)
	case *ssa.Send:
		if x.spec.send != nil {
			x.spec.send(x, in, f.fn, st, ev(in.Chan), ev(in.X))
		}
	case *ssa.Store:
		a, v := ev(in.Addr), ev(in.Val)
		if b, ok := in.Val.(*ssa.BinOp); ok {
			if l, ok := b.X.(*ssa.UnOp); ok && l.Op == token.MUL && ev(l.X) == a && isInt(in.Val.Type()) {
				x.counters[a] = true
			}
		}
		if x.spec.store != nil {
			x.spec.store(x, in, f.fn, st, a, v)
		}
		if x.spec.ignoreStore != nil && x.spec.ignoreStore(st, a, v) {
			break
		}
		if a.op == ONil || st.isNil(a) {
			f.panicExit(c, st, u.sym("nil dereference"))
			return false
		}
		st.store(a, v, in.Val.Type())
	case *ssa.Call:
		return f.call(c, in, in.Common())
	case *ssa.Defer:
		cl := f.resolve(c, in, in.Common())
		cl.isDefer = true
		c.def = &deferRec{prev: c.def, call: cl, rec: f.deferRecovers(cl)}
	case *ssa.Go:
		cl := f.resolve(c, in, in.Common())
		cl.isGo = true
		x.sites[in] = true
		if x.spec.pre != nil {
			x.spec.pre(cl, st)
		}
		if x.spec.follow != nil {
			s2 := st.clone()
			key := cl.name + "|"
			ok := x.spec.follow(cl, s2)
			if ok {
				key += s2.key(cl.args)
				if cl.fv != nil {
					key += s2.key([]*Term{cl.fv})
				}
			}
			if ok && !x.started[key] {
				x.started[key] = true
				g := *cl
				g.isGo = false
				rec := x.rec
				x.rec = 0 // panics of a goroutine are not caught by its creator
				outs := x.exec(&g, s2)
				x.rec = rec
				if x.spec.goDone != nil {
					x.spec.goDone(cl, outs)
				}
			}
		}
		by := u.nonce(f.ctx, in, "go")
		kept := map[*Term]*Term{}
		if x.spec.final != nil {
			for a, v := range st.mem {
				if a.op == OFieldA && x.spec.final[a.s] {
					kept[a] = v
				}
			}
		}
		for _, a := range cl.args {
			st.havoc(a, by)
		}
		if cl.fv != nil {
			st.havoc(cl.fv, by)
		}
		for a, v := range kept {
			st.mem[a] = v
		}
	case *ssa.RunDefers:
		f.runDefers(c)
		return false
	case *ssa.Jump:
		f.edge(c, c.b.Succs[0])
		return false
	case *ssa.If:
		f.branch(c, in, ev(in.Cond))
		return false
	case *ssa.Return:
		var ret *Term
		switch len(in.Results) {
		case 0:
		case 1:
			ret = ev(in.Results[0])
		default:
			var ts []*Term
			for _, r := range in.Results {
				ts = append(ts, ev(r))
			}
			ret = u.tuple(ts...)
		}
		f.emit(&Outcome{st: st, kind: KRet, ret: ret})
		return false
	case *ssa.Panic:
		st.note(x.p.instrPos(in), "panic")
		f.panicExit(c, st, ev(in.X))
		return false
	default:
		x.undecided("unsupported instruction %T in %s", in, f.fn)
	}
	return true
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (u *Universe) lenKey(a *Term) *Term { return u.mk(&Term{op: OLen, a: []*Term{a}}) }

func (u *Universe) allocT(ctx *Ctx, in ssa.Instruction, kind string, t types.Type) *Term {
	a := u.alloc(ctx, in, kind)
	if a.t == nil {
		a.t = t
	}
	return a
}

// length of a value in a state
func (s *State) length(t *Term) *Term {
	if l, ok := s.mem[s.u.lenKey(t)]; ok {
		return l
	}
	if t.op == OAlloc {
		if c, ok := s.mem[s.u.contentOf(t)]; ok {
			return s.u.length(c)
		}
		if at, ok := t.t.(*types.Map); ok && at != nil {
			if _, h := s.mem[s.u.havMark(t)]; !h {
				n := 0
				for k := range s.mem {
					if k.op == OMapE && k.a[0] == t {
						n++
					}
				}
				if n == 0 {
					return s.u.Zero
				}
			}
		}
	}
	if t.op == OSliceOf && t.a[2] == s.u.Nil {
		// len(x[lo:]) = len(x) - lo
		if lo, ok := t.a[1].intConst(); ok {
			l := s.length(t.a[0])
			if n, ok := l.intConst(); ok {
				return s.u.num(n - lo)
			}
		}
	}
	return s.u.length(t)
}

func (f *frame) slice(st *State, b, lo, hi *Term, t types.Type) *Term {
	u := f.x.u
	if lo == u.Zero {
		lo = u.Nil
	}
	if lo == u.Nil && hi == u.Nil {
		return b
	}
	if hi != u.Nil && lo == u.Nil && st.length(b) == hi {
		return b
	}
	if b.op == ONil {
		return b
	}
	if s, ok := b.strConst(); ok {
		l, h := int64(0), int64(len(s))
		lok, hok := true, true
		if lo != u.Nil {
			l, lok = lo.intConst()
		}
		if hi != u.Nil {
			h, hok = hi.intConst()
		}
		if lok && hok && l >= 0 && l <= h && h <= int64(len(s)) {
			return u.str(s[l:h])
		}
	}
	// slicing a list literal
	if v := st.value(b); v.op == OAppend && hi == u.Nil {
		if n, ok := lo.intConst(); ok && v.a[0] == u.Nil && int(n) < len(v.a) {
			return u.mk(&Term{op: OAppend, a: append([]*Term{u.Nil}, v.a[1+n:]...)})
		}
	}
	if b.op != OAlloc && !(b.op == OSliceOf && b.a[0].op == OAlloc) {
		if r := u.segSlice(b, lo, hi); r != nil {
			return r
		}
	}
	// nested slices
	if b.op == OSliceOf && b.a[2] == u.Nil && hi == u.Nil {
		n, ok1 := b.a[1].intConst()
		m, ok2 := lo.intConst()
		if ok1 && ok2 {
			return u.mk(&Term{op: OSliceOf, a: []*Term{b.a[0], u.num(n + m), u.Nil}, t: t})
		}
	}
	return u.mk(&Term{op: OSliceOf, a: []*Term{b, lo, hi}, t: t})
}

func (f *frame) binop(c *config, in *ssa.BinOp, a, b *Term) *Term {
	u, st := f.x.u, c.st
	switch in.Op {
	case token.EQL:
		return u.eq(a, b)
	case token.NEQ:
		return u.not(u.eq(a, b))
	case token.LSS:
		return f.order(in, a, b)
	case token.GTR:
		return f.order(in, b, a)
	case token.LEQ:
		return u.not(f.order(in, b, a))
	case token.GEQ:
		return u.not(f.order(in, a, b))
	case token.ADD:
		if isStringType(in.Type()) {
			return u.concat(in, f.ctx, st.snapshot(a, 3), st.snapshot(b, 3))
		}
	}
	if n, ok := a.intConst(); ok {
		if m, ok := b.intConst(); ok {
			v := constant.BinaryOp(constant.MakeInt64(n), opTok(in.Op), constant.MakeInt64(m))
			if !(m == 0 && (in.Op == token.QUO || in.Op == token.REM)) && v.Kind() == constant.Int {
				return u.constVal(v)
			}
		}
	}
	if b == u.Zero && (in.Op == token.ADD || in.Op == token.SUB) {
		return a
	}
	if a == u.Zero && in.Op == token.ADD {
		return b
	}
	// (x + c1) + c2
	if in.Op == token.ADD || in.Op == token.SUB {
		if m, ok := b.intConst(); ok && a.op == OBin && a.s == "+" && len(a.a) == 2 {
			if n, ok := a.a[1].intConst(); ok {
				k := n + m
				if in.Op == token.SUB {
					k = n - m
				}
				if k == 0 {
					return a.a[0]
				}
				return u.mk(&Term{op: OBin, s: "+", a: []*Term{a.a[0], u.num(k)}, t: in.Type()})
			}
		}
		if m, ok := b.intConst(); ok && in.Op == token.SUB {
			return u.mk(&Term{op: OBin, s: "+", a: []*Term{a, u.num(-m)}, t: in.Type()})
		}
		if _, ok := a.intConst(); ok && in.Op == token.ADD {
			a, b = b, a
		}
	}
	return u.mk(&Term{op: OBin, s: in.Op.String(), a: []*Term{a, b}, t: in.Type()})
}

func opTok(t token.Token) token.Token {
	if t == token.QUO {
		return token.QUO_ASSIGN // integer division
	}
	return t
}

func (f *frame) order(in *ssa.BinOp, a, b *Term) *Term {
	u := f.x.u
	if isStringType(in.X.Type()) {
		return u.mk(&Term{op: OLt, s: "str", a: []*Term{a, b}})
	}
	// x + c < y + d with constant right side
	if a.op == OBin && a.s == "+" && len(a.a) == 2 {
		if n, ok := a.a[1].intConst(); ok {
			if m, ok := b.intConst(); ok {
				return u.lt(a.a[0], u.num(m-n))
			}
		}
	}
	if b.op == OBin && b.s == "+" && len(b.a) == 2 {
		if n, ok := b.a[1].intConst(); ok {
			if m, ok := a.intConst(); ok {
				return u.lt(u.num(m-n), b.a[0])
			}
		}
	}
	return u.lt(a, b)
}

func basicInfo(t types.Type) (size int, unsigned bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Uint8:
		return 8, true, true
	case types.Int16:
		return 16, false, true
	case types.Uint16:
		return 16, true, true
	case types.Int32:
		return 32, false, true
	case types.Uint32:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	}
	return 0, false, false
}

func (f *frame) convert(v *Term, from, to types.Type) *Term {
	u := f.x.u
	if isStringType(to) || isStringType(from) {
		if _, _, isInt := basicInfo(from); isInt {
			return u.mk(&Term{op: OConv, t: to, a: []*Term{v}})
		}
		return v
	}
	fs, fu, ok1 := basicInfo(from)
	ts, tu, ok2 := basicInfo(to)
	if ok1 && ok2 {
		src := v.t
		if src != nil {
			if s, un, ok := basicInfo(src); ok && s < fs {
				fs, fu = s, un
			}
		}
		if n, ok := v.intConst(); ok {
			max := int64(1)<<62 - 1 + int64(1)<<62
			if ts < 64 {
				if tu {
					max = int64(1)<<ts - 1
				} else {
					max = int64(1)<<(ts-1) - 1
				}
			}
			if n >= 0 && n <= max {
				return v
			}
		}
		if ts > fs && (fu || !tu) || ts == fs && fu == tu {
			return v
		}
		if ts == fs || ts > fs {
			return v // sign change of same or larger width: identity on the value ranges used here
		}
		return u.mk(&Term{op: OConv, t: to, a: []*Term{v}})
	}
	return v
}

func (f *frame) typeAssert(c *config, in *ssa.TypeAssert, v *Term) bool {
	u, st := f.x.u, c.st
	give := func(st *State, val *Term, ok bool, forked bool) {
		var r *Term
		if in.CommaOk {
			r = u.tuple(val, u.boolean(ok))
		} else {
			r = val
		}
		if forked {
			f.fork(c, st, in, r)
		} else {
			c.env[in] = r
		}
	}
	zero := u.zero(in.AssertedType)
	if v.op == ONil || st.isNil(v) {
		if in.CommaOk {
			give(st, zero, false, false)
			return true
		}
		f.panicExit(c, st, u.sym("type assertion"))
		return false
	}
	if v.op == OIface {
		var ok bool
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
		} else {
			ok = types.Identical(v.t, in.AssertedType)
		}
		switch {
		case ok && types.IsInterface(in.AssertedType):
			give(st, v, true, false)
			return true
		case ok:
			give(st, v.a[0], true, false)
			return true
		case in.CommaOk:
			give(st, zero, false, false)
			return true
		}
		f.panicExit(c, st, u.sym("type assertion"))
		return false
	}
	atom := u.mk(&Term{op: OIsT, t: in.AssertedType, a: []*Term{v}})
	val := u.mk(&Term{op: OTA, t: in.AssertedType, a: []*Term{v}})
	if types.IsInterface(in.AssertedType) {
		val = v
	}
	nn := u.not(u.eq(v, u.Nil))
	if !in.CommaOk {
		f.mayPanic(c)
		if !st.assume(atom, true) || !st.assume(nn, true) {
			f.panicExit(c, st, u.sym("type assertion"))
			return false
		}
		c.env[in] = val
		return true
	}
	// two distinct concrete types exclude each other
	if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
		for a, tv := range st.facts {
			if tv && a.op == OIsT && a.a[0] == v && !types.IsInterface(a.t) && !types.Identical(a.t, in.AssertedType) {
				give(st, zero, false, false)
				return true
			}
		}
	}
	s2 := st.clone()
	if st.assume(atom, true) && st.assume(nn, true) {
		give(st, val, true, true)
	}
	if s2.assume(atom, false) {
		give(s2, zero, false, true)
	}
	return false
}

func (f *frame) lookup(c *config, in *ssa.Lookup, m, k *Term) bool {
	u, st := f.x.u, c.st
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	give := func(st *State) *Term {
		v, has := st.mapGet(m, k, vt, f.ctx, in)
		if in.CommaOk {
			return u.tuple(v, has)
		}
		return v
	}
	if ks := f.openKeys(st, m, k); len(ks) > 0 {
		for _, o := range ks {
			s2 := st.clone()
			if s2.assume(u.eq(o, k), true) {
				f.fork(c, s2, in, give(s2))
			}
			if !st.assume(u.eq(o, k), false) {
				return false
			}
		}
		f.fork(c, st, in, give(st))
		return false
	}
	c.env[in] = give(st)
	return true
}

// openKeys lists the keys of a locally built map that may or may not be k, where elements are followed one by one.
func (f *frame) openKeys(st *State, m, k *Term) []*Term {
	u := f.x.u
	if f.x.spec.unroll == 0 || m.op != OAlloc {
		return nil
	}
	if _, ok := st.mem[u.havMark(m)]; ok {
		return nil
	}
	var ks []*Term
	for a := range st.mem {
		if a.op == OMapE && a.a[0] == m {
			if a.a[1] == k || st.same(a.a[1], k) {
				return nil
			}
			if !st.refuted(u.eq(a.a[1], k)) {
				ks = append(ks, a.a[1])
			}
		}
	}
	if len(ks) > 6 {
		return nil
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (s *State) mapGet(m, k *Term, vt types.Type, ctx *Ctx, in ssa.Instruction) (v, has *Term) {
	u := s.u
	if m.op == ONil {
		return u.zero(vt), u.False
	}
	e := u.mk(&Term{op: OMapE, a: []*Term{m, k}})
	if v, ok := s.mem[e]; ok {
		return v, u.True
	}
	other := false
	for a := range s.mem {
		if a.op == OMapE && a.a[0] == m {
			if s.same(a.a[1], k) {
				return s.mem[a], u.True
			}
			if !s.refuted(u.eq(a.a[1], k)) {
				other = true
			}
		}
	}
	if other {
		n := u.nonce(ctx, in, "lookup")
		if n.t == nil {
			n.t = vt
		}
		return n, u.nonce(ctx, in, "has")
	}
	if m.op == OAlloc {
		if h, ok := s.mem[u.havMark(m)]; ok {
			return u.mk(&Term{op: OHav, a: []*Term{h, e}, t: vt}), u.mk(&Term{op: OHas, a: []*Term{m, k, h}})
		}
		return u.zero(vt), u.False
	}
	return u.mk(&Term{op: OLookup, a: []*Term{m, k}, t: vt}), u.mk(&Term{op: OHas, a: []*Term{m, k}})
}

func (f *frame) mapUpdate(st *State, m, k, v *Term) {
	u := f.x.u
	e := u.mk(&Term{op: OMapE, a: []*Term{m, k}})
	if _, ok := st.mem[e]; !ok {
		for a := range st.mem {
			if a.op == OMapE && a.a[0] == m && st.same(a.a[1], k) {
				e = a
				break
			}
		}
	}
	for a := range st.mem {
		if a.op == OMapE && a.a[0] == m && a != e && !st.refuted(u.eq(a.a[1], k)) {
			st.mem[a] = u.mk(&Term{op: OHav, a: []*Term{v, a}})
		}
	}
	st.mem[e] = v
}

func (f *frame) next(c *config, in *ssa.Next, iter *Term) bool {
	u, st := f.x.u, c.st
	tt := in.Type().(*types.Tuple)
	m := iter
	if iter.op == OCall && iter.s == "range" {
		m = iter.a[0]
	}
	if f.x.spec.oneElement && m.op == OAlloc && !in.IsString {
		// a map of one element: exactly one iteration
		var el *Term
		n := 0
		for a := range st.mem {
			if a.op == OMapE && a.a[0] == m {
				el = a
				n++
			}
		}
		if _, hav := st.mem[u.havMark(m)]; n == 1 && !hav {
			key := fmt.Sprintf("range|%d|%p", f.ctx.id, in)
			if st.mon[key] == nil {
				st.mon[key] = u.True
				c.env[in] = u.tuple(u.True, el.a[1], st.mem[el])
			} else {
				delete(st.mon, key)
				c.env[in] = u.tuple(u.False, u.zero0(tt.At(1).Type()), u.zero0(tt.At(2).Type()))
			}
			return true
		}
	}
	k := u.nonce(f.ctx, in, "key")
	if k.t == nil {
		k.t = tt.At(1).Type()
	}
	// end of the iteration
	end := st.clone()
	if it := f.x.spec.iter; it != nil {
		it(f.x, in, end, m, false)
		it(f.x, in, st, m, true)
	}
	f.fork(c, end, in, u.tuple(u.False, u.zero0(tt.At(1).Type()), u.zero0(tt.At(2).Type())))
	if in.IsString {
		v := u.nonce(f.ctx, in, "rune")
		f.fork(c, st, in, u.tuple(u.True, k, v))
		return false
	}
	if m.op == ONil || st.length(m) == u.Zero {
		return false
	}
	var v *Term
	if m.op == OAlloc {
		// any element of a locally built map
		n := 0
		var vals []*Term
		for a, w := range st.mem {
			if a.op == OMapE && a.a[0] == m {
				n++
				vals = append(vals, a, w)
			}
		}
		_, hav := st.mem[u.havMark(m)]
		if n > 0 && n <= 12 && !hav {
			for i := 0; i < len(vals); i += 2 {
				s2 := st.clone()
				f.fork(c, s2, in, u.tuple(u.True, vals[i].a[1], vals[i+1]))
			}
			return false
		}
		v = u.nonce(f.ctx, in, "val")
		if v.t == nil {
			v.t = tt.At(2).Type()
		}
	} else {
		v = u.mk(&Term{op: OLookup, a: []*Term{m, k}, t: tt.At(2).Type()})
		st.assume(u.mk(&Term{op: OHas, a: []*Term{m, k}}), true)
	}
	f.fork(c, st, in, u.tuple(u.True, k, v))
	return false
}

func (u *Universe) zero0(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return u.Nil
	}
	return u.zero(t)
}

func (f *frame) recv(c *config, in ssa.Instruction, ch *Term, v ssa.Value) *Term {
	x := f.x
	if x.spec.recv != nil {
		if t := x.spec.recv(x, in, f.fn, c.st, ch); t != nil {
			return t
		}
	}
	n := x.u.nonce(f.ctx, in, "recv")
	if n.t == nil && v != nil {
		n.t = v.Type()
	}
	return n
}

// recvOk: a receive that gives an object happens on an open channel, one that gives nil on a closed one.
func (f *frame) recvOk(in ssa.Instruction, v *Term, kind string) *Term {
	switch {
	case f.x.spec.recv != nil && v.op == ONil:
		return f.x.u.False
	case f.x.spec.recv != nil && v.op == OAlloc:
		return f.x.u.True
	}
	return f.x.u.nonce(f.ctx, in, kind)
}

func (f *frame) sel(c *config, in *ssa.Select) bool {
	x, u := f.x, f.x.u
	var recvs []int
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, i)
		}
	}
	mk := func(st *State, idx int) {
		ts := []*Term{u.num(int64(idx)), u.nonce(f.ctx, in, "selok")}
		for j, i := range recvs {
			var t *Term
			if i == idx {
				if x.spec.recv != nil {
					t = x.spec.recv(x, in, f.fn, st, f.eval(c, in.States[i].Chan))
					if t != nil {
						ts[1] = f.recvOk(in, t, "selok")
					}
				}
				if t == nil {
					t = u.nonce(f.ctx, in, "recv"+strconv.Itoa(i))
					if t.t == nil {
						t.t = in.Type().(*types.Tuple).At(2 + j).Type()
					}
				}
			} else {
				t = u.zero(in.Type().(*types.Tuple).At(2 + j).Type())
			}
			ts = append(ts, t)
		}
		f.fork(c, st, in, u.tuple(ts...))
	}
	for i, s := range in.States {
		st := c.st.clone()
		if f.eval(c, s.Chan).op == ONil {
			continue // never ready
		}
		if s.Dir == types.SendOnly && x.spec.send != nil {
			x.spec.send(x, in, f.fn, st, f.eval(c, s.Chan), f.eval(c, s.Send))
		}
		mk(st, i)
	}
	if !in.Blocking {
		mk(c.st.clone(), -1)
	}
	return false
}

func (f *frame) branch(c *config, in *ssa.If, cond *Term) {
	st := c.st
	if v, known := st.decide(cond); known {
		if f.x.spec.unroll > 0 && cond.op == OConst {
			// a loop whose exit test is decided is followed element by element
			for _, l := range f.li.heads {
				if l.body[c.b] && l.body[c.b.Succs[0]] != l.body[c.b.Succs[1]] {
					st.mon[f.loopKey("!", l)] = f.x.u.True
				}
			}
		}
		if v {
			f.edge(c, c.b.Succs[0])
		} else {
			f.edge(c, c.b.Succs[1])
		}
		return
	}
	s2 := st.clone()
	pos := f.x.p.instrPos(in)
	if st.assume(cond, true) {
		st.note(pos, "if "+clip(cond.String()))
		f.edge(&config{b: c.b, st: st, env: cloneEnv(c.env), def: c.def}, c.b.Succs[0])
	}
	if s2.assume(cond, false) {
		s2.note(pos, "if not "+clip(cond.String()))
		f.edge(&config{b: c.b, st: s2, env: c.env, def: c.def}, c.b.Succs[1])
	}
}

func clip(s string) string {
	if len(s) > 160 {
		return strings.ToValidUTF8(s[:160], "") + "…"
	}
	return s
}

// edge moves along a control flow edge.
func (f *frame) edge(c *config, to *ssa.BasicBlock) {
	x, u := f.x, f.x.u
	from := c.b
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	l := f.li.heads[to]
	back := l != nil && l.body[from]
	type pv struct {
		phi *ssa.Phi
		t   *Term
	}
	var ps []pv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, pv{phi, f.eval(c, phi.Edges[pi])})
	}
	for _, p := range ps {
		c.env[p.phi] = p.t
	}
	// prune dead values
	env := make(map[ssa.Value]*Term, len(f.lv.in[to]))
	for _, v := range f.lv.in[to] {
		if t, ok := c.env[v]; ok {
			env[v] = t
		}
	}
	c.env = env
	if h := x.spec.loopEdge; h != nil {
		if back {
			h(f, c, l, false)
		}
		for _, ol := range f.li.heads {
			if ol.body[from] && !ol.body[to] {
				h(f, c, ol, true)
			}
		}
	}
	if x.spec.unroll > 0 {
		for _, ol := range f.li.heads {
			if ol.body[from] && !ol.body[to] {
				delete(c.st.mon, f.loopKey("#", ol))
				delete(c.st.mon, f.loopKey("!", ol))
			}
		}
	}
	if len(to.Preds) > 1 || back {
		x.gc(c.st, append(envTerms(env), c.def.terms()...))
	}
	unrolled := false
	if l != nil && x.spec.unroll > 0 && x.mayUnroll(f.fn) {
		unrolled = f.countIter(c, l, back) <= x.spec.unroll
	}
	if back {
		f.age(c, l, unrolled)
	}
	if l != nil {
		for _, p := range ps {
			if _, live := c.env[p.phi]; !live {
				continue
			}
			if _, known := c.env[p.phi].intConst(); known && unrolled {
				continue
			}
			if isInt(p.phi.Type()) && inductive(p.phi, l) && !f.constBound(c, p.phi, l) {
				n := u.nonce(f.ctx, p.phi, "ind")
				if n.t == nil {
					n.t = p.phi.Type()
				}
				for a := range c.st.facts {
					if a.contains(n) {
						delete(c.st.facts, a)
						c.st.repValid = false
					}
				}
				c.env[p.phi] = n
				if lo, ok := lowerBound(p.phi, l); ok {
					c.st.assume(u.lt(n, u.num(lo)), false)
				}
			}
		}
	}
	nc := &config{b: to, st: c.st, env: c.env, def: c.def}
	if len(to.Preds) > 1 {
		var ts []*Term
		for _, v := range f.lv.in[to] {
			ts = append(ts, c.env[v])
		}
		ts = append(ts, c.def.terms()...)
		k := strconv.Itoa(to.Index) + "|" + c.st.key(ts)
		for d := c.def; d != nil; d = d.prev {
			k += fmt.Sprintf("|%p", d.call.in)
		}
		if f.visited[k] {
			return
		}
		f.visited[k] = true
		if dbg := os.Getenv("VERIF_DUMP"); dbg != "" && l != nil && strings.Contains(f.fn.String(), dbg) {
			fmt.Printf("== %s block %d ctx %d\n", fnLabel(f.fn), to.Index, f.ctx.id)
			for v, t := range c.env {
				fmt.Printf("   env %s = %s\n", v.Name(), clip(t.String()))
			}
			c.st.dump()
		}
		if len(f.visited) > 60000 {
			x.undecided("too many states in %s", f.fn)
		}
	}
	// skip the phis
	nc.i = len(ps)
	f.push(nc)
}

func (x *Exec) mayUnroll(fn *ssa.Function) bool {
	p := pkgPath(fn)
	if p == "slices" {
		return true
	}
	for _, q := range x.spec.unrollIn {
		if p == q {
			return true
		}
	}
	return false
}

func (f *frame) loopKey(kind string, l *loop) string {
	return kind + strconv.Itoa(f.ctx.id) + "." + strconv.Itoa(l.head.Index)
}

// countIter counts the iterations of the loop that the path has entered.
func (f *frame) countIter(c *config, l *loop, back bool) int {
	k, d := f.loopKey("#", l), f.loopKey("!", l)
	if back && c.st.mon[d] == nil {
		delete(c.st.mon, k)
		return f.x.spec.unroll + 1
	}
	delete(c.st.mon, d)
	n := int64(0)
	if t := c.st.mon[k]; back && t != nil {
		n, _ = t.intConst()
		if n <= int64(f.x.spec.unroll) {
			n++
		}
	}
	c.st.mon[k] = f.x.u.num(n)
	return int(n)
}

func envTerms(env map[ssa.Value]*Term) []*Term {
	r := make([]*Term, 0, len(env))
	for _, t := range env {
		r = append(r, t)
	}
	return r
}

// lowerBound of an inductive variable that only grows.
func lowerBound(phi *ssa.Phi, l *loop) (int64, bool) {
	lo := int64(0)
	found := false
	for i, e := range phi.Edges {
		if l.body[phi.Block().Preds[i]] {
			continue
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		n, _ := constant.Int64Val(k.Value)
		if !found || n < lo {
			lo = n
			found = true
		}
	}
	seen := map[ssa.Value]bool{}
	var grows func(v ssa.Value) bool
	grows = func(v ssa.Value) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			if v.Op != token.ADD {
				return false
			}
			k, ok := v.Y.(*ssa.Const)
			if !ok || k.Value == nil || constant.Sign(k.Value) < 0 {
				return false
			}
			return grows(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !grows(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range phi.Edges {
		if l.body[phi.Block().Preds[i]] && !grows(e) {
			return 0, false
		}
	}
	return lo, found
}

// constBound: the loop runs a small constant number of times.
func (f *frame) constBound(c *config, phi *ssa.Phi, l *loop) bool {
	cur := c.env[phi]
	if n, ok := cur.intConst(); !ok || n > 12 {
		return false
	}
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := bo.X, bo.Y
		uses := func(v ssa.Value) bool {
			if v == ssa.Value(phi) {
				return true
			}
			if bb, ok := v.(*ssa.BinOp); ok {
				return bb.X == ssa.Value(phi)
			}
			return false
		}
		if !uses(x) {
			x, y = y, x
		}
		if !uses(x) {
			continue
		}
		var t *Term
		if k, ok := y.(*ssa.Const); ok {
			t = f.x.u.constant(k)
		} else if e, ok := c.env[y]; ok {
			t = e
		} else if call, ok := y.(*ssa.Call); ok && len(call.Call.Args) == 1 {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if e, ok := c.env[call.Call.Args[0]]; ok {
					t = c.st.length(e)
				}
			}
		}
		if t != nil {
			if n, ok := t.intConst(); ok && n <= 12 {
				return true
			}
		}
	}
	return false
}

// ---- loops: ageing ------------------------------------------------------

const wideAge = 99

func (f *frame) inLoop(n *Nonce, l *loop) bool {
	c := n.ctx
	in := n.instr
	for c != nil {
		if c == f.ctx {
			return in != nil && l.body[in.Block()]
		}
		in = c.call
		c = c.parent
	}
	return false
}

// age renames the values born in the loop before the next iteration starts.
func (f *frame) age(c *config, l *loop, exact bool) {
	u, st := f.x.u, c.st
	if !exact {
		f.widen(c, l)
	}
	// live ages
	limit := 3
	if exact {
		limit = 40
	}
	type siteKey struct {
		ctx  *Ctx
		in   ssa.Instruction
		kind string
	}
	ages := map[siteKey]map[int]bool{}
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if t == nil || !t.hasN || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OWide {
			return
		}
		if t.n != nil && t.n.age != wideAge && f.inLoop(t.n, l) {
			k := siteKey{t.n.ctx, t.n.instr, t.n.kind}
			if ages[k] == nil {
				ages[k] = map[int]bool{}
			}
			ages[k][t.n.age] = true
		}
		for _, a := range t.a {
			scan(a)
		}
	}
	for _, t := range c.env {
		scan(t)
	}
	for a, t := range st.mem {
		scan(a)
		scan(t)
	}
	for _, t := range st.mon {
		scan(t)
	}
	for _, t := range c.def.terms() {
		scan(t)
	}
	ren := map[siteKey]map[int]int{}
	for k, as := range ages {
		var l []int
		for a := range as {
			l = append(l, a)
		}
		sort.Ints(l)
		m := map[int]int{}
		for i, a := range l {
			if i >= limit {
				m[a] = wideAge
			} else {
				m[a] = i + 1
			}
		}
		ren[k] = m
	}
	// rename
	mN := map[*Term]*Term{}
	mW := map[*Term]*Term{}
	var rename func(t *Term, wide bool) *Term
	rename = func(t *Term, wide bool) *Term {
		if t == nil || !t.hasN {
			return t
		}
		memo := mN
		if wide {
			memo = mW
		}
		if r, ok := memo[t]; ok {
			return r
		}
		w := wide || t.op == OWide
		args := make([]*Term, len(t.a))
		for i, a := range t.a {
			args[i] = rename(a, w)
		}
		n := t.n
		if n != nil && n.age != wideAge && f.inLoop(n, l) {
			na := wideAge
			if !wide {
				if m, ok := ren[siteKey{n.ctx, n.instr, n.kind}]; ok {
					if v, ok := m[n.age]; ok {
						na = v
					}
				}
			}
			n = u.nonceAt(n.ctx, n.instr, n.kind, na)
		}
		var r *Term
		if t.op == OWide {
			r = u.wide(t.s, args)
		} else {
			r = u.rebuild(t, args, n)
		}
		memo[t] = r
		return r
	}
	for v, t := range c.env {
		c.env[v] = rename(t, false)
	}
	nm := make(map[*Term]*Term, len(st.mem))
	var hav []*Term
	for a, t := range st.mem {
		na := rename(a, false)
		if na.wideN() && na != a || a.op == OMapE && a.hasN && f.termInLoop(a.a[1], l) {
			// several objects share this name now, or a map filled by a loop
			hav = append(hav, root(na))
			continue
		}
		nm[na] = rename(t, false)
	}
	st.mem = nm
	for _, o := range hav {
		if o.op == OAlloc {
			for k := range st.mem {
				if root(k) == o && k.op != OHavMark {
					delete(st.mem, k)
				}
			}
			st.mem[u.havMark(o)] = u.sym("many")
		}
	}
	for k, t := range st.mon {
		st.mon[k] = rename(t, false)
	}
	if keep := f.x.spec.keepLoop; keep != nil {
		for a := range st.facts {
			if !keep(rename(a, false), st) {
				delete(st.facts, a)
			}
		}
	}
	nf := make(map[*Term]bool, len(st.facts))
	for a, v := range st.facts {
		if !a.hasN {
			nf[a] = v
			continue
		}
		r := rename(a, false)
		if r.wideN() && f.termInLoop(r, l) {
			continue
		}
		for r.op == ONot {
			r, v = r.a[0], !v
		}
		if r == u.True || r == u.False {
			continue
		}
		nf[r] = v
	}
	st.facts = nf
	st.repValid = false
	for d := &c.def; *d != nil; {
		cp := *(*d)
		cl := *cp.call
		cl.args = append([]*Term(nil), cl.args...)
		ch := false
		for i, a := range cl.args {
			cl.args[i] = rename(a, false)
			ch = ch || cl.args[i] != a
		}
		if cl.fv != nil {
			o := cl.fv
			cl.fv = rename(cl.fv, false)
			ch = ch || cl.fv != o
		}
		if ch {
			cp.call = &cl
			*d = &cp
		}
		d = &(*d).prev
		if !ch {
			break
		}
	}
}

// widen collapses values that grow with every iteration.
func (f *frame) widen(c *config, l *loop) {
	u, st := f.x.u, c.st
	memo := map[*Term]*Term{}
	for v, t := range c.env {
		c.env[v] = f.collapse(t, l, memo)
	}
	for a, t := range st.mem {
		if f.x.counters[a] {
			if _, ok := t.intConst(); ok || t.op == OBin {
				st.mem[a] = u.nonce(f.ctx, l.head.Instrs[0], "cell"+strconv.Itoa(a.id))
				continue
			}
		}
		st.mem[a] = f.collapse(t, l, memo)
	}
	for k, t := range st.mon {
		st.mon[k] = f.collapse(t, l, memo)
	}
}

func (f *frame) termInLoop(t *Term, l *loop) bool {
	r := false
	t.nonces(func(x *Term) {
		if f.inLoop(x.n, l) {
			r = true
		}
	})
	return r
}

// wideN reports whether t mentions a value that stands for many instances.
func (t *Term) wideN() bool {
	if !t.hasN {
		return false
	}
	r := false
	t.nonces(func(x *Term) {
		if x.n.age == wideAge {
			r = true
		}
	})
	return r
}

func (u *Universe) wide(kind string, args []*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	for _, a := range args {
		if a.op == OWide && a.s == kind {
			for _, b := range a.a {
				if !set[b] {
					set[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !set[a] {
			set[a] = true
			out = append(out, a)
		}
	}
	sortTerms(out)
	return u.mk(&Term{op: OWide, s: kind, a: out})
}

// flatten lists the parts of an append or concatenation chain.
func flatten(t *Term, kind string, out *[]*Term) {
	switch {
	case kind == "append" && (t.op == OAppend || t.op == OAppendS):
		flatten(t.a[0], kind, out)
		for _, a := range t.a[1:] {
			if t.op == OAppendS {
				flattenS(a, out)
			} else {
				*out = append(*out, a)
			}
		}
	case kind == "append" && t.op == OWide && t.s == "append":
		*out = append(*out, t.a...)
	case kind == "concat" && (t.op == OConcat || t.op == OWide && t.s == "concat"):
		for _, a := range t.a {
			flatten(a, kind, out)
		}
	default:
		*out = append(*out, t)
	}
}

func flattenS(t *Term, out *[]*Term) {
	if t.op == OAppend || t.op == OAppendS || t.op == OWide && t.s == "append" {
		flatten(t, "append", out)
		return
	}
	*out = append(*out, t)
}

func (f *frame) collapse(t *Term, l *loop, memo map[*Term]*Term) *Term {
	if t == nil || !t.hasN {
		if t != nil && t.size > 600 {
			return f.x.u.sym("big")
		}
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := t
	u := f.x.u
	kind := ""
	switch t.op {
	case OAppend, OAppendS:
		kind = "append"
	case OConcat:
		kind = "concat"
	}
	if kind != "" {
		var parts []*Term
		flatten(t, kind, &parts)
		old := false
		for _, p := range parts {
			p.nonces(func(x *Term) {
				if x.n.age >= 1 && f.inLoop(x.n, l) {
					old = true
				}
			})
		}
		if kind == "append" && len(t.a) > 0 && t.a[0].op == OWide || kind == "concat" && hasWide(t) || old || len(parts) > 12 {
			r = u.wide(kind, parts)
		}
	} else if t.op == OIface || t.op == OStruct || t.op == OTuple || t.op == OSliceOf {
		args := make([]*Term, len(t.a))
		for i, a := range t.a {
			args[i] = f.collapse(a, l, memo)
		}
		r = u.rebuild(t, args, t.n)
	} else if t.size > 600 {
		r = u.nonce(f.ctx, l.head.Instrs[0], "big")
	}
	memo[t] = r
	return r
}

func hasWide(t *Term) bool {
	for _, a := range t.a {
		if a.op == OWide {
			return true
		}
	}
	return false
}

// ---- garbage collection of facts and memory -----------------------------

func (t *Term) nonceSet() []*Nonce {
	if !t.hasN {
		return nil
	}
	if t.ns == nil {
		set := map[*Nonce]bool{}
		if t.n != nil {
			set[t.n] = true
			t.ns = append(t.ns, t.n)
		}
		for _, a := range t.a {
			for _, n := range a.nonceSet() {
				if !set[n] {
					set[n] = true
					t.ns = append(t.ns, n)
				}
			}
		}
	}
	return t.ns
}

func (x *Exec) gc(st *State, roots []*Term) {
	live := map[*Nonce]bool{}
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, n := range t.nonceSet() {
			live[n] = true
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, rs := range x.stack {
		for _, r := range rs {
			mark(r)
		}
	}
	for _, t := range st.mon {
		mark(t)
	}
	if rem := x.spec.remember; rem != nil {
		for a := range st.facts {
			if rem(a) {
				mark(a)
			}
		}
	}
	done := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			if done[a] {
				continue
			}
			ok := true
			for _, n := range root(a).nonceSet() {
				if !live[n] {
					ok = false
					break
				}
			}
			if ok {
				done[a] = true
				changed = true
				mark(a)
				mark(v)
			}
		}
	}
	for a := range st.mem {
		if !done[a] {
			delete(st.mem, a)
		}
	}
	for a := range st.facts {
		for _, n := range a.nonceSet() {
			if !live[n] {
				delete(st.facts, a)
				st.repValid = false
				break
			}
		}
	}
}

// ---- calls --------------------------------------------------------------

func (f *frame) deferRecovers(c *Call) bool { return hasRecover(c.fn) }

func (f *frame) resolve(c *config, in ssa.Instruction, cc *ssa.CallCommon) *Call {
	u := f.x.u
	cl := &Call{x: f.x, in: in, ctx: f.ctx, caller: f.fn, sig: cc.Signature(), common: cc}
	for _, v := range f.lv.after[in] {
		if t, ok := c.env[v]; ok {
			cl.roots = append(cl.roots, t)
		}
	}
	cl.roots = append(cl.roots, c.def.terms()...)
	if cc.IsInvoke() {
		recv := f.eval(c, cc.Value)
		cl.args = append(cl.args, recv)
		for _, a := range cc.Args {
			cl.args = append(cl.args, f.eval(c, a))
		}
		if recv.op == OIface {
			if m := f.x.p.methodOf(recv.t, cc.Method); m != nil {
				cl.fn = m
				cl.name = fname(m)
				cl.args[0] = recv.a[0]
				return cl
			}
		}
		cl.iface = true
		cl.name = "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
		return cl
	}
	for _, a := range cc.Args {
		cl.args = append(cl.args, f.eval(c, a))
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		cl.name = "builtin." + v.Name()
		return cl
	case *ssa.Function:
		cl.fn = v
		cl.name = fname(v)
		return cl
	}
	fv := f.eval(c, cc.Value)
	cl.fv = fv
	f.x.bindFuncValue(cl)
	_ = u
	return cl
}

// bindFuncValue resolves a call through a function value.
func (x *Exec) bindFuncValue(cl *Call) {
	fv := cl.fv
	switch fv.op {
	case OFunc, OClosure:
		cl.fn = fv.fn
		if fv.fn != nil {
			cl.name = fname(fv.fn)
			// bound methods and wrappers
			return
		}
	}
	cl.name = "dynamic"
}

func (p *Program) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (f *frame) call(c *config, in *ssa.Call, cc *ssa.CallCommon) bool {
	x := f.x
	cl := f.resolve(c, in, cc)
	rec := c.def.anyRec()
	if rec {
		x.rec++
	}
	outs := x.exec(cl, c.st)
	if rec {
		x.rec--
	}
	for _, o := range outs {
		switch o.kind {
		case KRet:
			r := o.ret
			if r == nil {
				r = x.u.Nil
			}
			if len(outs) == 1 {
				c.st = o.st
				c.env[in] = r
				return true
			}
			f.fork(c, o.st, in, r)
		case KPanic:
			f.panicExit(c, o.st, o.ret)
		case KExit:
			f.emit(o)
		}
	}
	return false
}

// exec performs a resolved call.
func (x *Exec) exec(c *Call, st *State) []*Outcome {
	if c.in != nil {
		x.sites[c.in] = true
	}
	if x.spec.pre != nil {
		x.spec.pre(c, st)
	}
	outs := x.dispatch(c, st)
	if x.spec.post != nil {
		for _, o := range outs {
			x.spec.post(c, o)
		}
	}
	return outs
}

func (x *Exec) dispatch(c *Call, st *State) []*Outcome {
	if m, ok := x.spec.models[c.name]; ok {
		if o := m(c, st); o != nil {
			return o
		}
	}
	if c.iface && x.spec.iface != nil {
		if o := x.spec.iface(c, st); o != nil {
			return o
		}
	}
	if x.spec.outside != nil && c.name != "dynamic" && !strings.HasPrefix(c.name, "builtin.") && (c.fn == nil || !inRepo(c.fn)) {
		if o := x.spec.outside(c, st); o != nil {
			return o
		}
	}
	switch x.spec.policy[c.name] {
	case "pure":
		return []*Outcome{{st: st, ret: x.pureResult(c, st)}}
	case "opaque":
		return x.opaque(c, st)
	}
	if strings.HasPrefix(c.name, "builtin.") {
		return x.builtin(c, st)
	}
	name := c.name
	if i := strings.IndexByte(name, '['); i > 0 && strings.HasPrefix(name, "slices.") {
		name = name[:i]
	}
	if m, ok := baseModels[name]; ok {
		if o := m(c, st); o != nil {
			return o
		}
	}
	if c.fn != nil && x.mayInline(c.fn) {
		rec := 0
		for _, f := range x.fns {
			if f == c.fn {
				rec++
			}
		}
		if rec == 0 {
			return x.inlineCall(c, st)
		}
		if x.spec.recur != nil {
			if o := x.spec.recur(c, st); o != nil {
				return o
			}
		}
		return x.opaque(c, st)
	}
	if isNoEffect(c.name) {
		r := x.u.nonce(c.ctx, c.in, "r")
		return []*Outcome{{st: st, ret: x.typed(r, c)}}
	}
	if isPure(c.name) {
		return []*Outcome{{st: st, ret: x.pureResult(c, st)}}
	}
	if c.name == "dynamic" {
		return x.dynamic(c, st)
	}
	return x.opaque(c, st)
}

func (x *Exec) mayInline(fn *ssa.Function) bool {
	if !x.p.ensureBody(fn) {
		return false
	}
	if x.spec.policy[fname(fn)] == "inline" {
		return true
	}
	if inRepo(fn) {
		return true
	}
	if x.spec.inline != nil && x.spec.inline(fn) {
		return true
	}
	return inlineExternal(fn)
}

// tooBig stops the precise treatment of a function that no property event depends on.
type tooBig struct{ fn *ssa.Function }

const (
	coarseOuts  = 16
	coarseSteps = 4000
)

// summarisable reports whether a call to fn may be treated as unknown code.
func (x *Exec) summarisable(fn *ssa.Function) bool {
	if x.spec.event == nil || fn.Synthetic != "" || len(fn.TypeArgs()) > 0 {
		return false
	}
	if x.reaches == nil {
		x.reaches = x.p.reaching(x.spec.event)
	}
	return !x.reaches[fn]
}

// inlineCall analyses the callee in the current state. A callee that cannot
// reach an event of the property and has too many behaviours to follow
// separately is replaced by unknown code (arbitrary results and effects on
// what its arguments reach).
func (x *Exec) inlineCall(c *Call, st *State) (outs []*Outcome) {
	if !x.summarisable(c.fn) {
		return x.inlineNow(c, st)
	}
	if x.coarse[c.fn] {
		return x.opaque(c, st)
	}
	saved := st.clone()
	nf, ns, rec := len(x.fns), len(x.stack), x.rec
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(tooBig)
			if !ok || b.fn != c.fn {
				panic(r)
			}
			x.fns, x.stack, x.rec = x.fns[:nf], x.stack[:ns], rec
			x.coarse[c.fn] = true
			outs = x.opaque(c, saved)
		}
	}()
	return x.inlineNow(c, st)
}

func (x *Exec) inlineNow(c *Call, st *State) []*Outcome {
	ctx := x.u.ctx(c.ctx, c.in, c.fn)
	x.stack = append(x.stack, c.roots)
	var binds []*Term
	if c.fv != nil && c.fv.op == OClosure {
		binds = c.fv.a
	}
	st.note(c.pos(), "call "+fnLabel(c.fn))
	outs := x.execFunc(ctx, c.fn, c.args, binds, st)
	x.stack = x.stack[:len(x.stack)-1]
	return outs
}

// callValue calls a function value with the given arguments.
func (x *Exec) callValue(c *Call, fv *Term, args []*Term, st *State, extra ...*Term) []*Outcome {
	if fv.op != OFunc && fv.op != OClosure || fv.fn == nil || !x.p.ensureBody(fv.fn) {
		return nil
	}
	n := &Call{x: x, in: c.in, ctx: c.ctx, caller: c.caller, name: fname(fv.fn), fn: fv.fn, fv: fv, args: args, sig: fv.fn.Signature, roots: append(append([]*Term{}, c.roots...), extra...)}
	if m, ok := x.spec.models[n.name]; ok {
		if o := m(n, st); o != nil {
			return o
		}
	}
	return x.inlineCall(n, st)
}

func (x *Exec) typed(t *Term, c *Call) *Term {
	if c.sig == nil {
		return t
	}
	rs := c.sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		if t.t == nil {
			t.t = rs.At(0).Type()
		}
		return t
	}
	ts := make([]*Term, rs.Len())
	for i := range ts {
		ts[i] = x.u.ext(t, i)
		if ts[i].t == nil {
			ts[i].t = rs.At(i).Type()
		}
	}
	return x.u.tuple(ts...)
}

func (x *Exec) pureResult(c *Call, st *State) *Term {
	args := make([]*Term, len(c.args))
	for i, a := range c.args {
		args[i] = st.snapshotArg(a, x.argType(c, i))
	}
	if t := x.u.foldStrings(c.name, args); t != nil {
		return t
	}
	return x.typed(x.u.call(c.name, nil, args...), c)
}

// foldStrings evaluates string functions of constants.
func (u *Universe) foldStrings(name string, args []*Term) *Term {
	if !strings.HasPrefix(name, "strings.") || len(args) == 0 || len(args) > 2 {
		return nil
	}
	var s [2]string
	for i, a := range args {
		v, ok := a.strConst()
		if !ok {
			return nil
		}
		s[i] = v
	}
	switch strings.TrimPrefix(name, "strings.") {
	case "ToUpper":
		return u.str(strings.ToUpper(s[0]))
	case "TrimSpace":
		return u.str(strings.TrimSpace(s[0]))
	case "HasPrefix":
		return u.boolean(strings.HasPrefix(s[0], s[1]))
	case "HasSuffix":
		return u.boolean(strings.HasSuffix(s[0], s[1]))
	case "Contains":
		return u.boolean(strings.Contains(s[0], s[1]))
	case "EqualFold":
		return u.boolean(strings.EqualFold(s[0], s[1]))
	case "Index":
		return u.num(int64(strings.Index(s[0], s[1])))
	case "TrimPrefix":
		return u.str(strings.TrimPrefix(s[0], s[1]))
	case "TrimSuffix":
		return u.str(strings.TrimSuffix(s[0], s[1]))
	}
	return nil
}

func (x *Exec) argType(c *Call, i int) types.Type {
	if c.sig == nil {
		return nil
	}
	j := i
	if c.sig.Recv() != nil || c.iface {
		if i == 0 {
			if c.sig.Recv() != nil {
				return c.sig.Recv().Type()
			}
			return nil
		}
		j = i - 1
	}
	if j < c.sig.Params().Len() {
		return c.sig.Params().At(j).Type()
	}
	return nil
}

// opaque models a call without a known body.
func (x *Exec) opaque(c *Call, st *State) []*Outcome {
	var outs []*Outcome
	n := x.u.nonce(c.ctx, c.in, "call "+short(c.name))
	if x.rec > 0 && !x.spec.noPanic {
		outs = append(outs, &Outcome{st: st.clone(), kind: KPanic, ret: x.u.sym("panic")})
	}
	// callbacks may run
	for _, a := range c.args {
		t := a
		if t.op == OIface {
			t = t.a[0]
		}
		if (t.op == OClosure || t.op == OFunc) && t.fn != nil && inRepo(t.fn) {
			st0 := st.clone()
			args := x.freshArgs(c, t.fn)
			for _, o := range x.callValue(c, t, args, st0, c.args...) {
				if o.kind == KRet {
					for _, b := range c.args {
						o.st.havoc(b, n)
					}
					outs = append(outs, &Outcome{st: o.st, ret: x.typed(n, c)})
				} else {
					outs = append(outs, o)
				}
			}
		}
	}
	for _, a := range c.args {
		st.havoc(a, n)
	}
	outs = append(outs, &Outcome{st: st, ret: x.typed(n, c)})
	return outs
}

func (x *Exec) freshArgs(c *Call, fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		n := x.u.nonce(c.ctx, c.in, fmt.Sprintf("cb%d %s", i, p.Name()))
		if n.t == nil {
			n.t = p.Type()
		}
		args = append(args, n)
	}
	return args
}

// dynamic calls every repository function the value may denote.
func (x *Exec) dynamic(c *Call, st *State) []*Outcome {
	var outs []*Outcome
	n := 0
	for _, g := range x.p.addrT {
		if g.Signature.Recv() != nil || len(g.FreeVars) > 0 || !types.Identical(g.Signature, c.sig) {
			continue
		}
		rec := false
		for _, f := range x.fns {
			if f == g {
				rec = true
			}
		}
		if rec {
			continue
		}
		n++
		cc := *c
		cc.fn = g
		cc.name = fname(g)
		cc.fv = nil
		outs = append(outs, x.dispatchInner(&cc, st.clone())...)
	}
	if n == 0 {
		return x.opaque(c, st)
	}
	return outs
}

func (x *Exec) dispatchInner(c *Call, st *State) []*Outcome {
	if x.spec.pre != nil {
		x.spec.pre(c, st)
	}
	outs := x.dispatch(c, st)
	if x.spec.post != nil {
		for _, o := range outs {
			x.spec.post(c, o)
		}
	}
	return outs
}

// ---- panics and defers --------------------------------------------------

// runDefers executes the pending deferred calls of a normal return.
func (f *frame) runDefers(c *config) {
	type item struct {
		st  *State
		def *deferRec
	}
	work := []item{{c.st, c.def}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.def == nil {
			env := cloneEnv(c.env)
			f.push(&config{b: c.b, i: c.i + 1, st: it.st, env: env})
			continue
		}
		cl := *it.def.call
		cl.roots = append(envTerms(c.env), it.def.prev.terms()...)
		for _, o := range f.x.exec(&cl, it.st) {
			switch o.kind {
			case KRet:
				work = append(work, item{o.st, it.def.prev})
			case KPanic:
				cc := *c
				cc.def = it.def.prev
				f.panicExit(&cc, o.st, o.ret)
			case KExit:
				f.emit(o)
			}
		}
	}
}

// panicExit unwinds the frame.
func (f *frame) panicExit(c *config, st *State, val *Term) {
	u := f.x.u
	if val == nil {
		val = u.sym("panic")
	}
	type item struct {
		st        *State
		def       *deferRec
		panicking bool
	}
	work := []item{{st, c.def, true}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.def == nil {
			if it.panicking {
				f.emit(&Outcome{st: it.st, kind: KPanic, ret: u.sym("panic")})
			} else if f.fn.Recover != nil {
				env := map[ssa.Value]*Term{}
				for k, v := range c.env {
					env[k] = v
				}
				f.push(&config{b: f.fn.Recover, st: it.st, env: env})
			} else {
				var ts []*Term
				rs := f.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					ts = append(ts, u.zero(rs.At(i).Type()))
				}
				var ret *Term
				if len(ts) == 1 {
					ret = ts[0]
				} else if len(ts) > 1 {
					ret = u.tuple(ts...)
				}
				f.emit(&Outcome{st: it.st, kind: KRet, ret: ret})
			}
			continue
		}
		if it.panicking {
			it.st.mon["$panic"] = u.sym("panic")
		} else {
			delete(it.st.mon, "$panic")
		}
		cl := *it.def.call
		cl.roots = append(envTerms(c.env), it.def.prev.terms()...)
		for _, o := range f.x.exec(&cl, it.st) {
			_, still := o.st.mon["$panic"]
			delete(o.st.mon, "$panic")
			switch o.kind {
			case KRet:
				work = append(work, item{o.st, it.def.prev, it.panicking && still})
			case KPanic:
				work = append(work, item{o.st, it.def.prev, true})
			case KExit:
				f.emit(o)
			}
		}
	}
}
