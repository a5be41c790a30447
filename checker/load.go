package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/libregraph/idm"

// Program is the resolved program under analysis.
type Program struct {
	constGlobals map[string]*ssa.Const
	repo         string
	pkgs         []*packages.Package
	prog         *ssa.Program
	fset         *token.FileSet
	byPkg        map[string]*ssa.Package
	built        map[*ssa.Package]bool
	funcs        []*ssa.Function // all functions of the repository, including closures
	loops        map[*ssa.Function]*loopInfo
	live         map[*ssa.Function]*liveInfo
	addrT        []*ssa.Function // repository functions whose address is taken
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadEnv() []string {
	env := os.Environ()
	path := os.Getenv("PATH")
	for _, d := range []string{"/opt/veriftools/go1.23.12/bin"} {
		if _, err := os.Stat(d); err == nil {
			path = d + ":" + path
		}
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly -buildvcs=false", "CGO_ENABLED=1", "GOWORK=off")
}

func loadProgram(tags string) (*Program, error) {
	repo := repoDir()
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedDeps
	cfg := &packages.Config{Mode: mode, Dir: repo, Env: loadEnv()}
	for _, kv := range cfg.Env {
		if strings.HasPrefix(kv, "PATH=") {
			os.Setenv("PATH", strings.TrimPrefix(kv, "PATH="))
		}
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(ps) < 10 {
		return nil, fmt.Errorf("only %d packages found in %s", len(ps), repo)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{repo: repo, pkgs: ps, prog: prog, fset: prog.Fset, byPkg: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, loops: map[*ssa.Function]*loopInfo{}, live: map[*ssa.Function]*liveInfo{}}
	for _, sp := range prog.AllPackages() {
		p.byPkg[sp.Pkg.Path()] = sp
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			p.build(sp)
		}
	}
	p.collect()
	p.findConstGlobals()
	return p, nil
}

func (p *Program) build(sp *ssa.Package) {
	if sp != nil && !p.built[sp] {
		p.built[sp] = true
		sp.Build()
	}
}

// ensureBody builds the package of an external function and reports whether it has a body.
func (p *Program) ensureBody(fn *ssa.Function) bool {
	if len(fn.Blocks) > 0 {
		return true
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg != nil {
		p.build(o.Pkg)
	}
	return len(fn.Blocks) > 0
}

// findConstGlobals finds the package variables that only ever hold one constant: they are
// written once, by the package initialiser, and otherwise only read.
func (p *Program) findConstGlobals() {
	p.constGlobals = map[string]*ssa.Const{}
	bad := map[*ssa.Global]bool{}
	vals := map[*ssa.Global]*ssa.Const{}
	fns := append([]*ssa.Function(nil), p.funcs...)
	for path, sp := range p.byPkg {
		if strings.HasPrefix(path, modPath) && sp.Func("init") != nil {
			fns = append(fns, sp.Func("init"))
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && st.Val != st.Addr {
						v := st.Val
						for {
							if c, ok := v.(*ssa.Convert); ok {
								v = c.X
							} else if c, ok := v.(*ssa.ChangeType); ok {
								v = c.X
							} else {
								break
							}
						}
						if c, ok := v.(*ssa.Const); ok && vals[g] == nil && fn.Name() == "init" && !c.IsNil() {
							vals[g] = c
							continue
						}
						bad[g] = true
						continue
					}
				}
				if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for g, c := range vals {
		if !bad[g] && !types.IsInterface(g.Type().Underlying().(*types.Pointer).Elem()) {
			p.constGlobals[g.String()] = c
		}
	}
}

func (p *Program) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for path, sp := range p.byPkg {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == sp {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	p.findRoles()
	taken := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee && !isArg(in, *op) {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						taken[g] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for f := range taken {
		p.addrT = append(p.addrT, f)
	}
	sort.Slice(p.addrT, func(i, j int) bool { return p.addrT[i].String() < p.addrT[j].String() })
}

func isArg(in ssa.Instruction, v ssa.Value) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	for _, a := range c.Common().Args {
		if a == v {
			return true
		}
	}
	return false
}

func inRepo(fn *ssa.Function) bool { return strings.HasPrefix(pkgPath(fn), modPath) }

// pkgPath is the package a function was written in.
func pkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

// fname is the name under which models and rules refer to a function.
func fname(fn *ssa.Function) string {
	if n := roleNames[fn]; n != "" {
		return n
	}
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// nearest position in the block
	b := in.Block()
	best := token.NoPos
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			best = i.Pos()
		}
		if i == in && best.IsValid() {
			break
		}
	}
	if best.IsValid() {
		return p.pos(best)
	}
	return p.pos(b.Parent().Pos())
}

// fn finds a package level function of the repository or a dependency.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.byPkg[pkg]
	if sp == nil {
		return nil
	}
	p.build(sp)
	return sp.Func(name)
}

// method finds the method of a named type.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) namedType(pkg, name string) types.Type {
	sp := p.byPkg[pkg]
	if sp == nil {
		return nil
	}
	m, _ := sp.Members[name].(*ssa.Type)
	if m == nil {
		return nil
	}
	return m.Type()
}

// ---- loops --------------------------------------------------------------

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	heads map[*ssa.BasicBlock]*loop
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, q := range x.Preds {
						if !l.body[q] {
							l.body[q] = true
							stack = append(stack, q)
						}
					}
				}
			}
		}
	}
	p.loops[fn] = li
	return li
}

// inductive reports whether an integer or string phi at a loop head depends on itself.
func inductive(phi *ssa.Phi, l *loop) bool {
	type key struct {
		v   ssa.Value
		bin bool
	}
	seen := map[key]bool{}
	var dep func(v ssa.Value, bin bool) bool
	dep = func(v ssa.Value, bin bool) bool {
		if v == phi {
			return bin
		}
		if seen[key{v, bin}] {
			return false
		}
		seen[key{v, bin}] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			return false
		}
		switch v := v.(type) {
		case *ssa.BinOp:
			return dep(v.X, true) || dep(v.Y, true)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if dep(e, bin) {
					return true
				}
			}
		case *ssa.Convert:
			return dep(v.X, bin)
		}
		return false
	}
	for i, e := range phi.Edges {
		if l.body[phi.Block().Preds[i]] && e != ssa.Value(phi) {
			if _, ok := e.(*ssa.Phi); ok || isBin(e) {
				if dep(e, false) {
					return true
				}
			}
		}
	}
	return false
}

func isBin(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.Convert:
		return isBin(v.X)
	}
	return false
}

// ---- liveness -----------------------------------------------------------

type liveInfo struct {
	in    map[*ssa.BasicBlock][]ssa.Value // live at block entry (after the phis)
	after map[ssa.Instruction][]ssa.Value
	order map[ssa.Value]int
}

func (p *Program) liveOf(fn *ssa.Function) *liveInfo {
	if l, ok := p.live[fn]; ok {
		return l
	}
	li := &liveInfo{in: map[*ssa.BasicBlock][]ssa.Value{}, after: map[ssa.Instruction][]ssa.Value{}, order: map[ssa.Value]int{}}
	n := 0
	add := func(v ssa.Value) { li.order[v] = n; n++ }
	for _, q := range fn.Params {
		add(q)
	}
	for _, q := range fn.FreeVars {
		add(q)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	tracked := func(v ssa.Value) bool { _, ok := li.order[v]; return ok }
	type set map[ssa.Value]bool
	liveIn := map[*ssa.BasicBlock]set{}
	for _, b := range fn.Blocks {
		liveIn[b] = set{}
	}
	blockOutFix := func(b *ssa.BasicBlock) set {
		out := set{}
		for _, s := range b.Succs {
			one := set{}
			for v := range liveIn[s] {
				one[v] = true
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				delete(one, phi)
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range s.Preds {
					if q == b && tracked(phi.Edges[i]) {
						one[phi.Edges[i]] = true
					}
				}
			}
			for v := range one {
				out[v] = true
			}
		}
		return out
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := blockOutFix(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(liveIn[b]) {
				liveIn[b] = cur
				changed = true
			}
		}
	}
	sorted := func(s set) []ssa.Value {
		r := make([]ssa.Value, 0, len(s))
		for v := range s {
			r = append(r, v)
		}
		sort.Slice(r, func(i, j int) bool { return li.order[r[i]] < li.order[r[j]] })
		return r
	}
	for _, b := range fn.Blocks {
		li.in[b] = sorted(liveIn[b])
		cur := blockOutFix(b)
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			in := b.Instrs[j]
			if _, ok := in.(ssa.CallInstruction); ok {
				li.after[in] = sorted(cur)
			}
			if v, ok := in.(ssa.Value); ok {
				delete(cur, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil && tracked(*op) {
					cur[*op] = true
				}
			}
		}
	}
	p.live[fn] = li
	return li
}

// reaching computes the functions that may, directly or through calls,
// execute an instruction accepted by event.
func (p *Program) reaching(event func(ssa.Instruction) bool) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	res := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range p.funcs {
		hit := false
		var ops []*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if event(in) {
					hit = true
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if g, ok := (*o).(*ssa.Function); ok {
						callers[g] = append(callers[g], fn)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					for _, g := range p.implementers(cc) {
						callers[g] = append(callers[g], fn)
					}
				} else if cc.StaticCallee() == nil {
					if _, b := cc.Value.(*ssa.Builtin); !b {
						for _, g := range p.addrT {
							if types.Identical(g.Signature, cc.Signature()) {
								callers[g] = append(callers[g], fn)
							}
						}
					}
				}
			}
		}
		if hit {
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if res[fn] {
			continue
		}
		res[fn] = true
		work = append(work, callers[fn]...)
	}
	return res
}

// implementers lists the repository methods an interface call may reach.
func (p *Program) implementers(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, fn := range p.funcs {
		r := fn.Signature.Recv()
		if r != nil && fn.Name() == cc.Method.Name() && types.Implements(r.Type(), iface) {
			out = append(out, fn)
		}
	}
	return out
}
