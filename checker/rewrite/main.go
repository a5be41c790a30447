// Command rewrite applies one behaviour-keeping rewriting to every function of a copy of the repository. The checks must
// stay quiet on the result.
//
// usage: rewrite DIR KIND
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var count int

type rewriter struct {
	info *types.Info
	n    int
}

func (r *rewriter) name(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s%d", s, r.n))
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

// ends: control never leaves the block at its end.
func ends(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

func hasLabel(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			found = true
		}
		return !found
	})
	return found
}

func (r *rewriter) apply(kind string, f *ast.File) {
	switch kind {
	case "invert": // if c {A} else {B}: the branches in the other order
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					count++
					s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
				}
			}
			return true
		})
	case "else": // if c {return}; rest: the rest in an else branch
		var list func(l []ast.Stmt) []ast.Stmt
		list = func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				s, ok := s.(*ast.IfStmt)
				if !ok || s.Else != nil || !ends(s.Body) || i == len(l)-1 {
					continue
				}
				labels := false
				for _, q := range l[i+1:] {
					labels = labels || hasLabel(q)
				}
				if labels {
					continue
				}
				count++
				s.Else = &ast.BlockStmt{List: list(append([]ast.Stmt{}, l[i+1:]...))}
				return l[:i+1]
			}
			return l
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				n.List = list(n.List)
			case *ast.CaseClause:
				n.Body = list(n.Body)
			case *ast.CommClause:
				n.Body = list(n.Body)
			}
			return true
		})
	case "guard": // if c {A} at the end of a loop: continue if not c
		ast.Inspect(f, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.ForStmt:
				b = n.Body
			case *ast.RangeStmt:
				b = n.Body
			}
			if b == nil || len(b.List) == 0 {
				return true
			}
			s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil {
				return true
			}
			count++
			b.List = append(b.List[:len(b.List)-1], &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
			b.List = append(b.List, s.Body.List...)
			return true
		})
	case "split": // if a && b {A}: if a { if b {A} }
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				count++
				s.Cond = b.X
				s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			}
			return true
		})
	case "cond": // if c: the condition in a variable
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init != nil || c.Index() < 0 {
				return true
			}
			count++
			v := r.name("holds")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
			s.Cond = ast.NewIdent(v.Name)
			return true
		})
	case "init": // if x := f(); c: the initialisation before it
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || s.Init == nil || c.Index() < 0 {
				return true
			}
			count++
			i := s.Init
			s.Init = nil
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{i, s}})
			return true
		})
	case "range": // for i, v := range s: by index
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE || c.Index() < 0 {
				return true
			}
			t := r.info.TypeOf(s.X)
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				return true
			}
			count++
			xs := r.name("list")
			i, _ := s.Key.(*ast.Ident)
			body := s.Body
			if i == nil || i.Name == "_" {
				i = r.name("at")
			} else {
				used := i.Name
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(used)}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(used)}}}, body.List...)
			}
			if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(xs.Name), Index: ast.NewIdent(i.Name)}}}}, body.List...)
			}
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{xs}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}})
			c.Replace(&ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(i.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: ast.NewIdent(i.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(xs.Name)}}},
				Post: &ast.IncDecStmt{X: ast.NewIdent(i.Name), Tok: token.INC},
				Body: body,
			})
			return true
		})
	case "switch": // switch x {...}: a chain of ifs
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Init != nil || c.Index() < 0 {
				return true
			}
			bad := false
			ast.Inspect(s.Body, func(n ast.Node) bool {
				if b, ok := n.(*ast.BranchStmt); ok && (b.Tok == token.FALLTHROUGH || b.Tok == token.BREAK && b.Label == nil) {
					bad = true
				}
				return true
			})
			if bad || len(s.Body.List) == 0 {
				return true
			}
			if s.Tag != nil {
				if tv := r.info.Types[s.Tag]; tv.Value != nil {
					return true
				}
			}
			count++
			var tag *ast.Ident
			if s.Tag != nil {
				tag = r.name("tag")
			}
			var last ast.Stmt
			var clauses []*ast.CaseClause
			for _, cl := range s.Body.List {
				cl := cl.(*ast.CaseClause)
				if cl.List == nil {
					last = &ast.BlockStmt{List: cl.Body}
				} else {
					clauses = append(clauses, cl)
				}
			}
			for i := len(clauses) - 1; i >= 0; i-- {
				var cond ast.Expr
				for _, e := range clauses[i].List {
					var one ast.Expr = &ast.ParenExpr{X: e}
					if tag != nil {
						one = &ast.BinaryExpr{X: ast.NewIdent(tag.Name), Op: token.EQL, Y: one}
					}
					if cond == nil {
						cond = one
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
					}
				}
				last = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: clauses[i].Body}, Else: last}
			}
			if tag != nil {
				c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{tag}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}})
			}
			c.Replace(last)
			return true
		})
	case "return": // return f(x): the results in variables
		var results []*ast.FieldList
		astutil.Apply(f, func(c *astutil.Cursor) bool {
			switch n := c.Node().(type) {
			case *ast.FuncDecl:
				results = append(results, n.Type.Results)
			case *ast.FuncLit:
				results = append(results, n.Type.Results)
			}
			return true
		}, func(c *astutil.Cursor) bool {
			switch n := c.Node().(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				results = results[:len(results)-1]
			case *ast.ReturnStmt:
				res := results[len(results)-1]
				if len(n.Results) == 0 || res == nil || c.Index() < 0 {
					return true
				}
				var ts []ast.Expr
				for _, f := range res.List {
					k := len(f.Names)
					if k == 0 {
						k = 1
					}
					for ; k > 0; k-- {
						ts = append(ts, f.Type)
					}
				}
				count++
				var vs, us []ast.Expr
				for _, t := range ts {
					v := r.name("res")
					vs = append(vs, v)
					us = append(us, ast.NewIdent(v.Name))
					c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(v.Name)}, Type: t}}}})
				}
				c.InsertBefore(&ast.AssignStmt{Lhs: vs, Tok: token.ASSIGN, Rhs: n.Results})
				n.Results = us
			}
			return true
		})
	case "wrap": // every function calls another one with its body
		var more []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
				continue
			}
			count++
			call := &ast.CallExpr{Fun: ast.NewIdent(fd.Name.Name + "Inner")}
			var recv *ast.FieldList
			if fd.Recv != nil {
				q := fd.Recv.List[0]
				if len(q.Names) == 0 || q.Names[0].Name == "_" {
					q.Names = []*ast.Ident{ast.NewIdent("recv0")}
				}
				recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{ast.NewIdent(q.Names[0].Name)}, Type: q.Type}}}
				call.Fun = &ast.SelectorExpr{X: ast.NewIdent(q.Names[0].Name), Sel: ast.NewIdent(fd.Name.Name + "Inner")}
			}
			typ := &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}
			outer := &ast.FuncType{Params: &ast.FieldList{}, Results: nil}
			for _, p := range fd.Type.Params.List {
				names := p.Names
				if len(names) == 0 {
					names = []*ast.Ident{ast.NewIdent("_")}
				}
				for _, m := range names {
					o := m.Name
					if o == "_" {
						o = r.name("arg").Name
					}
					typ.Params.List = append(typ.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(m.Name)}, Type: p.Type})
					outer.Params.List = append(outer.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(o)}, Type: p.Type})
					call.Args = append(call.Args, ast.NewIdent(o))
					if _, ok := p.Type.(*ast.Ellipsis); ok {
						call.Ellipsis = 1
					}
				}
			}
			var st ast.Stmt = &ast.ExprStmt{X: call}
			if fd.Type.Results != nil {
				st = &ast.ReturnStmt{Results: []ast.Expr{call}}
				outer.Results = &ast.FieldList{}
				for _, q := range fd.Type.Results.List {
					k := len(q.Names)
					if k == 0 {
						k = 1
					}
					for ; k > 0; k-- {
						outer.Results.List = append(outer.Results.List, &ast.Field{Type: q.Type})
					}
				}
			}
			more = append(more, &ast.FuncDecl{Recv: recv, Name: ast.NewIdent(fd.Name.Name + "Inner"), Type: typ, Body: fd.Body})
			fd.Type, fd.Body = outer, &ast.BlockStmt{List: []ast.Stmt{st}}
		}
		f.Decls = append(f.Decls, more...)
	case "arg": // f(g(x)): the inner call in a variable, where it is the first thing evaluated
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if c.Index() < 0 {
				return true
			}
			var call *ast.CallExpr
			switch s := c.Node().(type) {
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
				for _, l := range s.Lhs {
					if _, ok := l.(*ast.Ident); !ok {
						call = nil
					}
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					call, _ = s.Results[0].(*ast.CallExpr)
				}
			}
			if call == nil {
				return true
			}
			fun := call.Fun
			if q, ok := fun.(*ast.SelectorExpr); ok {
				fun = q.X
			}
			if _, ok := fun.(*ast.Ident); !ok {
				return true
			}
			for i, a := range call.Args {
				switch a := a.(type) {
				case *ast.Ident, *ast.BasicLit:
					continue
				case *ast.CallExpr:
					if tv := r.info.Types[a]; tv.Type == nil || tv.Value != nil || tv.IsVoid() {
						return true
					} else if _, ok := tv.Type.(*types.Tuple); ok {
						return true
					}
					if i > 0 {
						for _, b := range call.Args[:i] {
							if _, ok := b.(*ast.BasicLit); !ok {
								return true
							}
						}
					}
					count++
					v := r.name("value")
					c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
					call.Args[i] = ast.NewIdent(v.Name)
					return true
				default:
					return true
				}
			}
			return true
		})
	default:
		panic("unknown rewriting " + kind)
	}
}

func main() {
	dir, kind := os.Args[1], os.Args[2]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo, Dir: dir}
	cfg.ParseFile = func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
		return parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasPrefix(name, dir) {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			var b bytes.Buffer
			if bytes.HasPrefix(src, []byte("//go:build")) {
				b.Write(src[:bytes.IndexByte(src, '\n')+1])
				b.WriteString("\n")
			}
			r := &rewriter{info: p.TypesInfo}
			r.apply(kind, f)
			if err := format.Node(&b, p.Fset, f); err != nil {
				panic(name + ": " + err.Error())
			}
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println(kind, count, "places")
}
