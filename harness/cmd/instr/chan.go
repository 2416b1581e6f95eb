package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"
)

// channels replaces operations on channels with those of vsync. What has types of other
// packages is not known: only local types are resolved.
type channels struct {
	w    *rewriter
	info *types.Info
	ops  map[ast.Node]*chanOp
}

type chanOp struct {
	recv bool
	ch   ast.Expr
	v    ast.Expr
}

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported: %s", path)
}

// typed returns what is known of the types of a file that is part of the package in its
// directory.
func typed(fset *token.FileSet, path string, f *ast.File) *types.Info {
	files := []*ast.File{f}
	names, _ := filepath.Glob(filepath.Join(filepath.Dir(path), "*.go"))
	for _, name := range names {
		if name == path || strings.HasSuffix(name, "_test.go") {
			continue
		}
		data, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		g, err := parser.ParseFile(fset, name, data, parser.SkipObjectResolution)
		if err == nil && g.Name.Name == f.Name.Name {
			files = append(files, g)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: noImporter{}, Error: func(error) {}, FakeImportC: true}
	conf.Check(f.Name.Name, fset, files, info) //nolint:errcheck
	return info
}

func (c *channels) isChan(e ast.Expr) bool {
	t := c.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (c *channels) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = c.info.Uses[id].(*types.Builtin)
	return ok
}

func (c *channels) temp() *ast.Ident {
	id := ast.NewIdent(fmt.Sprintf("%s%d", alias, c.w.n))
	c.w.n++
	return id
}

// walk replaces what is below v, from the bottom.
func (c *channels) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		c.walk(v.Elem())
		if to := c.replace(n); to != nil && reflect.TypeOf(to).AssignableTo(v.Type()) {
			v.Set(reflect.ValueOf(to))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return
		}
		c.walk(v.Elem())
		// fields whose type is not an interface
		if n, ok := v.Interface().(*ast.CallExpr); ok {
			c.call(n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				c.walk(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
		}
	}
}

// call changes calls in place, since they may follow go and defer.
func (c *channels) call(n *ast.CallExpr) {
	switch {
	case c.builtin(n.Fun, "close") && len(n.Args) == 1:
		c.w.used = true
		n.Fun, n.Args = call("Close", n.Args[0]), nil
	case c.builtin(n.Fun, "make") && len(n.Args) > 0:
		_, ok := n.Args[0].(*ast.ChanType)
		if ok || c.isChan(n.Args[0]) {
			c.w.used = true
			in := &ast.CallExpr{Fun: n.Fun, Args: n.Args}
			n.Fun, n.Args = &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent("Make")}, []ast.Expr{in}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// two makes a receive tell whether the channel was open.
func (c *channels) two(lhs int, rhs []ast.Expr) {
	if lhs == 2 && len(rhs) == 1 {
		if n, ok := unparen(rhs[0]).(*ast.CallExpr); ok && c.ops[n] != nil {
			n.Fun.(*ast.SelectorExpr).Sel.Name = "Recv2"
		}
	}
}

func (c *channels) replace(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			c.w.used = true
			to := call("Recv", n.X)
			c.ops[to] = &chanOp{recv: true, ch: n.X}
			return to
		}
	case *ast.SendStmt:
		c.w.used = true
		to := &ast.ExprStmt{X: &ast.CallExpr{Fun: call("Send", n.Chan), Args: []ast.Expr{n.Value}}}
		c.ops[to] = &chanOp{ch: n.Chan, v: n.Value}
		return to
	case *ast.AssignStmt:
		c.two(len(n.Lhs), n.Rhs)
	case *ast.GenDecl:
		for _, s := range n.Specs {
			if s, ok := s.(*ast.ValueSpec); ok {
				c.two(len(s.Names), s.Values)
			}
		}
	case *ast.RangeStmt:
		if c.isChan(n.X) {
			return c.loop(n)
		}
	case *ast.SelectStmt:
		return c.choice(n)
	}
	return nil
}

// loop changes a loop over a channel.
func (c *channels) loop(n *ast.RangeStmt) ast.Stmt {
	c.w.used = true
	ch, ok := c.temp(), c.temp()
	recv := call("Recv2", ch)
	var list []ast.Stmt
	v := n.Key
	if v == nil {
		v = ast.NewIdent("_")
	}
	if n.Tok == token.ASSIGN {
		list = append(list, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
			&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv}})
	} else {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
	}
	list = append(list, &ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: ok},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}},
	})
	// the body may declare the same names again
	list = append(list, n.Body)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}},
		Body: &ast.BlockStmt{List: list},
	}
}

// choice changes a select statement to a switch.
func (c *channels) choice(n *ast.SelectStmt) ast.Stmt {
	c.w.used = true
	var names, values []ast.Expr
	args := []ast.Expr{ast.NewIdent("false")}
	var clauses []ast.Stmt
	def := false
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			args[0] = ast.NewIdent("true")
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		id := c.temp()
		body := cc.Body
		var make_ ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.ExprStmt:
			if op := c.ops[s]; op != nil {
				make_ = &ast.CallExpr{Fun: call("Sending", op.ch), Args: []ast.Expr{op.v}}
			} else {
				make_ = call("Receiving", c.ops[unparen(s.X)].ch)
			}
		case *ast.AssignStmt:
			make_ = call("Receiving", c.ops[unparen(s.Rhs[0])].ch)
			as := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok}
			for _, f := range []string{"V", "OK"}[:len(s.Lhs)] {
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: id, Sel: ast.NewIdent(f)})
			}
			body = append([]ast.Stmt{as}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(len(names))}},
			Body: body,
		})
		names, values, args = append(names, id), append(values, make_), append(args, id)
	}
	if !def {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
			Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"no case"`}}}}}})
	}
	sw := &ast.SwitchStmt{Tag: call("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: values}
	}
	return sw
}
