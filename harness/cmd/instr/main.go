// Command instr copies packages with every statement preceded by a scheduling point,
// and package sync replaced with vsync.
//
//	instr SRC DST [file.go ...]
//
// Test files and examples are left out. With names of files, only these are changed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const alias = "verifsync_"

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	only := map[string]bool{}
	for _, f := range os.Args[3:] {
		only[f] = true
	}
	die(filepath.WalkDir(src, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		name := d.Name()
		if d.IsDir() {
			if rel != "." && (name[0] == '.' || name[0] == '_' || name == "testdata" || name == "examples") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if name != "go.mod" && name != "go.sum" && !strings.HasSuffix(name, ".s") &&
			(!strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go")) {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasSuffix(name, ".go") && (len(only) == 0 || only[name]) {
			if data, err = instrument(path, data); err != nil {
				return err
			}
		}
		return os.WriteFile(filepath.Join(dst, rel), data, 0o644)
	}))
}

type rewriter struct {
	used bool // vsync is used
	n    int
}

// instrument returns the changed source of a file.
func instrument(path string, data []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, data, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var head bytes.Buffer
	for _, line := range strings.Split(string(data[:fset.Position(f.Package).Offset]), "\n") {
		if strings.HasPrefix(line, "//go:build") || strings.HasPrefix(line, "// +build") {
			head.WriteString(line + "\n\n")
		}
	}
	w := &rewriter{}
	names := map[string]string{} // of packages, by path
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		name := p[strings.LastIndex(p, "/")+1:]
		if imp.Name != nil {
			name = imp.Name.Name
		}
		names[p] = name
		if p == "sync" {
			imp.Path.Value = `"vp/vsync"`
			imp.Name = ast.NewIdent(name)
		}
	}
	keep := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return true
		}
		if id.Name == names["runtime"] && sel.Sel.Name == "Gosched" {
			id.Name, w.used = alias, true
			keep["runtime"] = names["runtime"] + ".GOOS"
		} else if id.Name == names["time"] && sel.Sel.Name == "Sleep" {
			id.Name, w.used = alias, true
			keep["time"] = names["time"] + ".Second"
		}
		return true
	})
	c := &channels{w: w, info: typed(fset, path, f), ops: map[ast.Node]*chanOp{}}
	c.walk(reflect.ValueOf(f.Decls))
	for _, d := range f.Decls {
		w.walk(d)
	}
	var buf bytes.Buffer
	buf.Write(head.Bytes())
	f.Comments = nil
	f.Doc = nil
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	out := buf.String()
	for _, expr := range keep {
		out += "\nvar _ = " + expr + "\n"
	}
	if w.used {
		i := strings.Index(out, "package "+f.Name.Name) + len("package "+f.Name.Name)
		out = out[:i] + "\n\nimport " + alias + ` "vp/vsync"` + out[i:]
	}
	return []byte(out), nil
}

func (w *rewriter) walk(n ast.Node) {
	switched := map[*ast.BlockStmt]bool{}
	loops := map[*ast.BlockStmt]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			switched[n.Body] = true
		case *ast.TypeSwitchStmt:
			switched[n.Body] = true
		case *ast.SelectStmt:
			switched[n.Body] = true
		case *ast.ForStmt:
			loops[n.Body] = true
		case *ast.RangeStmt:
			loops[n.Body] = true
		case *ast.BlockStmt:
			if !switched[n] {
				n.List = w.list(n.List)
				if loops[n] && len(n.List) == 0 {
					n.List = []ast.Stmt{w.yield()}
				}
			}
		case *ast.CaseClause:
			n.Body = w.list(n.Body)
		case *ast.CommClause:
			n.Body = w.list(n.Body)
		}
		return true
	})
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent(name)},
		Args: args,
	}
}

func (w *rewriter) yield() ast.Stmt {
	w.used = true
	return &ast.ExprStmt{X: call("Yield")}
}

func (w *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if g, ok := s.(*ast.GoStmt); ok {
			s = w.spawn(g)
		}
		out = append(out, w.yield(), s)
	}
	return out
}

var builtins = map[string]bool{
	"append": true, "cap": true, "close": true, "copy": true, "delete": true, "len": true,
	"panic": true, "print": true, "println": true, "clear": true,
}

// spawn evaluates the function and its arguments and passes a closure to vsync.Go.
func (w *rewriter) spawn(g *ast.GoStmt) ast.Stmt {
	w.used = true
	var stmts []ast.Stmt
	hold := func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.BasicLit:
			return e
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" || builtins[x.Name] {
				return e
			}
		}
		id := fmt.Sprintf("%s%d", alias, w.n)
		w.n++
		stmts = append(stmts, &ast.AssignStmt{
			Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{e},
		})
		return ast.NewIdent(id)
	}
	c := &ast.CallExpr{Fun: hold(g.Call.Fun)}
	for _, a := range g.Call.Args {
		c.Args = append(c.Args, hold(a))
	}
	if g.Call.Ellipsis.IsValid() {
		c.Ellipsis = 1
	}
	body := &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}},
	}
	stmts = append(stmts, &ast.ExprStmt{X: call("Go", body)})
	return &ast.BlockStmt{List: stmts}
}
