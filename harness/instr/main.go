// Command instr writes a `go build -overlay` file for the given packages of the
// library under test. Every non-test Go file is parsed from the current working
// tree and rewritten: the imports sync, sync/atomic and time are redirected to
// the shims, a scheduling point is inserted before every statement, and `go
// func(){...}()` goes through the scheduler. Nothing else changes.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"sync":        "verif.local/h/shim/vsync",
	"sync/atomic": "verif.local/h/shim/vatomic",
	"time":        "verif.local/h/shim/vtime",
}

func main() {
	repo := flag.String("repo", "/repo", "library")
	out := flag.String("out", "", "output directory")
	stmts := flag.Bool("stmts", true, "insert scheduling points before statements")
	flag.Parse()
	repl := map[string]string{}
	points := 0
	pkgs := flag.Args()
	if len(pkgs) == 0 {
		// Every package of the module.
		err := filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.IsDir() {
				if n := d.Name(); p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
					return filepath.SkipDir
				}
				rel, _ := filepath.Rel(*repo, p)
				pkgs = append(pkgs, rel)
			}
			return nil
		})
		if err != nil {
			fail(err)
		}
	}
	for _, pkg := range pkgs {
		files, err := filepath.Glob(filepath.Join(*repo, pkg, "*.go"))
		if err != nil {
			fail(err)
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, n, err := rewrite(f, *stmts)
			if err != nil {
				fail(fmt.Errorf("%s: %w", f, err))
			}
			points += n
			dst := filepath.Join(*out, pkg, filepath.Base(f))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fail(err)
			}
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				fail(err)
			}
			repl[f] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	fmt.Printf("{\"files\": %d, \"scheduling_points\": %d}\n", len(repl), points)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func rewrite(file string, stmts bool) ([]byte, int, error) {
	fset := token.NewFileSet()
	// Comments are dropped (except build constraints, kept below) so that
	// inserted statements cannot be attached to them.
	full, err := parser.ParseFile(fset, file, nil, parser.ParseComments|parser.PackageClauseOnly)
	if err != nil {
		return nil, 0, err
	}
	var header bytes.Buffer
	for _, cg := range full.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				header.WriteString(c.Text + "\n\n")
			}
		}
	}
	fset = token.NewFileSet()
	af, err := parser.ParseFile(fset, file, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r, ok := redirect[p]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(p[strings.LastIndex(p, "/")+1:])
			}
			im.Path.Value = strconv.Quote(r)
			im.EndPos = 0
		}
	}
	n := 0
	used := false
	yield := func() ast.Stmt {
		n++
		used = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent("Point")}}}
	}
	inject := func(list []ast.Stmt) []ast.Stmt {
		if !stmts {
			return list
		}
		var res []ast.Stmt
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.BranchStmt:
				res = append(res, s)
				continue
			}
			res = append(res, yield(), s)
		}
		return res
	}
	ast.Inspect(af, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			goStmts(x.List, &used)
			if !isClauses(x) {
				x.List = inject(x.List)
			}
		case *ast.CaseClause:
			goStmts(x.Body, &used)
			x.Body = inject(x.Body)
		case *ast.CommClause:
			goStmts(x.Body, &used)
			x.Body = inject(x.Body)
		}
		return true
	})
	var buf bytes.Buffer
	buf.Write(header.Bytes())
	if err := format.Node(&buf, fset, af); err != nil {
		return nil, 0, err
	}
	src := buf.Bytes()
	if used {
		// Add the import textually, right after the package clause.
		fs := token.NewFileSet()
		a2, err := parser.ParseFile(fs, "", src, parser.PackageClauseOnly)
		if err != nil {
			return nil, 0, err
		}
		off := fs.Position(a2.Name.End()).Offset
		var b2 bytes.Buffer
		b2.Write(src[:off])
		b2.WriteString("\n\nimport vsched_ \"verif.local/h/vsched\"\n")
		b2.Write(src[off:])
		src = b2.Bytes()
	}
	return src, n, nil
}

func isClauses(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// goStmts rewrites go statements in place so that the goroutine is started by
// the scheduler; arguments are still evaluated by the go statement.
func goStmts(list []ast.Stmt, used *bool) {
	for i, s := range list {
		g, ok := s.(*ast.GoStmt)
		if !ok {
			continue
		}
		*used = true
		var pre []ast.Stmt
		for k, a := range g.Call.Args {
			if _, lit := a.(*ast.BasicLit); lit {
				continue
			}
			if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
				continue
			}
			v := fmt.Sprintf("vsched_arg%d", k)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			g.Call.Args[k] = ast.NewIdent(v)
		}
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}
		call := &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent("Go")},
			Args: []ast.Expr{body},
		}}
		if len(pre) == 0 {
			list[i] = call
		} else {
			list[i] = &ast.BlockStmt{List: append(pre, call)}
		}
	}
}
