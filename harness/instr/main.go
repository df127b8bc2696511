// instr prepares the code under test for schedule exploration, without
// touching it: it writes copies of the Go files of the given packages in which
// every statement is preceded by a scheduling point (vsched.Y) and "sync" is
// replaced by a shim whose blocking is visible to testing/synctest, and an
// overlay file for "go build -overlay".
//
//	instr [-time] <repo> <outdir> <package dir>...
//
// With -time nothing is scheduled; only the clock (time.Now, timers) is
// replaced by verif/vtime.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

func main() {
	args := os.Args[1:]
	timeOnly := args[0] == "-time"
	if timeOnly {
		args = args[1:]
	}
	repo, out := args[0], args[1]
	overlay := map[string]string{}
	for _, pkg := range args[2:] {
		dir := filepath.Join(repo, pkg)
		p, err := build.ImportDir(dir, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, name := range p.GoFiles {
			src := filepath.Join(dir, name)
			f := instrument
			if timeOnly {
				f = clock
			}
			b, err := f(src)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			dst := filepath.Join(out, "overlay", pkg, name)
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				panic(err)
			}
			overlay[src] = dst
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
}

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("Y")}}}
}

func spread(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
		default:
			out = append(out, point(), s)
		}
	}
	return out
}

func instrument(file string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	if err != nil {
		return nil, err
	}
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			n += len(b.List)
			b.List = spread(b.List)
		case *ast.CaseClause:
			n += len(b.Body)
			b.Body = spread(b.Body)
		case *ast.CommClause:
			n += len(b.Body)
			b.Body = spread(b.Body)
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			im.Path.Value = strconv.Quote("verif/vsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	if n > 0 {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/vsched"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

var clockNames = map[string]bool{"Now": true, "Since": true, "Until": true, "AfterFunc": true, "NewTimer": true, "After": true,
	"Sleep": true, "NewTicker": true, "Tick": true, "Timer": true, "Ticker": true}

func clock(file string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	if err != nil {
		return nil, err
	}
	name := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			name = "time"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	n := 0
	if name != "" && name != "_" && name != "." {
		ast.Inspect(f, func(x ast.Node) bool {
			if s, ok := x.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil && clockNames[s.Sel.Name] {
					id.Name = "vtime"
					n++
				}
			}
			return true
		})
	}
	if n > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("vtime"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/vtime"`}}}}}, f.Decls...)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Second")}}}}})
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}
