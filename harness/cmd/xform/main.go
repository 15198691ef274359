// xform writes a `go build -overlay` file for the module in -repo: every non-test
// source file is rewritten so that package sync is replaced by the injected package
// verifsync (controllable locks) and every go statement goes through verifsync.Go.
// Nothing else about the code under test is changed.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const inj = "verifsync"

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "xform:", err)
		os.Exit(3)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	inject := flag.String("inject", "", "")
	flag.Parse()
	modPath := ""
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			modPath = f[1]
		}
	}
	replace := map[string]string{}
	ents, err := os.ReadDir(*inject)
	die(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go.txt") {
			replace[filepath.Join(*repo, inj, strings.TrimSuffix(e.Name(), ".txt"))] = filepath.Join(*inject, e.Name())
		}
	}
	n := 0
	err = filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			b := filepath.Base(p)
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, changed, err := rewrite(p, src, modPath+"/"+inj)
		if err != nil {
			return err
		}
		if changed {
			dst := filepath.Join(*out, fmt.Sprintf("x%03d_%s", n, filepath.Base(p)))
			n++
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			replace[p] = dst
		}
		return nil
	})
	die(err)
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

func rewrite(name string, src []byte, injPath string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	changed := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" || p == "sync/atomic" {
			if im.Name == nil {
				im.Name = ast.NewIdent(filepath.Base(p))
			}
			im.Path.Value = strconv.Quote(injPath)
			changed = true
		}
	}
	needGo := false
	var fixList func(list []ast.Stmt)
	fix := func(s ast.Stmt) ast.Stmt {
		g, ok := s.(*ast.GoStmt)
		if !ok {
			return s
		}
		needGo = true
		args := []ast.Expr{g.Call.Fun}
		args = append(args, g.Call.Args...)
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:    &ast.SelectorExpr{X: ast.NewIdent("verifgo"), Sel: ast.NewIdent("Go")},
			Args:   args,
			Lparen: g.Go, Rparen: g.Call.Rparen,
			Ellipsis: token.NoPos,
		}}
	}
	fixList = func(list []ast.Stmt) {
		for i := range list {
			list[i] = fix(list[i])
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch v := nd.(type) {
		case *ast.BlockStmt:
			fixList(v.List)
		case *ast.CaseClause:
			fixList(v.Body)
		case *ast.CommClause:
			fixList(v.Body)
		case *ast.LabeledStmt:
			v.Stmt = fix(v.Stmt)
		}
		return true
	})
	// runtime.Gosched and time.Sleep become scheduling points
	local := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "runtime" || p == "time" {
			nm := p
			if im.Name != nil {
				nm = im.Name.Name
			}
			local[nm] = p
		}
	}
	var keep []string
	ast.Inspect(f, func(nd ast.Node) bool {
		if se, ok := nd.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				p := local[id.Name]
				if (p == "runtime" && se.Sel.Name == "Gosched") || (p == "time" && se.Sel.Name == "Sleep") {
					keep = append(keep, id.Name+"."+se.Sel.Name)
					id.Name = "verifgo"
					needGo = true
				}
			}
		}
		return true
	})
	if needGo {
		changed = true
		spec := &ast.ImportSpec{Name: ast.NewIdent("verifgo"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(injPath)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if !changed {
		return nil, false, nil
	}
	// comments are dropped (positions of rewritten statements would confuse the printer),
	// except build constraints
	var head bytes.Buffer
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && c.Pos() < f.Package {
				head.WriteString(c.Text + "\n\n")
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			var keep []*ast.Comment
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:") {
					keep = append(keep, c)
				}
			}
			if keep == nil {
				fd.Doc = nil
			} else {
				fd.Doc.List = keep
			}
		}
	}
	f.Comments = nil
	var buf bytes.Buffer
	buf.Write(head.Bytes())
	cfg := printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
	if err := cfg.Fprint(&buf, fset, f); err != nil {
		return nil, false, err
	}
	for _, k := range keep {
		fmt.Fprintf(&buf, "\nvar _ = %s\n", k)
	}
	return buf.Bytes(), true, nil
}
