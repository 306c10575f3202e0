package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"skipverif/plan"
)

// focus names the exported types whose files are not copies of each other as most of them
// are (up to names, types and the direction of comparisons).  Half of the cases go to them.
// This only steers the generation; a tree without odd ones out is searched evenly.
func focus(b string) string {
	bd := plan.Builds[b]
	repl := map[string]string{}
	base := ""
	if bd.Regen {
		r, err := regenerate()
		if err != nil {
			return ""
		}
		repl = r
		base = filepath.Join(work, "focus-base.json")
		if writeJSON(base, map[string]any{"Replace": repl}) != nil {
			return ""
		}
	}
	ps, err := packages(goEnv(bd), base)
	if err != nil {
		return ""
	}
	byHash := map[string][]string{}
	total := 0
	for _, p := range ps {
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			if r, ok := repl[path]; ok {
				path = r
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return ""
			}
			h, types, err := shape(src)
			if err != nil {
				return ""
			}
			if len(types) > 0 {
				byHash[h] = append(byHash[h], types...)
				total += len(types)
			}
		}
	}
	best := ""
	for h, ts := range byHash {
		if best == "" || len(ts) > len(byHash[best]) {
			best = h
		}
	}
	if best == "" || 2*len(byHash[best]) <= total {
		return ""
	}
	var odd []string
	for h, ts := range byHash {
		if h != best {
			odd = append(odd, ts...)
		}
	}
	sort.Strings(odd)
	return strings.Join(odd, ",")
}

// shape hashes the functions of a file without names, element types and the direction of
// comparisons, and lists the exported types that have methods in it.
func shape(src []byte) (string, []string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "", src, parser.SkipObjectResolution)
	if err != nil {
		return "", nil, err
	}
	names := map[string]string{}
	var funcs []*ast.FuncDecl
	recv := map[string]bool{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if t, ok := s.(*ast.TypeSpec); ok {
					names[t.Name.Name] = fmt.Sprint("t", len(names))
				}
			}
		case *ast.FuncDecl:
			funcs = append(funcs, d)
			if d.Recv == nil {
				names[d.Name.Name] = fmt.Sprint("f", len(names))
			} else if n := baseName(d.Recv.List[0].Type); ast.IsExported(n) {
				recv[n] = true
			}
		}
	}
	h := sha256.New()
	for _, d := range funcs {
		d.Doc = nil
		d.Type.TypeParams = nil
		ast.Inspect(d, func(n ast.Node) bool {
			rewrite(n)
			return true
		})
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), d); err != nil {
			return "", nil, err
		}
		for _, t := range tokens(b.Bytes()) {
			if r, ok := names[t]; ok {
				t = r
			}
			switch t {
			case "T", "int", "int32", "int64", "uint", "uint32", "uint64", "string":
				t = "T"
			case ">":
				t = "<"
			case ">=":
				t = "<="
			case ";", "(", ")":
				continue
			}
			fmt.Fprintln(h, t)
		}
	}
	var ts []string
	for t := range recv {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return string(h.Sum(nil)), ts, nil
}

func baseName(e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.Ident:
			return x.Name
		default:
			return ""
		}
	}
}

// rewrite turns generic types into plain ones and comparisons by a less function into
// operators.
func rewrite(n ast.Node) {
	fix := func(e *ast.Expr) {
		switch x := (*e).(type) {
		case *ast.IndexExpr:
			if id, ok := x.Index.(*ast.Ident); ok && id.Name == "T" {
				*e = x.X
			}
		case *ast.UnaryExpr:
			if l := lessCall(x.X); x.Op == token.NOT && l != nil {
				*e = &ast.BinaryExpr{X: l.Args[1], Op: token.EQL, Y: l.Args[0]}
			}
		case *ast.CallExpr:
			if l := lessCall(x); l != nil {
				*e = &ast.BinaryExpr{X: l.Args[0], Op: token.LSS, Y: l.Args[1]}
			}
		}
	}
	switch x := n.(type) {
	case *ast.BinaryExpr:
		fix(&x.X)
		fix(&x.Y)
	case *ast.StarExpr:
		fix(&x.X)
	case *ast.ParenExpr:
		fix(&x.X)
	case *ast.UnaryExpr:
		fix(&x.X)
	case *ast.Field:
		fix(&x.Type)
	case *ast.ArrayType:
		fix(&x.Elt)
	case *ast.ValueSpec:
		if x.Type != nil {
			fix(&x.Type)
		}
	case *ast.CompositeLit:
		if x.Type != nil {
			fix(&x.Type)
		}
	case *ast.CallExpr:
		fix(&x.Fun)
		for i := range x.Args {
			fix(&x.Args[i])
		}
	case *ast.IfStmt:
		fix(&x.Cond)
	case *ast.ForStmt:
		if x.Cond != nil {
			fix(&x.Cond)
		}
	case *ast.ReturnStmt:
		for i := range x.Results {
			fix(&x.Results[i])
		}
	case *ast.AssignStmt:
		for i := range x.Rhs {
			fix(&x.Rhs[i])
		}
	}
}

func lessCall(e ast.Expr) *ast.CallExpr {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 2 {
		return nil
	}
	if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "less" {
		return c
	}
	return nil
}

func tokens(src []byte) (out []string) {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", fs.Base(), len(src)), src, nil, 0)
	for {
		_, tok, lit := s.Scan()
		switch {
		case tok == token.EOF:
			return out
		case tok == token.SEMICOLON:
		case lit != "":
			out = append(out, lit)
		default:
			out = append(out, tok.String())
		}
	}
}
