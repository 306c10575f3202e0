// Package instr rewrites Go source files of the code under test so that they run under
// the cooperative scheduler: a scheduling point before every statement, modelled locks,
// atomics and random draws, and split read-modify-write of plain fields. Line numbers
// are kept. It looks only at the syntax, so it follows any refactoring.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

// Level of rewriting, from most to least intrusive (a fallback when one does not compile).
type Level int

const (
	Full    Level = iota // everything
	NoSplit              // no splitting of plain read-modify-writes, goroutine starts as they are
	Imports              // only the imports
)

// Replaced packages.
var replaced = map[string][2]string{
	"sync":                               {"sync", "skipverif/shim/vsync"},
	"sync/atomic":                        {"atomic", "skipverif/shim/vatomic"},
	"github.com/zhangyunhao116/fastrand": {"fastrand", "skipverif/shim/vfastrand"},
	"math/rand":                          {"rand", "skipverif/shim/vrand"},
	"math/rand/v2":                       {"rand", "skipverif/shim/vrand2"},
}

type edit struct {
	pos, end int
	text     string
	ord      int
}

type rewriter struct {
	src   []byte
	pkg   map[string]string // local names of imported packages
	keep  map[string]bool   // uses that must remain, or an import would be unused
	comm  map[ast.Node]bool // statements of select cases
	fset  *token.FileSet
	edits []edit
	level Level
	used  bool
	fn    string // enclosing function, for the numbers of its points
	ord   int
	top   map[any]bool // declarations of package variables in this file
}

func (w *rewriter) off(p token.Pos) int { return w.fset.Position(p).Offset }
func (w *rewriter) ins(p token.Pos, s string) {
	w.edits = append(w.edits, edit{w.off(p), w.off(p), s, len(w.edits)})
}
func (w *rewriter) rep(a, b token.Pos, s string) {
	w.edits = append(w.edits, edit{w.off(a), w.off(b), s, len(w.edits)})
}
func (w *rewriter) text(n ast.Node) string { return string(w.src[w.off(n.Pos()):w.off(n.End())]) }

// File rewrites one file.
func File(name string, src []byte, level Level) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	w := &rewriter{src: src, fset: fset, level: level, pkg: map[string]string{}, keep: map[string]bool{}, comm: map[ast.Node]bool{}}
	w.top = map[any]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				w.top[sp] = true
			}
		}
	}
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		if path == "runtime" || path == "time" {
			name := path
			if im.Name != nil {
				name = im.Name.Name
			}
			w.pkg[name] = path
		}
		r, ok := replaced[path]
		if !ok {
			continue
		}
		if im.Name == nil {
			w.rep(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%s %q", r[0], r[1]))
		} else {
			w.rep(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%q", r[1]))
		}
	}
	if level < Imports {
		for _, d := range f.Decls {
			w.fn, w.ord = "", 0
			if fd, ok := d.(*ast.FuncDecl); ok {
				w.fn = fd.Name.Name
				if fd.Body == nil || pragma(fd.Doc) {
					continue
				}
			}
			ast.Inspect(d, w.visit)
		}
	}
	if w.used {
		w.ins(f.Name.End(), `; import vsched__ "skipverif/vsched"`)
	}
	out := w.apply()
	for k := range w.keep {
		out = append(out, ("\nvar _ = " + k + "\n")...)
	}
	return out, nil
}

// pragma: functions with such compiler directives are left alone.
func pragma(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		for _, p := range []string{"//go:nosplit", "//go:linkname", "//go:norace", "//go:nowritebarrier"} {
			if strings.HasPrefix(l.Text, p) {
				return true
			}
		}
	}
	return false
}

// point is a scheduling point. Its number depends on the name of the function and the
// position among the points of it, so copies of a method for different types share them.
func (w *rewriter) point() string {
	h := uint32(2166136261)
	for _, b := range []byte(fmt.Sprint(w.fn, "/", w.ord)) {
		h = (h ^ uint32(b)) * 16777619
	}
	w.ord++
	return fmt.Sprintf("vsched__.S(%d); ", uint16(h^h>>16))
}

func (w *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		w.used = true
		w.ins(s.Pos(), w.point())
	}
}

func (w *rewriter) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		w.list(n.List)
	case *ast.CaseClause:
		w.list(n.Body)
	case *ast.CommClause:
		w.list(n.Body)
		if n.Comm != nil {
			w.comm[n.Comm] = true
			ast.Inspect(n.Comm, func(x ast.Node) bool { // the operation of the case, not those in its operands
				switch x.(type) {
				case *ast.FuncLit:
					return false
				case *ast.UnaryExpr, *ast.SendStmt:
					w.comm[x] = true
				}
				return true
			})
		}
	case *ast.CallExpr:
		if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok {
				switch p := w.pkg[id.Name]; {
				case p == "runtime" && sel.Sel.Name == "Gosched" && len(n.Args) == 0:
					w.used, w.keep[id.Name+".Gosched"] = true, true
					w.rep(n.Fun.Pos(), n.Fun.End(), "vsched__.Yield")
				case p == "time" && sel.Sel.Name == "Sleep" && len(n.Args) == 1:
					w.used, w.keep[id.Name+".Sleep"] = true, true
					w.rep(n.Fun.Pos(), n.Fun.End(), "vsched__.Sleep")
				}
			}
		}
	case *ast.SendStmt:
		if w.level == Full && !w.comm[n] {
			w.used = true
			w.ins(n.Pos(), "vsched__.Send(")
			w.rep(n.Arrow, n.Arrow+2, ",")
			w.ins(n.End(), ")")
		}
	case *ast.UnaryExpr:
		if w.level == Full && n.Op == token.ARROW && !w.comm[n] {
			w.used = true
			w.rep(n.OpPos, n.OpPos+2, "vsched__.Recv(")
			w.ins(n.End(), ")")
		}
	case *ast.ForStmt:
		w.loop(n.Body)
	case *ast.RangeStmt:
		w.loop(n.Body)
	case *ast.IncDecStmt:
		if w.level == Full && w.field(n.X) {
			f := "Inc"
			if n.Tok == token.DEC {
				f = "Dec"
			}
			w.wrap(n, n.X, f, nil)
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.comm[u] = true // left alone
			}
		}
		if w.level != Full || len(n.Lhs) != 1 || len(n.Rhs) != 1 || !w.field(n.Lhs[0]) {
			return true
		}
		fs := map[token.Token]string{token.ADD_ASSIGN: "Add", token.SUB_ASSIGN: "Sub", token.OR_ASSIGN: "Or",
			token.AND_ASSIGN: "And", token.XOR_ASSIGN: "Xor", token.AND_NOT_ASSIGN: "AndNot"}
		if f := fs[n.Tok]; f != "" {
			w.wrap(n, n.Lhs[0], f, n.Rhs[0])
		} else if n.Tok == token.ASSIGN && strings.Contains(w.text(n.Rhs[0]), w.text(n.Lhs[0])) {
			w.wrap(n, n.Lhs[0], "Set", n.Rhs[0])
		}
	case *ast.GoStmt:
		if w.level == Full && len(n.Call.Args) == 0 {
			w.used = true
			w.rep(n.Pos(), n.Call.Pos(), "vsched__.Go(func() { ")
			w.ins(n.End(), " })")
		}
	}
	return true
}

// loop makes sure that a loop without statements has a point.
func (w *rewriter) loop(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		w.used = true
		w.ins(b.Lbrace+1, w.point())
	}
}

// field: an expression that names memory other goroutines may share, and can be addressed.
func (w *rewriter) field(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_" && (e.Obj == nil || w.top[e.Obj.Decl]) // a package variable, of another file or this one
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return w.field(e.X)
	case *ast.IndexExpr:
		return w.field(e.X)
	}
	return false
}

func (w *rewriter) wrap(n ast.Node, lhs ast.Expr, f string, rhs ast.Expr) {
	// Function literals inside would be copied without their points; leave those alone.
	w.used = true
	w.rep(n.Pos(), n.Pos(), "vsched__."+f+"(&(")
	if rhs == nil {
		w.rep(lhs.End(), n.End(), "))")
		return
	}
	w.rep(lhs.End(), rhs.Pos(), "), ")
	w.ins(rhs.End(), ")")
}

func (w *rewriter) apply() []byte {
	sort.SliceStable(w.edits, func(i, j int) bool {
		a, b := w.edits[i], w.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.ord < b.ord
	})
	var out []byte
	last := 0
	for _, e := range w.edits {
		if e.pos < last {
			continue // overlapping edit
		}
		out = append(out, w.src[last:e.pos]...)
		out = append(out, e.text...)
		// A replacement keeps the line breaks of what it replaces.
		for _, b := range w.src[e.pos:e.end] {
			if b == '\n' && e.end > e.pos {
				out = append(out, '\n')
			}
		}
		last = e.end
	}
	out = append(out, w.src[last:]...)
	return out
}
