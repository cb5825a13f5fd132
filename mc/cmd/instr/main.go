// Command instr writes instrumented copies of the repository's packages and an overlay file for go build.
//
//	instr <repository> <output folder> <level>
//
// Level 1 puts a scheduling point before every statement. Level 2 also splits assignments to shared places into reading
// and writing, makes mutexes give way to the scheduler and announces the end of goroutines.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const pkg = "vsched"

type instr struct {
	level   int
	n       int
	site    int
	used    bool
	globals map[string]bool // variables of the package
}

func (x *instr) point() ast.Stmt {
	x.used = true
	x.site++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("P"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(x.site)}}}}
}

// local reports whether s touches nothing but local variables by itself, so that no other thread can notice whether it
// is executed before or after a switch.
func (x *instr) local(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.BranchStmt:
		return true
	case *ast.ReturnStmt:
		return x.plain(s.Results...)
	case *ast.AssignStmt:
		return x.plain(s.Lhs...) && x.plain(s.Rhs...)
	case *ast.IncDecStmt:
		return x.plain(s.X)
	case *ast.DeclStmt:
		d, ok := s.Decl.(*ast.GenDecl)
		if !ok || d.Tok != token.VAR {
			return true
		}
		for _, sp := range d.Specs {
			if v, ok := sp.(*ast.ValueSpec); ok && !x.plain(v.Values...) {
				return false
			}
		}
		return true
	case *ast.IfStmt:
		return s.Init == nil && x.plain(s.Cond)
	case *ast.BlockStmt:
		return true
	}
	return false
}

func (x *instr) plain(l ...ast.Expr) bool {
	for _, e := range l {
		switch e := e.(type) {
		case *ast.Ident:
			if x.globals[e.Name] {
				return false
			}
		case *ast.BasicLit:
		case *ast.BinaryExpr:
			if !x.plain(e.X, e.Y) {
				return false
			}
		case *ast.UnaryExpr:
			if e.Op == token.ARROW || !x.plain(e.X) {
				return false
			}
		case *ast.ParenExpr:
			if !x.plain(e.X) {
				return false
			}
		case *ast.SelectorExpr:
			// A constant or function of another package, as in ldap.LDAPResultSuccess.
			if i, ok := e.X.(*ast.Ident); !ok || !x.globals["import "+i.Name] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// scan collects the package-level variables of a folder.
func (x *instr) scan(dir string) error {
	x.globals = map[string]bool{}
	l, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	for _, p := range l {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok {
						for _, n := range v.Names {
							x.globals[n.Name] = true
						}
					}
				}
			}
		}
	}
	return nil
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}

func (x *instr) name() *ast.Ident {
	x.n++
	return ast.NewIdent("vs" + strconv.Itoa(x.n))
}

// place reports whether e may be shared memory that can be evaluated twice.
func place(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.StarExpr:
		return pure(e.X)
	}
	return false
}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

var ops = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
	token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// update makes { t := lhs; P(); lhs = t op rhs }.
func (x *instr) update(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	t := x.name()
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{lhs}},
		x.point(),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
	}}
}

func (x *instr) stmt(s ast.Stmt) ast.Stmt {
	if x.level < 2 {
		return s
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if place(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return x.update(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && place(s.Lhs[0]) {
			if op, ok := ops[s.Tok]; ok {
				return x.update(s.Lhs[0], op, s.Rhs[0])
			}
			// a = a op b, and a = f(a): the value is computed before it is stored.
			if s.Tok == token.ASSIGN && mentions(s.Rhs[0], s.Lhs[0]) {
				if _, ok := s.Rhs[0].(*ast.FuncLit); !ok {
					t := x.name()
					return &ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Rhs[0]}},
						x.point(),
						&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
					}}
				}
			}
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok && len(c.Args) == 0 {
			if f, ok := c.Fun.(*ast.SelectorExpr); ok && (f.Sel.Name == "Lock" || f.Sel.Name == "RLock") && pure(f.X) {
				x.used = true
				try := "Try" + f.Sel.Name
				return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Lock"), Args: []ast.Expr{&ast.SelectorExpr{X: f.X, Sel: ast.NewIdent(try)}, f}}}
			}
		}
	case *ast.GoStmt:
		x.used = true
		exit := &ast.DeferStmt{Call: &ast.CallExpr{Fun: sel("Exit")}}
		if f, ok := s.Call.Fun.(*ast.FuncLit); ok {
			f.Body.List = append([]ast.Stmt{exit}, f.Body.List...)
			return s
		}
		if s.Call.Ellipsis.IsValid() {
			return s
		}
		fn := x.name()
		def := &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Call.Fun}}
		var args []ast.Expr
		for _, a := range s.Call.Args {
			if _, ok := a.(*ast.BasicLit); ok {
				args = append(args, a)
				continue
			}
			if i, ok := a.(*ast.Ident); ok && i.Name == "nil" {
				args = append(args, a)
				continue
			}
			v := x.name()
			def.Lhs, def.Rhs = append(def.Lhs, v), append(def.Rhs, a)
			args = append(args, v)
		}
		body := &ast.BlockStmt{List: []ast.Stmt{exit, &ast.ExprStmt{X: &ast.CallExpr{Fun: fn, Args: args}}}}
		return &ast.BlockStmt{List: []ast.Stmt{def, &ast.GoStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}}}}}
	}
	return s
}

func mentions(e, what ast.Expr) bool {
	w := text(what)
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && text(x) == w {
			found = true
		}
		return !found
	})
	return found
}

func text(e ast.Expr) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), e)
	return b.String()
}

func (x *instr) list(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if b, ok := s.(*ast.LabeledStmt); ok {
			r = append(r, x.point(), b)
			continue
		}
		if !x.local(s) {
			r = append(r, x.point())
		}
		r = append(r, x.stmt(s))
	}
	return r
}

func (x *instr) file(src, dst, vschedPath string) (bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, nil, parser.SkipObjectResolution)
	if err != nil {
		return false, err
	}
	for _, i := range f.Imports {
		if i.Path.Value == `"C"` {
			return false, nil
		}
	}
	b, err := os.ReadFile(src)
	if err != nil {
		return false, err
	}
	if bytes.Contains(b, []byte("//go:embed")) || bytes.Contains(b, []byte("//go:linkname")) {
		return false, nil
	}
	// Build constraints are kept, other comments are not needed.
	head := ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "//go:build") {
			head = l + "\n\n"
		}
		if strings.HasPrefix(l, "package ") {
			break
		}
	}
	x.used = false
	if err := x.scan(filepath.Dir(src)); err != nil {
		return false, err
	}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		if strings.HasSuffix(p, "/ldap/v3") {
			n = "ldap"
		}
		x.globals["import "+n] = true
	}
	// Inner lists first: the statements of outer lists are replaced, not copied.
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.SwitchStmt:
				for _, c := range m.Body.List {
					walk(c)
				}
				if m.Init != nil {
					walk(m.Init)
				}
				if m.Tag != nil {
					walk(m.Tag)
				}
				return false
			case *ast.TypeSwitchStmt:
				for _, c := range m.Body.List {
					walk(c)
				}
				return false
			case *ast.SelectStmt:
				for _, c := range m.Body.List {
					walk(c)
				}
				return false
			case *ast.BlockStmt:
				for _, s := range m.List {
					walk(s)
				}
				m.List = x.list(m.List)
				return false
			case *ast.CaseClause:
				for _, e := range m.List {
					walk(e)
				}
				for _, s := range m.Body {
					walk(s)
				}
				m.Body = x.list(m.Body)
				return false
			case *ast.CommClause:
				for _, s := range m.Body {
					walk(s)
				}
				m.Body = x.list(m.Body)
				return false
			}
			return true
		})
	}
	for _, d := range f.Decls {
		walk(d)
	}
	if !x.used {
		return false, nil
	}
	f.Comments = nil
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(pkg), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vschedPath)}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.GenDecl:
			d.Doc = nil
		}
	}
	var out bytes.Buffer
	out.WriteString(head)
	if err := format.Node(&out, token.NewFileSet(), f); err != nil {
		return false, err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return false, err
	}
	return true, os.WriteFile(dst, out.Bytes(), 0o644)
}

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: instr <repository> <output> <level>")
		os.Exit(2)
	}
	repo, out := os.Args[1], os.Args[2]
	x := &instr{}
	x.level, _ = strconv.Atoi(os.Args[3])
	overlay := map[string]string{}
	for _, top := range []string{"pkg", "server"} {
		err := filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			rel, _ := filepath.Rel(repo, p)
			dst := filepath.Join(out, rel)
			ok, err := x.file(p, dst, "idmverif/lib/vsched")
			if err != nil {
				return fmt.Errorf("%s: %w", p, err)
			}
			if ok {
				overlay[p] = dst
			}
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "instrumented %d files\n", len(overlay))
}
