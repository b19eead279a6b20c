//go:build go1.21

// instr REPO OUTDIR: puts yield points into the packages of REPO, before every statement that mentions a
// package-level variable which is not a constant in disguise, and makes them use vsync for sync. It writes the changed
// files to OUTDIR, with OUTDIR/overlay.json for "go build -overlay", and prints the variables found.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/blocktree/go-owcdrivers"

type file struct {
	path, dir string
	src       []byte
	f         *ast.File
	unres     map[*ast.Ident]bool
	imports   map[string]string // name -> directory in the repository
}

var fset = token.NewFileSet()
var files []*file
var vars = map[string]bool{} // "dir.name" of every package-level variable
var mutable = map[string]bool{}
var made = map[string]bool{} // empty, or made to be filled

func main() {
	repo, out := os.Args[1], os.Args[2]
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() {
			switch i.Name() {
			case ".git", "zzverif", "eosSignature", "signatureSet", "testdata", "vendor":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		dir, _ := filepath.Rel(repo, filepath.Dir(p))
		x := &file{path: p, dir: dir, src: src, f: f, unres: map[*ast.Ident]bool{}, imports: map[string]string{}}
		for _, u := range f.Unresolved {
			x.unres[u] = true
		}
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			if strings.HasPrefix(s, mod+"/") {
				d := strings.TrimPrefix(s, mod+"/")
				n := filepath.Base(d)
				if im.Name != nil {
					n = im.Name.Name
				}
				x.imports[n] = d
			}
		}
		files = append(files, x)
		return nil
	})
	for _, x := range files {
		for _, d := range x.f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					for i, n := range v.Names {
						if n.Name == "_" {
							continue
						}
						vars[x.dir+"."+n.Name] = true
						if len(v.Values) == 0 {
							made[x.dir+"."+n.Name] = true
						} else if i < len(v.Values) {
							if c, ok := v.Values[i].(*ast.CallExpr); ok {
								if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "new") {
									made[x.dir+"."+n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for _, x := range files {
		x.findMutable()
	}
	for k := range made {
		mutable[k] = true
	}
	over := map[string]string{}
	points := 0
	os.MkdirAll(out, 0755)
	for i, x := range files {
		s, n := x.rewrite()
		if s == nil {
			continue
		}
		points += n
		p := filepath.Join(out, fmt.Sprintf("%d_%s", i, filepath.Base(x.path)))
		if err := os.WriteFile(p, s, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		over[x.path] = p
	}
	b, _ := json.MarshalIndent(over, "", " ")
	os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
	var l []string
	for m := range mutable {
		l = append(l, m)
	}
	sort.Strings(l)
	fmt.Printf("%d package-level variables, %d not constant: %s; %d yield points\n", len(vars), len(l), strings.Join(l, " "), points)
}

// pkgVar names the package-level variable an identifier or selector stands for.
func (x *file) pkgVar(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.Ident:
		k := x.dir + "." + t.Name
		if !vars[k] {
			return ""
		}
		if x.unres[t] {
			return k
		}
		if t.Obj != nil && x.f.Scope.Lookup(t.Name) == t.Obj {
			return k
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok && id.Obj == nil {
			if d, ok := x.imports[id.Name]; ok && vars[d+"."+t.Sel.Name] {
				return d + "." + t.Sel.Name
			}
		}
	case *ast.ParenExpr:
		return x.pkgVar(t.X)
	}
	return ""
}

// root is the package-level variable an expression is a part of.
func (x *file) root(e ast.Expr) string {
	for {
		if k := x.pkgVar(e); k != "" {
			return k
		}
		switch t := e.(type) {
		case *ast.IndexExpr:
			e = t.X
		case *ast.SelectorExpr:
			e = t.X
		case *ast.StarExpr:
			e = t.X
		case *ast.ParenExpr:
			e = t.X
		case *ast.SliceExpr:
			e = t.X
		default:
			return ""
		}
	}
}

func (x *file) findMutable() {
	for _, d := range x.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
			continue
		}
		x.inspect(fd.Body, func(e ast.Expr) {
			if k := x.root(e); k != "" {
				mutable[k] = true
			}
		})
	}
}

// inspect calls mark for every expression that is changed, or may be changed through what becomes of it.
func (x *file) inspect(n ast.Node, mark func(ast.Expr)) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.AssignStmt:
			for _, l := range t.Lhs {
				if t.Tok != token.DEFINE {
					mark(l)
				}
			}
			for _, r := range t.Rhs { // another name for (part of) it
				switch r.(type) {
				case *ast.Ident, *ast.SelectorExpr, *ast.SliceExpr:
					mark(r)
				}
			}
		case *ast.ReturnStmt:
			for _, r := range t.Results {
				if _, ok := r.(*ast.SliceExpr); ok {
					mark(r)
				}
			}
		case *ast.IncDecStmt:
			mark(t.X)
		case *ast.SendStmt:
			mark(t.Chan)
		case *ast.UnaryExpr:
			if t.Op == token.AND || t.Op == token.ARROW {
				mark(t.X)
			}
		case *ast.RangeStmt:
			if t.Tok == token.ASSIGN {
				mark(t.Key)
				if t.Value != nil {
					mark(t.Value)
				}
			}
		case *ast.CallExpr:
			if s, ok := t.Fun.(*ast.SelectorExpr); ok {
				if k := x.pkgVar(s); k == "" {
					mark(s.X) // a method of it
				}
			}
			if id, ok := t.Fun.(*ast.Ident); ok && len(t.Args) > 0 && (id.Name == "copy" || id.Name == "delete" || id.Name == "append" || id.Name == "clear") {
				mark(t.Args[0])
			}
			for _, a := range t.Args { // handed to somebody
				if s, ok := a.(*ast.SliceExpr); ok {
					mark(s)
				}
				if k := x.pkgVar(a); made[k] {
					mark(a)
				}
			}
		}
		return true
	})
}

// mentions are the variables that are not constant in a statement (without the blocks inside it).
func (x *file) mentions(n ast.Node) map[string]bool {
	r := map[string]bool{}
	if n == nil {
		return r
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch t := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			k := x.pkgVar(t)
			if mutable[k] {
				r[k] = true
			}
			if k == "" {
				for v := range x.mentions(t.X) {
					r[v] = true
				}
			}
			return false
		case *ast.Ident:
			if k := x.pkgVar(t); mutable[k] {
				r[k] = true
			}
		}
		return true
	})
	return r
}

var ids = map[string]int{}

// call is the yield point for a set of variables; those a statement may change are negative.
func (x *file) call(vs map[string]bool, n ast.Node) string {
	written := map[string]bool{}
	x.inspect(n, func(e ast.Expr) {
		if k := x.root(e); k != "" {
			written[k] = true
		}
	})
	var l []string
	for v := range vs {
		l = append(l, v)
	}
	sort.Strings(l)
	var a []string
	for _, v := range l {
		if ids[v] == 0 {
			ids[v] = len(ids) + 1
		}
		s := strconv.Itoa(ids[v])
		if written[v] {
			s = "-" + s
		}
		a = append(a, s)
	}
	return "zzsched.Y(" + strings.Join(a, ", ") + "); "
}

func (x *file) rewrite() ([]byte, int) {
	type edit struct {
		at   int
		del  int
		text string
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	points := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if vs := x.mentions(s); len(vs) > 0 {
				eds = append(eds, edit{off(s.Pos()), 0, x.call(vs, s)})
				points++
			}
			if f, ok := s.(*ast.ForStmt); ok {
				vs := map[string]bool{}
				if f.Cond != nil {
					for v := range x.mentions(f.Cond) {
						vs[v] = true
					}
				}
				if f.Post != nil {
					for v := range x.mentions(f.Post) {
						vs[v] = true
					}
				}
				if len(vs) > 0 {
					eds = append(eds, edit{off(f.Body.Lbrace) + 1, 0, " " + x.call(vs, s)})
					points++
				}
			}
		}
	}
	ast.Inspect(x.f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			list(t.List)
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		}
		return true
	})
	for _, im := range x.f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"` + mod + `/zzverif/vsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			eds = append(eds, edit{off(im.Path.Pos()), len(im.Path.Value), t})
		}
	}
	if len(eds) == 0 {
		return nil, 0
	}
	if points > 0 {
		eds = append(eds, edit{off(x.f.Name.End()), 0, `; import zzsched "` + mod + `/zzverif/sched"`})
	}
	sort.SliceStable(eds, func(a, b int) bool { return eds[a].at > eds[b].at })
	s := string(x.src)
	for _, e := range eds {
		s = s[:e.at] + e.text + s[e.at+e.del:]
	}
	return []byte(s), points
}
