// Command instrument rewrites packages of /repo for the controlled runtime, without touching /repo:
// it writes rewritten copies to -out and an overlay file for go build.
//
//	-sync  packages: sync and sync/atomic become ckubemc/vrt/vsync and vatomic, go statements are
//	       started through vrt.Go
//	-order packages: every range over a map visits the keys in the order vrt.Keys gives
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	out := flag.String("out", "", "directory for the copies and overlay.json")
	syncP := flag.String("sync", "", "comma separated packages")
	orderP := flag.String("order", "", "comma separated packages")
	flag.Parse()
	const mod = "github.com/DaoCloud/ckube/"
	do := map[string][2]bool{}
	for i, l := range []string{*syncP, *orderP} {
		for _, p := range strings.Split(l, ",") {
			if p != "" {
				if !strings.Contains(p, ".") {
					p = mod + p
				}
				d := do[p]
				d[i] = true
				do[p] = d
			}
		}
	}
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles"}
	for p := range do {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	bs, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*pkg{}
	for d := json.NewDecoder(bytes.NewReader(bs)); ; {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs[p.ImportPath] = &p
	}
	overlay := map[string]string{}
	for path, what := range do {
		p := pkgs[path]
		if p == nil {
			die("no package %s", path)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(ip string) (io.ReadCloser, error) {
			q := pkgs[ip]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", ip)
			}
			return os.Open(q.Export)
		}), Error: func(error) {}}
		if _, err := conf.Check(path, fset, files, info); err != nil {
			die("type check %s: %v", path, err)
		}
		for i, af := range files {
			r := &rw{info: info, sync: what[0], order: what[1], fset: fset}
			if !r.file(af) {
				continue
			}
			af.Comments = nil // positions changed
			var b bytes.Buffer
			if err := format.Node(&b, fset, af); err != nil {
				die("format: %v", err)
			}
			dst := filepath.Join(*out, strings.NewReplacer("/", "_", ".", "_").Replace(path)+"_"+p.GoFiles[i])
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	info        *types.Info
	fset        *token.FileSet
	sync, order bool
	changed     bool
	vrt         bool
	n           int
}

func (r *rw) file(f *ast.File) bool {
	if r.sync {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			to := map[string]string{"sync": "ckubemc/vrt/vsync", "sync/atomic": "ckubemc/vrt/vatomic"}[p]
			if to == "" {
				continue
			}
			if im.Name == nil {
				im.Name = ast.NewIdent(p[strings.LastIndex(p, "/")+1:])
			}
			im.Path.Value = strconv.Quote(to)
			r.changed = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			for i, s := range n.List {
				n.List[i] = r.stmt(s)
			}
		case *ast.CaseClause:
			for i, s := range n.Body {
				n.Body[i] = r.stmt(s)
			}
		case *ast.CommClause:
			for i, s := range n.Body {
				n.Body[i] = r.stmt(s)
			}
		case *ast.LabeledStmt:
			n.Stmt = r.stmt(n.Stmt)
		}
		return true
	})
	if r.order {
		r.libs(f)
	}
	if r.vrt {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vrtpkg"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"ckubemc/vrt"`}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
		r.changed = true
	}
	return r.changed
}

// libs replaces lo.Keys and lo.Values.
func (r *rw) libs(f *ast.File) {
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p != "github.com/samber/lo" {
			continue
		}
		name := "lo"
		if im.Name != nil {
			name = im.Name.Name
		}
		left := 0
		ast.Inspect(f, func(n ast.Node) bool {
			sel, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := sel.X.(*ast.Ident)
			if !ok || x.Name != name {
				return true
			}
			if sel.Sel.Name == "Keys" || sel.Sel.Name == "Values" {
				x.Name = "vrtpkg"
				r.vrt = true
			} else {
				left++
			}
			return true
		})
		if left == 0 {
			im.Name = ast.NewIdent("_")
		}
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func vrtCall(fn string, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("vrtpkg"), Sel: id(fn)}, Args: a}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.GoStmt:
		if !r.sync {
			return s
		}
		r.vrt = true
		// vrt.Go(func() func() { f, a0 := F, A0; return func() { f(a0) } }())
		lhs, rhs := []ast.Expr{}, []ast.Expr{}
		call := &ast.CallExpr{Ellipsis: s.Call.Ellipsis}
		if _, lit := s.Call.Fun.(*ast.FuncLit); lit {
			call.Fun = s.Call.Fun
		} else {
			lhs, rhs = append(lhs, id("vrtF")), append(rhs, s.Call.Fun)
			call.Fun = id("vrtF")
		}
		for i, a := range s.Call.Args {
			if tv, ok := r.info.Types[a]; ok && tv.Value != nil || isNil(a) {
				call.Args = append(call.Args, a)
				continue
			}
			v := fmt.Sprintf("vrtA%d", i)
			lhs, rhs = append(lhs, id(v)), append(rhs, a)
			call.Args = append(call.Args, id(v))
		}
		run := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
		body := []ast.Stmt{}
		if len(lhs) > 0 {
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
		}
		body = append(body, &ast.ReturnStmt{Results: []ast.Expr{run}})
		outer := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.FuncType{Params: &ast.FieldList{}}}}}}, Body: &ast.BlockStmt{List: body}}
		return &ast.ExprStmt{X: vrtCall("Go", &ast.CallExpr{Fun: outer})}
	case *ast.RangeStmt:
		if !r.order {
			return s
		}
		tv, ok := r.info.Types[s.X]
		if !ok {
			return s
		}
		if _, ok := tv.Type.Underlying().(*types.Map); !ok {
			return s
		}
		r.vrt = true
		// for k, v := range m  ->  for _, vrtE := range vrt.Entries(m) { k, v := vrtE.K, vrtE.V; ... }
		r.n++
		e := id(fmt.Sprintf("vrtE%d", r.n))
		pre := []ast.Stmt{}
		var lhs, rhs []ast.Expr
		if s.Key != nil && !blank(s.Key) {
			lhs, rhs = append(lhs, s.Key), append(rhs, &ast.SelectorExpr{X: e, Sel: id("K")})
		}
		if s.Value != nil && !blank(s.Value) {
			lhs, rhs = append(lhs, s.Value), append(rhs, &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: id("V")}})
		}
		// an entry removed meanwhile is not visited
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: id("Has")}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if len(lhs) > 0 {
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
		}
		s.Body.List = append(pre, s.Body.List...)
		s.Key, s.Value, s.Tok = id("_"), e, token.DEFINE
		s.X = vrtCall("Entries", s.X)
		return s
	}
	return s
}

func isNil(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "nil" }

func blank(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "_" }
