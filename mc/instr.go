package main

// Rewrites a package's concurrency onto vsched: go statements, channels,
// select, sync, plus a scheduling point before every statement. The result is
// compiled through an overlay; /repo itself is not touched.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	goparser "go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const vsPath = "github.com/hsiaosiyuan0/mole/vsched"

var repoDir = func() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

type instr struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	used bool
	n    int
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}
}

func callE(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (in *instr) point() ast.Stmt {
	in.used = true
	return &ast.ExprStmt{X: callE(sel("Point"))}
}

func (in *instr) isChan(e ast.Expr) (types.Type, bool) {
	t := in.info.TypeOf(e)
	if t == nil {
		return nil, false
	}
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem(), true
	}
	return nil, false
}

// typeExpr renders a type as rewritten source
func (in *instr) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == in.pkg {
			return ""
		}
		return p.Name()
	})
	e, err := goparser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprint("type ", s, ": ", err))
	}
	return in.expr(e)
}

func (in *instr) exprs(es []ast.Expr) []ast.Expr {
	for i := range es {
		es[i] = in.expr(es[i])
	}
	return es
}

func (in *instr) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = in.expr(f.Type)
	}
}

func (in *instr) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		in.used = true
		return &ast.StarExpr{X: &ast.IndexExpr{X: sel("Chan"), Index: in.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.used = true
			return callE(&ast.SelectorExpr{X: in.paren(x.X), Sel: ast.NewIdent("Recv")})
		}
		x.X = in.expr(x.X)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			if _, isB := in.info.Uses[id].(*types.Builtin); isB {
				switch id.Name {
				case "make":
					if t := in.info.TypeOf(x.Args[0]); t != nil {
						if c, ok := t.Underlying().(*types.Chan); ok {
							in.used = true
							var args []ast.Expr
							for _, a := range x.Args[1:] {
								args = append(args, callE(ast.NewIdent("int"), in.expr(a)))
							}
							return callE(&ast.IndexExpr{X: sel("MakeChan"), Index: in.typeExpr(c.Elem())}, args...)
						}
					}
				case "close", "len", "cap":
					if _, ok := in.isChan(x.Args[0]); ok {
						m := map[string]string{"close": "Close", "len": "Len", "cap": "Cap"}[id.Name]
						return callE(&ast.SelectorExpr{X: in.paren(x.Args[0]), Sel: ast.NewIdent(m)})
					}
				}
			}
		}
		x.Fun = in.expr(x.Fun)
		x.Args = in.exprs(x.Args)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
				switch pn.Imported().Path() + "." + x.Sel.Name {
				case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync.Cond", "sync.NewCond", "sync.Locker", "sync.OnceFunc", "sync.OnceValue":
					in.used = true
					return sel(x.Sel.Name)
				case "runtime.Gosched":
					in.used = true
					return sel("Yield")
				case "time.Sleep":
					in.used = true
					return sel("Sleep")
				}
				return x
			}
		}
		x.X = in.expr(x.X)
	case *ast.ParenExpr:
		x.X = in.expr(x.X)
	case *ast.StarExpr:
		x.X = in.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = in.expr(x.X), in.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = in.expr(x.Key), in.expr(x.Value)
	case *ast.IndexExpr:
		x.X, x.Index = in.expr(x.X), in.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = in.expr(x.X)
		x.Indices = in.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = in.expr(x.X), in.expr(x.Low), in.expr(x.High), in.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = in.expr(x.X)
		x.Type = in.expr(x.Type)
	case *ast.CompositeLit:
		x.Type = in.expr(x.Type)
		x.Elts = in.exprs(x.Elts)
	case *ast.FuncLit:
		in.fields(x.Type.TypeParams)
		in.fields(x.Type.Params)
		in.fields(x.Type.Results)
		in.block(x.Body)
	case *ast.FuncType:
		in.fields(x.TypeParams)
		in.fields(x.Params)
		in.fields(x.Results)
	case *ast.ArrayType:
		x.Len, x.Elt = in.expr(x.Len), in.expr(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = in.expr(x.Key), in.expr(x.Value)
	case *ast.StructType:
		in.fields(x.Fields)
	case *ast.InterfaceType:
		in.fields(x.Methods)
	case *ast.Ellipsis:
		x.Elt = in.expr(x.Elt)
	}
	return e
}

func (in *instr) paren(e ast.Expr) ast.Expr {
	e = in.expr(e)
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func (in *instr) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *instr) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt:
		default:
			out = append(out, in.point())
		}
		out = append(out, in.stmt(s)...)
	}
	return out
}

func (in *instr) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := in.stmt(s)
	if len(r) == 1 {
		return r[0]
	}
	return &ast.BlockStmt{List: r}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (in *instr) recv2(u *ast.UnaryExpr) ast.Expr {
	return callE(&ast.SelectorExpr{X: in.paren(u.X), Sel: ast.NewIdent("Recv2")})
}

func (in *instr) tmp() *ast.Ident { in.n++; return ast.NewIdent(fmt.Sprintf("vs__%d", in.n)) }

func define(names []ast.Expr, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = in.expr(x.X)
	case *ast.SendStmt:
		in.used = true
		return []ast.Stmt{&ast.ExprStmt{X: callE(&ast.SelectorExpr{X: in.paren(x.Chan), Sel: ast.NewIdent("Send")}, in.expr(x.Value))}}
	case *ast.IncDecStmt:
		x.X = in.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := recvOf(x.Rhs[0]); u != nil {
				x.Lhs = in.exprs(x.Lhs)
				x.Rhs[0] = in.recv2(u)
				return []ast.Stmt{x}
			}
		}
		x.Lhs = in.exprs(x.Lhs)
		x.Rhs = in.exprs(x.Rhs)
	case *ast.GoStmt:
		in.used = true
		var pre []ast.Stmt
		c := x.Call
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			return []ast.Stmt{&ast.ExprStmt{X: callE(sel("Go"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("go func")}, in.expr(fl))}}
		}
		name := "go"
		if se, ok := c.Fun.(*ast.SelectorExpr); ok {
			name = se.Sel.Name
		} else if id, ok := c.Fun.(*ast.Ident); ok {
			name = id.Name
		}
		f := in.tmp()
		pre = append(pre, define([]ast.Expr{f}, in.expr(c.Fun)))
		var args []ast.Expr
		for _, a := range c.Args {
			v := in.tmp()
			pre = append(pre, define([]ast.Expr{v}, in.expr(a)))
			args = append(args, v)
		}
		inner := &ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
		pre = append(pre, &ast.ExprStmt{X: callE(sel("Go"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("go " + name)}, lit)})
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	case *ast.DeferStmt:
		x.Call = in.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		x.Results = in.exprs(x.Results)
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		x.Init = in.one(x.Init)
		x.Cond = in.expr(x.Cond)
		in.block(x.Body)
		x.Else = in.one(x.Else)
	case *ast.CaseClause:
		x.List = in.exprs(x.List)
		x.Body = in.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = in.one(x.Init)
		x.Tag = in.expr(x.Tag)
		for _, c := range x.Body.List {
			in.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = in.one(x.Init)
		x.Assign = in.one(x.Assign)
		for _, c := range x.Body.List {
			in.stmt(c)
		}
	case *ast.ForStmt:
		x.Init = in.one(x.Init)
		x.Cond = in.expr(x.Cond)
		x.Post = in.one(x.Post)
		in.block(x.Body)
	case *ast.RangeStmt:
		if _, ok := in.isChan(x.X); ok {
			ok2 := in.tmp()
			rv := callE(&ast.SelectorExpr{X: in.paren(x.X), Sel: ast.NewIdent("Recv2")})
			in.block(x.Body)
			var pre []ast.Stmt
			v := ast.Expr(ast.NewIdent("_"))
			if x.Key != nil && x.Tok == token.DEFINE {
				v = x.Key
			}
			if x.Key != nil && x.Tok == token.ASSIGN {
				t := in.tmp()
				pre = append(pre, define([]ast.Expr{t, ok2}, rv))
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}})
			} else {
				pre = append(pre, define([]ast.Expr{v, ok2}, rv))
			}
			pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok2}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			return []ast.Stmt{&ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}}
		}
		x.X = in.expr(x.X)
		in.block(x.Body)
	case *ast.LabeledStmt:
		if ss, ok := x.Stmt.(*ast.SelectStmt); ok {
			r := in.selectStmt(ss)
			last := len(r) - 1
			x.Stmt = r[last]
			return append(r[:last:last], x)
		}
		r := in.stmt(x.Stmt)
		x.Stmt = r[len(r)-1]
		return append(r[:len(r)-1:len(r)-1], x)
	case *ast.SelectStmt:
		r := in.selectStmt(x)
		return []ast.Stmt{&ast.BlockStmt{List: r}}
	case *ast.DeclStmt:
		in.genDecl(x.Decl.(*ast.GenDecl))
	}
	return []ast.Stmt{s}
}

func (in *instr) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	in.used = true
	iV, vV, okV := in.tmp(), in.tmp(), in.tmp()
	var cases []ast.Expr
	hasDef := "false"
	sw := &ast.SwitchStmt{Tag: iV, Body: &ast.BlockStmt{}}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: in.stmts(cc.Body)})
			continue
		}
		idx := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases))}
		var pre []ast.Stmt
		switch k := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, callE(&ast.SelectorExpr{X: in.paren(k.Chan), Sel: ast.NewIdent("SendCase")}, in.expr(k.Value)))
		case *ast.ExprStmt:
			u := recvOf(k.X)
			cases = append(cases, callE(&ast.SelectorExpr{X: in.paren(u.X), Sel: ast.NewIdent("RecvCase")}))
		case *ast.AssignStmt:
			u := recvOf(k.Rhs[0])
			elem, _ := in.isChan(u.X)
			cases = append(cases, callE(&ast.SelectorExpr{X: in.paren(u.X), Sel: ast.NewIdent("RecvCase")}))
			val := callE(&ast.IndexExpr{X: sel("As"), Index: in.typeExpr(elem)}, vV)
			rhs := []ast.Expr{val}
			if len(k.Lhs) == 2 {
				rhs = append(rhs, okV)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: in.exprs(k.Lhs), Tok: k.Tok, Rhs: rhs})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{idx}, Body: append(pre, in.stmts(cc.Body)...)})
	}
	args := append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)
	d := define([]ast.Expr{iV, vV, okV}, callE(sel("Select"), args...))
	u := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vV, okV}}
	return []ast.Stmt{d, u, sw}
}

func (in *instr) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch x := s.(type) {
		case *ast.ValueSpec:
			x.Type = in.expr(x.Type)
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recvOf(x.Values[0]); u != nil {
					x.Values[0] = in.recv2(u)
					continue
				}
			}
			x.Values = in.exprs(x.Values)
		case *ast.TypeSpec:
			in.fields(x.TypeParams)
			x.Type = in.expr(x.Type)
		}
	}
}

// instrument rewrites the package in dir and returns original path -> rewritten file
func instrument(dir, outDir string) (map[string]string, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Name", ".")
	cmd.Dir = dir
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list %s: %v", dir, err)
	}
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	type lp struct {
		ImportPath, Export, Dir, Name string
		GoFiles                       []string
	}
	var me lp
	for {
		var p lp
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Dir == dir {
			me = p
		}
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var paths []string
	for _, f := range me.GoFiles {
		pth := filepath.Join(dir, f)
		af, err := goparser.ParseFile(fset, pth, nil, goparser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
		paths = append(paths, pth)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(me.ImportPath, fset, files, info)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for i, af := range files {
		in := &instr{fset: fset, info: info, pkg: pkg}
		for _, d := range af.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				in.fields(x.Recv)
				in.fields(x.Type.TypeParams)
				in.fields(x.Type.Params)
				in.fields(x.Type.Results)
				in.block(x.Body)
			case *ast.GenDecl:
				if x.Tok != token.IMPORT {
					in.genDecl(x)
				}
			}
		}
		if !in.used {
			continue
		}
		// drop imports that are no longer used, add vsched
		usedNames := map[string]bool{}
		ast.Inspect(af, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok {
					usedNames[id.Name] = true
				}
			}
			return true
		})
		var decls []ast.Decl
		for _, d := range af.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				decls = append(decls, d)
				continue
			}
			var specs []ast.Spec
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				p, _ := strconv.Unquote(is.Path.Value)
				name := filepath.Base(p)
				if is.Name != nil {
					name = is.Name.Name
				}
				if name == "_" || name == "." || usedNames[name] {
					specs = append(specs, s)
				}
			}
			if len(specs) > 0 {
				g.Specs = specs
				g.Lparen = 1
				decls = append(decls, g)
			}
		}
		vsImp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsPath)}}}}
		af.Decls = append([]ast.Decl{vsImp}, decls...)
		af.Comments = nil
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), af); err != nil {
			return nil, fmt.Errorf("%s: %v", paths[i], err)
		}
		o := filepath.Join(outDir, strings.ReplaceAll(strings.TrimPrefix(paths[i], "/"), "/", "_"))
		if err := os.WriteFile(o, buf.Bytes(), 0644); err != nil {
			return nil, err
		}
		out[paths[i]] = o
	}
	return out, nil
}

// buildConc builds the concurrency harness against instrumented packages.
func buildConc(work string, race bool) (string, error) {
	od := filepath.Join(work, "ov")
	os.MkdirAll(od, 0755)
	rep := map[string]string{}
	for _, p := range []string{"util", "parseutil"} {
		m, err := instrument(filepath.Join(repoDir, p), od)
		if err != nil {
			return "", err
		}
		for k, v := range m {
			rep[k] = v
		}
	}
	vsd := filepath.Join(verifDir(), "mc", "vsched")
	for _, f := range []string{"vsched.go", "race.go", "norace.go"} {
		rep[filepath.Join(repoDir, "vsched", f)] = filepath.Join(vsd, f)
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(of, ob, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "conc")
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", of, "-o", bin}
	}
	args = append(args, "./conc")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir(), "mc")
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the instrumented harness: %v\n%s", err, o)
	}
	return bin, nil
}
