// instrument copies the non-test sources of the module in -src to -dst and
// gives the simulator control over them: a scheduling point before every
// statement, package sync/time/os redirected to the simulated ones, goroutines
// and channel operations handed to the scheduler, map iteration made
// deterministic. It never looks for particular code: whatever the tree
// contains is treated alike.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type report struct {
	Sites    int      `json:"sites"`
	Files    int      `json:"files"`
	Plain    []string `json:"plain_files"`
	Shims    []string `json:"shims"`
	GoStmts  int      `json:"go_statements"`
	ChanOps  int      `json:"channel_operations"`
	MapLoops int      `json:"map_loops"`
	Typed    bool     `json:"typed"`
	Table    []string `json:"-"`
}

var (
	src    = flag.String("src", "/repo", "")
	dst    = flag.String("dst", "", "directory holding a plain copy already; files are rewritten in place")
	gobin  = flag.String("go", "go", "")
	tags   = flag.String("tags", "", "")
	noshim = flag.String("noshim", "", "comma separated packages not to redirect")
	outRep = flag.String("report", "", "")
	rep    report
)

var shims = map[string]string{"sync": "watersim/shim/sync", "time": "watersim/shim/time", "os": "watersim/shim/os", "io/ioutil": "watersim/shim/ioutil",
	"context": "watersim/shim/context", "math/rand": "watersim/shim/math/rand", "math/rand/v2": "watersim/shim/math/rand/v2", "crypto/rand": "watersim/shim/crypto/rand"}

func main() {
	flag.Parse()
	if *noshim == "all" {
		shims = nil
	}
	for _, p := range strings.Split(*noshim, ",") {
		delete(shims, p)
	}
	for p := range shims {
		rep.Shims = append(rep.Shims, p)
	}
	sort.Strings(rep.Shims)
	dirs := map[string][]string{}
	filepath.Walk(*dst, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (fi.Name() == "testdata" || fi.Name() == "vendor" || strings.HasPrefix(fi.Name(), "_") || (strings.HasPrefix(fi.Name(), ".") && p != *dst)) {
			return filepath.SkipDir
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			d := filepath.Dir(p)
			dirs[d] = append(dirs[d], p)
		}
		return nil
	})
	exports := goList()
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	rep.Typed = true
	for _, d := range ds {
		instrumentDir(d, dirs[d], exports)
	}
	b, _ := json.Marshal(rep)
	if *outRep != "" {
		os.WriteFile(*outRep, b, 0644)
	}
	fmt.Println(string(b))
	// site table, for reading schedules
	os.WriteFile(filepath.Join(filepath.Dir(*dst), "sites.txt"), []byte(strings.Join(rep.Table, "\n")+"\n"), 0644)
}

type exportMap map[string]string

func goList() exportMap {
	m := exportMap{}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	cmd := exec.Command(*gobin, append(args, "./...")...)
	cmd.Dir = *dst
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	if err := cmd.Run(); err != nil {
		fmt.Fprintln(os.Stderr, "instrument: go list:", err, eb.String())
	}
	dec := json.NewDecoder(&out)
	for {
		var p struct{ ImportPath, Export string }
		if dec.Decode(&p) != nil {
			break
		}
		if p.Export != "" {
			m[p.ImportPath] = p.Export
		}
	}
	return m
}

func tagOK(tag string) bool {
	for _, t := range strings.Split(*tags, ",") {
		if t != "" && t == tag {
			return true
		}
	}
	switch tag {
	case "linux", "amd64", "unix", "gc", "cgo":
		return true
	}
	if strings.HasPrefix(tag, "go1.") {
		n, err := strconv.Atoi(tag[4:])
		return err == nil && n <= 27
	}
	return false
}

func fileIncluded(f *ast.File, name string) bool {
	base := strings.TrimSuffix(filepath.Base(name), ".go")
	for _, os := range []string{"windows", "darwin", "freebsd", "openbsd", "netbsd", "plan9", "js", "wasm", "arm64", "386"} {
		if strings.HasSuffix(base, "_"+os) {
			return false
		}
	}
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) || constraint.IsPlusBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err == nil && !x.Eval(tagOK) {
					return false
				}
			}
		}
	}
	return true
}

func instrumentDir(dir string, files []string, exports exportMap) {
	fset := token.NewFileSet()
	var asts []*ast.File
	var names []string
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			// let the build report it
			rep.Plain = append(rep.Plain, f)
			continue
		}
		if !fileIncluded(a, f) {
			continue
		}
		text := string(b)
		if strings.Contains(text, "//go:embed") || strings.Contains(text, "//go:linkname") || strings.Contains(text, "import \"C\"") {
			rep.Plain = append(rep.Plain, f)
			continue
		}
		asts = append(asts, a)
		names = append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, Error: func(error) { rep.Typed = false }}
	if len(asts) > 0 {
		conf.Check(asts[0].Name.Name, fset, asts, info)
	}
	pipes := false
	for _, a := range asts {
		pipes = pipes || usesPipes(a)
	}
	for i, a := range asts {
		in := &instr{fset: fset, info: info, file: names[i], pipes: pipes && *noshim != "all"}
		in.do(a)
	}
}

// usesPipes: package io is redirected only where its pipes are named.
func usesPipes(a *ast.File) bool {
	name := ""
	for _, im := range a.Imports {
		if im.Path.Value == `"io"` {
			name = "io"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	found := false
	ast.Inspect(a, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok && name != "" {
			if id, ok := x.X.(*ast.Ident); ok && id.Name == name && strings.HasPrefix(x.Sel.Name, "Pipe") {
				found = true
			}
		}
		return true
	})
	return found
}

type instr struct {
	pipes bool
	fset  *token.FileSet
	info  *types.Info
	file  string
	used  bool
	tmp   int
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

func (in *instr) do(a *ast.File) {
	// keep the build constraints, drop the other comments
	var head []string
	for _, cg := range a.Comments {
		if cg.Pos() > a.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				head = []string{c.Text}
			} else if constraint.IsPlusBuild(c.Text) && (len(head) == 0 || !constraint.IsGoBuild(head[0])) {
				head = append(head, c.Text)
			}
		}
	}
	if len(head) > 0 && !constraint.IsGoBuild(head[0]) {
		var x constraint.Expr
		for _, h := range head {
			y, err := constraint.Parse(h)
			if err == nil {
				if x == nil {
					x = y
				} else {
					x = &constraint.AndExpr{X: x, Y: y}
				}
			}
		}
		if x != nil {
			head = []string{"//go:build " + x.String()}
		}
	}
	a.Comments = nil
	ast.Inspect(a, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.GenDecl:
			d.Doc = nil
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.File:
			d.Doc = nil
		}
		return true
	})
	for _, im := range a.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		s, ok := shims[p]
		if p == "io" && in.pipes {
			s, ok = "watersim/shim/io", true
		}
		if ok {
			im.Path.Value = strconv.Quote(s)
			if im.Name == nil {
				base := path.Base(p)
				if p == "math/rand/v2" {
					base = "rand"
				}
				im.Name = ast.NewIdent(base)
			}
		}
	}
	for _, d := range a.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				in.block(x.Body)
			}
		case *ast.GenDecl:
			in.exprs(x)
		}
	}
	if in.used {
		a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("simrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"watersim/simrt"`}}}}}, a.Decls...)
	}
	var buf bytes.Buffer
	for _, h := range head {
		buf.WriteString(h + "\n")
	}
	if len(head) > 0 {
		buf.WriteString("\n")
	}
	if err := printer.Fprint(&buf, in.fset, a); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(in.file, buf.Bytes(), 0644); err != nil {
		fatal(err)
	}
	rep.Files++
}

func (in *instr) sel(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt_"), Sel: ast.NewIdent(name)}
}

func (in *instr) yield(pos token.Pos) ast.Stmt {
	n := rep.Sites
	rep.Sites++
	p := in.fset.Position(pos)
	rep.Table = append(rep.Table, fmt.Sprintf("%d %s:%d", n, filepath.Base(p.Filename), p.Line))
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: in.sel("Y"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}}}
}

func (in *instr) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
}

func (in *instr) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		pos := s.Pos()
		ns := in.stmt(s)
		out = append(out, in.yield(pos))
		out = append(out, ns...)
	}
	return out
}

// stmt instruments s and returns what replaces it.
func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = in.one(x.Init)
		}
		x.Cond = in.expr(x.Cond)
		in.block(x.Body)
		if x.Else != nil {
			r := in.stmt(x.Else)
			if len(r) == 1 {
				x.Else = r[0]
			}
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = in.one(x.Init)
		}
		if x.Cond != nil {
			x.Cond = in.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = in.one(x.Post)
		}
		in.block(x.Body)
		if len(x.Body.List) == 0 {
			x.Body.List = append(x.Body.List, in.yield(x.Pos()))
		}
	case *ast.RangeStmt:
		in.block(x.Body)
		if len(x.Body.List) == 0 {
			x.Body.List = append(x.Body.List, in.yield(x.Pos()))
		}
		return in.rangeStmt(x)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = in.one(x.Init)
		}
		if x.Tag != nil {
			x.Tag = in.expr(x.Tag)
		}
		in.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = in.one(x.Init)
		}
		in.exprs(x.Assign)
		in.clauses(x.Body)
	case *ast.SelectStmt:
		return in.selectStmt(x)
	case *ast.LabeledStmt:
		r := in.stmt(x.Stmt)
		if len(r) == 1 {
			x.Stmt = r[0]
		} else {
			// hoisted statements go before the label
			x.Stmt = r[len(r)-1]
			return append(r[:len(r)-1], x)
		}
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.SendStmt:
		rep.ChanOps++
		return []ast.Stmt{&ast.ExprStmt{X: call(call(call(in.sel("CaseSend"), in.expr(x.Chan)), "Set", in.expr(x.Value)), "Do")}}
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				rep.ChanOps++
				x.Rhs[0] = &ast.CallExpr{Fun: in.sel("Recv2"), Args: []ast.Expr{in.expr(u.X)}}
				return []ast.Stmt{x}
			}
		}
		in.exprs(x)
	default:
		in.exprs(s)
	}
	return []ast.Stmt{s}
}

func (in *instr) one(s ast.Stmt) ast.Stmt {
	r := in.stmt(s)
	if len(r) == 1 {
		return r[0]
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *instr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				if _, isType := cc.List[i].(*ast.FuncType); !isType {
					cc.List[i] = in.expr(cc.List[i])
				}
			}
			cc.Body = in.list(cc.Body)
		}
	}
}

// call is f(args...), or f.method(args...) when the first of args is a string.
func call(f ast.Expr, args ...interface{}) ast.Expr {
	c := &ast.CallExpr{Fun: f}
	for i, a := range args {
		if m, ok := a.(string); ok && i == 0 {
			c.Fun = &ast.SelectorExpr{X: f, Sel: ast.NewIdent(m)}
			continue
		}
		c.Args = append(c.Args, a.(ast.Expr))
	}
	return c
}

func (in *instr) name(prefix string) string {
	in.tmp++
	return fmt.Sprintf("%s_%d", prefix, in.tmp)
}

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// selectStmt: the channels and values are evaluated in order, the scheduler
// chooses the case, a switch carries it out.
func (in *instr) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	rep.ChanOps++
	var pre []ast.Stmt
	def := "false"
	var names []ast.Expr
	var clauses []ast.Stmt
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := in.list(cc.Body)
		if cc.Comm == nil {
			def = "true"
			clauses = append(clauses, &ast.CaseClause{Body: body})
			continue
		}
		nm := in.name("simcase")
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(nm, call(call(in.sel("CaseSend"), in.expr(y.Chan)), "Set", in.expr(y.Value))))
		case *ast.ExprStmt:
			pre = append(pre, define(nm, call(in.sel("CaseRecv"), in.expr(unparen(y.X).(*ast.UnaryExpr).X))))
		case *ast.AssignStmt:
			pre = append(pre, define(nm, call(in.sel("CaseRecv"), in.expr(unparen(y.Rhs[0]).(*ast.UnaryExpr).X))))
			got := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(nm), Sel: ast.NewIdent("V")}}
			if len(y.Lhs) == 2 {
				got = append(got, &ast.SelectorExpr{X: ast.NewIdent(nm), Sel: ast.NewIdent("OK")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: got}}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}}, Body: body})
		names = append(names, ast.NewIdent(nm))
	}
	// with a default clause the statement ends a function where the select did
	if def == "false" {
		if len(clauses) > 0 {
			clauses[len(clauses)-1].(*ast.CaseClause).List = nil
		} else {
			clauses = []ast.Stmt{&ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), ast.Expr(ast.NewIdent(`"select"`)))}}}}
		}
	}
	return append(pre, &ast.SwitchStmt{
		Tag:  &ast.CallExpr{Fun: in.sel("Select"), Args: append([]ast.Expr{ast.NewIdent(def)}, names...)},
		Body: &ast.BlockStmt{List: clauses},
	})
}

func (in *instr) goStmt(x *ast.GoStmt) []ast.Stmt {
	rep.GoStmts++
	call := x.Call
	call.Fun = in.expr(call.Fun)
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		switch unparen(e).(type) {
		case *ast.BasicLit, *ast.FuncLit:
			return e
		}
		if tv, ok := in.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return e
		}
		in.tmp++
		id := ast.NewIdent(fmt.Sprintf("simarg_%d", in.tmp))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	switch f := unparen(call.Fun).(type) {
	case *ast.FuncLit:
	case *ast.Ident:
		if _, ok := in.info.Uses[f].(*types.Func); !ok {
			call.Fun = hoist(call.Fun)
		}
	default:
		call.Fun = hoist(call.Fun)
	}
	for i := range call.Args {
		call.Args[i] = hoist(in.expr(call.Args[i]))
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
	st := &ast.ExprStmt{X: &ast.CallExpr{Fun: in.sel("Go"), Args: []ast.Expr{lit}}}
	if len(pre) == 0 {
		return []ast.Stmt{st}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.BasicLit:
		return true
	}
	return false
}

func (in *instr) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	tv, ok := in.info.Types[x.X]
	if !ok {
		x.X = in.expr(x.X)
		return []ast.Stmt{x}
	}
	if _, isChan := tv.Type.Underlying().(*types.Chan); isChan {
		rep.ChanOps++
		ch, ok := in.name("simchan"), in.name("simok")
		var body []ast.Stmt
		get := &ast.CallExpr{Fun: in.sel("Recv2"), Args: []ast.Expr{ast.NewIdent(ch)}}
		key := x.Key
		if key == nil {
			key = ast.NewIdent("_")
		}
		if x.Tok == token.ASSIGN {
			body = append(body,
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(ok)}, Type: ast.NewIdent("bool")}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{key, ast.NewIdent(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{get}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{get}})
		}
		body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}, x.Body)
		return []ast.Stmt{define(ch, in.expr(x.X)), &ast.ForStmt{Body: &ast.BlockStmt{List: body}}}
	}
	if _, isMap := tv.Type.Underlying().(*types.Map); !isMap || x.Key == nil || x.Tok == token.ASSIGN {
		x.X = in.expr(x.X)
		return []ast.Stmt{x}
	}
	var before []ast.Stmt
	if !pure(x.X) {
		m := in.name("simmap")
		before = append(before, define(m, in.expr(x.X)))
		x.X = ast.NewIdent(m)
	}
	rep.MapLoops++
	in.tmp++
	k := fmt.Sprintf("simk_%d", in.tmp)
	okv := fmt.Sprintf("simok_%d", in.tmp)
	val := ast.Expr(ast.NewIdent("_"))
	if x.Value != nil {
		val = x.Value
	}
	var pre []ast.Stmt
	pre = append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{val, ast.NewIdent(okv)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: x.X, Index: ast.NewIdent(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okv)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
	)
	if id, isID := x.Key.(*ast.Ident); !isID || id.Name != "_" {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(k)}})
	}
	return append(before, &ast.RangeStmt{
		Key: ast.NewIdent("_"), Value: ast.NewIdent(k), Tok: token.DEFINE,
		X:    &ast.CallExpr{Fun: in.sel("Keys"), Args: []ast.Expr{x.X}},
		Body: &ast.BlockStmt{List: append(pre, x.Body)},
	})
}

// exprs instruments function literals and channel receives inside n.
func (in *instr) exprs(n ast.Node) {
	rewrite(n, in)
}

func (in *instr) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		rep.ChanOps++
		return &ast.CallExpr{Fun: in.sel("Recv"), Args: []ast.Expr{in.expr(u.X)}}
	}
	rewrite(e, in)
	return e
}
