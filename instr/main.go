// instr rewrites the Go packages under test so that every source of
// nondeterminism goes through verif/mc, and writes an overlay for the go
// command. It judges nothing about the code; it only redirects
// language-level operations (go, chan, select, map range) and the imports of
// time, sync, sync/atomic, net, net/http, runtime, runtime/debug, context.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const mcName = "verifmc_"

var mirrored = map[string]string{
	"time": "verif/mc/x/time", "sync": "verif/mc/x/sync", "sync/atomic": "verif/mc/x/sync/atomic",
	"net": "verif/mc/x/net", "net/http": "verif/mc/x/net/http", "runtime": "verif/mc/x/runtime",
	"runtime/debug": "verif/mc/x/runtime/debug", "context": "verif/mc/x/context",
}

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
}

func main() {
	out := flag.String("out", "", "directory for rewritten files and overlay.json")
	base := flag.String("overlay", "", "overlay to start from")
	target := flag.String("target", "", "package whose dependencies are considered")
	prefixes := flag.String("prefixes", "", "comma-separated import path prefixes to rewrite")
	stmts := flag.String("stmts", "", "import path prefix of the packages in which every statement is a possible scheduling point")
	flag.Parse()

	cmd := exec.Command("go", "list", "-overlay", *base, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Error", *target)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listed
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listed{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	if b, err := os.ReadFile(*base); err == nil {
		json.Unmarshal(b, &overlay)
	}
	n := 0
	for _, p := range pkgs {
		hit := false
		for _, pre := range strings.Split(*prefixes, ",") {
			if p.ImportPath == pre || strings.HasPrefix(p.ImportPath, pre+"/") {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		points := *stmts != "" && (p.ImportPath == *stmts || strings.HasPrefix(p.ImportPath, *stmts+"/"))
		for _, r := range rewritePackage(p, exports, overlay.Replace, points) {
			n++
			name := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(r.path)))
			if err := os.WriteFile(name, r.src, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay.Replace[r.path] = name
		}
	}
	b, _ := json.MarshalIndent(overlay, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type rewritten struct {
	path string
	src  []byte
}

var instrumented = func(path string) bool { return false }

func rewritePackage(p *listed, exports, overlay map[string]string, points bool) []rewritten {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		var src any
		if from := overlay[filepath.Join(p.Dir, f)]; from != "" {
			b, err := os.ReadFile(from)
			if err != nil {
				fatal("%v", err)
			}
			src = b
		}
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		GoVersion: "go1.27",
	}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type checking %s: %v", p.ImportPath, err)
	}
	order := map[ast.Expr]int{}
	for i, in := range info.InitOrder {
		order[in.Rhs] = i + 1
	}
	var outs []rewritten
	for i, f := range files {
		r := &rw{info: info, pkg: pkg, fset: fset, file: f, points: points}
		resets := r.resets(order)
		r.rewriteFile()
		f.Decls = append(append(f.Decls, resets...), r.kept...)
		if len(resets) > 0 {
			r.used = true
		}
		if r.used {
			spec := &ast.ImportSpec{Name: ast.NewIdent(mcName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc"`}}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		}
		// comments: keep directives only
		var keep []*ast.CommentGroup
		for _, g := range f.Comments {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:") && !strings.HasPrefix(c.Text, "//go:build") {
					keep = append(keep, &ast.CommentGroup{List: []*ast.Comment{c}})
				}
			}
		}
		f.Comments = nil
		clearDocs(f, keep)
		f.Doc = nil
		var b bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
		if err := cfg.Fprint(&b, fset, f); err != nil {
			fatal("printing %s: %v", p.GoFiles[i], err)
		}
		outs = append(outs, rewritten{filepath.Join(p.Dir, p.GoFiles[i]), b.Bytes()})
	}
	return outs
}

// clearDocs drops doc comments except compiler directives.
func clearDocs(f *ast.File, keep []*ast.CommentGroup) {
	dir := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		out := &ast.CommentGroup{}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") {
				out.List = append(out.List, c)
			}
		}
		if len(out.List) == 0 {
			return nil
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = dir(n.Doc)
		case *ast.GenDecl:
			n.Doc = dir(n.Doc)
		case *ast.ValueSpec:
			n.Doc, n.Comment = dir(n.Doc), nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

type rw struct {
	info *types.Info
	pkg  *types.Package
	fset *token.FileSet
	file *ast.File
	used bool
	tmp  int

	points bool // every statement is a possible scheduling point
	kept   []ast.Decl
}

func (r *rw) mc(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(mcName), Sel: ast.NewIdent(name)}
}

// keep makes the file go on using what was replaced, for its import.
func (r *rw) keep(x string) {
	e, err := parser.ParseExpr(x)
	if err != nil {
		fatal("%s: %v", x, err)
	}
	r.kept = append(r.kept, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{e}}}})
}

func (r *rw) fresh() *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("verifmc_t%d", r.tmp))
}

func (r *rw) rewriteFile() {
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if m, ok := mirrored[path]; ok {
			if im.Name == nil {
				im.Path = &ast.BasicLit{ValuePos: im.Path.ValuePos, Kind: token.STRING, Value: strconv.Quote(m)}
			} else {
				im.Path.Value = strconv.Quote(m)
			}
		}
	}
	for i, d := range r.file.Decls {
		r.file.Decls[i] = r.walk(reflect.ValueOf(d)).Interface().(ast.Decl)
	}
}

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	identT = reflect.TypeOf((*ast.Ident)(nil))
)

// walk rewrites the tree rooted at v (a non-nil pointer to a node) and returns what replaces it.
func (r *rw) walk(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch n := v.Interface().(type) {
	case *ast.Ident, *ast.BasicLit, *ast.CommentGroup, *ast.ImportSpec:
		return v
	case *ast.LabeledStmt:
		if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
			return reflect.ValueOf(r.selectStmt(sel, n.Label))
		}
	case *ast.SelectStmt:
		return reflect.ValueOf(r.selectStmt(n, nil))
	case *ast.GoStmt:
		return reflect.ValueOf(r.goStmt(n))
	case *ast.RangeStmt:
		t := r.under(n.X)
		isChan, isMap := false, false
		switch t.(type) {
		case *types.Chan:
			isChan = true
		case *types.Map:
			isMap = true
		}
		r.children(v)
		if isChan {
			n.X = call(sel(n.X, "Range"))
		} else if isMap {
			n.X = call(r.mc("RangeMap"), n.X)
		}
		return v
	case *ast.SendStmt:
		r.children(v)
		return reflect.ValueOf(ast.Stmt(&ast.ExprStmt{X: callAt(n.Arrow, sel(n.Chan, "Send"), n.Value)}))
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range n.Lhs {
					n.Lhs[i] = r.expr(n.Lhs[i])
				}
				n.Rhs[0] = callAt(u.OpPos, sel(r.expr(u.X), "Recv2"))
				return v
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				if n.Type != nil {
					n.Type = r.expr(n.Type)
				}
				n.Values[0] = callAt(u.OpPos, sel(r.expr(u.X), "Recv2"))
				return v
			}
		}
	case *ast.TypeSpec:
		if _, ok := n.Type.(*ast.ChanType); ok && !n.Assign.IsValid() {
			n.Assign = n.Type.Pos() // named channel types become aliases
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return reflect.ValueOf(ast.Expr(callAt(n.OpPos, sel(r.expr(n.X), "Recv"))))
		}
	case *ast.ChanType:
		return reflect.ValueOf(ast.Expr(&ast.StarExpr{X: &ast.IndexExpr{X: r.mc("Chan"), Index: r.expr(n.Value)}}))
	case *ast.CallExpr:
		return reflect.ValueOf(r.callExpr(n))
	case *ast.SelectorExpr:
		// who the process is, is dictated, too
		if f, ok := r.info.Uses[n.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "os" && f.Signature().Recv() == nil && (f.Name() == "Getpid" || f.Name() == "Hostname") {
			if x, ok := n.X.(*ast.Ident); ok {
				r.keep(x.Name + "." + f.Name())
				return reflect.ValueOf(r.mc(f.Name()))
			}
		}
	}
	r.children(v)
	switch n := v.Interface().(type) {
	case *ast.BlockStmt:
		n.List = r.withPoints(n.List)
	case *ast.CaseClause:
		n.Body = r.withPoints(n.Body)
	}
	return v
}

// withPoints puts a possible scheduling point before every statement.
func (r *rw) withPoints(l []ast.Stmt) []ast.Stmt {
	if !r.points || len(l) == 0 {
		return l
	}
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return l
		case *ast.EmptyStmt, *ast.DeclStmt, *ast.BranchStmt:
		default:
			out = append(out, &ast.ExprStmt{X: call(r.mc("Stmt"))})
		}
		out = append(out, s)
	}
	return out
}

func (r *rw) children(v reflect.Value) {
	e := v.Elem()
	if e.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		switch f.Kind() {
		case reflect.Interface, reflect.Pointer:
			if f.IsNil() || !f.Type().Implements(nodeT) {
				continue
			}
			if f.Type() == identT {
				continue
			}
			f.Set(r.conv(r.walk(f), f.Type()))
		case reflect.Slice:
			et := f.Type().Elem()
			if !et.Implements(nodeT) || et == identT {
				continue
			}
			for j := 0; j < f.Len(); j++ {
				x := f.Index(j)
				if x.IsNil() {
					continue
				}
				x.Set(r.conv(r.walk(x), x.Type()))
			}
		}
	}
}

func (r *rw) conv(v reflect.Value, t reflect.Type) reflect.Value {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.Type().AssignableTo(t) {
		fatal("cannot use rewritten %s as %s", v.Type(), t)
	}
	return v
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	return r.walk(reflect.ValueOf(e)).Interface().(ast.Expr)
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, len(l))
	for i, s := range l {
		out[i] = r.walk(reflect.ValueOf(s)).Interface().(ast.Stmt)
	}
	return out
}

func (r *rw) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.ObjectOf(id); o != nil {
				return o.Type().Underlying()
			}
		}
		return nil
	}
	if tv.Type == nil {
		return nil
	}
	return tv.Type.Underlying()
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func sel(x ast.Expr, name string) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func callAt(p token.Pos, f ast.Expr, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: args}
}

func (r *rw) builtin(n *ast.CallExpr) string {
	if id, ok := unparen(n.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) callExpr(n *ast.CallExpr) ast.Expr {
	switch r.builtin(n) {
	case "make":
		if c, ok := r.under(n.Args[0]).(*types.Chan); ok {
			var elem ast.Expr
			if ct, ok := unparen(n.Args[0]).(*ast.ChanType); ok {
				elem = r.expr(ct.Value)
			} else {
				elem = r.typeExpr(c.Elem())
			}
			size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(n.Args) > 1 {
				size = r.expr(n.Args[1])
			}
			return call(&ast.IndexExpr{X: r.mc("MakeChan"), Index: elem}, size)
		}
	case "close":
		return call(sel(r.expr(n.Args[0]), "Close"))
	case "len", "cap":
		if _, ok := r.under(n.Args[0]).(*types.Chan); ok {
			m := "Len"
			if r.builtin(n) == "cap" {
				m = "Cap"
			}
			return call(sel(r.expr(n.Args[0]), m))
		}
	}
	wrap := r.foreignChan(n)
	r.children(reflect.ValueOf(n))
	// a conversion to a channel type: (*Chan[T])(x)
	if st, ok := n.Fun.(*ast.StarExpr); ok {
		n.Fun = &ast.ParenExpr{X: st}
	}
	if wrap {
		return call(r.mc("Wrap"), n)
	}
	return n
}

// foreignChan: the call returns a channel made by a package that is not rewritten.
func (r *rw) foreignChan(n *ast.CallExpr) bool {
	if _, ok := r.under(n).(*types.Chan); !ok {
		return false
	}
	var obj types.Object
	switch f := unparen(n.Fun).(type) {
	case *ast.Ident:
		obj = r.info.Uses[f]
	case *ast.SelectorExpr:
		obj = r.info.Uses[f.Sel]
	}
	fn, ok := obj.(*types.Func)
	if !ok || fn.Pkg() == nil {
		return false
	}
	return fn.Pkg().Path() == "context"
}

func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for _, im := range r.file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() || path == mirrored[p.Path()] {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatal("type %s: %v", s, err)
	}
	return r.plainChans(e)
}

// plainChans rewrites channel types in an expression without type information.
func (r *rw) plainChans(e ast.Expr) ast.Expr { return r.expr(e) }

func (r *rw) goStmt(n *ast.GoStmt) ast.Stmt {
	c := n.Call
	if r.builtin(c) != "" {
		body := r.expr(c)
		return &ast.ExprStmt{X: call(r.mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		t := r.fresh()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(t.Name)
	}
	fun := c.Fun
	inline := false
	switch f := unparen(fun).(type) {
	case *ast.FuncLit:
		inline = true
	case *ast.Ident:
		_, inline = r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				_, inline = r.info.Uses[f.Sel].(*types.Func)
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inline = true // instantiation of a generic function
	}
	_, isLit := unparen(fun).(*ast.FuncLit)
	nfun := r.expr(fun)
	if !inline {
		nfun = bind(nfun)
	}
	nc := &ast.CallExpr{Fun: nfun, Ellipsis: c.Ellipsis}
	if len(c.Args) == 1 {
		if tup, ok := r.info.Types[c.Args[0]].Type.(*types.Tuple); ok && tup.Len() > 1 {
			as := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Args[0])}}
			for i := 0; i < tup.Len(); i++ {
				t := r.fresh()
				as.Lhs = append(as.Lhs, t)
				nc.Args = append(nc.Args, ast.NewIdent(t.Name))
			}
			pre = append(pre, as)
			goto done
		}
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		_, lit := unparen(a).(*ast.FuncLit)
		if tv.Value != nil || tv.IsNil() || lit {
			nc.Args = append(nc.Args, r.expr(a))
		} else {
			nc.Args = append(nc.Args, bind(r.expr(a)))
		}
	}
done:
	if isLit && len(nc.Args) == 0 {
		lit := unparen(nfun).(*ast.FuncLit)
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			if len(pre) == 0 {
				return &ast.ExprStmt{X: call(r.mc("Go"), lit)}
			}
		}
	}
	if isLit {
		nc.Fun = &ast.ParenExpr{X: nfun}
	}
	g := &ast.ExprStmt{X: call(r.mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rw) selectStmt(n *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.mc("BlockForever"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}
	}
	var pre []ast.Stmt
	hasDef := false
	var tmps []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	var last *ast.CaseClause
	for _, cs := range n.Body.List {
		cc := cs.(*ast.CommClause)
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = true
			cl.Body = r.withPoints(r.stmts(cc.Body))
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		t := r.fresh()
		tref := func() ast.Expr { return ast.NewIdent(t.Name) }
		var head []ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			ch, v := r.expr(s.Chan), r.expr(s.Value)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(ch, "OnSend"), v)}})
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(r.expr(u.X), "OnRecv"))}})
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(r.expr(u.X), "OnRecv"))}})
			as := &ast.AssignStmt{Tok: s.Tok}
			for i, l := range s.Lhs {
				f := "V"
				if i == 1 {
					f = "OK"
				}
				as.Lhs = append(as.Lhs, r.expr(l))
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: tref(), Sel: ast.NewIdent(f)})
			}
			head = append(head, as)
		}
		tmps = append(tmps, tref())
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		cl.Body = append(head, r.withPoints(r.stmts(cc.Body))...)
		sw.Body.List = append(sw.Body.List, cl)
		last = cl
	}
	if !hasDef {
		last.List = nil // becomes default, so that a terminating select stays terminating
	}
	d := "false"
	if hasDef {
		d = "true"
	}
	sw.Tag = call(r.mc("Select"), append([]ast.Expr{ast.NewIdent(d)}, tmps...)...)
	var s ast.Stmt = sw
	if label != nil {
		s = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, s)}
}

var inits int

// resets builds, for this file, functions that restore its package-level variables.
func (r *rw) resets(order map[ast.Expr]int) []ast.Decl {
	var body []ast.Stmt
	add := func(idx int, s ast.Stmt) {
		body = append(body, &ast.ExprStmt{X: call(r.mc("RegisterReset"),
			&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.pkg.Path())},
			&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)},
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}})})
	}
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		if g.Doc != nil && strings.Contains(comments(g.Doc), "//go:embed") {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			blank := true
			for _, n := range vs.Names {
				if n.Name != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					t := ast.Expr(vs.Type)
					add(0, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN,
						Rhs: []ast.Expr{&ast.StarExpr{X: call(ast.NewIdent("new"), r.clone(t))}}})
				}
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for i, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					add(order[vs.Values[i]], &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.clone(vs.Values[i])}})
				}
			} else {
				as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{r.clone(vs.Values[0])}}
				for _, n := range vs.Names {
					as.Lhs = append(as.Lhs, ast.NewIdent(n.Name))
				}
				add(order[vs.Values[0]], as)
			}
		}
	}
	// init functions run again, too, after all variables are set
	for _, d := range r.file.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "init" {
			inits++
			f.Name = ast.NewIdent(fmt.Sprintf("verifmc_init%d", inits))
			body = append(body, &ast.ExprStmt{X: call(ast.NewIdent(f.Name.Name))})
			add(1<<20+inits, &ast.ExprStmt{X: call(ast.NewIdent(f.Name.Name))})
		}
	}
	if len(body) == 0 {
		return nil
	}
	return []ast.Decl{&ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}
}

func comments(g *ast.CommentGroup) string {
	var b strings.Builder
	for _, c := range g.List {
		b.WriteString(c.Text + "\n")
	}
	return b.String()
}

// clone deep-copies an expression (carrying type information over) and rewrites the copy.
func (r *rw) clone(e ast.Expr) ast.Expr {
	c := r.copyNode(reflect.ValueOf(e)).Interface().(ast.Expr)
	return r.expr(c)
}

func (r *rw) copyNode(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return v
		}
		return r.copyNode(v.Elem())
	}
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return v
	}
	if !v.Type().Implements(nodeT) {
		return v // e.g. *ast.Object
	}
	n := reflect.New(v.Type().Elem())
	n.Elem().Set(v.Elem())
	if n.Elem().Kind() == reflect.Struct {
		for i := 0; i < n.Elem().NumField(); i++ {
			f := n.Elem().Field(i)
			switch f.Kind() {
			case reflect.Interface, reflect.Pointer:
				if !f.IsNil() && f.Type().Implements(nodeT) {
					f.Set(r.copyNode(f))
				}
			case reflect.Slice:
				if f.IsNil() || !f.Type().Elem().Implements(nodeT) {
					continue
				}
				s := reflect.MakeSlice(f.Type(), f.Len(), f.Len())
				for j := 0; j < f.Len(); j++ {
					s.Index(j).Set(r.copyNode(f.Index(j)))
				}
				f.Set(s)
			}
		}
	}
	if a, ok := v.Interface().(ast.Expr); ok {
		b := n.Interface().(ast.Expr)
		if tv, ok := r.info.Types[a]; ok {
			r.info.Types[b] = tv
		}
		if x, ok := a.(*ast.Ident); ok {
			y := b.(*ast.Ident)
			if o := r.info.Uses[x]; o != nil {
				r.info.Uses[y] = o
			}
			if o := r.info.Defs[x]; o != nil {
				r.info.Defs[y] = o
			}
		}
	}
	return n
}
