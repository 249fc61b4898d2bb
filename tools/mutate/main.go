// mutate lists small source changes of one Go file, one per line as
// JSON {"file","off","end","new","what"}; tools/mutants.py runs them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

var fset = token.NewFileSet()

func main() {
	file := os.Args[1]
	dir := filepath.Dir(file)
	src, _ := os.ReadFile(file)
	var files []*ast.File
	var target *ast.File
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.Contains(n, "_darwin") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		if filepath.Join(dir, n) == file {
			target = f
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	cfg := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := cfg.Check("p", fset, files, info)

	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	seen := map[string]bool{}
	emit := func(from, to token.Pos, new, what string) {
		m := mut{file, off(from), off(to), new, what, fset.Position(from).Line}
		k := fmt.Sprint(m.Off, m.End, m.New)
		if seen[k] || string(src[m.Off:m.End]) == new {
			return
		}
		seen[k] = true
		enc.Encode(m)
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"*"}, token.AND: {"|"}, token.OR: {"&"},
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
				emit(s.Pos(), s.End(), "", "delete: "+text(s))
				_ = x
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
					emit(s.Pos(), s.End(), "", "delete: "+text(s))
				}
			case *ast.GoStmt:
				emit(s.Pos(), s.End(), "", "delete: go")
				emit(x.Go, x.Call.Pos(), "", "go removed")
			case *ast.IfStmt:
				emit(s.Pos(), s.End(), "", "delete: if")
			case *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete: "+text(s))
				if x.Tok == token.BREAK && x.Label == nil {
					emit(s.Pos(), s.End(), "return", "break->return")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit(s.Pos(), s.End(), "", "delete: return")
				}
			}
			if i+1 < len(list) {
				a, b := s, list[i+1]
				ok := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt, *ast.GoStmt:
						return true
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					}
					return false
				}
				if ok(a) && ok(b) {
					emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap statements")
				}
			}
		}
	}
	// objects of the same type visible at a place
	same := func(id *ast.Ident) (out []string) {
		o := info.Uses[id]
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == pkg.Scope() {
			return nil
		}
		for sc := pkg.Scope().Innermost(id.Pos()); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
			for _, n := range sc.Names() {
				w, ok := sc.Lookup(n).(*types.Var)
				if ok && w != v && w.Pos() < id.Pos() && types.Identical(w.Type(), v.Type()) {
					out = append(out, n)
				}
			}
		}
		return out
	}
	ast.Inspect(target, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if x.List != nil {
				for i := range x.List {
					if len(x.List) > 1 {
						var l []string
						for j := range x.List {
							if j != i {
								l = append(l, text(x.List[j]))
							}
						}
						emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(l, ", "), "drop case value")
					}
				}
			}
			emit(x.Pos(), x.End(), "", "delete case")
		case *ast.CommClause:
			stmts(x.Body)
			emit(x.Pos(), x.End(), "", "delete comm case")
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+"->"+s)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), text(x.X), "drop right")
				emit(x.Pos(), x.End(), text(x.Y), "drop left")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB {
				emit(x.Pos(), x.End(), text(x.X), "drop "+x.Op.String())
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
			emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
			emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "drop else")
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Body.End()-1, x.Body.End()-1, "\nbreak\n", "loop once")
			}
		case *ast.RangeStmt:
			emit(x.Body.End()-1, x.Body.End()-1, "\nbreak\n", "loop once")
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
					if v > 0 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
					}
				}
			case token.FLOAT:
				emit(x.Pos(), x.End(), x.Value+"1", "float")
				emit(x.Pos(), x.End(), "1"+x.Value, "float")
			case token.STRING:
				if len(x.Value) > 2 && x.Value[0] == '"' {
					emit(x.Pos(), x.End(), `""`, "empty string")
					emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+`x"`, "string+x")
				}
			case token.CHAR:
				emit(x.Pos(), x.End(), "'x'", "char")
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN {
				emit(x.TokPos, x.TokPos+2, "-=", "+= -> -=")
				emit(x.TokPos, x.TokPos+2, "=", "+= -> =")
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				emit(x.TokPos, x.TokPos+2, "--", "++ -> --")
				emit(x.TokPos, x.TokPos+2, "+= 2", "++ -> += 2")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 2 {
				if _, ok := x.Args[0].(*ast.ChanType); ok {
					emit(x.Args[0].End(), x.Args[1].End(), "", "unbuffered")
				}
			}
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := info.TypeOf(x.Args[i]), info.TypeOf(x.Args[i+1])
				if a != nil && b != nil && types.Identical(a, b) {
					emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap args")
				}
			}
		case *ast.SelectorExpr:
			if s := info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				t := s.Recv()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Name() != x.Sel.Name && types.Identical(f.Type(), s.Type()) {
							emit(x.Sel.Pos(), x.Sel.End(), f.Name(), "field "+x.Sel.Name+"->"+f.Name())
						}
					}
				}
			}
		case *ast.Ident:
			for _, o := range same(x) {
				emit(x.Pos(), x.End(), o, "var "+x.Name+"->"+o)
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice low+1")
			}
			if x.High != nil {
				emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice high-1")
			}
		}
		return true
	})
}
