// mutate lists small changes of Go files, one JSON line each:
// {"file":..., "line":..., "start":..., "end":..., "text":..., "what":...}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	What  string `json:"what"`
}

var (
	deps = importer.ForCompiler(token.NewFileSet(), "source", nil)
	seen = map[string]bool{}
)

// compiles tells if the package of the file does with the change.
func compiles(file string, src []byte, start, end int, repl string) bool {
	changed := string(src[:start]) + repl + string(src[end:])
	if changed == string(src) || seen[file+"\x00"+changed] {
		return false
	}
	seen[file+"\x00"+changed] = true
	fset := token.NewFileSet()
	list, err := filepath.Glob(filepath.Join(filepath.Dir(file), "*.go"))
	if err != nil {
		panic(err)
	}
	var files []*ast.File
	for _, name := range list {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		var text any
		if name == file {
			text = changed
		}
		f, err := parser.ParseFile(fset, name, text, 0)
		if err != nil {
			return false
		}
		files = append(files, f)
	}
	_, err = (&types.Config{Importer: deps, Error: func(error) {}}).Check("p", fset, files, nil)
	return err == nil
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(start, end token.Pos, repl, what string) {
			if what == "" || !compiles(file, src, off(start), off(end), repl) {
				return
			}
			enc.Encode(edit{file, fset.Position(start).Line, off(start), off(end), repl, what})
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		}
		cond := func(c ast.Expr) {
			if c == nil {
				return
			}
			emit(c.Pos(), c.End(), "!("+text(c)+")", "negated condition")
			emit(c.Pos(), c.End(), "("+text(c)+") && false", "condition false")
			emit(c.Pos(), c.End(), "("+text(c)+") || true", "condition true")
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "deleted statement")
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "deleted "+s.Tok.String())
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						lhs := ""
						for k, l := range s.Rhs {
							if k > 0 {
								lhs += "; "
							}
							lhs += "_ = " + text(l)
						}
						if len(s.Rhs) == len(s.Lhs) {
							emit(s.Pos(), s.End(), lhs, "dropped assignment")
						}
						emit(s.Pos(), s.End(), "", "deleted assignment")
					}
					if s.Tok == token.ADD_ASSIGN {
						emit(s.TokPos, s.TokPos+2, "=", "+= to =")
					}
				case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
					emit(s.Pos(), s.End(), "", "deleted block")
				}
				if i+1 < len(list) {
					n := list[i+1]
					emit(s.Pos(), n.End(), text(n)+string(src[off(s.End()):off(n.Pos())])+text(s), "swapped statements")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, r := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, n.Op.String()+" to "+r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "left operand only")
					emit(n.Pos(), n.End(), text(n.Y), "right operand only")
				}
				if n.Op == token.ADD {
					emit(n.Pos(), n.End(), text(n.X), "left operand only")
					emit(n.Pos(), n.End(), text(n.Y), "right operand only")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.OpPos, n.OpPos+1, "", "dropped !")
				}
			case *ast.IfStmt:
				cond(n.Cond)
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "dropped else")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "loop never")
				}
			case *ast.RangeStmt:
				emit(n.X.Pos(), n.X.End(), text(n.X)+"[:0]", "empty range")
				emit(n.X.Pos(), n.X.End(), text(n.X)+"[1:]", "range from second")
				emit(n.X.Pos(), n.X.End(), text(n.X)+"[:1]", "range of first")
				emit(n.Body.Lbrace+1, n.Body.Lbrace+1, " if true { break };", "break at once")
				emit(n.Body.Rbrace, n.Body.Rbrace, " ; break ", "break at end")
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "emptied case")
				}
				if len(n.List) > 1 {
					for i := range n.List {
						if i == 0 {
							emit(n.List[0].Pos(), n.List[1].Pos(), "", "dropped from case")
						} else {
							emit(n.List[i-1].End(), n.List[i].End(), "", "dropped from case")
						}
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.Atoi(n.Value); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "number+1")
						emit(n.Pos(), n.End(), fmt.Sprint(v-1), "number-1")
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil {
						if s != "" {
							emit(n.Pos(), n.End(), `""`, "emptied string")
						}
						emit(n.Pos(), n.End(), strconv.Quote(s+"x"), "longer string")
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), "'~'", "other char")
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "true to false")
				}
				if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "false to true")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch x := r.(type) {
					case *ast.Ident:
						if x.Name != "nil" {
							for _, z := range []string{"nil", `""`, "0", "false"} {
								if x.Name != z && !(x.Name == "true" && z == "false") {
									emit(r.Pos(), r.End(), z, "return "+z)
								}
							}
						}
					default:
						for _, z := range []string{"nil", `""`, "0", "false", "true"} {
							emit(r.Pos(), r.End(), z, "return "+z)
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "", "slice from start")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "", "slice to end")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "append nothing")
					emit(n.Pos(), n.End(), text(n), "")
				}
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					if n.Ellipsis == token.NoPos || i+2 < len(n.Args) {
						emit(a.Pos(), b.End(), text(b)+", "+text(a), "swapped arguments")
					}
				}
				for _, a := range n.Args {
					if id, ok := a.(*ast.Ident); ok && id.Name != "nil" {
						emit(a.Pos(), a.End(), "nil", "nil argument")
					}
				}
				if len(n.Args) == 1 {
					// f(x) replaced by x
					emit(n.Pos(), n.End(), text(n.Args[0]), "call replaced by its argument")
				}
			case *ast.KeyValueExpr:
				emit(n.Pos(), n.End(), "", "dropped field")
			}
			return true
		})
	}
}
