// mutate FILE... lists the mutants of Go files as lines of JSON: {"file","off","end","new","kind","line","text"}. See run.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Off, End int
	New      string `json:"new"`
	Kind     string `json:"kind"`
	Line     int    `json:"line"`
	Text     string `json:"text"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func skipped(s string) bool {
	for _, p := range []string{"logger.", "zap.", "trace.", "tracer.", "span.", "defer span", "metrics.", "otel."} {
		if strings.HasPrefix(strings.TrimPrefix(s, "_ = "), p) {
			return !strings.HasPrefix(s, "metrics.")
		}
	}
	return false
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, kind, repl string) {
			t := string(src[off(from):off(to)])
			if len(t) > 200 {
				t = t[:200]
			}
			enc.Encode(mutant{file, off(from), off(to), repl, kind, fs.Position(from).Line, t})
		}
		var results []*ast.FieldList
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body == nil {
					return false
				}
				results = append(results, n.Type.Results)
				ast.Inspect(n.Body, visit)
				results = results[:len(results)-1]
				return false
			case *ast.FuncLit:
				results = append(results, n.Type.Results)
				ast.Inspect(n.Body, visit)
				results = results[:len(results)-1]
				return false
			case *ast.ImportSpec:
				return false
			case *ast.ExprStmt:
				if skipped(text(n)) {
					return false
				}
				emit(n.Pos(), n.End(), "delete", "_ = 0")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "delete", "_ = 0")
				}
				if n.Tok == token.ADD_ASSIGN {
					emit(n.Pos(), n.End(), "replace", text(n.Lhs[0])+" = "+text(n.Rhs[0]))
				}
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "delete", "_ = 0")
			case *ast.DeferStmt:
				if skipped(text(n.Call)) {
					return false
				}
				emit(n.Pos(), n.End(), "delete", "_ = 0")
			case *ast.GoStmt:
				emit(n.Pos(), n.End(), "delete", "_ = 0")
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "branch", "break")
				}
				if n.Label == nil && n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "branch", "_ = 0")
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				emit(n.Cond.Pos(), n.Cond.End(), "iftrue", "(("+c+") || true)")
				emit(n.Cond.Pos(), n.Cond.End(), "iffalse", "(("+c+") && false)")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "forfalse", "("+text(n.Cond)+") && false")
				}
			case *ast.BinaryExpr:
				if bl, ok := n.X.(*ast.BasicLit); ok && bl.Kind == token.STRING {
					break
				}
				if bl, ok := n.Y.(*ast.BasicLit); ok && bl.Kind == token.STRING && n.Op == token.ADD {
					break
				}
				for _, s := range swaps[n.Op] {
					kind := "binary"
					if n.Op == token.ADD || n.Op == token.SUB || n.Op == token.MUL || n.Op == token.QUO {
						kind = "arith"
					}
					emit(n.Pos(), n.End(), kind, text(n.X)+" "+s+" "+text(n.Y))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), "operand", text(n.X))
					emit(n.Pos(), n.End(), "operand", text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), "not", text(n.X))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), "const", fmt.Sprint(v+1))
						if v > 1 {
							emit(n.Pos(), n.End(), "const", fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.STRING && len(n.Value) > 3 && len(n.Value) < 60 {
					emit(n.Pos(), n.End(), "string", n.Value[:len(n.Value)-1]+"x"+n.Value[len(n.Value)-1:])
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "bool", "false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "bool", "true")
				}
			case *ast.CallExpr:
				if skipped(text(n)) {
					return false
				}
				for i := 1; i < len(n.Args); i++ {
					a, b := text(n.Args[i-1]), text(n.Args[i])
					if a != b && a != "ctx" && len(a) < 60 && len(b) < 60 {
						emit(n.Args[i-1].Pos(), n.Args[i].End(), "swap", b+", "+a)
					}
				}
			case *ast.KeyValueExpr:
				if _, ok := n.Key.(*ast.Ident); ok {
					if _, ok := n.Value.(*ast.CompositeLit); !ok {
						emit(n.Pos(), n.End(), "field", "")
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "emptycase", "_ = 0")
				}
			case *ast.ReturnStmt:
				r := results[len(results)-1]
				if len(n.Results) > 0 && r != nil {
					last := n.Results[len(n.Results)-1]
					if t, ok := r.List[len(r.List)-1].Type.(*ast.Ident); ok && t.Name == "error" && text(last) != "nil" {
						emit(last.Pos(), last.End(), "errnil", "nil")
					}
				}
				if len(n.Results) == 0 {
					emit(n.Pos(), n.End(), "return", "_ = 0")
				}
			}
			return true
		}
		for _, d := range f.Decls {
			ast.Inspect(d, visit)
		}
	}
}
