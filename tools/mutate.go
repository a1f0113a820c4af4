//go:build ignore

// Lists mutants of Go files as JSON lines: go run mutate.go FILE...
// (development tool, used by no check)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Start    int    `json:"start"`
	End      int    `json:"end"`
	New      string `json:"new"`
	Line     int    `json:"line"`
	Func     string `json:"func"`
	What     string `json:"what"`
	Original string `json:"old"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" || strings.HasPrefix(fd.Name.Name, "Log") || strings.Contains(fd.Name.Name, "debug") {
				continue
			}
			emit := func(a, b token.Pos, s, what string) {
				o := string(src[off(a):off(b)])
				if len(o) > 200 {
					o = o[:200]
				}
				enc.Encode(mutant{fn, off(a), off(b), s, fs.Position(a).Line, fd.Name.Name, what, o})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					if b, ok := n.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						return true
					}
					for _, s := range swaps[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "literal+1")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "literal-1")
							}
						}
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "true || "+paren(src, off(n.Cond.Pos()), off(n.Cond.End())), "if true")
					emit(n.Cond.Pos(), n.Cond.End(), "false && "+paren(src, off(n.Cond.Pos()), off(n.Cond.End())), "if false")
				case *ast.CallExpr:
					fn := string(src[off(n.Fun.Pos()):off(n.Fun.End())])
					if w := widths[fn]; len(n.Args) == 1 {
						for _, x := range w {
							emit(n.Lparen+1, n.Rparen, x+"("+string(src[off(n.Args[0].Pos()):off(n.Args[0].End())])+")", "via "+x)
						}
					}
					if fn == "append" && len(n.Args) == 2 && n.Ellipsis != 0 {
						if a := string(src[off(n.Args[0].Pos()):off(n.Args[0].End())]); strings.HasSuffix(a, "{}") || strings.HasSuffix(a, "(nil)") {
							emit(n.Pos(), n.End(), string(src[off(n.Args[1].Pos()):off(n.Args[1].End())]), "no copy")
						}
					}
				case *ast.BlockStmt:
					for i := 0; i+1 < len(n.List); i++ {
						a, b := n.List[i], n.List[i+1]
						if simple(a) && simple(b) {
							emit(a.Pos(), b.End(), string(src[off(b.Pos()):off(b.End())])+"\n"+string(src[off(a.Pos()):off(a.End())]), "swap statements")
						}
					}
					for _, s := range n.List {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
							emit(s.Pos(), s.End(), "", "delete")
						case *ast.AssignStmt:
							if x.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), blank(src, x, off), "delete")
							}
						case *ast.BranchStmt:
							if x.Label == nil && x.Tok == token.CONTINUE {
								emit(s.Pos(), s.End(), "break", "continue -> break")
							}
							if x.Label == nil && x.Tok == token.BREAK {
								emit(s.Pos(), s.End(), "", "delete")
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range n.Body {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(s.Pos(), s.End(), "", "delete")
						case *ast.AssignStmt:
							if x.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), blank(src, x, off), "delete")
							}
						}
					}
				}
				return true
			})
		}
	}
}

var widths = map[string][]string{
	"uint32": {"uint16"}, "int32": {"int16"}, "uint64": {"uint32"}, "int64": {"int32", "uint32"}, "int": {"int16", "uint16", "int32"},
	"uint16": {"uint8"}, "time.Duration": {"int32"}, "float64": {"float32", "int32"}, "byte": {"0x7f&", "0x3f&"}, "uint8": {"0x7f&"},
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	case *ast.IfStmt:
		return s.Init != nil || len(s.Body.List) > 0
	}
	return false
}

func paren(src []byte, a, b int) string { return "(" + string(src[a:b]) + ")" }

// blank keeps what is on the right used.
func blank(src []byte, x *ast.AssignStmt, off func(token.Pos) int) string {
	if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
		return "_ = " + string(src[off(x.Rhs[0].Pos()):off(x.Rhs[0].End())])
	}
	return ""
}
