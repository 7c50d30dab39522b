// mutate FILE...: development aid that lists small changes of Go files, one
// JSON object per line: file, offset, length, replacement, function, line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Old  string `json:"old"`
}

var swap = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn := fd.Name.Name
			if fd.Recv != nil {
				t := string(src[fs.Position(fd.Recv.List[0].Type.Pos()).Offset:fs.Position(fd.Recv.List[0].Type.End()).Offset])
				fn = t + "." + fn
			}
			emit := func(from, to token.Pos, repl string) {
				a, b := fs.Position(from).Offset, fs.Position(to).Offset
				_ = enc.Encode(mut{name, fn, fs.Position(from).Line, a, b - a, repl, string(src[a:b])})
			}
			text := func(n ast.Node) string {
				return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
			}
			noise := func(s string) bool {
				for _, w := range []string{"logger.", "log.", "fmt.Print", "zap.", "panic(", "os.Exit", "println", "Err", "defer "} {
					if strings.Contains(s, w) {
						return true
					}
				}
				return false
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					t := text(x.Fun)
					if strings.HasPrefix(t, "logger.") || strings.Contains(t, ".logger.") || strings.HasPrefix(t, "fmt.Print") || strings.HasPrefix(t, "zap.") || strings.HasPrefix(t, "log.") || t == "panic" || t == "make" {
						return false
					}
				case *ast.BinaryExpr:
					if strings.Contains(text(x), "nil") || noise(text(x)) {
						return true
					}
					if x.Op == token.ADD && strings.Contains(text(x), "\"") {
						return true
					}
					for _, r := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
				case *ast.IfStmt:
					t := text(x.Cond)
					if !noise(t) && !strings.Contains(t, "nil") {
						emit(x.Cond.Pos(), x.Cond.End(), "!("+t+")")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						switch x.Value {
						case "0":
							emit(x.Pos(), x.End(), "1")
						case "1":
							emit(x.Pos(), x.End(), "0")
							emit(x.Pos(), x.End(), "2")
						default:
							emit(x.Pos(), x.End(), "("+x.Value+"+1)")
						}
					}
					if x.Kind == token.FLOAT {
						emit(x.Pos(), x.End(), "("+x.Value+"+0.5)")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false")
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true")
					}
				case *ast.ExprStmt:
					if !noise(text(x)) {
						emit(x.Pos(), x.End(), "{}")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "{}")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE && !noise(text(x)) {
						emit(x.Pos(), x.End(), "{}")
					}
					if x.Tok == token.ADD_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "-=")
					}
					if x.Tok == token.SUB_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "+=")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break")
					}
				}
				return true
			})
			_ = fmt.Sprint
		}
	}
}
