// Command mutgen lists small syntactic mutants of Go files, one JSON object per line:
// {"file","line","op","start","end","new"} (byte offsets into the file).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
}

var enc = json.NewEncoder(os.Stdout)

type gen struct {
	fset *token.FileSet
	file string
	src  []byte
}

func (g *gen) emit(op string, from, to token.Pos, repl string) {
	s, e := g.fset.Position(from), g.fset.Position(to)
	if string(g.src[s.Offset:e.Offset]) == repl {
		return
	}
	enc.Encode(mutant{g.file, s.Line, op, s.Offset, e.Offset, repl})
}

func (g *gen) text(n ast.Node) string {
	return string(g.src[g.fset.Position(n.Pos()).Offset:g.fset.Position(n.End()).Offset])
}

func isLog(n ast.Node) bool {
	c, ok := n.(*ast.CallExpr)
	if !ok {
		return false
	}
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), c.Fun)
	return bytes.HasPrefix(b.Bytes(), []byte("glg."))
}

func (g *gen) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.GenDecl:
		if x.Tok == token.IMPORT {
			return false
		}
	case *ast.CallExpr:
		if isLog(x) {
			return false
		}
		var b bytes.Buffer
		printer.Fprint(&b, g.fset, x.Fun)
		switch b.String() {
		case "strings.EqualFold":
			g.emit("eqfold", x.Pos(), x.End(), g.text(x.Args[0])+" == "+g.text(x.Args[1]))
		case "strings.HasPrefix":
			g.emit("contains", x.Fun.Pos(), x.Fun.End(), "strings.Contains")
		case "strings.ToLower":
			g.emit("nolower", x.Pos(), x.End(), g.text(x.Args[0]))
		case "errors.Wrap", "errors.Wrapf", "append":
			if b.String() == "append" && len(x.Args) == 2 {
				g.emit("noappend", x.Pos(), x.End(), g.text(x.Args[0]))
			}
		case "fmt.Sprintf", "fmt.Errorf", "errors.New":
		default:
			if len(x.Args) == 2 && x.Ellipsis == 0 {
				g.emit("swapargs", x.Args[0].Pos(), x.Args[1].End(), g.text(x.Args[1])+", "+g.text(x.Args[0]))
			}
		}
	case *ast.BinaryExpr:
		alts := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
		for _, a := range alts[x.Op] {
			g.emit("binop", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
		}
		if x.Op == token.LAND || x.Op == token.LOR {
			g.emit("left", x.Pos(), x.End(), g.text(x.X))
			g.emit("right", x.Pos(), x.End(), g.text(x.Y))
		}
		if x.Op == token.ADD || x.Op == token.SUB {
			g.emit("left", x.Pos(), x.End(), g.text(x.X))
			g.emit("right", x.Pos(), x.End(), g.text(x.Y))
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			g.emit("unnot", x.Pos(), x.End(), g.text(x.X))
		}
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			if v, err := strconv.Atoi(x.Value); err == nil {
				g.emit("int", x.Pos(), x.End(), strconv.Itoa(v+1))
				if v > 0 {
					g.emit("int", x.Pos(), x.End(), strconv.Itoa(v-1))
				}
			}
		case token.STRING:
			if len(x.Value) > 2 && x.Value[0] == '"' {
				g.emit("str", x.Pos(), x.End(), `""`)
				g.emit("str", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+`x"`)
			}
		}
	case *ast.Ident:
		if x.Name == "true" {
			g.emit("bool", x.Pos(), x.End(), "false")
		} else if x.Name == "false" {
			g.emit("bool", x.Pos(), x.End(), "true")
		}
	case *ast.IfStmt:
		if x.Init == nil {
			g.emit("iftrue", x.Cond.Pos(), x.Cond.End(), "true || ("+g.text(x.Cond)+")")
			g.emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+g.text(x.Cond)+")")
		} else {
			g.emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+g.text(x.Cond)+")")
			g.emit("iftrue", x.Cond.Pos(), x.Cond.End(), "true || ("+g.text(x.Cond)+")")
		}
	case *ast.ExprStmt:
		if isLog(x.X) {
			return false
		}
		g.emit("delstmt", x.Pos(), x.End(), "")
	case *ast.SendStmt:
		g.emit("delstmt", x.Pos(), x.End(), "")
	case *ast.DeferStmt:
		if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
			g.emit("delstmt", x.Pos(), x.End(), "")
		} else {
			g.emit("deldefer", x.Pos(), x.End(), "")
		}
	case *ast.GoStmt:
		g.emit("nogo", x.Pos(), x.Pos()+2, "")
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN {
			rhs := ""
			for _, r := range x.Rhs {
				if _, ok := r.(*ast.FuncLit); ok {
					return true
				}
				if rhs != "" {
					rhs += ", "
				}
				rhs += g.text(r)
			}
			bl := "_"
			for i := 1; i < len(x.Lhs); i++ {
				bl += ", _"
			}
			g.emit("delassign", x.Pos(), x.End(), bl+" = "+rhs)
		}
	case *ast.IncDecStmt:
		g.emit("delstmt", x.Pos(), x.End(), "")
	case *ast.BranchStmt:
		if x.Label == nil {
			switch x.Tok {
			case token.CONTINUE:
				g.emit("break", x.Pos(), x.End(), "break")
			case token.BREAK:
				g.emit("continue", x.Pos(), x.End(), "continue")
			}
		}
	case *ast.ReturnStmt:
		for i, r := range x.Results {
			t := g.text(r)
			last := i == len(x.Results)-1
			if last && t != "nil" && (t == "err" || bytes.Contains([]byte(t), []byte("rror")) || bytes.Contains([]byte(t), []byte("Err"))) {
				g.emit("retnil", r.Pos(), r.End(), "nil")
			}
		}
	case *ast.CaseClause:
		if x.List != nil && len(x.Body) > 0 {
			g.emit("emptycase", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
		}
	case *ast.CommClause:
		if x.Comm != nil && len(x.Body) > 0 {
			g.emit("emptycomm", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
		}
	case *ast.KeyValueExpr:
		if _, ok := x.Key.(*ast.Ident); ok {
			g.emit("delfield", x.Pos(), x.End()+1, "")
		}
	case *ast.RangeStmt:
		g.emit("once", x.Body.Rbrace, x.Body.Rbrace, "; break ")
	case *ast.StarExpr:
	}
	return true
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		g := &gen{fset, f, src}
		ast.Inspect(af, func(n ast.Node) bool { return n == nil || g.visit(n) })
	}
	fmt.Fprint(os.Stderr)
}
