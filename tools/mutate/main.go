// Command mutate lists or applies small changes to a Go file, for trying out the checks.
//
//	mutate FILE            prints how many there are
//	mutate FILE N OUT      writes the file with change N to OUT and describes it
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	from, to int
	text     string
	what     string
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	check(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var cs []change
	fn := ""
	add := func(from, to token.Pos, s, what string) {
		cs = append(cs, change{off(from), off(to), s, fmt.Sprintf("%s:%d %s: %s", file, fset.Position(from).Line, fn, what)})
	}
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.OR: {"&", "^"}, token.AND: {"|"}, token.LAND: {"||"}, token.LOR: {"&&"},
	}
	aops := map[token.Token]string{token.ADD_ASSIGN: "-=", token.OR_ASSIGN: "^=", token.AND_ASSIGN: "|=", token.XOR_ASSIGN: "|=", token.SUB_ASSIGN: "+="}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if fd.Recv != nil {
			fn = text(fd.Recv.List[0].Type) + "." + fn
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					e := n.OpPos + token.Pos(len(n.Op.String()))
					add(n.OpPos, e, o, fmt.Sprintf("%s with %s", text(n), o))
				}
				// without one of its sides
				switch n.Op {
				case token.ADD, token.SUB, token.OR, token.LAND, token.LOR, token.SHL, token.SHR:
					add(n.Pos(), n.End(), text(n.X), fmt.Sprintf("%s only %s", text(n), text(n.X)))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						add(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s+1", n.Value))
						if v > 0 {
							add(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%s-1", n.Value))
						}
					}
				}
			case *ast.AssignStmt:
				if o, ok := aops[n.Tok]; ok {
					add(n.TokPos, n.TokPos+2, o, fmt.Sprintf("%s with %s", text(n), o))
				}
				if n.Tok != token.DEFINE {
					add(n.Pos(), n.End(), "", "without "+text(n))
				}
			case *ast.ExprStmt:
				add(n.Pos(), n.End(), "", "without "+text(n))
			case *ast.DeferStmt:
				add(n.Pos(), n.End(), "", "without "+text(n))
				add(n.Pos(), n.Call.Pos(), "", "not deferred: "+text(n.Call))
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never "+text(n.Cond))
			case *ast.IncDecStmt:
			case *ast.Ident:
				swap := map[string]string{"off": "boff", "boff": "off", "cap": "bcap", "bcap": "cap", "true": "false", "LittleEndian": "BigEndian"}
				if s, ok := swap[n.Name]; ok {
					add(n.Pos(), n.End(), s, n.Name+" as "+s)
				}
				for _, p := range [][2]string{{"Overread", "Underread"}, {"Overwrite", "Underwrite"}, {"Overread", "Overwrite"}} {
					for k := range p {
						if n.Name == "Buffer"+p[k]+"Error" {
							add(n.Pos(), n.End(), "Buffer"+p[1-k]+"Error", n.Name+" as "+p[1-k])
						}
					}
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		fmt.Println(len(cs))
		return
	}
	i, err := strconv.Atoi(os.Args[2])
	check(err)
	c := cs[i]
	out := string(src[:c.from]) + c.text + string(src[c.to:])
	check(os.WriteFile(os.Args[3], []byte(out), 0o644))
	fmt.Println(c.what)
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
