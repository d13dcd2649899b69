// mutate lists single changes to the Go files given, one JSON object per line:
// {"file", "off", "end", "new", "what"}. Besides the classic operators it makes
// changes that take effect in special situations only (deep levels, certain fills).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	Off, End int
	New      string
	What     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{filepath.Base(f), off(a), off(b), s, fmt.Sprintf("%s:%d %s: %s", filepath.Base(f), fs.Position(a).Line, fn, what)})
		}
		vars := map[string][]string{
			"hd": {"chd"}, "chd": {"hd"}, "idx": {"radix", "count"}, "count": {"idx"}, "kbit": {"cbit"}, "cbit": {"kbit"},
			"l": {"item"}, "item": {"l"}, "key": {"ckey"}, "ckey": {"key"}, "kb": {"ckb"}, "ckb": {"kb"}, "hw": {"chw"}, "chw": {"hw"},
			"pmap": {"tmap"}, "tmap": {"pmap"}, "before": {"after"}, "src": {"l.ptr"}, "bit": {"radix"}, "d": {"cd"}, "cd": {"d"}, "kv": {"ckv"}, "ckv": {"kv"},
		}
		swaps := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.LSS: {"<=", "!="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.AND: {"|"}, token.OR: {"&", "^"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.SHR: {"<<"}, token.SHL: {">>"}, token.REM: {"/", "&"}, token.AND_NOT: {"&"}, token.MUL: {"+"}, token.QUO: {"*"},
		}
		for _, decl := range af.Decls {
			fd, ok := decl.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			recv := ""
			if fd.Recv != nil && len(fd.Recv.List[0].Names) == 1 {
				recv = fd.Recv.List[0].Names[0].Name
			}
			body := text(fd.Body)
			has := func(v string) bool { return strings.Contains(body, v) }
			var conds []string
			if has("d :=") || has("d++") {
				conds = append(conds, "d != 12", "d < 16", "d != 16", "d < 30", "d == 0", "d != 1", "d&15 != 15", "d < 128", "d < 200")
			}
			if has("count :=") {
				conds = append(conds, "count != 4", "count != 8", "count != 12", "count < 15", "count != 1")
			}
			if has("idx :=") || has(", idx") {
				conds = append(conds, "idx != 15", "idx != 3", "idx < 9")
			}
			if recv != "" {
				conds = append(conds, recv+".root.len < 300", recv+".root.len < 70000", recv+".root.len != 1", recv+".root.len%64 != 5")
			}
			inscope := map[ast.Stmt][]string{}
			var scope func(list []ast.Stmt, vis map[string]bool)
			_ = inscope
			declared := func(s ast.Stmt, vis map[string]bool) {
				if as, ok := s.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
					for _, l := range as.Lhs {
						if id, ok := l.(*ast.Ident); ok {
							vis[id.Name] = true
						}
					}
				}
			}
			stmt := func(s ast.Stmt, vis map[string]bool) {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE {
						return
					}
				default:
					return
				}
				t := text(s)
				emit(s.Pos(), s.End(), "", "delete `"+first(t)+"`")
				for _, c := range conds {
					v := strings.FieldsFunc(c, func(r rune) bool { return r == ' ' || r == '.' || r == '&' || r == '%' })[0]
					if v != recv && !vis[v] {
						continue
					}
					emit(s.Pos(), s.End(), "if "+c+" {\n"+t+"\n}", "`"+first(t)+"` only if "+c)
				}
			}
			scope = func(list []ast.Stmt, vis map[string]bool) {
				in := map[string]bool{}
				for k := range vis {
					in[k] = true
				}
				for i, s := range list {
					stmt(s, in)
					if i+1 < len(list) {
						a, b := list[i], list[i+1]
						_, d1 := a.(*ast.AssignStmt)
						_, d2 := b.(*ast.AssignStmt)
						_, d3 := b.(*ast.IncDecStmt)
						_, d4 := b.(*ast.ExprStmt)
						if d1 && (d2 || d3 || d4) {
							emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap `"+first(text(a))+"` and `"+first(text(b))+"`")
						}
					}
					declared(s, in)
					switch x := s.(type) {
					case *ast.BlockStmt:
						scope(x.List, in)
					case *ast.ForStmt:
						sub := map[string]bool{}
						for k := range in {
							sub[k] = true
						}
						if x.Init != nil {
							declared(x.Init, sub)
						}
						scope(x.Body.List, sub)
					case *ast.IfStmt:
						var ifs func(x *ast.IfStmt, vis map[string]bool)
						ifs = func(x *ast.IfStmt, vis map[string]bool) {
							sub := map[string]bool{}
							for k := range vis {
								sub[k] = true
							}
							if x.Init != nil {
								declared(x.Init, sub)
							}
							scope(x.Body.List, sub)
							switch e := x.Else.(type) {
							case *ast.BlockStmt:
								scope(e.List, sub)
							case *ast.IfStmt:
								ifs(e, sub)
							}
						}
						ifs(x, in)
						emit(x.Cond.Pos(), x.Cond.End(), "true || "+text(x.Cond), "if true: `"+text(x.Cond)+"`")
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if false: `"+text(x.Cond)+"`")
						for _, c := range conds {
							v := strings.FieldsFunc(c, func(r rune) bool { return r == ' ' || r == '.' || r == '&' || r == '%' })[0]
							if v != recv && !in[v] || x.Init != nil {
								continue
							}
							emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && "+c, "and "+c+" in `"+text(x.Cond)+"`")
							emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || !("+c+")", "or not "+c+" in `"+text(x.Cond)+"`")
						}
					}
				}
			}
			vis := map[string]bool{}
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					vis[n.Name] = true
				}
			}
			scope(fd.Body.List, vis)
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s+" in `"+text(x)+"`")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" +1")
						emit(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" -1")
					}
				case *ast.IncDecStmt:
					s := "--"
					if x.Tok == token.DEC {
						s = "++"
					}
					emit(x.TokPos, x.TokPos+2, s, text(x)+" -> "+s)
				case *ast.AssignStmt:
					switch x.Tok {
					case token.OR_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "=", text(x)+" -> =")
						emit(x.TokPos, x.TokPos+2, "^=", text(x)+" -> ^=")
					case token.AND_NOT_ASSIGN:
						emit(x.TokPos, x.TokPos+3, "|=", text(x)+" -> |=")
						emit(x.TokPos, x.TokPos+3, "^=", text(x)+" -> ^=")
					case token.ADD_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "-=", text(x)+" -> -=")
					case token.SUB_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "+=", text(x)+" -> +=")
					case token.SHR_ASSIGN:
						emit(x.TokPos, x.TokPos+3, "<<=", text(x)+" -> <<=")
					}
				case *ast.Ident:
					for _, v := range vars[x.Name] {
						if has(v) {
							emit(x.Pos(), x.End(), v, x.Name+" -> "+v)
						}
					}
				case *ast.BranchStmt:
					s := "break"
					if x.Tok == token.BREAK {
						s = "continue"
					}
					emit(x.Pos(), x.End(), s, x.Tok.String()+" -> "+s)
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						switch t := text(x.Results[0]); t {
						case "true":
							emit(x.Results[0].Pos(), x.Results[0].End(), "false", "return false")
						case "false":
							emit(x.Results[0].Pos(), x.Results[0].End(), "true", "return true")
						}
					}
				}
				return true
			})
		}
	}
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i] + "..."
	}
	return s
}
