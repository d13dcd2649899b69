// Command instr rewrites the package in SRC for statement-level control: a call of
// verifPoint is put before every statement of every function. It writes the rewritten
// files to OUT and prints an overlay (for go build -overlay) that includes BASE.
//
// usage: instr SRC OUT BASE.json >overlay.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func main() {
	src, out, base := os.Args[1], os.Args[2], os.Args[3]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(base)
	die(err)
	die(json.Unmarshal(b, &ov))
	pkg, err := build.ImportDir(src, 0)
	die(err)
	points := 0
	for _, f := range pkg.GoFiles {
		path := filepath.Join(src, f)
		text, err := os.ReadFile(path)
		die(err)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, path, text, parser.ParseComments)
		die(err)
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || nosplit(fd.Doc) {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SwitchStmt:
					for _, c := range n.Body.List {
						add(c.(*ast.CaseClause).Body)
					}
				case *ast.TypeSwitchStmt:
					for _, c := range n.Body.List {
						add(c.(*ast.CaseClause).Body)
					}
				case *ast.SelectStmt:
					for _, c := range n.Body.List {
						add(c.(*ast.CommClause).Body)
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(n.List)
				}
				return true
			})
		}
		sort.Ints(at)
		var sb strings.Builder
		last := 0
		for i, o := range at {
			if i > 0 && o == at[i-1] {
				continue
			}
			sb.Write(text[last:o])
			sb.WriteString("verifPoint(); ")
			last = o
			points++
		}
		sb.Write(text[last:])
		dst := filepath.Join(out, f)
		die(os.WriteFile(dst, []byte(sb.String()), 0o644))
		ov.Replace[path] = dst
	}
	if points == 0 {
		die(fmt.Errorf("no statements in %s", src))
	}
	hook := filepath.Join(out, "zz_verif_point.go")
	die(os.WriteFile(hook, []byte("package "+pkg.Name+`

// VerifPoint, if set, is called before every statement of the package.
var VerifPoint func()

func verifPoint() {
	if VerifPoint != nil {
		VerifPoint()
	}
}
`), 0o644))
	ov.Replace[filepath.Join(src, "zz_verif_point.go")] = hook
	b, err = json.MarshalIndent(ov, "", " ")
	die(err)
	fmt.Println(string(b))
}

func nosplit(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:nosplit") {
			return true
		}
	}
	return false
}
