// Command mutate writes small syntactic mutants of the non-test Go files of a
// repository: mutate REPO OUTDIR. Each mutant is a copy of one changed file.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	n := 0
	var files []string
	for _, g := range []string{"*.go", "oauth2test/request.go", "oauth2test/utils.go"} {
		fs, _ := filepath.Glob(filepath.Join(repo, g))
		files = append(files, fs...)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		rel, _ := filepath.Rel(repo, f)
		for k := 0; ; k++ {
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			m := &mutator{want: k, fset: fset}
			m.file(tree)
			if m.desc == "" {
				break
			}
			var b bytes.Buffer
			if format.Node(&b, fset, tree) != nil {
				continue
			}
			d := filepath.Join(out, fmt.Sprintf("m%04d", n))
			_ = os.MkdirAll(d, 0o755)
			_ = os.WriteFile(filepath.Join(d, "file"), []byte(rel), 0o644)
			_ = os.WriteFile(filepath.Join(d, "new.go"), b.Bytes(), 0o644)
			_ = os.WriteFile(filepath.Join(d, "desc"), []byte(rel+": "+m.desc+"\n"), 0o644)
			n++
		}
	}
	fmt.Println(n, "mutants")
}

type mutator struct {
	want, n int
	desc    string
	fset    *token.FileSet
}

// hit reports whether the next mutation point is the wanted one.
func (m *mutator) hit(pos token.Pos, desc string) bool {
	ok := m.n == m.want && m.desc == ""
	m.n++
	if ok {
		m.desc = fmt.Sprintf("%d: %s", m.fset.Position(pos).Line, desc)
	}
	return ok
}

func (m *mutator) file(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			n.List = m.stmts(n.List)
		case *ast.CaseClause:
			n.Body = m.stmts(n.Body)
			if len(n.List) > 1 && m.hit(n.Pos(), "drop a case value") {
				n.List = n.List[1:]
			}
		case *ast.IfStmt:
			if m.hit(n.Pos(), "if true") {
				n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: n.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
			} else if m.hit(n.Pos(), "if false") {
				n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: n.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			}
		case *ast.BinaryExpr:
			swap := map[token.Token][]token.Token{
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.GTR: {token.GEQ, token.LSS},
				token.LEQ: {token.LSS}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.QUO: {token.MUL},
			}
			for _, o := range swap[n.Op] {
				if m.hit(n.OpPos, n.Op.String()+" becomes "+o.String()) {
					n.Op = o
				}
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				if m.hit(n.OpPos, "keep left operand") {
					n.Y = ast.NewIdent(map[token.Token]string{token.LAND: "true", token.LOR: "false"}[n.Op])
				} else if m.hit(n.OpPos, "keep right operand") {
					n.X = ast.NewIdent(map[token.Token]string{token.LAND: "true", token.LOR: "false"}[n.Op])
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT && m.hit(n.Pos(), "drop negation") {
				n.X = &ast.UnaryExpr{Op: token.NOT, X: n.X}
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if m.hit(n.Pos(), "increment") {
					v, _ := strconv.Atoi(n.Value)
					n.Value = strconv.Itoa(v + 1)
				}
			case token.STRING:
				if strings.HasPrefix(n.Value, "`json") {
					if strings.Contains(n.Value, ",omitempty") && m.hit(n.Pos(), "drop omitempty") {
						n.Value = strings.Replace(n.Value, ",omitempty", "", 1)
					}
					return true
				}
				if m.hit(n.Pos(), "change text "+n.Value) {
					s, _ := strconv.Unquote(n.Value)
					n.Value = strconv.Quote(s + "x")
				}
			}
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				if m.hit(n.Pos(), "flip "+n.Name) {
					n.Name = map[string]string{"true": "false", "false": "true"}[n.Name]
				}
			}
			other := map[string]string{"AccessTokens": "RefreshTokens", "RefreshTokens": "AccessTokens", "AccessTokenLifespan": "RefreshTokenLifespan", "RefreshTokenLifespan": "AccessTokenLifespan",
				"PostForm": "Form", "Form": "PostForm", "Set": "Add", "Add": "Set", "ClientID": "Username", "Username": "ClientID", "ClientSecret": "ClientID", "Clients": "Users", "Users": "Clients"}
			if o, ok := other[n.Name]; ok && m.hit(n.Pos(), n.Name+" becomes "+o) {
				n.Name = o
			}
		case *ast.CompositeLit:
			for i := range n.Elts {
				if _, ok := n.Elts[i].(*ast.KeyValueExpr); ok && m.hit(n.Elts[i].Pos(), "drop an element") {
					n.Elts = append(append([]ast.Expr{}, n.Elts[:i]...), n.Elts[i+1:]...)
					break
				}
			}
		case *ast.CallExpr:
			for i := range n.Args {
				for j := i + 1; j < len(n.Args); j++ {
					if m.hit(n.Args[i].Pos(), "swap arguments") {
						n.Args[i], n.Args[j] = n.Args[j], n.Args[i]
						return true
					}
				}
			}
		}
		return true
	})
}

func (m *mutator) stmts(l []ast.Stmt) []ast.Stmt {
	for i, s := range l {
		switch s.(type) {
		case *ast.DeclStmt:
			continue
		}
		if m.hit(s.Pos(), "drop statement") {
			return append(append([]ast.Stmt{}, l[:i]...), l[i+1:]...)
		}
		if i+1 < len(l) {
			if m.hit(s.Pos(), "swap with next statement") {
				r := append([]ast.Stmt{}, l...)
				r[i], r[i+1] = r[i+1], r[i]
				return r
			}
		}
	}
	return l
}
