// instr writes instrumented copies of braid's packages into an output directory and an overlay file for
// "go build -overlay".  It never touches the repository.  Every statement of every function body gets a
// yield point in front of it, and sync.Mutex/RWMutex/Once and net.Listen are replaced by vy's versions.
// Insertion is textual, at the statements' byte offsets, so line numbers stay as they are.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off int
	del int
	txt string
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

// reads reports whether the operand may look at shared state
func reads(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.SelectorExpr, *ast.UnaryExpr:
			r = true
		}
		return !r
	})
	return r
}

func main() {
	simple := os.Getenv("INSTR_SIMPLE") != ""
	repo, out := os.Args[1], os.Args[2]
	dirs := os.Args[3:]
	overlay := map[string]string{}
	site := 0
	var sites []string
	for _, d := range dirs {
		root := filepath.Join(repo, d)
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, ".pb.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr: cannot parse, left alone:", p, err)
				return nil
			}
			off := func(pos token.Pos) int { return fset.Position(pos).Offset }
			rel, _ := filepath.Rel(repo, p)
			syncName, netName := "", ""
			for _, im := range f.Imports {
				n := ""
				if im.Name != nil {
					n = im.Name.Name
				}
				if im.Path.Value == `"sync"` {
					if n == "" {
						n = "sync"
					}
					syncName = n
				}
				if im.Path.Value == `"net"` {
					if n == "" {
						n = "net"
					}
					netName = n
				}
			}
			var es []ins
			infunc := func(p token.Pos) bool {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Body.Pos() <= p && p < fd.Body.End() {
						return true
					}
				}
				return false
			}
			fname := func(p token.Pos) string {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= p && p < fd.End() {
						return fd.Name.Name
					}
				}
				return ""
			}
			// shared reports whether the expression is a field, a package variable or an element of one, without side effects
			var shared func(e ast.Expr) bool
			shared = func(e ast.Expr) bool {
				switch x := e.(type) {
				case *ast.Ident:
					return x.Name != "_" && (x.Obj == nil || !infunc(x.Obj.Pos()))
				case *ast.SelectorExpr:
					return pure(x.X)
				case *ast.IndexExpr:
					return pure(x.Index) && shared(x.X)
				case *ast.StarExpr:
					return pure(x.X)
				}
				return false
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			// A read-modify-write of a field in one statement gets a yield point between the read and the write:
			// without a lock (or an atomic) around it another goroutine may come in between.
			split := func(s ast.Stmt) {
				next := func() int {
					site++
					sites = append(sites, fmt.Sprintf("%s:%d:%s", rel, fset.Position(s.Pos()).Line, fname(s.Pos())))
					return site
				}
				switch x := s.(type) {
				case *ast.IncDecStmt:
					if !shared(x.X) {
						return
					}
					l := text(x.X)
					es = append(es, ins{off(s.Pos()), off(s.End()) - off(s.Pos()),
						fmt.Sprintf("{ vy_t := %s; vy_.P(%d); %s = vy_t %c 1 }", l, next(), l, x.Tok.String()[0])})
				case *ast.AssignStmt:
					if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !shared(x.Lhs[0]) || x.Tok == token.DEFINE {
						return
					}
					l, r := text(x.Lhs[0]), x.Rhs[0]
					if x.Tok != token.ASSIGN {
						op := strings.TrimSuffix(x.Tok.String(), "=")
						es = append(es, ins{off(s.Pos()), off(r.Pos()) - off(s.Pos()),
							fmt.Sprintf("{ vy_t := %s; vy_.P(%d); %s = vy_t %s (", l, next(), l, op)}, ins{off(s.End()), 0, ") }"})
						return
					}
					self := false
					switch y := r.(type) {
					case *ast.CallExpr:
						id, ok := y.Fun.(*ast.Ident)
						self = ok && id.Name == "append" && len(y.Args) > 0 && text(y.Args[0]) == l
					case *ast.SliceExpr:
						self = text(y.X) == l
					case *ast.BinaryExpr:
						switch y.Op {
						case token.ADD, token.SUB, token.MUL, token.QUO, token.AND, token.OR, token.XOR:
							self = text(y.X) == l || text(y.Y) == l
						}
					}
					if self {
						es = append(es, ins{off(s.Pos()), off(r.Pos()) - off(s.Pos()), "{ vy_t := "},
							ins{off(s.End()), 0, fmt.Sprintf("; vy_.P(%d); %s = vy_t }", next(), l)})
					}
				}
			}
			point := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					site++
					sites = append(sites, fmt.Sprintf("%s:%d:%s", rel, fset.Position(s.Pos()).Line, fname(s.Pos())))
					es = append(es, ins{off(s.Pos()), 0, fmt.Sprintf("vy_.P(%d); ", site)})
					if !simple {
						split(s)
					}
				}
			}
			usedSync, usedNet := false, false
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GenDecl:
					if x.Tok == token.IMPORT || x.Tok == token.CONST {
						return false
					}
				case *ast.BlockStmt:
					// the body of switch/select holds clauses, not statements
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					point(x.List)
				case *ast.CaseClause:
					point(x.Body)
				case *ast.CommClause:
					point(x.Body)
				case *ast.BinaryExpr:
					// between the operands of a condition
					if !simple && (x.Op == token.LAND || x.Op == token.LOR) && infunc(x.Pos()) && reads(x.Y) {
						site++
						sites = append(sites, fmt.Sprintf("%s:%d:%s", rel, fset.Position(x.Y.Pos()).Line, fname(x.Y.Pos())))
						es = append(es, ins{off(x.Y.Pos()), 0, fmt.Sprintf("vy_.B(%d) && ", site)})
					}
				case *ast.SelectorExpr:
					id, ok := x.X.(*ast.Ident)
					if !ok || id.Obj != nil {
						return true
					}
					if syncName != "" && id.Name == syncName {
						switch x.Sel.Name {
						case "Mutex", "RWMutex", "Once":
							es = append(es, ins{off(id.Pos()), len(id.Name), "vy_"})
							usedSync = true
						}
					}
					if netName != "" && id.Name == netName && x.Sel.Name == "Listen" {
						es = append(es, ins{off(id.Pos()), len(id.Name), "vy_"})
						usedNet = true
					}
				}
				return true
			})
			if len(es) == 0 {
				return nil
			}
			es = append(es, ins{off(f.Name.End()), 0, `; import vy_ "verifharness/vy"`})
			sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
			var b strings.Builder
			last := 0
			for _, e := range es {
				b.Write(src[last:e.off])
				b.WriteString(e.txt)
				last = e.off + e.del
			}
			b.Write(src[last:])
			b.WriteString("\nvar _ = vy_.P\n")
			if usedSync {
				b.WriteString("var _ " + syncName + ".Locker\n")
			}
			if usedNet {
				b.WriteString("var _ " + netName + ".Listener\n")
			}
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				panic(err)
			}
			overlay[p] = dst
			return nil
		})
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
	s, _ := json.Marshal(sites)
	os.WriteFile(filepath.Join(out, "sites.json"), s, 0o644)
	fmt.Println(len(overlay), "files", site, "sites")
}
