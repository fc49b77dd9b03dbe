package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// jitter copies the files of the repository that start goroutines, lock or
// select, calling sym.Jitter before every statement of the functions which do
// so: the native runs that confirm what depends on a schedule meet many more
// schedules than the scheduler would give.
func (e *Engine) jitter(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(e.repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != e.repo && (strings.HasPrefix(n, ".") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		out, ok := jitterFile(p, src, e.modPath+"/"+symPkgRel)
		if !ok {
			return nil
		}
		q := filepath.Join(dir, "jitter"+strconv.Itoa(len(m))+".go")
		if os.WriteFile(q, out, 0o644) == nil {
			m[p] = q
		}
		return nil
	})
	return m
}

func jitterFile(name string, src []byte, imp string) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil || f.Name.Name == "main" {
		return nil, false
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			at = append(at, fs.Position(s.Pos()).Offset)
		}
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		found := false
		ast.Inspect(fn, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
				found = true
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					switch s.Sel.Name {
					case "Lock", "RLock", "Go", "Do", "Load", "Store", "CompareAndSwap", "AddInt32", "AddInt64":
						found = true
					}
				}
			}
			return true
		})
		if !found {
			continue
		}
		ast.Inspect(fn, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
	}
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	var out []byte
	end := fs.Position(f.Name.End()).Offset
	out = append(out, src[:end]...)
	out = append(out, "; import verifjitter "+strconv.Quote(imp)...)
	for _, o := range at {
		out = append(out, src[end:o]...)
		out = append(out, "verifjitter.Jitter(); "...)
		end = o
	}
	return append(out, src[end:]...), true
}
