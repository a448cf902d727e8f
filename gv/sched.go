package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument writes copies of the repository's code with a call of gvy.Y before every statement, and returns where
// they are, for use in a build overlay. Nothing else changes, lines included.
func instrument(dir string) (map[string]string, error) {
	out := map[string]string{}
	var files []string
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repoDir, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." || rel == "internal/testproto" || rel == "cmd" || rel == "internal/gv" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, ".pb.go") && !strings.HasPrefix(fi.Name(), "zz_gv_") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	site := 0
	for n, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			continue // the build will tell
		}
		if f.Name.Name == "main" {
			continue
		}
		var at []int
		add := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var sb strings.Builder
		name := fset.Position(f.Name.End()).Offset
		sb.Write(src[:name])
		fmt.Fprintf(&sb, "; import gvy %q", repoMod+"/internal/gv/gvy")
		last := name
		for _, o := range at {
			sb.Write(src[last:o])
			site++
			fmt.Fprintf(&sb, "gvy.Y(%d); ", site)
			last = o
		}
		sb.Write(src[last:])
		to := filepath.Join(dir, fmt.Sprintf("y%d.go", n))
		if err := os.WriteFile(to, []byte(sb.String()), 0o644); err != nil {
			return nil, err
		}
		out[p] = to
	}
	return out, nil
}
