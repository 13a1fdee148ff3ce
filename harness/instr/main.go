// Command instr writes copies of Go source files with a call to nsctl.Point before every statement, and an overlay for the go
// command that puts them, and package nsctl, in the place of the originals. The replayer built with it can be made to run
// goroutines in unusual orders: nsctl holds a goroutine for a while at some points.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insert struct {
	off  int
	text string
}

func main() {
	repo := flag.String("repo", "/repo", "the module to instrument")
	module := flag.String("module", "github.com/milosgajdos/netscrape", "its path")
	props := flag.String("props", "", "directory of more files")
	ctl := flag.String("ctl", "", "the source of package nsctl")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	imp := *module + "/pkg/nsctl"
	overlay := map[string]string{filepath.Join(*repo, "pkg/nsctl/nsctl.go"): *ctl}
	var files []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (strings.HasPrefix(fi.Name(), ".") && p != *repo || fi.Name() == "testdata" || fi.Name() == "vendor") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if *props != "" {
		more, _ := filepath.Glob(filepath.Join(*props, "*.go"))
		files = append(files, more...)
	}
	os.MkdirAll(*out, 0o755)
	for i, f := range files {
		rel, err := filepath.Rel(*repo, f)
		if err != nil || strings.HasPrefix(rel, "..") {
			rel = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
		}
		b, err := instrument(f, rel, imp)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			continue
		}
		if b == nil {
			continue
		}
		o := filepath.Join(*out, fmt.Sprintf("%d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(o, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		overlay[f] = o
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func instrument(file, rel, imp string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build ignore") {
				return nil, nil
			}
		}
	}
	var ins []insert
	line := func(p token.Pos) int { return fset.Position(p).Line }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			end := s.End()
			switch s := s.(type) {
			case *ast.BlockStmt:
				continue
			case *ast.LabeledStmt:
				continue
			case *ast.IfStmt:
				end = s.Body.Lbrace
			case *ast.ForStmt:
				end = s.Body.Lbrace
			case *ast.RangeStmt:
				end = s.Body.Lbrace
			case *ast.SwitchStmt:
				end = s.Body.Lbrace
			case *ast.TypeSwitchStmt:
				end = s.Body.Lbrace
			}
			ins = append(ins, insert{fset.Position(s.Pos()).Offset,
				fmt.Sprintf("nsctl.Point(%s, %d, %d); ", strconv.Quote(rel), line(s.Pos()), line(end))})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// clauses are not statements of their own
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(ins) == 0 {
		return nil, nil
	}
	ins = append(ins, insert{fset.Position(f.Name.End()).Offset, fmt.Sprintf("; import nsctl %s", strconv.Quote(imp))})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b bytes.Buffer
	last := 0
	for _, x := range ins {
		b.Write(src[last:x.off])
		b.WriteString(x.text)
		last = x.off
	}
	b.Write(src[last:])
	return b.Bytes(), nil
}
