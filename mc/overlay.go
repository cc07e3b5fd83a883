package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
)

// shims maps the packages through which the code under test meets its
// environment to their stand-ins.
var shims = map[string]string{
	"sync":          "verifmc/shim/sync",
	"sync/atomic":   "verifmc/shim/atomic",
	"os":            "verifmc/shim/os",
	"time":          "verifmc/shim/time",
	"io/ioutil":     "verifmc/shim/ioutil",
	"path/filepath": "verifmc/shim/filepath",
}

// orderOverlay writes an overlay in which the order of iteration over maps is
// the harness's choice.
func orderOverlay(dir string) error {
	src := filepath.Join(runtime.GOROOT(), "src/internal/runtime/maps")
	replace := map[string]string{}
	edit := func(name string, edits ...[2]string) error {
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			return err
		}
		t := string(b)
		for _, e := range edits {
			u := strings.ReplaceAll(t, e[0], e[1])
			if u == t {
				return fmt.Errorf("%s has changed: no %q", name, e[0])
			}
			t = u
		}
		out := filepath.Join(dir, name)
		replace[filepath.Join(src, name)] = out
		return os.WriteFile(out, []byte(t), 0644)
	}
	if err := edit("map.go", [2]string{"uintptr(rand())", "uintptr(verifSeed())"}); err != nil {
		return err
	}
	err := edit("table.go",
		[2]string{"	it.entryOffset = rand()\n", "	it.entryOffset = rand() >> 1\n"},
		[2]string{"	it.clearSeq = m.clearSeq\n}\n", "	it.clearSeq = m.clearSeq\n	if verifChoose != nil {\n		it.verifInit()\n	}\n}\n" + orderSource},
		[2]string{"			k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots\n",
			"			k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots\n			if it.entryOffset>>63 == 1 {\n				k = uintptr(it.entryOffset>>(3*it.entryIdx)) & 7\n			}\n"})
	if err != nil {
		return err
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0644)
}

// orderSource is what it adds to the runtime. A small map's slots are visited
// in any order (of five or more, in any rotation or reversed rotation), a
// bigger one's starting anywhere.
const orderSource = `
// verifChoose, when set, chooses among n orders.
var verifChoose func(n int) int

func verifSeed() uint64 {
	if verifChoose != nil {
		return 0x9E3779B97F4A7C15
	}
	return rand()
}

func (it *Iter) verifInit() {
	it.entryOffset, it.dirOffset = 0, 0
	if it.m.used < 2 {
		return
	}
	if it.dirIdx >= 0 {
		c := verifChoose(16)
		it.entryOffset, it.dirOffset = uint64(c), uint64(c)
		return
	}
	var slots [8]uint64
	n := 0
	for i := uintptr(0); i < abi.MapGroupSlots; i++ {
		if (it.group.ctrls().get(i) & ctrlEmpty) != ctrlEmpty {
			slots[n] = uint64(i)
			n++
		}
	}
	if n < 2 {
		return
	}
	var order [8]uint64
	if n <= 4 {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		c := verifChoose(f)
		left := slots
		for i, l := 0, n; l > 0; i, l = i+1, l-1 {
			p := c % l
			c /= l
			order[i] = left[p]
			for ; p+1 < l; p++ {
				left[p] = left[p+1]
			}
		}
	} else {
		c := verifChoose(2 * n)
		for i := 0; i < n; i++ {
			p := (i + c/2) % n
			if c%2 == 1 {
				p = (n - i + c/2) % n
			}
			order[i] = slots[p]
		}
	}
	it.entryOffset = 1 << 63
	for i := 0; i < n; i++ {
		it.entryOffset |= order[i] << (3 * i)
	}
	empty := n
	for i := uintptr(0); i < abi.MapGroupSlots; i++ {
		if (it.group.ctrls().get(i) & ctrlEmpty) == ctrlEmpty {
			it.entryOffset |= uint64(i) << (3 * empty)
			empty++
		}
	}
}
`

// repoDir finds the working tree the module is built against.
func repoDir() (string, error) {
	b, err := os.ReadFile("go.mod")
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 4 && f[0] == "replace" && f[1] == "github.com/vito/booklit" {
			return f[3], nil
		}
	}
	return "", fmt.Errorf("no replacement of booklit in go.mod")
}

// overlay writes an overlay in which every package of the repository imports
// the shims, and returns its file's name.
func overlay(dir string, race bool) error {
	repo, err := repoDir()
	if err != nil {
		return err
	}
	replace := map[string]string{}
	n := 0
	err = filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			switch strings.Split(rel, string(filepath.Separator))[0] {
			case ".git", "ci", "tests", "docs", "scripts":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.HasSuffix(path, "bindata.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		changed := false
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			s, ok := shims[p]
			if !ok || (i.Name != nil && i.Name.Name == "_") {
				continue
			}
			i.Path.Value = strconv.Quote(s)
			if i.Name == nil {
				i.Name = ast.NewIdent(filepath.Base(p))
			}
			changed = true
		}
		if goStatements(f) {
			changed = true
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
				&ast.ImportSpec{Name: ast.NewIdent("verifsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifmc/sched"`}}}}}, f.Decls...)
		}
		if !changed {
			return nil
		}
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		n++
		out := filepath.Join(dir, fmt.Sprintf("r%03d.go", n))
		if err := os.WriteFile(out, b.Bytes(), 0644); err != nil {
			return err
		}
		replace[path] = out
		return nil
	})
	if err != nil {
		return err
	}
	if race {
		if err := quietPools(dir, replace); err != nil {
			return err
		}
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0644)
}

// goStatements lets the scheduler start the file's goroutines.
func goStatements(f *ast.File) bool {
	found := false
	list := func(stmts []ast.Stmt) {
		for i, s := range stmts {
			g, ok := s.(*ast.GoStmt)
			if !ok {
				continue
			}
			found = true
			// what the call needs is evaluated at once
			var names, values []ast.Expr
			hoist := func(x ast.Expr) ast.Expr {
				switch y := x.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					return x
				case *ast.Ident:
					if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
						return x
					}
				}
				n := ast.NewIdent(fmt.Sprintf("verifgo%d", len(names)))
				names, values = append(names, n), append(values, x)
				return n
			}
			call := &ast.CallExpr{Fun: hoist(g.Call.Fun), Ellipsis: g.Call.Ellipsis}
			for _, a := range g.Call.Args {
				call.Args = append(call.Args, hoist(a))
			}
			block := &ast.BlockStmt{}
			if len(names) > 0 {
				block.List = append(block.List, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: values})
			}
			block.List = append(block.List, &ast.ExprStmt{X: &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent("Go")},
				Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}},
			}})
			stmts[i] = block
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	return found
}

// quietPools replaces sync.Pool's file.
func quietPools(dir string, replace map[string]string) error {
	// Pools hand objects from one thread to another, which orders the threads
	// for the race detector: keep nothing in them.
	pool := filepath.Join(runtime.GOROOT(), "src/sync/pool.go")
	b, err := os.ReadFile(pool)
	if err != nil {
		return err
	}
	t := strings.Replace(string(b), "if runtime_randn(4) == 0 {", "if true {", 1)
	if t == string(b) {
		return fmt.Errorf("%s has changed", pool)
	}
	out := filepath.Join(dir, "pool.go")
	if err := os.WriteFile(out, []byte(t), 0644); err != nil {
		return err
	}
	replace[pool] = out
	return nil
}
