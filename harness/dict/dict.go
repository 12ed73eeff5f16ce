// Package dict collects the constants of the code under test. Generators use
// them as additional inputs, as fuzzers do with dictionaries: a branch that
// depends on one particular number, length or word is hard to reach otherwise.
// No oracle uses them.
package dict

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

// Dict holds the constants per directory of the repository.
type Dict struct {
	Ints    map[string][]int64  `json:"ints"`
	Strings map[string][]string `json:"strings"`
}

// Env names the variable with the path of a scanned dictionary.
const Env = "PBT_DICT"

// Scan reads the non-test sources below root.
func Scan(root string) *Dict {
	d := &Dict{Ints: map[string][]int64{}, Strings: map[string][]string{}}
	_ = filepath.WalkDir(root, func(path string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if e.IsDir() {
			switch {
			case rel != "." && strings.HasPrefix(e.Name(), "."), e.Name() == "testdata", e.Name() == "examples", e.Name() == "generator", filepath.ToSlash(rel) == "humanize/locale":
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		d.file(path, filepath.ToSlash(filepath.Dir(rel)))
		return nil
	})
	for k, v := range d.Ints {
		d.Ints[k] = uniq(v, func(a, b int64) bool { return a < b })
	}
	for k, v := range d.Strings {
		d.Strings[k] = uniq(v, func(a, b string) bool { return a < b })
	}
	return d
}

func uniq[T comparable](xs []T, less func(a, b T) bool) []T {
	sort.Slice(xs, func(i, j int) bool { return less(xs[i], xs[j]) })
	var out []T
	for i, x := range xs {
		if i == 0 || xs[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

func (d *Dict) file(path, dir string) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
	if f == nil || err != nil {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			if x.Tag != nil {
				return false
			}
		case *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr:
			if v := eval(x.(ast.Expr)); v != nil {
				d.add(dir, v)
			}
		}
		return true
	})
}

func (d *Dict) add(dir string, v constant.Value) {
	switch v.Kind() {
	case constant.String:
		if s := constant.StringVal(v); s != "" && len(s) <= 2000 && utf8.ValidString(s) {
			d.Strings[dir] = append(d.Strings[dir], s)
		}
	case constant.Int, constant.Float:
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok && v.Kind() == constant.Int || constant.ToInt(v).Kind() == constant.Int {
			if i > 1 {
				d.Ints[dir] = append(d.Ints[dir], i)
			}
		}
	}
}

// eval is the value of an expression of literals.
func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.CHAR || x.Kind == token.IMAG {
			return nil
		}
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.BinaryExpr:
		l, r := eval(x.X), eval(x.Y)
		if l == nil || r == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(r)
			if !ok || s > 62 || l.Kind() != constant.Int {
				return nil
			}
			return constant.Shift(l, x.Op, uint(s))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(l, x.Op, r)
		}
	}
	return nil
}

// Write stores the dictionary.
func (d *Dict) Write(path string) error {
	b, err := json.Marshal(d)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o600)
}

// Loaded is the dictionary of this process; empty if there is none.
var Loaded = load()

func load() *Dict {
	d := &Dict{}
	if p := os.Getenv(Env); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			_ = json.Unmarshal(b, d)
		}
	}
	return d
}

// IntsOf are the numbers of the given directories (all without any), up to max.
func (d *Dict) IntsOf(max int64, dirs ...string) []int64 {
	var out []int64
	for dir, xs := range d.Ints {
		if match(dir, dirs) {
			for _, x := range xs {
				if x <= max {
					out = append(out, x)
				}
			}
		}
	}
	return uniq(out, func(a, b int64) bool { return a < b })
}

// StringsOf are the strings of the given directories (all without any), up to
// a length.
func (d *Dict) StringsOf(max int, dirs ...string) []string {
	var out []string
	for dir, xs := range d.Strings {
		if match(dir, dirs) {
			for _, x := range xs {
				if len(x) <= max {
					out = append(out, x)
				}
			}
		}
	}
	return uniq(out, func(a, b string) bool { return a < b })
}

func match(dir string, dirs []string) bool {
	for _, d := range dirs {
		if d == dir {
			return true
		}
	}
	return len(dirs) == 0
}
