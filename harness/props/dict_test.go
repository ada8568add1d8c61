package props

import (
	"go/ast"
	"go/constant"
	"go/parser"
	gotoken "go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// A dictionary of the constants that occur in the code under test, as fuzzers
// use: a branch taken for one particular number, length or text only is out of
// reach of blind generation. The constants only steer generators; no oracle
// looks at them.

type dictFile struct {
	ints []uint64
	strs []string
}

var dict []dictFile

func loadDict() {
	root := os.Getenv("VERIF_SRC")
	if root == "" {
		root = "/repo"
	}
	var files []string
	_ = filepath.WalkDir(filepath.Join(root, "pkg"), func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, p := range files {
		f, err := parser.ParseFile(gotoken.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		ints, strs := map[uint64]bool{}, map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := constOf(e)
			switch {
			case v == nil:
			case v.Kind() == constant.Int:
				if x, ok := constant.Uint64Val(v); ok {
					ints[x] = true
				} else if x, ok := constant.Int64Val(v); ok {
					ints[uint64(x)] = true
				}
			case v.Kind() == constant.String:
				if s := constant.StringVal(v); len(s) > 0 && len(s) <= 80 {
					strs[s] = true
				}
			}
			return true
		})
		// tables of constants would drown the rest
		if len(ints) > 120 {
			ints = nil
		}
		var d dictFile
		for x := range ints {
			d.ints = append(d.ints, x)
		}
		for s := range strs {
			d.strs = append(d.strs, s)
		}
		sort.Slice(d.ints, func(i, j int) bool { return d.ints[i] < d.ints[j] })
		sort.Strings(d.strs)
		if len(d.ints) > 0 || len(d.strs) > 0 {
			dict = append(dict, d)
		}
	}
}

// constOf evaluates an expression of literals.
func constOf(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		v = constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if v.Kind() == constant.Float {
			v = constant.ToInt(v)
		}
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return constOf(e.X)
	case *ast.UnaryExpr:
		if x := constOf(e.X); x != nil && (e.Op == gotoken.SUB || e.Op == gotoken.ADD) {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := constOf(e.X), constOf(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case gotoken.SHL, gotoken.SHR:
			if s, ok := constant.Uint64Val(y); ok && s < 64 {
				return constant.Shift(x, e.Op, uint(s))
			}
		case gotoken.ADD, gotoken.SUB, gotoken.MUL, gotoken.AND, gotoken.OR, gotoken.XOR:
			return constant.BinaryOp(x, e.Op, y)
		case gotoken.QUO:
			if x.Kind() == constant.Int && y.Kind() == constant.Int && constant.Sign(y) != 0 {
				return constant.BinaryOp(x, gotoken.QUO_ASSIGN, y)
			}
		}
	}
	return nil
}

// dInt draws a constant of the code or a neighbour of one.
func dInt(t *rapid.T, name string) uint64 {
	if len(dict) == 0 {
		return 0
	}
	d := dict[rapid.IntRange(0, len(dict)-1).Draw(t, name+".dfile")]
	if len(d.ints) == 0 {
		return 0
	}
	v := d.ints[rapid.IntRange(0, len(d.ints)-1).Draw(t, name+".dint")]
	switch rapid.IntRange(0, 5).Draw(t, name+".doff") {
	case 3:
		return v + 1
	case 4:
		return v - 1
	case 5:
		return -v
	}
	return v
}

// dStr draws a text of the code, possibly empty.
func dStr(t *rapid.T, name string) string {
	if len(dict) == 0 {
		return ""
	}
	d := dict[rapid.IntRange(0, len(dict)-1).Draw(t, name+".dfile")]
	if len(d.strs) == 0 {
		return ""
	}
	return d.strs[rapid.IntRange(0, len(d.strs)-1).Draw(t, name+".dstr")]
}

// dText is a text of the code, alone or with something around it.
func dText(t *rapid.T, name string) string {
	s := dStr(t, name)
	switch rapid.IntRange(0, 4).Draw(t, name+".dwrap") {
	case 2:
		return s + rapid.StringN(0, 6, -1).Draw(t, name+".dtail")
	case 3:
		return rapid.StringN(0, 6, -1).Draw(t, name+".dhead") + s
	case 4:
		return s + dStr(t, name+".more")
	}
	return s
}

// dValidText is dText restricted to valid UTF-8.
func dValidText(t *rapid.T, name string) string {
	if s := dText(t, name); utf8.ValidString(s) {
		return s
	}
	return ""
}

// dLen draws a length that the code mentions.
func dLen(t *rapid.T, name string, max int) int {
	v := dInt(t, name)
	if v > uint64(max) || v > 5000 {
		return rapid.IntRange(0, 5).Draw(t, name+".small") % (max + 1)
	}
	return int(v)
}

// mixer picks from a pool of n in an order without a period.
func mixer(seed, i uint64, n int) int {
	var b [8]byte
	expand(b[:], seed+i*0x1234567)
	return int(uint64(b[0])|uint64(b[1])<<8) % n
}
