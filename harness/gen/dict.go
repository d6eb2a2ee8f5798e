package gen

import (
	"encoding/hex"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// The dictionary: the constants written in the code under test.  Numbers and
// strings the code compares with are the ones behind which a special case can
// hide, so the generators draw them more often than chance would.  It only
// steers what is generated; no verdict depends on it.

var (
	dictOnce sync.Once
	dictInts []uint64 // ascending
	dictStrs [][]byte
	dictKeys int // the first dictStrs, which do not look like messages
)

const (
	repo     = "/repo"
	maxInts  = 4000
	maxWords = 2000
)

func dict() {
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	addInt := func(v constant.Value) {
		if v.Kind() != constant.Int && v.Kind() != constant.Float {
			return
		}
		v = constant.ToInt(v)
		if v.Kind() != constant.Int {
			return
		}
		if constant.Sign(v) < 0 {
			v = constant.UnaryOp(token.SUB, v, 0)
		}
		if u, ok := constant.Uint64Val(v); ok && len(ints) < maxInts {
			ints[u] = true
		}
	}
	addStr := func(s string) {
		if len(s) == 0 || len(s) > 40 || strings.ContainsAny(s, "%\n") || len(strs) >= maxWords {
			return
		}
		strs[s] = true
		h := strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X")
		if b, err := hex.DecodeString(h); err == nil && len(b) >= 2 {
			strs[string(b)] = true
		}
		if len(s) <= 8 && len(s) >= 3 {
			var v uint64
			for _, c := range []byte(s) {
				v = v<<8 | uint64(c)
			}
			ints[v] = true
		}
	}
	fset := token.NewFileSet()
	_ = filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata" || n == "docs") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, _ := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				return len(n.Elts) <= 100 // a table of numbers would drown the others
			case *ast.Field:
				// not the struct tags
				if n.Type != nil {
					ast.Inspect(n.Type, func(m ast.Node) bool {
						if l, ok := m.(*ast.BasicLit); ok && l.Kind == token.INT {
							addInt(value(l))
						}
						return true
					})
				}
				return false
			case ast.Expr:
				v := value(n)
				addInt(v)
				if v.Kind() == constant.String {
					addStr(constant.StringVal(v))
				}
			}
			return true
		})
		return nil
	})
	for v := range ints {
		dictInts = append(dictInts, v)
	}
	slices.Sort(dictInts)
	var words []string
	for s := range strs {
		words = append(words, s)
	}
	slices.Sort(words)
	for _, s := range words { // texts that look like messages and labels last
		if !strings.ContainsAny(s, " _{") {
			dictStrs = append(dictStrs, []byte(s))
		}
	}
	dictKeys = len(dictStrs)
	for _, s := range words {
		if strings.ContainsAny(s, " _{") {
			dictStrs = append(dictStrs, []byte(s))
		}
	}
}

// value evaluates an expression made of literals; unknown otherwise.
func value(e ast.Expr) (v constant.Value) {
	v = constant.MakeUnknown()
	defer func() {
		if recover() != nil { // a shift by too much, a division by zero, mixed kinds
			v = constant.MakeUnknown()
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return value(e.X)
	case *ast.CallExpr: // a conversion
		if len(e.Args) == 1 {
			if id, ok := e.Fun.(*ast.Ident); ok && strings.Contains(id.Name, "int") {
				return value(e.Args[0])
			}
		}
	case *ast.BinaryExpr:
		x, y := value(e.X), value(e.Y)
		if x.Kind() == constant.Unknown || y.Kind() == constant.Unknown {
			return v
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 128 {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return v
}

// Dict gives the dictionary.
func Dict() (ints []uint64, words [][]byte) {
	dictOnce.Do(dict)
	return dictInts, dictStrs
}

// dictU draws a dictionary number, or a neighbour of one, not above max.
func dictU(t *rapid.T, max uint64) (uint64, bool) {
	ints, _ := Dict()
	n, found := slices.BinarySearch(ints, max)
	if found {
		n++
	}
	if n == 0 {
		return 0, false
	}
	v := ints[N(t, 0, n-1)]
	switch N(t, 0, 7) {
	case 5: // in the high bytes
		for w := v << 8; w != 0 && w>>8 == v && w <= max && B(t); w = v << 8 {
			v = w
		}
	case 6:
		if v > 0 {
			v--
		}
	case 7:
		if v < max {
			v++
		}
	}
	return v, true
}

// dictBytes writes a dictionary word somewhere into b.
func dictBytes(t *rapid.T, b []byte) {
	_, words := Dict()
	if len(words) == 0 || len(b) == 0 {
		return
	}
	n := len(words)
	if dictKeys > 0 && P(t, 85) {
		n = dictKeys
	}
	w := words[N(t, 0, n-1)]
	at := 0
	if len(b) > len(w) && B(t) {
		at = N(t, 0, len(b)-len(w))
	}
	copy(b[at:], w)
}
