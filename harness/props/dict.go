package props

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/cli"
	"verifharness/rt"
)

// The generators also draw from a dictionary: the constants of the program
// under test. A behaviour which only shows at a particular value usually has
// that value, or one next to it, in the source. The dictionary only steers
// which inputs are drawn; what is judged is what the program does with them.
// Constants which dict_base.json does not list, because the code has changed
// since, are preferred (directed testing of changes).

//go:embed dict_base.json
var baseDict []byte

// BaseDictionary prints the constants as dict_base.json.
func BaseDictionary() []byte {
	d := *rt.Dict
	d.NewInts, d.NewStrings = nil, nil
	b, _ := json.MarshalIndent(d, "", " ")
	return append(b, '\n')
}

func loadDict(dir string) *rt.Dictionary {
	ints, strs := map[int64]bool{}, map[string]bool{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && path != dir {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if n.Kind == token.STRING {
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" && (len(s) <= 16 || envName.MatchString(s)) {
						strs[s] = true
					}
				}
			}
			if e, ok := n.(ast.Expr); ok {
				if v, ok := fold(e); ok {
					ints[v] = true
				}
			}
			return true
		})
		return nil
	})
	d := &rt.Dictionary{}
	for v := range ints {
		if v >= 2 || v < 0 {
			d.Ints = append(d.Ints, v)
		}
	}
	for s := range strs {
		d.Strings = append(d.Strings, s)
	}
	old := map[int64]bool{}
	oldS := map[string]bool{}
	var base rt.Dictionary
	json.Unmarshal(baseDict, &base)
	for _, v := range base.Ints {
		old[v] = true
	}
	for _, s := range base.Strings {
		oldS[s] = true
	}
	for _, v := range d.Ints {
		if !old[v] {
			d.NewInts = append(d.NewInts, v)
		}
	}
	for _, s := range d.Strings {
		if !oldS[s] {
			d.NewStrings = append(d.NewStrings, s)
		}
	}
	sort.Slice(d.NewInts, func(i, j int) bool { return d.NewInts[i] < d.NewInts[j] })
	sort.Strings(d.NewStrings)
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	sort.Strings(d.Strings)
	return d
}

// fold evaluates constant integer expressions without knowing types.
func fold(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			if v, err := strconv.ParseInt(strings.ReplaceAll(e.Value, "_", ""), 0, 64); err == nil {
				return v, true
			}
			if v, err := strconv.ParseUint(strings.ReplaceAll(e.Value, "_", ""), 0, 64); err == nil {
				return int64(v), true
			}
		case token.CHAR:
			if r, _, _, err := strconv.UnquoteChar(strings.Trim(e.Value, "'"), '\''); err == nil {
				return int64(r), true
			}
		}
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && x.Name == "time" {
			v, ok := map[string]time.Duration{"Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute, "Hour": time.Hour}[e.Sel.Name]
			return int64(v), ok
		}
	case *ast.UnaryExpr:
		if v, ok := fold(e.X); ok && e.Op == token.SUB {
			return -v, true
		}
	case *ast.CallExpr: // conversions
		if x, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 && strings.Contains(x.Name, "int") {
			return fold(e.Args[0])
		}
	case *ast.BinaryExpr:
		a, ok := fold(e.X)
		b, ok2 := fold(e.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.SHL:
			if b >= 0 && b < 63 {
				return a << uint(b), true
			}
		case token.QUO:
			if b != 0 {
				return a / b, true
			}
		}
	}
	return 0, false
}

// envName is what environment variables are called.
var envName = regexp.MustCompile(`^[A-Z][A-Z0-9_]{2,39}$`)

// envSettings gives the variables whose names are new in the program.
func envSettings() (out []string) {
	if rt.Dict == nil {
		return nil
	}
	for _, s := range rt.Dict.NewStrings {
		if !envName.MatchString(s) || strings.HasPrefix(s, "GO") || strings.HasPrefix(s, "LD_") || strings.HasPrefix(s, "VERIF") || s == "PATH" {
			continue
		}
		for _, v := range append([]string{"1", "true", "0", "/", "debug"}, rt.Dict.NewStrings...) {
			if len(out) < 64 && len(v) < 100 {
				out = append(out, s+"="+v)
			}
		}
	}
	return out
}

// LoadDictionary reads the constants of the tree this program was built from.
func LoadDictionary() {
	cli.EnvSettings = envSettings
	rt.MoreEnvironments = envSettings
	info, ok := debug.ReadBuildInfo()
	if !ok {
		return
	}
	for _, d := range info.Deps {
		if d.Path == "github.com/kklash/mnemonikey" && d.Replace != nil {
			rt.Dict = loadDict(d.Replace.Path)
		}
	}
}

// dictInt draws a constant, one next to it, or a number related to it.
func dictInt(r *rand.Rand) (int64, bool) {
	if rt.Dict == nil || len(rt.Dict.Ints) == 0 {
		return 0, false
	}
	v := pick(r, rt.Dict.Ints)
	if len(rt.Dict.NewInts) > 0 && r.Intn(2) == 0 {
		v = pick(r, rt.Dict.NewInts)
	}
	switch r.Intn(8) {
	case 0:
		v++
	case 1:
		v--
	case 2: // a multiple, for conditions on the remainder
		v *= 1 + r.Int63n(1000)
	case 3:
		v *= 1 + r.Int63n(1000)
		if w := pick(r, rt.Dict.Ints); len(rt.Dict.NewInts) > 0 && r.Intn(2) == 0 {
			v += pick(r, rt.Dict.NewInts)
		} else {
			v += w
		}
	case 4: // beyond it
		if v > 0 && v < 1<<60 {
			v += r.Int63n(v + 1)
		}
	}
	return v, true
}

// dictN draws a constant-related number from 0 to max.
func dictN(r *rand.Rand, max int64) (int64, bool) {
	for i := 0; i < 12; i++ {
		if v, ok := dictInt(r); ok && v >= 0 && v <= max {
			return v, true
		}
	}
	return 0, false
}

// dictStr draws a string of the program, or one containing it, its letters
// or a character which the program mentions.
func dictStr(r *rand.Rand) (string, bool) {
	if rt.Dict == nil || len(rt.Dict.Strings) == 0 {
		return "", false
	}
	s := pick(r, rt.Dict.Strings)
	if len(rt.Dict.NewStrings) > 0 && r.Intn(2) == 0 {
		s = pick(r, rt.Dict.NewStrings)
	}
	if r.Intn(4) == 0 {
		if v, ok := dictN(r, 0x10FFFF); ok {
			s = string(rune(v))
		}
	}
	switch r.Intn(6) {
	case 0:
		s = s + strLen(r, 1+r.Intn(6))
	case 1:
		s = strLen(r, 1+r.Intn(6)) + s
	case 2:
		s = strLen(r, 1+r.Intn(6)) + s + strLen(r, 1+r.Intn(6))
	case 3:
		s = strings.ToUpper(s)
	}
	return s, s != ""
}
