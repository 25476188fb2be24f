package eng

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The dictionary holds the constants written in the code under test, as the
// fuzzers take them from a binary: numbers, symbols and words which generators
// mix into their cases. It guides the search only; nothing is judged by it.
type dict struct {
	ints  []int
	runes []rune
	words []string
}

var theDict = struct {
	sync.Once
	d dict
}{}

func getDict() *dict {
	theDict.Do(func() {
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		theDict.d = readDict(repo)
	})
	return &theDict.d
}

func constInt(e ast.Expr) (int64, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return constInt(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			n, err := strconv.ParseInt(x.Value, 0, 64)
			return n, err == nil
		}
	case *ast.BinaryExpr:
		a, ok := constInt(x.X)
		b, ok2 := constInt(x.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.SHL:
			if b < 0 || b > 62 {
				return 0, false
			}
			return a << uint(b), true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		}
	}
	return 0, false
}

func readDict(repo string) dict {
	ints, runes, words := map[int]bool{}, map[rune]bool{}, map[string]bool{}
	addRune := func(c rune) {
		if utf8.ValidRune(c) && c != utf8.RuneError {
			runes[c] = true
		}
	}
	_ = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "tests" || n == "testdata" || n == "vendor" || n == "ci") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if f == nil || err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				if v, ok := constInt(x); ok && v > 1 && v < 1<<40 {
					ints[int(v)] = true
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, ok := constInt(x); ok && v > 1 && v < 1<<40 {
						ints[int(v)] = true
						if v >= utf8.RuneSelf && v <= utf8.MaxRune {
							addRune(rune(v))
						}
					}
				case token.CHAR:
					if v, err := strconv.Unquote(x.Value); err == nil {
						c, _ := utf8.DecodeRuneInString(v)
						addRune(c)
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && v != "" {
						for _, c := range v {
							if c >= utf8.RuneSelf || len(v) < 12 {
								addRune(c)
							}
						}
						if len(v) <= 24 {
							words[v] = true
						}
					}
				}
			}
			return true
		})
		return nil
	})
	var d dict
	for n := range ints {
		d.ints = append(d.ints, n)
	}
	for c := range runes {
		d.runes = append(d.runes, c)
	}
	for w := range words {
		d.words = append(d.words, w)
	}
	sort.Ints(d.ints)
	sort.Slice(d.runes, func(i, j int) bool { return d.runes[i] < d.runes[j] })
	sort.Strings(d.words)
	return d
}

// DictInts gives the numbers of the dictionary within [lo,hi].
func DictInts(lo, hi int) (r []int) {
	for _, n := range getDict().ints {
		if n >= lo && n <= hi {
			r = append(r, n)
		}
	}
	return r
}

// DictRunes picks some symbols of the dictionary and their neighbours, none of
// them in not.
func DictRunes(s *Src, not string) []rune {
	all := getDict().runes
	r := []rune{'a'}
	if len(all) == 0 {
		return r
	}
	beyond := sort.Search(len(all), func(i int) bool { return all[i] >= utf8.RuneSelf })
	for k := 2 + s.Intn(4); k > 0; k-- {
		var c rune
		if beyond < len(all) && s.Prob(60) {
			c = all[beyond+s.Intn(len(all)-beyond)]
		} else {
			c = Pick(s, all)
		}
		c += []rune{0, 1, -1}[s.Weighted(70, 15, 15)]
		if utf8.ValidRune(c) && c != utf8.RuneError && !strings.ContainsRune(not, c) {
			r = append(r, c)
		}
	}
	return r
}

// DictWord is a word of the dictionary without punctuation, or "".
func DictWord(s *Src) string {
	ws := getDict().words
	for k := 0; k < 4 && len(ws) > 0; k++ {
		w := Pick(s, ws)
		ok := utf8.ValidString(w)
		for _, c := range w {
			if c < utf8.RuneSelf && !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
				ok = false
			}
		}
		if ok {
			return w
		}
	}
	return ""
}

// Spice makes, once in a while, a text that has something special to it: a
// string or symbol of the dictionary at its start or end, or a regular shape.
func Spice(s *Src, x string) string {
	if !s.Rare(25) {
		return x
	}
	d := getDict()
	switch k := s.Intn(7); {
	case k == 0 && len(d.words) > 0:
		return Pick(s, d.words) + x
	case k == 1 && len(d.words) > 0:
		return x + Pick(s, d.words)
	case k == 2 && len(d.runes) > 0:
		return string(Pick(s, d.runes)) + x
	case k == 3 && len(d.runes) > 0:
		return x + string(Pick(s, d.runes))
	case k == 4:
		return x + x
	case k == 5 && x != "":
		return strings.Repeat(x[:1], 1+s.Intn(24))
	default:
		b := []byte(x)
		for i := 0; i < len(b)/2; i++ {
			b[len(b)-1-i] = b[i]
		}
		return string(b)
	}
}
