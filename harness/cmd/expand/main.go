// Command expand checks the expansion of shell-like expressions.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/glob"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

func main() { eng.Main(c16(), c17(), c18()) }

type call struct {
	Max   int  `json:"max"`
	Depth int  `json:"depth"`
	Try   bool `json:"try"`
}

type expIn struct {
	Exp   eng.Str `json:"exp"`
	Calls []call  `json:"calls"`
}

var alphabets = []string{"ab", "abc", "abc.", "a.", "aя.", "aя世𝒳", "abcdefghijklmnop019._-", "AZaz09 ~!@#$%^&()+=|;<>\"'\\/:", "ab\x00\x7f\n\u0080é", "a.\x00\x7f\u0080\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010fffe\U0010ffff"}

func word(s *eng.Src, al []rune, hi int) string {
	return strings.ReplaceAll(gen.Word(s, al, 0, hi), ",", "_")
}

// expression writes text with lists and classes; odd is how often something
// which cannot be expanded is in it (percent).
func expression(s *eng.Src, n, odd int) string {
	k := s.Weighted(20, 20, 16, 6, 12, 8, 10, 5, 3, 4, 4)
	var al []rune
	if k < len(alphabets) {
		al = []rune(alphabets[k])
	} else {
		al = eng.DictRunes(s, "[]{}*?")
	}
	dash := func(c rune) rune {
		if c == '-' || c == '!' || c == '^' {
			return 'c'
		}
		return c
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch s.Weighted(34, 10, 32, 24) {
		case 0:
			b.WriteString(word(s, al, 4))
		case 1:
			b.WriteString(strings.Repeat(".", 1+s.Weighted(90, 10)))
		case 2:
			k := 1 + s.Weighted(8, 40, 26, 12, 8, 6)
			if s.Prob(3) {
				k += s.Intn(30)
			}
			vals := make([]string, k)
			for j := range vals {
				vals[j] = word(s, al, 3)
			}
			b.WriteString("{" + strings.Join(vals, ",") + "}")
		case 3:
			if s.Prob(4) {
				b.WriteString(eng.Pick(s, []string{"[]", "{}", "[--]", "[---]"}))
				continue
			}
			b.WriteByte('[')
			if s.Prob(3) {
				b.WriteByte('-')
			}
			k := 1 + s.Weighted(25, 35, 20, 12, 8)
			for j := 0; j < k; j++ {
				c := dash(eng.Pick(s, al))
				b.WriteRune(c)
				if s.Prob(35) {
					hi := c + rune(s.Intn(5))
					if s.Prob(4) {
						hi = c + 60
					}
					for hi > c && (utf8.RuneLen(hi) != utf8.RuneLen(c) || strings.ContainsRune("[]{}*?-!^", hi)) {
						hi--
					}
					b.WriteString("-" + string(hi))
				}
			}
			if s.Prob(3) {
				b.WriteByte('-')
			}
			b.WriteByte(']')
		}
		if s.Intn(100*n) >= 100*n-odd {
			switch s.Intn(6) {
			case 0:
				b.WriteString(eng.Pick(s, []string{"*", "?", "**"}))
			case 1:
				b.WriteString(eng.Pick(s, []string{"{", "}", "[", "]"}))
			case 2:
				b.WriteString("{" + word(s, al, 2) + ",{" + word(s, al, 2) + "," + word(s, al, 2) + "},}")
			case 3:
				b.WriteString("{" + word(s, al, 2) + "*," + word(s, al, 2) + "}")
			case 4:
				b.WriteString("[" + string(dash(eng.Pick(s, al))) + "*?]")
			default:
				b.WriteString(eng.Pick(s, []string{"[z-a]", "[a-я]", "[b-a]", "[xя-a]"}))
			}
		}
	}
	return b.String()
}

func outOfModel(in string) bool {
	// a class of a single dash is not settled; U+FFFD and negation are not
	// supported
	return strings.Contains(in, "[-]") || strings.Contains(in, "[!") || strings.Contains(in, "[^") ||
		!utf8.ValidString(in) || strings.ContainsRune(in, utf8.RuneError)
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(a []string) string {
	if len(a) > 12 {
		return fmt.Sprintf("%q… (%d)", a[:12], len(a))
	}
	return fmt.Sprintf("%q", a)
}

// judge compares one result with the model.
func judge(exp string, c call, got []string, err error, o *eng.Obs) error {
	name := "Expand"
	if c.Try {
		name = "ExpandTry"
	}
	what := fmt.Sprintf("%s(%q, %d, %d)", name, exp, c.Max, c.Depth)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	o.Checks++
	var want []string
	for alt := 0; alt < 6; alt++ {
		el := ref.ParseExp(exp, alt&1 == 1)
		want = ref.Expand(el, c.Max, c.Depth, c.Try, (alt/2+1)%3)
		if same(got, want) {
			return nil
		}
	}
	return fmt.Errorf("%s = %s, want %s", what, short(got), short(want))
}

func do(exp string, c call) ([]string, error) {
	if c.Try {
		return expand.ExpandTry(exp, c.Max, c.Depth)
	}
	return expand.Expand(exp, c.Max, c.Depth)
}

func size(exp string, c call, limit int) int {
	a := ref.ExpandSize(ref.ParseExp(exp, false), c.Max, c.Depth, limit)
	b := ref.ExpandSize(ref.ParseExp(exp, true), c.Max, c.Depth, limit)
	if b > a {
		return b
	}
	return a
}

func dotsInside(el []ref.ExpElem) bool {
	for _, e := range el {
		if e.Odd {
			return true
		}
	}
	return false
}

func labels(exp string, o *eng.Obs) (wild bool, values int) {
	el := ref.ParseExp(exp, false)
	values = 1
	for _, e := range el {
		if e.Values != nil {
			if values < 1<<40 {
				values *= len(e.Values)
			}
			if e.Body[0] == '{' {
				o.Label("list")
			} else {
				o.Label("class")
			}
		} else if strings.ContainsAny(e.Body, "[]{}*?") {
			wild = true
			if e.Bad {
				o.Label("malformed class")
			}
		}
	}
	o.LabelIf(wild, "with a part that stays")
	return
}

const maxResults = 4000

// manyResults: expressions of more results are not expanded
func manyResults(exp string) int {
	if len(exp) > 4*maxResults {
		return len(exp)
	}
	return 4 * maxResults
}

func genFull(s *eng.Src) expIn {
	in := expIn{Calls: []call{{-1 - s.Weighted(90, 10)*s.Intn(5), 0, false}}}
	for n := s.Size(0, 9); ; n-- {
		in.Exp = eng.Str(expression(s, n, 25))
		if n <= 0 || size(string(in.Exp), in.Calls[0], maxResults) < maxResults {
			return in
		}
	}
}

func runFull(in expIn, o *eng.Obs) error {
	exp := string(in.Exp)
	if outOfModel(exp) {
		return nil
	}
	for _, c := range in.Calls {
		if k := size(exp, c, manyResults(exp)); k >= manyResults(exp) {
			continue
		}
		got, err := do(exp, c)
		if err = judge(exp, c, got, err, o); err != nil {
			return err
		}
	}
	_, n := labels(exp, o)
	o.LabelIf(n > 1, "more than one result")
	o.LabelIf(n > 100, "more than 100 results")
	o.NonTrivial = n > 1
	return nil
}

func enumFull(thorough bool, yield func(expIn) bool) {
	tok := []string{"a", ".", "{a,b}", "[ab]", "{}", "[]", "{c}", "[c]", "*", "?", "{", "}", "[", "]", ",", "{,a}", "[b-a]", "[a-c]", "я", "{a,{b}}"}
	n := 4
	if thorough {
		n = 5
	}
	var rec func(p string, k int) bool
	rec = func(p string, k int) bool {
		if !yield(expIn{eng.Str(p), []call{{-1, 0, false}}}) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, t := range tok {
			if !rec(p+t, k-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

// any string: an answer, no error, no panic
type anyIn struct {
	Exp   eng.Str `json:"exp"`
	Max   int     `json:"max"`
	Depth int     `json:"depth"`
}

func genAny(s *eng.Src) anyIn {
	in := genAnyText(s)
	in.Exp = eng.Str(eng.Spice(s, string(in.Exp)))
	return in
}

func genAnyText(s *eng.Src) anyIn {
	in := anyIn{Max: s.Range(-2, 40), Depth: s.Weighted(60, 20, 10, 10)}
	switch s.Intn(3) {
	case 0:
		var b strings.Builder
		n := s.Size(0, 24)
		for i := 0; i < n; i++ {
			b.WriteString(eng.Pick(s, []string{"{", "}", "[", "]", ",", "-", "a", "b", ".", "*", "?", "!", "^", "я", "世", "\xff", "\xd1", "\x00", "{a,b}", "[a-c]", "[-]"}))
		}
		in.Exp = eng.Str(b.String())
	case 1:
		x := expression(s, s.Size(1, 8), 30)
		for k := s.Intn(3) + 1; k > 0 && x != ""; k-- {
			p := s.Intn(len(x))
			switch s.Intn(3) {
			case 0:
				x = x[:p] + x[p+1:]
			case 1:
				x = x[:p] + eng.Pick(s, []string{"{", "}", "[", "]", ",", "-", "\xff", "*"}) + x[p:]
			default:
				x = x[:p] + x[p:] + x[:p]
				if len(x) > 200 {
					x = x[:200]
				}
			}
		}
		in.Exp = eng.Str(x)
	default:
		b := make([]byte, s.Size(0, 12))
		for i := range b {
			b[i] = byte(s.Intn(256))
		}
		in.Exp = eng.Str(b)
	}
	return in
}

func runAny(in anyIn, o *eng.Obs) error {
	exp := string(in.Exp)
	c := call{in.Max, in.Depth, false}
	// a soup may have many results only when it is not limited
	if c.Max < 0 && strings.Contains(exp, "-") && strings.IndexFunc(exp, func(r rune) bool { return r > 127 }) >= 0 {
		c.Max = 1000
	}
	if c.Max < 0 {
		n := 1
		for _, e := range strings.FieldsFunc(exp, func(r rune) bool { return r == '{' || r == '[' }) {
			k := strings.Count(e, ",") + 1
			if strings.Contains(e, "-") {
				k = 300
			} else if len(e) > k {
				k = len(e)
			}
			if n *= k; n > 2000000 {
				c.Max = 1000
				break
			}
		}
	}
	got, err := do(exp, c)
	o.Checks++
	if err != nil {
		return fmt.Errorf("Expand(%q, %d, %d): %v", exp, c.Max, c.Depth, err)
	}
	if len(got) == 0 {
		return fmt.Errorf("Expand(%q, %d, %d) has no result", exp, c.Max, c.Depth)
	}
	if c.Max >= 0 && len(got) > c.Max && len(got) > 1 {
		return fmt.Errorf("Expand(%q, %d, %d) has %d results", exp, c.Max, c.Depth, len(got))
	}
	if !strings.ContainsAny(exp, "[]{}*?") && (len(got) != 1 || got[0] != exp) {
		return fmt.Errorf("Expand(%q, %d, %d) = %s", exp, c.Max, c.Depth, short(got))
	}
	one, err := do(exp, call{c.Max, c.Depth, true})
	if err != nil || len(one) != 1 || one[0] != got[0] {
		return fmt.Errorf("ExpandTry(%q, %d, %d) = %s, %v; Expand starts with %q", exp, c.Max, c.Depth, short(one), err, got[0])
	}
	o.NonTrivial = strings.ContainsAny(exp, "[]{}*?")
	o.LabelIf(len(got) > 1, "more than one result")
	o.LabelIf(!utf8.ValidString(exp), "invalid UTF-8")
	return nil
}

func c16() *eng.Prop {
	return &eng.Prop{
		ID:   "C16",
		Rule: "A case is an expression of up to nine pieces (text, dots, lists with empty and repeated values, classes with ranges in any order), a quarter of them with a part that cannot be expanded, its unlimited expansion being compared with the model, order and repetitions included; or any string. Non-trivial: more than one result (any string: it has brackets or wildcards).",
		Assumptions: []string{
			"a class of a single dash, U+FFFD and negated classes are not judged",
			"what follows a malformed class may be expanded or not",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("full", 1400000, 20000000, genFull, runFull),
				expIn{"{}", []call{{-1, 0, false}}}, expIn{"[]", []call{{-1, 0, false}}}, expIn{"[--]", []call{{-1, 0, false}}},
				expIn{"a[z-a]{b,c}", []call{{-1, 0, false}}}, expIn{"[\x00a]", []call{{-1, 0, false}}}),
			eng.Enumerated("full-small-scope", enumFull, runFull),
			eng.Enumerated("full-sizes", sizedFull, runFull),
			eng.With(eng.Generated("any-string", 1000000, 10000000, genAny, runAny), anyIn{"{}", -1, 0}, anyIn{"[]", 3, 1}),
		},
	}
}

func genLimits(s *eng.Src) expIn {
	n := s.Size(1, 14)
	if s.Prob(10) {
		n = s.Range(20, 90)
	}
	in := expIn{Exp: eng.Str(expression(s, n, 20))}
	k := 1 + s.Weighted(60, 20, 12, 8)
	for i := 0; i < k; i++ {
		c := call{Try: s.Prob(20)}
		switch s.Weighted(45, 20, 15, 20) {
		case 0:
			c.Max = 1 + s.Intn(12)
		case 1:
			c.Max = 1 + s.Intn(3000)
		case 2:
			c.Max = 0
		default:
			c.Max = -1
		}
		if s.Prob(40) {
			c.Depth = s.Range(1, 5)
			if s.Prob(5) {
				c.Depth = -s.Intn(3)
			}
		}
		if s.Rare(25) {
			// as good as no limit
			c.Max = eng.Pick(s, []int{1<<15 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 62, 1<<63 - 1, -2, -1 << 31, -1 << 63})
		}
		if s.Rare(40) {
			c.Depth = eng.Pick(s, []int{100, 127, 255, 256, 1<<31 - 1, 1 << 32, 1 << 62})
		}
		if (c.Max < 0 || c.Max > 3000) && !c.Try && size(string(in.Exp), c, maxResults) >= maxResults {
			c.Max = 50
		}
		in.Calls = append(in.Calls, c)
	}
	return in
}

func runLimits(in expIn, o *eng.Obs) error {
	exp := string(in.Exp)
	if outOfModel(exp) {
		return nil
	}
	el := ref.ParseExp(exp, false)
	odd := dotsInside(el)
	_, n := labels(exp, o)
	reuse := expand.ParseExpr(exp)
	for i, c := range in.Calls {
		if c.Depth > 0 && odd {
			o.Label("dots inside, depth not judged")
			c.Depth = 0
		}
		k := size(exp, c, manyResults(exp))
		if k >= manyResults(exp) && !c.Try {
			continue
		}
		got, err := do(exp, c)
		if err = judge(exp, c, got, err, o); err != nil {
			return err
		}
		if c.Max > 0 && len(got) > c.Max {
			return fmt.Errorf("%d results of at most %d", len(got), c.Max)
		}
		again, err := reuse.Expand(c.Max, c.Depth, c.Try)
		if err != nil || !same(got, again) {
			return fmt.Errorf("ParseExpr(%q), call %d of Expand(%d, %d, %v) = %s, %v, want %s", exp, i+1, c.Max, c.Depth, c.Try, short(again), err, short(got))
		}
		if c.Max > 0 {
			o.LabelIf(k < n, "limit in effect")
			o.LabelIf(len(got) == c.Max && len(got) > 1, "limit reached exactly")
			o.LabelIf(n > 1<<30, "limit of an enormous expansion")
		}
		o.LabelIf(c.Depth > 0 && strings.Contains(exp, "."), "depth")
		o.LabelIf(c.Try, "try")
		if n > 1 && (c.Max >= 0 || c.Depth > 0 || c.Try) {
			o.NonTrivial = true
		}
	}
	o.LabelIf(len(in.Calls) > 1, "expressions used again")
	return nil
}

func enumLimits(thorough bool, yield func(expIn) bool) {
	tok := []string{"a", ".", "{a,b}", "[abc]", "{a,,b}", "[c]", "*", "{x}"}
	n := 4
	if thorough {
		n = 5
	}
	var calls []call
	for _, max := range []int{-1, 0, 1, 2, 3, 4, 6, 7, 12, 30} {
		for depth := 0; depth <= 3; depth++ {
			calls = append(calls, call{max, depth, false}, call{max, depth, true})
		}
	}
	var rec func(p string, k int) bool
	rec = func(p string, k int) bool {
		if !yield(expIn{eng.Str(p), calls}) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, t := range tok {
			if !rec(p+t, k-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

func c17() *eng.Prop {
	return &eng.Prop{
		ID:   "C17",
		Rule: "A case is an expression of up to 14 (one in ten: up to 90) pieces and up to four calls with a limit of results, a depth and the one-value mode, each compared with the model for a fresh and for an already used parsed expression; the enumerated suite takes every expression of up to four pieces (thorough: five) with 80 combinations of limits. Non-trivial: more than one result without limits, and a limit, a depth or the one-value mode given.",
		Assumptions: []string{
			"depth is not judged for expressions with dots inside of a list or a class",
			"a class of a single dash, U+FFFD and negated classes are not judged",
			"what follows a malformed class may be expanded or not",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("limits", 300000, 8000000, genLimits, runLimits),
				expIn{eng.Str(strings.Repeat("{a,b}", 70)), []call{{1<<63 - 1, 0, true}, {1 << 62, 0, true}}},
				expIn{eng.Str(strings.Repeat("[a-z]", 14)), []call{{3, 0, false}, {27, 0, false}}},
				expIn{eng.Str("x.a" + strings.Repeat("[a-z]", 14)), []call{{-1, 1, false}, {0, 0, false}}},
				expIn{"{a,b}", []call{{-1, 0, true}, {-1, 0, false}}}),
			eng.Enumerated("limits-small-scope", enumLimits, runLimits),
			eng.Enumerated("limits-sizes", sizedLimits, runLimits),
		},
	}
}

type meanIn struct {
	Glob    eng.Str   `json:"glob"`
	Call    call      `json:"call"`
	Strings []eng.Str `json:"strings"`
}

func genMean(s *eng.Src) meanIn {
	al := gen.Alphabet(s, gen.Opt{})
	in := meanIn{}
	in.Call.Max = []int{-1, 0, 1}[s.Weighted(50, 5, 45)]
	if in.Call.Max == 1 {
		in.Call.Max = 1 + s.Intn(60)
	}
	if s.Prob(40) {
		in.Call.Depth = 1 + s.Intn(3)
	}
	for hi := 8; ; hi-- {
		g := ""
		if s.Prob(55) {
			g = expression(s, hi, 0)
		} else {
			g = gen.Glob(s, al, gen.Opt{MaxElems: hi, Simple: s.Prob(50)})
		}
		if hi > 1 && size(g, in.Call, 600) >= 600 {
			continue
		}
		in.Glob = eng.Str(g)
		break
	}
	nodes, err := ref.ParseGlob(string(in.Glob))
	if err != nil {
		return in
	}
	if s.Prob(30) {
		al = nil
		for _, c := range string(in.Glob) {
			if !strings.ContainsRune("[]{}*?,", c) {
				al = append(al, c)
			}
		}
		al = append(al, 'q')
	}
	n := 1 + s.Intn(5)
	for i := 0; i < n; i++ {
		in.Strings = append(in.Strings, eng.Str(gen.Target(s, al, nodes)))
	}
	return in
}

func runMean(in meanIn, o *eng.Obs) error {
	g := string(in.Glob)
	m, err := ref.ParseGlob(g)
	if err != nil || outOfModel(g) || strings.Contains(g, "[---]") {
		return nil
	}
	if size(g, in.Call, 20000) >= 20000 {
		return nil
	}
	got, err := do(g, in.Call)
	if err != nil {
		return fmt.Errorf("Expand(%q): %v", g, err)
	}
	var res [][]ref.Node
	for _, r := range got {
		n, err := ref.ParseGlob(r)
		if err != nil {
			return fmt.Errorf("Expand(%q, %d, %d) has %q, which is not a glob any more", g, in.Call.Max, in.Call.Depth, r)
		}
		res = append(res, n)
	}
	yes, no := false, false
	for _, es := range in.Strings {
		s := string(es)
		want := ref.Match(m, s)
		have := ""
		ok := false
		for i := range res {
			if ref.Match(res[i], s) {
				ok, have = true, got[i]
				break
			}
		}
		o.Checks++
		if ok != want {
			if ok {
				return fmt.Errorf("Expand(%q, %d, %d): %q matches %q, which the glob does not", g, in.Call.Max, in.Call.Depth, have, s)
			}
			return fmt.Errorf("Expand(%q, %d, %d): nothing matches %q, which the glob does", g, in.Call.Max, in.Call.Depth, s)
		}
		yes = yes || want
		no = no || !want
		if want && len(got) < 40 && !strings.ContainsAny(have, "[]{}*?") && have != "" {
			// plain results are the strings themselves
			o.Checks++
			pg, err := glob.Parse(g)
			if err != nil || !pg.Match(have) {
				return fmt.Errorf("Expand(%q) has %q, which the parsed glob does not match (%v)", g, have, err)
			}
		}
	}
	o.LabelIf(len(got) > 1, "more than one result")
	o.LabelIf(yes, "match")
	o.LabelIf(no, "no match")
	o.LabelIf(strings.ContainsAny(got[0], "[]{}*?"), "results with wildcards")
	o.NonTrivial = len(got) > 1 && yes
	return nil
}

func c18() *eng.Prop {
	return &eng.Prop{
		ID:   "C18",
		Rule: "A case is a well-formed glob, a limit of results, a depth and up to five strings (samples of the glob's language, near misses, others): a string matches the glob if and only if it matches one of the expanded globs. Non-trivial: more than one expanded glob and a string that matches.",
		Assumptions: []string{
			"a class of a single dash, U+FFFD and negated classes are not judged",
			"the glob and its expansions are decided by the reference matcher",
		},
		Suites: []*eng.Suite{
			eng.Generated("meaning", 1200000, 20000000, genMean, runMean),
			eng.Enumerated("meaning-sizes", sizedMean, runMean),
		},
	}
}
