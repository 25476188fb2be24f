package main

import (
	"strings"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

// genLong makes longer globs and strings.
func genLong(s *eng.Src) matchIn {
	al := gen.Alphabet(s, gen.Opt{})
	var b strings.Builder
	k := 2 + s.Intn(4)
	for i := 0; i < k; i++ {
		b.WriteString(gen.Glob(s, al, gen.Opt{MaxElems: 6, NonEmpty: true, Stars: 2}))
	}
	g := b.String()
	nodes, err := ref.ParseGlob(g)
	if err != nil {
		malformed(g)
	}
	in := matchIn{Glob: eng.Str(g)}
	n := 1 + s.Intn(6)
	for i := 0; i < n; i++ {
		in.Strings = append(in.Strings, eng.Str(gen.Target(s, al, nodes)))
	}
	return in
}

var words = func() (w []eng.Str) {
	// all strings over {a,b} up to length 6
	w = []eng.Str{""}
	for lo := 0; len(w[lo]) < 6; lo++ {
		w = append(w, w[lo]+"a", w[lo]+"b")
	}
	return
}()

var uniWords = func() (w []eng.Str) {
	w = []eng.Str{""}
	for lo := 0; len([]rune(string(w[lo]))) < 4; lo++ {
		w = append(w, w[lo]+"a", w[lo]+"я", w[lo]+"世", w[lo]+"\xff")
	}
	return
}()

// enumTokens yields every sequence of at most n tokens.
func enumTokens(tokens []string, n int, words []eng.Str, yield func(matchIn) bool) bool {
	level := []string{""}
	for d := 0; d <= n; d++ {
		for _, g := range level {
			if !yield(matchIn{eng.Str(g), words}) {
				return false
			}
		}
		if d == n {
			break
		}
		var next []string
		for _, g := range level {
			for _, t := range tokens {
				next = append(next, g+t)
			}
		}
		level = next
	}
	return true
}

var tokens1 = []string{"a", "b", "*", "?", "[ab]", "{a,b}", "{,ab}", "{a*,b}", "{?,ba}", "{*b,a}"}
var tokens2 = []string{"a", "*", "?", "{a,ab,b}", "{a,b,}", "{*}", "{?b}", "{[ab]b,a*a}", "{a?,?b,}", "{*,a}", "{[],b}", "[]", "{}", "{b}"}
var tokens3 = []string{"a", "я", "*", "?", "[aя]", "[а-я世]", "{я,世}", "{я*,a}", "{?,世}"}

func enumGlobs(th bool, yield func(matchIn) bool) {
	n := 4
	if th {
		n = 5
	}
	_ = enumTokens(tokens1, n, words, yield) && enumTokens(tokens2, n-1, words, yield) && enumTokens(tokens3, n-1, uniWords, yield)
}

func c01() *eng.Prop {
	return &eng.Prop{
		ID:   "C01",
		Rule: "A case is a well-formed glob built from literals, ?, *, classes and brace lists (values with wildcards, empty and repeated values) and up to six strings derived from it (samples of its language, one-to-three-edit near misses, unrelated words, long ones, damaged UTF-8); enumerated suites take every token sequence up to a length and every word up to a length. Non-trivial: the glob has a wildcard and at least one string was judged.",
		Assumptions: []string{
			"the reference matcher (a state-set simulation over UTF-8 symbols, itself compared with Go regexp in a share of the cases) is right",
			"globs are valid UTF-8 without NUL and U+FFFD; a class starting with ! or ^ is outside the domain (negation is not a documented feature)",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("match", 1500000, 30000000, genMatch, runMatch), corpusMatch...),
			eng.Generated("match-long", 300000, 6000000, genLong, runMatch),
			eng.Enumerated("match-small-scope", enumGlobs, runMatch),
			eng.Enumerated("match-sizes", sizedGlobs, runMatch),
		},
	}
}

// inputs which once failed
var corpusMatch = []matchIn{
	{"*{a,?}", []eng.Str{"a", "ba"}},
	{"{?}", []eng.Str{"a"}},
	{"{*}", []eng.Str{"a", ""}},
	{"[a]{*a}", []eng.Str{"aa", "aba"}},
	{"*{a,b}[ba]", []eng.Str{"aab"}},
	{"*{a,b}c", []eng.Str{"bxbca", "bxbc"}},
	{"*{b,*a,*a,b,b}", []eng.Str{"a", "ba"}},
	{"*[aя]", []eng.Str{"\xffa"}},
	{"*[я]", []eng.Str{"\xffя"}},
	{"[*]", []eng.Str{"\xff*", "*", "a"}},
	{"[?]", []eng.Str{"?", "a"}},
	{"*{b,[]}", []eng.Str{"a", ""}},
	{"{a*b,c}", []eng.Str{"ab", "axb", "c", "axxxxb"}},
	{"{a*,b}?x", []eng.Str{"aax", "abbax", "bax"}},
}
