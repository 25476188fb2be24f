package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/gtags"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

var badQueries = []string{
	"seriesByTag", "seriesByTag(", "seriesByTag(')", "seriesByTag('a=b'", "seriesByTag('a=b)", "seriesByTag(\"a=b')",
	"seriesByTag('a')", "seriesByTag('=b')", "seriesByTag(' =b')", "seriesByTag('!=b')", "seriesByTag('a~b')", "seriesByTag('a!b')", "seriesByTag('a~=b')",
	"seriesByTag(a=b)", "seriesByTag('a=b' x)", "seriesByTag('a=b',c='d')", "seriesByTag('a=~(')", "seriesByTag('a!=~[')", "seriesByTag('a=[')", "seriesByTag('a={b')",
	"seriesByTag('a=b]')", "seriesByTag('a!={b,c')", "seriesByTag('a=[z-a]')", "seriesbytag('a=b')", "x seriesByTag('a=b')", "seriesByTag('a=b') x", "('a=b')", "a=b", "seriesByTag('a=b', '  =~c')",
	"seriesByTag('a=b','\t!=c')", "seriesByTag['a=b']", "seriesByTag('a=b',\"c=d)",
}

type parseIn struct {
	Terms []term  `json:"terms"`
	One   eng.Str `json:"one"`
	Two   eng.Str `json:"two"` // the same terms in another order and spelling
}

func genParse(s *eng.Src) parseIn {
	al, ks := alphabet(s), keys(s)
	ks, pad := padKeys(s, al, ks)
	in := parseIn{Terms: terms(s, al, ks, pad)}
	in.One = eng.Str(render(s, in.Terms))
	p := s.Perm(len(in.Terms))
	t := make([]term, len(p))
	for i, j := range p {
		t[i] = in.Terms[j]
		if t[i].Key == "name" && s.Prob(50) {
			t[i].Key = "__name__"
		}
	}
	in.Two = eng.Str(render(s, t))
	return in
}

type nterm struct {
	key   string
	op    int
	value string
}

func sorted(ts []nterm) []nterm {
	sort.SliceStable(ts, func(i, j int) bool {
		a, b := ts[i], ts[j]
		if a.key != b.key {
			if a.key == "__name__" || b.key == "__name__" {
				return a.key == "__name__"
			}
			return a.key < b.key
		}
		if a.op != b.op {
			return a.op < b.op
		}
		return a.value < b.value
	})
	return ts
}

func plainOf(l gtags.TaggedTermList) []nterm {
	var r []nterm
	for _, t := range l {
		r = append(r, nterm{t.Key, int(t.Op) - 1, t.Value})
	}
	return r
}

func same(a, b []nterm) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mostTerms is how many terms the text of a query may have.
const mostTerms = 128

// conditions writes each term apart.
func conditions(ts []term) (r []string) {
	for _, t := range ts {
		sp := ""
		if strings.HasPrefix(string(t.Value), "~") {
			sp = " "
		}
		r = append(r, string(t.Key)+opText[t.Op]+sp+string(t.Value))
	}
	return
}

// runList: a list of more terms than the text of a query may have
func runList(in parseIn, o *eng.Obs) error {
	var want []nterm
	text := "seriesByTag("
	for _, t := range in.Terms {
		want = append(want, nterm{t.key(), t.Op, normValue(t.Op, string(t.Value))})
	}
	sorted(want)
	for i, t := range want {
		if i > 0 {
			text += ","
		}
		text += "'" + t.key + opText[t.op] + t.value + "'"
	}
	text += ")"
	for _, q := range []eng.Str{in.One, in.Two} {
		if ts, err := gtags.ParseSeriesByTag(string(q)); err == nil {
			return fmt.Errorf("ParseSeriesByTag of %d terms gives %d terms", len(in.Terms), len(ts))
		}
	}
	rev := make([]term, len(in.Terms))
	for i, t := range in.Terms {
		rev[len(rev)-1-i] = t
	}
	for _, ts := range [][]term{in.Terms, rev} {
		l, err := gtags.ParseTaggedConditions(conditions(ts))
		if err != nil {
			return fmt.Errorf("ParseTaggedConditions(%q): %v", conditions(ts), err)
		}
		o.Checks += 2
		if got := plainOf(l); !same(got, want) {
			return fmt.Errorf("ParseTaggedConditions(%q) = %q, want %q", conditions(ts), got, want)
		}
		if got := strings.ReplaceAll(l.String(), "__name__", "name"); got != strings.ReplaceAll(text, "__name__", "name") {
			return fmt.Errorf("ParseTaggedConditions(%q) is written %q, want %q", conditions(ts), got, text)
		}
	}
	o.Label("list of terms")
	o.NonTrivial = true
	return nil
}

func runParse(in parseIn, o *eng.Obs) error {
	if !valid(in.Terms) {
		return nil
	}
	if len(in.Terms) > mostTerms {
		return runList(in, o)
	}
	var want []nterm
	odd := false
	for _, t := range in.Terms {
		want = append(want, nterm{t.key(), t.Op, normValue(t.Op, string(t.Value))})
		odd = odd || strings.ContainsAny(string(t.Value), "~='\"!,") || strings.ContainsAny(string(t.Value), "[{*?")
	}
	sorted(want)
	one, err := gtags.ParseSeriesByTag(string(in.One))
	if err != nil {
		return fmt.Errorf("ParseSeriesByTag(%q): %v", in.One, err)
	}
	two, err := gtags.ParseSeriesByTag(string(in.Two))
	if err != nil {
		return fmt.Errorf("ParseSeriesByTag(%q): %v", in.Two, err)
	}
	o.Checks += 3
	if got := plainOf(one); !same(got, want) {
		return fmt.Errorf("ParseSeriesByTag(%q) = %q, want %q", in.One, got, want)
	}
	text := one.String()
	if text != two.String() {
		return fmt.Errorf("%q is written %q, the same terms as %q are %q", in.One, text, in.Two, two.String())
	}
	// what is written reads as the same terms
	back, err := gtags.ParseSeriesByTag(text)
	if err != nil {
		return fmt.Errorf("%q is written %q, which does not parse: %v", in.One, text, err)
	}
	for i := range want {
		want[i].value = normValue(want[i].op, want[i].value)
	}
	sorted(want)
	if got := plainOf(back); !same(got, want) {
		return fmt.Errorf("%q is written %q, which reads as %q, want %q", in.One, text, got, want)
	}
	// single terms as text
	for _, t := range one {
		if x := t.String(); !strings.Contains(text, "'"+x+"'") && !strings.Contains(text, "\""+x+"\"") {
			return fmt.Errorf("the term %q of %q is written %q", plainOf(gtags.TaggedTermList{t}), text, x)
		}
	}
	// single terms given apart
	conds := conditions(in.Terms)
	apart, err := gtags.ParseTaggedConditions(conds)
	if err != nil {
		return fmt.Errorf("ParseTaggedConditions(%q): %v", conds, err)
	}
	if apart.String() != text {
		return fmt.Errorf("ParseTaggedConditions(%q) is written %q, ParseSeriesByTag %q", conds, apart.String(), text)
	}
	for _, t := range in.Terms {
		o.Label("op " + opText[t.Op])
	}
	o.LabelIf(odd, "wildcards or odd symbols")
	o.LabelIf(in.One != in.Two, "other order or spelling")
	o.NonTrivial = len(in.Terms) > 1 || odd
	return nil
}

// anything at all

type soupIn struct {
	Query eng.Str `json:"query"`
	Tags  []kv    `json:"tags"`
}

func genSoup(s *eng.Src) soupIn {
	var q string
	switch s.Weighted(45, 35, 20) {
	case 0:
		al, ks := alphabet(s), keys(s)
		r := []rune(render(s, terms(s, al, ks, nil)))
		for k := 1 + s.Intn(3); k > 0; k-- {
			p := s.Intn(len(r) + 1)
			if s.Prob(50) && p < len(r) {
				r = append(r[:p:p], r[p+1:]...)
			} else {
				r = append(r[:p:p], append([]rune{eng.Pick(s, []rune("'\"(),=~! a[]{}*\\"))}, r[p:]...)...)
			}
		}
		q = string(r)
	case 1:
		q = "seriesByTag(" + gen.Word(s, []rune("''''\",=~! ab*[]{}()"), 0, 24) + ")"
	default:
		q = eng.Pick(s, badQueries)
	}
	return soupIn{eng.Str(eng.Spice(s, q)), []kv{{"__name__", "x"}, {"a", "b"}}}
}

// readQuery is a second reading of the query grammar: it tells which queries
// are malformed. The answer is unsure for bodies out of the grammar tested.
func readQuery(q string) (ts []term, ok, sure bool) {
	e := strings.Trim(q, " ")
	if !strings.HasPrefix(e, "seriesByTag(") || !strings.HasSuffix(e, ")") || len(e) < 13 {
		return nil, false, true
	}
	e = e[12 : len(e)-1]
	for e != "" {
		switch e[0] {
		case ' ', ',':
			e = e[1:]
		case '\'', '"':
			end := strings.IndexByte(e[1:], e[0])
			if end < 0 {
				return nil, false, true
			}
			arg := e[1 : 1+end]
			e = e[end+2:]
			if arg == "" {
				continue
			}
			p := strings.IndexAny(arg, "=~!")
			if p < 0 || strings.TrimSpace(arg[:p]) == "" {
				return nil, false, true
			}
			t := term{Key: eng.Str(strings.TrimSpace(arg[:p]))}
			arg = arg[p:]
			switch {
			case strings.HasPrefix(arg, "!=~"):
				t.Op, arg = opNotMatch, arg[3:]
			case strings.HasPrefix(arg, "!="):
				t.Op, arg = opNe, arg[2:]
			case strings.HasPrefix(arg, "=~"):
				t.Op, arg = opMatch, arg[2:]
			case strings.HasPrefix(arg, "="):
				t.Op, arg = opEq, arg[1:]
			default:
				return nil, false, true
			}
			t.Value = eng.Str(strings.TrimSpace(arg))
			ts = append(ts, t)
		default:
			return nil, false, true
		}
	}
	sure = true
	ok = true
	for _, t := range ts {
		if t.Op == opEq || t.Op == opNe {
			v := string(t.Value)
			if strings.Contains(v, "[") && (strings.Contains(v, "-") || strings.Contains(v, "[!") || strings.Contains(v, "[^")) || strings.ContainsRune(v, 0xFFFD) {
				sure = false
			}
			if _, err := ref.ParseGlob(v); err != nil {
				ok = false
			}
		} else if !valid([]term{{"k", t.Op, t.Value}}) && !strings.ContainsAny(string(t.Value), "'\"") {
			ok = false
		} else if strings.ContainsAny(string(t.Value), "'\"") {
			sure = false
		}
	}
	if len(ts) > 128 {
		ok = false
	}
	return ts, ok, sure
}

func runSoup(in soupIn, o *eng.Obs) error {
	q := string(in.Query)
	want, ok, sure := readQuery(q)
	ts, err := gtags.ParseSeriesByTag(q)
	o.Checks++
	m, sl := forms(in.Tags)
	tree := gtags.NewTree()
	_, _, terr := tree.Add(q, 0)
	if q != "" && (terr != nil) != (err != nil) {
		return fmt.Errorf("%q: ParseSeriesByTag: %v, GTagsTree.Add: %v", q, err, terr)
	}
	if err != nil && err.Error() == "" {
		return fmt.Errorf("ParseSeriesByTag(%q): an error without text", q)
	}
	if err == nil {
		a, b := ts.MatchByTagsMap(m), ts.MatchByTags(sl)
		if a != b {
			return fmt.Errorf("%q on %q: MatchByTagsMap %v, MatchByTags %v", q, sl, a, b)
		}
		if ok && sure && valid(want) {
			if w := refMatch(compile(want), m); w != a {
				return fmt.Errorf("%q on %q: match %v, want %v", q, sl, a, w)
			}
			var nt []nterm
			for _, t := range want {
				nt = append(nt, nterm{t.key(), t.Op, normValue(t.Op, string(t.Value))})
			}
			if !same(plainOf(ts), sorted(nt)) {
				return fmt.Errorf("ParseSeriesByTag(%q) = %q, want %q", q, plainOf(ts), nt)
			}
		}
	}
	if !sure {
		o.Label("no panic only")
		return nil
	}
	if !ok && err == nil {
		return fmt.Errorf("malformed %q is accepted as %q", q, ts.String())
	}
	if ok && err != nil {
		return fmt.Errorf("well formed %q is rejected: %v", q, err)
	}
	if ok {
		o.Label("accepted")
	} else {
		o.Label("rejected")
		o.NonTrivial = true
		if len(tree.Queries) != 0 || len(tree.QueryIndex) != 0 {
			return fmt.Errorf("rejected %q left %v %v in the tree", q, tree.Queries, tree.QueryIndex)
		}
	}
	return nil
}

// many arguments

type manyIn struct {
	N int `json:"terms"`
}

func runMany(in manyIn, o *eng.Obs) error {
	var ts []term
	for i := 0; i < in.N; i++ {
		ts = append(ts, term{eng.Str(fmt.Sprintf("k%03d", (i*37)%in.N)), opNe, "x"})
	}
	q := render(nil, ts)
	l, err := gtags.ParseSeriesByTag(q)
	o.Checks++
	o.NonTrivial = true
	if in.N > 128 {
		if err == nil && len(l) != in.N {
			return fmt.Errorf("a query of %d terms is read as %d terms", in.N, len(l))
		}
		return nil
	}
	if err != nil || len(l) != in.N {
		return fmt.Errorf("a query of %d terms: %d terms, %v", in.N, len(l), err)
	}
	if !sort.SliceIsSorted(l, func(i, j int) bool { return l[i].Key < l[j].Key }) {
		return fmt.Errorf("a query of %d terms is not sorted by key", in.N)
	}
	return nil
}

func c12() *eng.Prop {
	return &eng.Prop{
		ID:   "C12",
		Rule: "A case is a list of terms written twice as a seriesByTag query, in another order, with other quotes and blanks; or a damaged or random query, judged by a second reading of the grammar; or a query of 1 to 140 terms. Non-trivial: more than one term or a value with wildcards or odd symbols; for damaged queries: malformed.",
		Assumptions: []string{
			"a query of more than 128 terms may be refused, but not cut",
			"blanks around keys and values are ignored; values with blanks at their ends (only a wildcard could make them) are left out",
			"a value which holds both quotes cannot be written in a query and is left out",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("query-round-trip", 400000, 6000000, genParse, runParse),
				parseIn{[]term{{"a", opEq, "~b"}}, "seriesByTag('a= ~b')", "seriesByTag('a= ~b')"},
				parseIn{[]term{{"a", opEq, "it's"}}, "seriesByTag(\"a=it's\")", "seriesByTag(\"a=it's\")"}),
			eng.With(eng.Generated("query-soup", 600000, 9000000, genSoup, runSoup), soupIn{"seriesByTag(' =a')", nil}),
			eng.Enumerated("query-lengths", func(th bool, yield func(manyIn) bool) {
				for n := 1; n <= 140; n++ {
					if !yield(manyIn{n}) {
						return
					}
				}
			}, runMany),
			eng.Enumerated("query-sizes", sizedParse, runParse),
		},
	}
}
