package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
	"verifharness/share"
)

// the reference: terms and tag sets

const (
	opEq = iota
	opMatch
	opNe
	opNotMatch
)

var opText = []string{"=", "=~", "!=", "!=~"}

type term struct {
	Key   eng.Str `json:"key"`
	Op    int     `json:"op"` // = =~ != !=~
	Value eng.Str `json:"value"`
}

func (t term) key() string {
	if t.Key == "name" {
		return "__name__"
	}
	return string(t.Key)
}

var reCache = struct {
	sync.RWMutex
	m map[string]*regexp.Regexp
}{m: map[string]*regexp.Regexp{}}

// compileRe compiles each of the usual expressions once.
func compileRe(x string) (*regexp.Regexp, error) {
	reCache.RLock()
	re := reCache.m[x]
	reCache.RUnlock()
	if re != nil {
		return re, nil
	}
	re, err := regexp.Compile(x)
	if err == nil && len(x) < 12 {
		reCache.Lock()
		if len(reCache.m) < 20000 {
			reCache.m[x] = re
		}
		reCache.Unlock()
	}
	return re, err
}

// compiled term
type cterm struct {
	key   string
	op    int
	value string
	re    *regexp.Regexp
	nodes []ref.Node
}

func compile(ts []term) []cterm {
	r := make([]cterm, len(ts))
	for i, t := range ts {
		r[i] = cterm{key: t.key(), op: t.Op, value: string(t.Value)}
		if t.Op == opMatch || t.Op == opNotMatch {
			r[i].re, _ = compileRe(string(t.Value))
		} else {
			n, err := ref.ParseGlob(string(t.Value))
			if err != nil {
				share.Broken("malformed value %q", t.Value)
			}
			r[i].nodes = n
		}
	}
	return r
}

func valid(ts []term) bool {
	for _, t := range ts {
		if t.Op < 0 || t.Op > 3 || t.Key == "" || strings.ContainsAny(string(t.Key), "=~!'\"") {
			return false
		}
		if t.Op == opMatch || t.Op == opNotMatch {
			if _, err := compileRe(string(t.Value)); err != nil {
				return false
			}
		} else if _, err := ref.ParseGlob(string(t.Value)); err != nil {
			return false
		}
		if strings.ContainsAny(string(t.Value), "'") && strings.ContainsAny(string(t.Value), "\"") {
			return false
		}
	}
	return true
}

func (t *cterm) match(v string) bool {
	switch t.op {
	case opEq:
		return ref.Match(t.nodes, v)
	case opNe:
		return !ref.Match(t.nodes, v)
	case opMatch:
		return t.re.MatchString(v)
	default:
		return !t.re.MatchString(v)
	}
}

func refMatch(ts []cterm, tags map[string]string) bool {
	for i := range ts {
		v, ok := tags[ts[i].key]
		if !ok {
			if ts[i].op == opEq || ts[i].op == opMatch {
				return false
			}
			continue
		}
		if !ts[i].match(v) {
			return false
		}
	}
	return true
}

type kv struct {
	K eng.Str `json:"k"`
	V eng.Str `json:"v"`
}

// tagSet keeps the keys in the order of a tagged path: the name first, then
// sorted.
func tagSet(m map[string]string) []kv {
	var r []kv
	for k, v := range m {
		r = append(r, kv{eng.Str(k), eng.Str(v)})
	}
	sortKV(r)
	return r
}

func sortKV(r []kv) {
	sort.Slice(r, func(i, j int) bool {
		if r[i].K == "__name__" || r[j].K == "__name__" {
			return r[i].K == "__name__" && r[j].K != "__name__"
		}
		return r[i].K < r[j].K
	})
}

func forms(s []kv) (map[string]string, []gtags.Tag) {
	m := map[string]string{}
	var t []gtags.Tag
	for _, x := range s {
		m[string(x.K)] = string(x.V)
		t = append(t, gtags.Tag{Key: string(x.K), Value: string(x.V)})
	}
	return m, t
}

// generators

var smallKeys = []string{"a", "b", "__name__", "name", "c", "d", "app", "Z", "aa", "_", "__namf__", "é", "a-b", "0", "__nam", "я", "a.b", "dc", "Name", "__Name__", "A", "__name", "name_", "NAME", "B"}

func keys(s *eng.Src) []string {
	n := 2 + s.Weighted(30, 25, 15, 10, 10, 5, 5)
	if s.Prob(10) {
		n = 8 + s.Intn(24)
	}
	seen := map[string]bool{}
	var r []string
	for len(r) < n {
		k := ""
		if s.Prob(70) && len(r) < 12 {
			k = eng.Pick(s, smallKeys)
		} else {
			k = fmt.Sprintf("k%02d", s.Intn(60))
		}
		if s.Rare(150) {
			if w := eng.DictWord(s); w != "" && w != "name" && w != "__name__" {
				k = w
			}
		}
		if seen[k] {
			k = fmt.Sprintf("x%d", len(r))
		}
		if s.Rare(80) {
			k = strings.Repeat(k, 2+s.Intn(20))
		}
		seen[k] = true
		r = append(r, k)
	}
	return r
}

var regexps = []string{"a", "^a", "a$", "^a$", "^(a|b)", "a.*b", "[ab]+$", "^[^a]", "b?c", "", ".", "^$", "(?i)A", "я", `\.`, `^a\d+$`, "a|b|c", "~a", "=a", "a{2}", "^a{1,2}$"}

func value(s *eng.Src, al []rune, op int) string {
	var v string
	if op == opMatch || op == opNotMatch {
		v = eng.Pick(s, regexps)
		if s.Prob(40) {
			v = genRe(s, al)
		} else if s.Prob(40) {
			w := gen.Word(s, al, 1, 3)
			v = regexp.QuoteMeta(w)
			if s.Prob(40) {
				v = "^" + v
			}
			if s.Prob(40) {
				v += "$"
			}
		}
		if strings.ContainsAny(v, "'\" ") {
			v = "a"
		}
		return v
	}
	switch s.Weighted(45, 50, 5) {
	case 0:
		v = gen.Word(s, al, 0, 3)
	case 1:
		v = gen.Glob(s, al, gen.Opt{MaxElems: 4, Stars: 3, NoQuote: true})
	default:
		v = eng.Pick(s, []string{"~a", "~", "=", "==a", "!a", "a=b", "a'b", "'", "a','b=c", "\"x", "{~a}", "a)", "(", ",", "{~b,c*}", "{}", "[]", "*", "a b", "a,b"})
	}
	if s.Rare(60) {
		v = strings.Repeat(gen.Word(s, al, 1, 8), 1+s.Intn(30)) + eng.Pick(s, []string{"", "*", "?"})
	} else if len(v) > 40 {
		v = "a*"
	}
	if t := strings.TrimSpace(v); t != v {
		v = t
	}
	if strings.Contains(v, "'") && strings.Contains(v, "\"") {
		v = strings.ReplaceAll(v, "'", "_")
	}
	// blanks at the ends of what wildcards stand for are lost when the normal
	// form is read again
	if strings.IndexFunc(v, unicode.IsSpace) != -1 && strings.ContainsAny(v, "[{") {
		v = strings.Map(func(c rune) rune {
			if unicode.IsSpace(c) {
				return '_'
			}
			return c
		}, v)
	}
	if _, err := ref.ParseGlob(v); err != nil {
		v = "a"
	}
	return v
}

func alphabet(s *eng.Src) []rune { return gen.Alphabet(s, gen.Opt{NoQuote: true}) }

// padKeys sometimes adds a long common text to the keys and picks one for the
// values.
func padKeys(s *eng.Src, al []rune, ks []string) ([]string, func(string) string) {
	if !s.Rare(16) {
		return ks, nil
	}
	if s.Prob(50) {
		pad := gen.Pad(s, al)
		r := make([]string, len(ks))
		for i, k := range ks {
			if r[i] = k; k != "name" && k != "__name__" {
				if k = pad(k); !strings.ContainsAny(k, "=~!") {
					r[i] = k
				}
			}
		}
		ks = r
	}
	return ks, gen.Pad(s, al)
}

func terms(s *eng.Src, al []rune, ks []string, pad func(string) string) []term {
	n := s.Weighted(2, 30, 30, 20, 10, 8)
	if s.Prob(3) {
		n += s.Intn(12)
	}
	if s.Rare(200) {
		n += s.Intn(60)
	}
	ts := make([]term, n)
	for i := range ts {
		op := s.Weighted(45, 20, 20, 15)
		v := value(s, al, op)
		if pad != nil && (op == opEq || op == opNe) && !s.Prob(8) {
			v = pad(v)
		}
		ts[i] = term{eng.Str(eng.Pick(s, ks)), op, eng.Str(v)}
	}
	return ts
}

func tagValue(s *eng.Src, al []rune, k string, ts [][]term) string {
	var c []term
	for _, q := range ts {
		for _, t := range q {
			if t.key() == k {
				c = append(c, t)
			}
		}
	}
	if len(c) == 0 || s.Prob(10) {
		return gen.Word(s, al, 0, 3)
	}
	t := eng.Pick(s, c)
	if t.Op == opMatch || t.Op == opNotMatch {
		if s.Prob(50) {
			return sampleRe(s, al, string(t.Value))
		}
		return eng.Pick(s, []string{"a", "b", "ab", "ba", "", "aab", "c", "A", "я", "a1", "~a", "=a", "aa", "."})
	}
	n, _ := ref.ParseGlob(string(t.Value))
	v := gen.Sample(s, al, n, 0)
	if s.Prob(25) {
		v = gen.Mutate(s, al, v)
	}
	return v
}

// tags makes a tag set likely to satisfy some of the queries.
func tags(s *eng.Src, al []rune, ks []string, qs [][]term) []kv {
	m := map[string]string{}
	mode := s.Weighted(50, 30, 20)
	var focus []term
	if len(qs) > 0 && s.Prob(60) {
		focus = eng.Pick(s, qs)
	}
	for _, t := range focus {
		// satisfy this one
		miss := t.Op == opNe || t.Op == opNotMatch
		if miss && s.Prob(50) {
			continue
		}
		if _, ok := m[t.key()]; ok && s.Prob(70) {
			continue
		}
		m[t.key()] = tagValue(s, al, t.key(), [][]term{{t}})
		if miss {
			m[t.key()] = gen.Word(s, al, 0, 3)
		}
	}
	for _, k := range ks {
		if k == "name" {
			k = "__name__"
		}
		if _, ok := m[k]; ok {
			continue
		}
		if p := []int{50, 90, 15}[mode]; s.Prob(p) {
			m[k] = tagValue(s, al, k, qs)
		}
	}
	if s.Prob(85) {
		if _, ok := m["__name__"]; !ok {
			m["__name__"] = tagValue(s, al, "__name__", qs)
		}
	}
	for s.Prob(25) {
		m[eng.Pick(s, []string{"a", "zz", "m", "k01", "k30", "A", "__o"})+strings.Repeat("x", s.Intn(2))] = gen.Word(s, al, 0, 2)
	}
	return tagSet(m)
}

// render writes the terms as a query.
func render(s *eng.Src, ts []term) string {
	var b strings.Builder
	sp := func(p int) string {
		if s != nil && s.Prob(p) {
			return strings.Repeat(" ", 1+s.Intn(2))
		}
		return ""
	}
	b.WriteString(sp(3) + "seriesByTag(" + sp(5))
	for i, t := range ts {
		if i > 0 {
			b.WriteString(sp(5) + "," + sp(20))
		}
		q := "'"
		if strings.Contains(string(t.Value), "'") || s != nil && s.Prob(15) && !strings.Contains(string(t.Value), "\"") {
			q = "\""
		}
		b.WriteString(q + sp(3) + string(t.Key) + sp(5) + opText[t.Op])
		if (t.Op == opEq || t.Op == opNe) && strings.HasPrefix(string(t.Value), "~") {
			b.WriteString(" ")
		} else {
			b.WriteString(sp(5))
		}
		b.WriteString(string(t.Value) + sp(3) + q)
		if s != nil && s.Prob(2) {
			b.WriteString(" , ''")
		}
	}
	b.WriteString(sp(5) + ")" + sp(3))
	return b.String()
}

// C10: terms

type termsIn struct {
	Query eng.Str `json:"query"`
	Terms []term  `json:"terms"`
	Tags  [][]kv  `json:"tags"`
}

func genTerms(s *eng.Src) termsIn {
	al, ks := alphabet(s), keys(s)
	var in termsIn
	ks, pad := padKeys(s, al, ks)
	in.Terms = terms(s, al, ks, pad)
	in.Query = eng.Str(render(s, in.Terms))
	for n := 1 + s.Intn(4); n > 0; n-- {
		in.Tags = append(in.Tags, tags(s, al, ks, [][]term{in.Terms}))
	}
	return in
}

func runTerms(in termsIn, o *eng.Obs) error {
	if !valid(in.Terms) {
		return nil
	}
	var ts gtags.TaggedTermList
	var err error
	if len(in.Terms) > mostTerms {
		// more than a query may have, but a list of terms may
		if ts, err = gtags.ParseTaggedConditions(conditions(in.Terms)); err != nil {
			return fmt.Errorf("ParseTaggedConditions(%q): %v", conditions(in.Terms), err)
		}
		o.Label("list of terms")
	} else if ts, err = gtags.ParseSeriesByTag(string(in.Query)); err != nil {
		return fmt.Errorf("ParseSeriesByTag(%q): %v", in.Query, err)
	}
	ct := compile(in.Terms)
	for _, t := range in.Terms {
		o.Label("op " + opText[t.Op])
		o.LabelIf(t.key() == "__name__", "name")
	}
	for _, set := range in.Tags {
		m, sl := forms(set)
		want := refMatch(ct, m)
		o.Checks++
		if got := ts.MatchByTagsMap(m); got != want {
			return fmt.Errorf("%q on %q: MatchByTagsMap = %v, want %v", in.Query, m, got, want)
		}
		if got := ts.MatchByTags(sl); got != want {
			return fmt.Errorf("%q on %q: MatchByTags = %v, want %v", in.Query, sl, got, want)
		}
		// single terms
		for i := range ts {
			v, ok := m[ts[i].Key]
			if !ok {
				o.Label("key absent")
				continue
			}
			all := true
			for j := range ct {
				if ct[j].key == ts[i].Key && ct[j].op == int(ts[i].Op)-1 {
					all = all && ct[j].match(v)
				}
			}
			if all && !ts[i].Match(v) {
				return fmt.Errorf("term %q on %q: no match", ts[i].String(), v)
			}
		}
		if want {
			o.Label("match")
			o.NonTrivial = o.NonTrivial || len(ct) > 0
		} else {
			o.Label("no match")
			o.NonTrivial = o.NonTrivial || len(ct) > 1
		}
	}
	return nil
}

// small scope: every one- and two-term query over two keys
func enumTerms(th bool, yield func(termsIn) bool) {
	var ts []term
	for _, k := range []eng.Str{"a", "b", "name", "Z"} {
		for op := 0; op < 4; op++ {
			vs := []eng.Str{"x", "", "x*"}
			if op == opMatch || op == opNotMatch {
				vs = []eng.Str{"x", "^$", "x+y"}
			}
			for _, v := range vs {
				ts = append(ts, term{k, op, v})
			}
		}
	}
	vals := []string{"x", "", "xxy"}
	var sets [][]kv
	for _, n := range append([]string{"-"}, vals...) {
		for _, a := range append([]string{"-"}, vals...) {
			for _, b := range append([]string{"-"}, vals[:2]...) {
				for _, z := range []string{"-", "x"} {
					m := map[string]string{}
					for _, p := range [][2]string{{"__name__", n}, {"a", a}, {"b", b}, {"Z", z}} {
						if p[1] != "-" {
							m[p[0]] = p[1]
						}
					}
					sets = append(sets, tagSet(m))
				}
			}
		}
	}
	if !yield(termsIn{"seriesByTag()", nil, sets}) {
		return
	}
	for i := range ts {
		one := []term{ts[i]}
		if !yield(termsIn{eng.Str(render(nil, one)), one, sets}) {
			return
		}
		for j := range ts {
			two := []term{ts[i], ts[j]}
			if !yield(termsIn{eng.Str(render(nil, two)), two, sets}) {
				return
			}
			if th {
				for k := 0; k < len(ts); k += 2 {
					three := []term{ts[i], ts[j], ts[k]}
					if !yield(termsIn{eng.Str(render(nil, three)), three, sets}) {
						return
					}
				}
			}
		}
	}
}

func c10() *eng.Prop {
	return &eng.Prop{
		ID:   "C10",
		Rule: "A case is a seriesByTag query of 0 to about 17 terms over the four operators with literal, wildcard and regexp values, and up to four tag sets made to satisfy or nearly satisfy it, given as a map and as a slice; the enumerated suite takes every query of one or two terms over four keys and small values against 96 tag sets. Non-trivial: a query with terms that matches, or one of several terms that does not.",
		Assumptions: []string{
			"a tag slice is ordered as in a tagged path: __name__ first, the other keys sorted and unique",
			"!= and !=~ hold when the key is absent, = and =~ do not",
			"regexps are those of Go's regexp package and unanchored",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("terms", 400000, 6000000, genTerms, runTerms),
				termsIn{"seriesByTag('a!=1','b=2')", []term{{"a", opNe, "1"}, {"b", opEq, "2"}}, [][]kv{{{"__name__", "x"}, {"b", "2"}}}}),
			eng.Enumerated("terms-small-scope", enumTerms, runTerms),
			eng.Enumerated("terms-sizes", sizedTerms, runTerms),
		},
	}
}

// normal form of a value
func normValue(op int, v string) string {
	if (op == opEq || op == opNe) && strings.ContainsAny(v, "[]{}*?") {
		g, err := glob.Parse(v)
		if err != nil {
			share.Broken("glob.Parse(%q): %v", v, err)
		}
		return g.Node
	}
	return v
}

func main() {
	eng.Main(c10(), c11(), c12(), c13(), c14())
}
