package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/share"
)

type query struct {
	Query  eng.Str `json:"query"`
	Terms  []term  `json:"terms"`
	Index  int     `json:"index"`
	Parsed bool    `json:"parsed,omitempty"` // registered with AddTerms
}

type treeIn struct {
	Queries []query `json:"queries"`
	Tags    [][]kv  `json:"tags"`
}

// relatedTerms makes queries that share terms.
func relatedTerms(s *eng.Src, al []rune, ks []string, pad func(string) string, n int) [][]term {
	var qs [][]term
	for len(qs) < n {
		if len(qs) > 0 && s.Prob(55) {
			base := append([]term(nil), eng.Pick(s, qs)...)
			t := terms(s, al, ks, pad)
			if len(t) == 0 {
				continue
			}
			switch {
			case len(base) > 0 && s.Prob(12):
				// one symbol or the operator differs
				at := s.Intn(len(base))
				if s.Prob(30) {
					base[at].Op ^= 2 // = and !=, =~ and !=~
				} else if base[at].Op == opEq || base[at].Op == opNe {
					base[at].Value = eng.Str(gen.Twin(s, al, string(base[at].Value)))
				}
			case s.Prob(40) || len(base) == 0:
				base = append(base, t[0])
			case s.Prob(50):
				base[s.Intn(len(base))] = t[0]
			default:
				at := s.Intn(len(base))
				base = append(base[:at:at], base[at+1:]...)
			}
			qs = append(qs, base)
		} else {
			qs = append(qs, terms(s, al, ks, pad))
		}
	}
	return qs
}

func genTreeN(s *eng.Src, n int) treeIn {
	al, ks := alphabet(s), keys(s)
	ks, pad := padKeys(s, al, ks)
	qs := relatedTerms(s, al, ks, pad, n)
	idx := share.Indexes(s, n)
	var in treeIn
	for i, q := range qs {
		in.Queries = append(in.Queries, query{eng.Str(render(s, q)), q, idx[i], s.Prob(30)})
	}
	for m := 1 + s.Intn(4); m > 0; m-- {
		in.Tags = append(in.Tags, tags(s, al, ks, qs))
	}
	return in
}

func genTree(s *eng.Src) treeIn {
	n := 1 + s.Weighted(12, 20, 20, 15, 12, 8, 6, 4, 3)
	if s.Prob(4) {
		n += s.Intn(30)
	}
	return genTreeN(s, n)
}

func genBigTree(s *eng.Src) treeIn { return genTreeN(s, 30+s.Intn(200)) }

type reg struct {
	index int
	norm  string
	raw   string
	ct    []cterm
}

func showReg(rs []reg) string {
	s := ""
	for _, r := range rs {
		s += fmt.Sprintf(" %d:%q", r.index, r.raw)
		if len(s) > 400 {
			return s + " ..."
		}
	}
	return s
}

func judge(tree *gtags.GTagsTree, rs []reg, set []kv, o *eng.Obs) error {
	m, sl := forms(set)
	want := map[int]string{}
	for _, r := range rs {
		if refMatch(r.ct, m) {
			want[r.index] = r.norm
		}
	}
	o.Checks++
	_, err := share.JudgeOnce(fmt.Sprintf("MatchByTagsMap(%q)", m), want, func(st items.Store) int { return tree.MatchByTagsMap(m, st) })
	if err == nil {
		_, err = share.JudgeOnce(fmt.Sprintf("MatchByTags(%q)", sl), want, func(st items.Store) int { return tree.MatchByTags(sl, st) })
	}
	if err != nil {
		return fmt.Errorf("%v (queries%s)", err, showReg(rs))
	}
	o.LabelIf(len(want) == 0, "no query matches")
	o.LabelIf(len(want) == 1, "one query matches")
	o.LabelIf(len(want) > 1, "several queries match")
	o.LabelIf(len(set) > 10, "more than 10 tags")
	if len(want) > 0 && len(want) < len(rs) {
		o.NonTrivial = true
	}
	return nil
}

func runTree(in treeIn, o *eng.Obs) error {
	tree := gtags.NewTree()
	var rs []reg
	for _, q := range in.Queries {
		if !valid(q.Terms) {
			continue
		}
		ts, err := gtags.ParseSeriesByTag(string(q.Query))
		if err != nil {
			return fmt.Errorf("ParseSeriesByTag(%q): %v", q.Query, err)
		}
		if q.Parsed && len(ts) > 0 {
			_, _, err = tree.AddTerms(ts, q.Index)
		} else {
			_, _, err = tree.Add(string(q.Query), q.Index)
		}
		if err != nil {
			o.Label("refused") // C13 judges that
			continue
		}
		o.LabelIf(len(ts) == 0, "query without terms")
		rs = append(rs, reg{q.Index, ts.String(), string(q.Query), compile(q.Terms)})
	}
	for _, set := range in.Tags {
		if err := judge(tree, rs, set, o); err != nil {
			return err
		}
	}
	return nil
}

// every ordered pair of queries of up to two terms over two keys
func enumTree(th bool, yield func(treeIn) bool) {
	var ts []term
	ks := []eng.Str{"b", "name"}
	if th {
		ks = append(ks, "Z")
	}
	for _, k := range ks {
		for op := 0; op < 4; op++ {
			ts = append(ts, term{k, op, "x"})
		}
	}
	ts = append(ts, term{"b", opEq, "x*"})
	qs := [][]term{nil}
	for i := range ts {
		qs = append(qs, []term{ts[i]})
		for j := range ts {
			if i != j {
				qs = append(qs, []term{ts[i], ts[j]})
			}
		}
	}
	var sets [][]kv
	for _, n := range []string{"-", "x", "y"} {
		for _, b := range []string{"-", "x", "y", "xx"} {
			m := map[string]string{}
			if n != "-" {
				m["__name__"] = n
			}
			if b != "-" {
				m["b"] = b
			}
			sets = append(sets, tagSet(m))
			if th {
				m["Z"] = "x"
				sets = append(sets, tagSet(m))
			}
		}
	}
	for _, a := range qs {
		for _, b := range qs {
			if !yield(treeIn{[]query{{eng.Str(render(nil, a)), a, 0, false}, {eng.Str(render(nil, b)), b, 1, false}}, sets}) {
				return
			}
		}
	}
}

func c11() *eng.Prop {
	return &eng.Prop{
		ID:   "C11",
		Rule: "A case is a set of 1 to about 40 seriesByTag queries (30 to 230 in the large suite) sharing terms over 2 to 32 keys, registered under distinct indexes with Add or AddTerms, and up to four tag sets, matched as a map and as a slice; the enumerated suite takes every ordered pair of queries of up to two terms over two keys. Non-trivial: some registered query matches and another one does not.",
		Assumptions: []string{
			"answers are compared as sets and the count with the number of reports; order is not part of the contract",
			"a tag slice is ordered as in a tagged path: __name__ first, the other keys sorted and unique",
			"AddTerms is given what ParseSeriesByTag returned",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("tag-tree", 250000, 4000000, genTree, runTree),
				treeIn{[]query{{"seriesByTag()", nil, 0, false}}, [][]kv{{{"__name__", "a"}}, nil}},
				treeIn{[]query{{"seriesByTag('a=1')", []term{{"a", opEq, "1"}}, 0, true}}, [][]kv{{{"__name__", "a"}, {"a", "1"}}}},
				treeIn{[]query{{"seriesByTag('a!=1')", []term{{"a", opNe, "1"}}, 0, false}}, [][]kv{nil}}),
			eng.Generated("tag-tree-large", 4000, 60000, genBigTree, runTree),
			eng.Enumerated("tag-tree-pairs", enumTree, runTree),
			eng.Enumerated("tag-tree-sizes", sizedTree, runTree),
		},
	}
}

// C13: registration histories

type op struct {
	Query  eng.Str `json:"query"`
	Terms  []term  `json:"terms,omitempty"`
	Bad    bool    `json:"malformed,omitempty"`
	Index  int     `json:"index"`
	Parsed bool    `json:"parsed,omitempty"`
	Probe  [][]kv  `json:"probe,omitempty"`
}

type histIn struct {
	Ops []op `json:"ops"`
}

// variant is a query that differs a little: a term more or less, or changed.
func variant(s *eng.Src, al []rune, ks []string, pad func(string) string, ts []term) []term {
	r := append([]term(nil), ts...)
	more := terms(s, al, ks, pad)
	if len(more) == 0 {
		more = []term{{"a", opEq, "b"}}
	}
	if len(r) == 0 {
		return more[:1]
	}
	k := s.Intn(len(r))
	switch s.Intn(5) {
	case 0:
		return append(r, more...)
	case 1:
		return append(r[:k], r[k+1:]...)
	case 2:
		r[k].Value = more[0].Value
		r[k].Op = more[0].Op
	case 3:
		r[k].Op ^= opNe // the negation
	default:
		r[k].Key = more[0].Key
	}
	return r
}

func genHist(s *eng.Src) histIn {
	al, ks := alphabet(s), keys(s)
	if len(ks) > 5 {
		ks = ks[:5]
	}
	ks, pad := padKeys(s, al, ks)
	var in histIn
	var seen [][]term
	var raws []string
	var idx []int
	n := 1 + s.Size(1, 12)
	long := s.Rare(8)
	for i := 0; i < n; i++ {
		if s.Prob(15) {
			in.Ops = append(in.Ops, op{Probe: [][]kv{tags(s, al, ks, seen)}})
			continue
		}
		var p op
		w := s.Weighted(44, 13, 18, 3, 10, 12)
		switch {
		case w == 5 && len(seen) > 0:
			p.Terms = variant(s, al, ks, pad, eng.Pick(s, seen))
			p.Query = eng.Str(render(s, p.Terms))
		case w == 1 && len(raws) > 0:
			k := s.Intn(len(raws))
			p.Query, p.Terms = eng.Str(raws[k]), seen[k]
		case w == 2 && len(seen) > 0:
			// the same terms in another order and spelling
			q := eng.Pick(s, seen)
			pm := s.Perm(len(q))
			t := make([]term, len(q))
			for a, b := range pm {
				t[a] = q[b]
			}
			p.Query, p.Terms = eng.Str(render(s, t)), t
		case w == 3:
			p.Query = ""
		case w == 4:
			p.Bad = true
			p.Query = eng.Str(eng.Pick(s, badQueries))
		default:
			p.Terms = terms(s, al, ks, pad)
			if len(p.Terms) > 4 && !long {
				p.Terms = p.Terms[:4]
			}
			p.Query = eng.Str(render(s, p.Terms))
		}
		p.Parsed = !p.Bad && s.Prob(35)
		switch w := s.Weighted(70, 15, 8, 7); {
		case w == 1 && len(idx) > 0:
			p.Index = eng.Pick(s, idx)
		case w == 2:
			p.Index = share.NegIndex(s)
		case w == 3:
			p.Index = s.Intn(1 << 20)
			if s.Prob(30) {
				p.Index = share.BigIndex(s)
			}
		default:
			p.Index = i
		}
		idx = append(idx, p.Index)
		if !p.Bad && p.Query != "" {
			seen = append(seen, p.Terms)
			raws = append(raws, string(p.Query))
		}
		in.Ops = append(in.Ops, p)
	}
	var p op
	for k := 1 + s.Intn(3); k > 0; k-- {
		p.Probe = append(p.Probe, tags(s, al, ks, seen))
	}
	in.Ops = append(in.Ops, p)
	return in
}

func copySI(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func copyIS(m map[int]string) map[int]string {
	r := map[int]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func runHist(in histIn, o *eng.Obs) error {
	tree := gtags.NewTree()
	var rs []reg
	byNorm := map[string]int{}
	byText := map[string]map[int]bool{}
	byIndex := map[int]string{}
	refused := 0
	for i, p := range in.Ops {
		if p.Probe != nil {
			for _, set := range p.Probe {
				if err := judge(tree, rs, set, o); err != nil {
					return fmt.Errorf("op %d: %v", i, err)
				}
			}
			continue
		}
		if !p.Bad && !valid(p.Terms) {
			continue
		}
		raw := string(p.Query)
		ts, perr := gtags.ParseSeriesByTag(raw)
		if raw != "" && (perr != nil) != p.Bad {
			return fmt.Errorf("op %d: ParseSeriesByTag(%q): %v", i, raw, perr)
		}
		norm := ""
		if perr == nil {
			norm = ts.String()
		}
		beforeQ, beforeI := copySI(tree.Queries), copyIS(tree.QueryIndex)
		var gn string
		var n int
		var err error
		var where string
		parsed := p.Parsed && raw != ""
		if parsed {
			where = fmt.Sprintf("op %d AddTerms(%s, %d)", i, norm, p.Index)
			gn, n, err = tree.AddTerms(ts, p.Index)
		} else {
			where = fmt.Sprintf("op %d Add(%q, %d)", i, raw, p.Index)
			gn, n, err = tree.Add(raw, p.Index)
		}
		o.Checks++
		must, mustBe := 0, false
		if perr == nil {
			must, mustBe = byNorm[norm]
		}
		_, dup := byIndex[p.Index]
		accept := false
		switch {
		case raw == "" || parsed && len(ts) == 0:
			o.Label("nothing to add")
			if err != nil || gn != "" {
				return fmt.Errorf("%s = %q, %d, %v: nothing to add", where, gn, n, err)
			}
		case p.Index < 0:
			o.Label("negative index")
			if !errors.Is(err, glob.ErrIndexInvalid) {
				return fmt.Errorf("%s = %q, %d, %v, want %v", where, gn, n, err, glob.ErrIndexInvalid)
			}
		case err == nil:
			if perr != nil || mustBe || dup {
				return fmt.Errorf("%s is accepted (malformed %v, known %v, index taken %v)", where, perr, mustBe, dup)
			}
			accept = true
		case errors.Is(err, glob.ErrGlobExist):
			o.Label("known query")
			if !(mustBe && n == must) && !(perr == nil && (byText[raw][n] || byText[norm][n])) {
				return fmt.Errorf("%s = %q, %d, %v (known: %v as %d)", where, gn, n, err, mustBe, must)
			}
		case errors.Is(err, glob.ErrIndexDup):
			o.Label("index taken")
			if !dup {
				return fmt.Errorf("%s = %v, but the index is free", where, err)
			}
			if gn != byIndex[p.Index] {
				return fmt.Errorf("%s = %q, %v, but the index holds %q", where, gn, err, byIndex[p.Index])
			}
		default:
			o.Label("malformed query")
			if perr == nil {
				return fmt.Errorf("%s = %v, but the query parses", where, err)
			}
		}
		if accept {
			o.Label("added")
			o.LabelIf(parsed, "added parsed")
			if gn != norm || n != p.Index {
				return fmt.Errorf("%s = %q, %d, want %q, %d", where, gn, n, norm, p.Index)
			}
			rs = append(rs, reg{p.Index, norm, raw, compile(p.Terms)})
			byNorm[norm] = p.Index
			byIndex[p.Index] = norm
			for _, x := range []string{raw, norm} {
				if byText[x] == nil {
					byText[x] = map[int]bool{}
				}
				byText[x][p.Index] = true
			}
		} else {
			refused++
			if !reflect.DeepEqual(copySI(tree.Queries), beforeQ) || !reflect.DeepEqual(copyIS(tree.QueryIndex), beforeI) {
				return fmt.Errorf("%s was refused (%v) but changed the tree: %v to %v, %v to %v", where, err, beforeQ, tree.Queries, beforeI, tree.QueryIndex)
			}
		}
		if !reflect.DeepEqual(copyIS(tree.QueryIndex), byIndex) {
			return fmt.Errorf("%s: QueryIndex is %v, want %v", where, tree.QueryIndex, byIndex)
		}
		for _, r := range rs {
			if x, ok := tree.Queries[r.norm]; !ok || x != r.index {
				return fmt.Errorf("%s: Queries[%q] is %d, %v, want %d", where, r.norm, x, ok, r.index)
			}
		}
		for g, x := range tree.Queries {
			if !byText[g][x] {
				return fmt.Errorf("%s: Queries holds %q as %d", where, g, x)
			}
		}
	}
	o.NonTrivial = len(rs) > 1 && refused > 0
	return nil
}

// every history of three operations over a few queries and indexes
func enumHist(th bool, yield func(histIn) bool) {
	a := []term{{"a", opEq, "1"}, {"name", opNe, "x"}}
	b := []term{{"name", opNe, "x"}, {"a", opEq, "1"}}
	c := []term{{"a", opEq, "1*"}}
	qs := []op{
		{Query: eng.Str(render(nil, a)), Terms: a}, {Query: eng.Str(render(nil, b)), Terms: b}, {Query: eng.Str(render(nil, c)), Terms: c},
		{Query: "seriesByTag()"}, {Query: ""}, {Query: "seriesByTag('a')", Bad: true},
	}
	var ops []op
	for _, q := range qs {
		for _, x := range []int{0, 1, -1} {
			p := q
			p.Index = x
			ops = append(ops, p)
			if !q.Bad && q.Query != "" {
				p.Parsed = true
				ops = append(ops, p)
			}
		}
	}
	probe := op{Probe: [][]kv{{{"__name__", "x"}, {"a", "1"}}, {{"__name__", "y"}, {"a", "1"}}, {{"__name__", "y"}}}}
	n := 3
	if th {
		n = 4
	}
	var rec func(h []op, n int) bool
	rec = func(h []op, n int) bool {
		if n == 0 {
			return yield(histIn{append(append([]op(nil), h...), probe)})
		}
		for _, p := range ops {
			if !rec(append(h, p), n-1) {
				return false
			}
		}
		return true
	}
	rec(nil, n)
}

func c13() *eng.Prop {
	return &eng.Prop{
		ID:   "C13",
		Rule: "A case is a history of up to 13 operations on a GTagsTree: Add and AddTerms with fresh, repeated, slightly changed or longer, reordered or respelled, malformed and empty queries, fresh, taken and negative indexes, and matching in between; the enumerated suite takes every history of three (thorough: four) operations over six queries and the indexes 0, 1 and -1. Non-trivial: at least two queries were added and an operation was refused.",
		Assumptions: []string{
			"two queries are the same when they normalize to the same text; the normal form itself is judged by C12",
			"when both a known query and a taken index apply, either error is right",
			"AddTerms without terms is ignored, as an empty query is",
		},
		Suites: []*eng.Suite{
			eng.Generated("tag-tree-history", 250000, 4000000, genHist, runHist),
			eng.Enumerated("tag-tree-history-small-scope", enumHist, runHist),
			eng.Enumerated("tag-tree-history-sizes", sizedHist, runHist),
		},
	}
}
