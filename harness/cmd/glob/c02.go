package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

type treeGlob struct {
	Glob   eng.Str `json:"glob"`
	Index  int     `json:"index"`
	Parsed bool    `json:"parsed,omitempty"` // registered with AddGlob
}

type treeIn struct {
	Globs   []treeGlob `json:"globs"`
	Strings []eng.Str  `json:"strings"`
}

// recStore records what the matcher reports.
type recStore struct {
	n     int
	got   map[int]string
	times map[int]int
	bad   string
}

func newRec() *recStore { return &recStore{got: map[int]string{}, times: map[int]int{}} }

func (r *recStore) Store(s string, index int) {
	r.n++
	if r.n > 20000000 {
		panic("more than 20000000 results of one match")
	}
	if old, ok := r.got[index]; ok && old != s {
		r.bad = fmt.Sprintf("index %d reported with %q and with %q", index, old, s)
	}
	r.got[index] = s
	r.times[index]++
}

func genIndexes(s *eng.Src, n int) []int {
	idx := make([]int, n)
	switch s.Weighted(60, 20, 20) {
	case 0:
		for i := range idx {
			idx[i] = i
		}
	case 1:
		for i := range idx {
			idx[i] = n - 1 - i
		}
	default:
		seen := map[int]bool{}
		for i := range idx {
			v := s.Intn(1000)
			if s.Prob(5) {
				v = 1<<40 + s.Intn(5)
			}
			for seen[v] {
				v++
			}
			seen[v] = true
			idx[i] = v
		}
	}
	return idx
}

// relatedGlobs makes globs that share prefixes, suffixes and elements.
func relatedGlobs(s *eng.Src, al []rune, o gen.Opt, n int) []string {
	var gs []string
	for len(gs) < n {
		switch {
		case len(gs) > 0 && s.Prob(25):
			// extend one
			g := eng.Pick(s, gs)
			x := gen.Glob(s, al, gen.Opt{MaxElems: 2, NonEmpty: true, Stars: 1, NoDot: o.NoDot, NoQuote: o.NoQuote})
			if s.Prob(50) {
				gs = append(gs, g+x)
			} else {
				gs = append(gs, x+g)
			}
		case len(gs) > 0 && s.Prob(12):
			gs = append(gs, gen.Twin(s, al, eng.Pick(s, gs)))
		case len(gs) > 1 && s.Prob(15):
			gs = append(gs, eng.Pick(s, gs)+eng.Pick(s, gs))
		default:
			gs = append(gs, gen.Glob(s, al, o))
		}
		if x := gs[len(gs)-1]; len(x) > 60 || strings.Count(x, "*") > 3 {
			gs[len(gs)-1] = gen.Glob(s, al, gen.Opt{MaxElems: 2, Stars: 1, NoDot: o.NoDot, NoQuote: o.NoQuote})
		}
	}
	return gs
}

func genTree(s *eng.Src) treeIn {
	n := 1 + s.Weighted(15, 20, 20, 15, 10, 8, 6, 3, 3)
	if s.Prob(3) {
		n += s.Intn(40)
	}
	return genTreeN(s, n)
}

// genBigTree makes large sets of globs.
func genBigTree(s *eng.Src) treeIn { return genTreeN(s, 30+s.Intn(270)) }

func genTreeN(s *eng.Src, n int) treeIn {
	al := gen.Alphabet(s, gen.Opt{})
	gs := relatedGlobs(s, al, gen.Opt{MaxElems: 5, Stars: 2}, n)
	idx := genIndexes(s, n)
	var in treeIn
	for i, g := range gs {
		in.Globs = append(in.Globs, treeGlob{eng.Str(g), idx[i], s.Prob(25)})
	}
	m := 1 + s.Intn(6)
	for i := 0; i < m; i++ {
		g := eng.Pick(s, gs)
		nodes, err := ref.ParseGlob(g)
		if err != nil {
			malformed(g)
		}
		x := gen.Target(s, al, nodes)
		// matching may repeat a result for every way to split the string
		// between the stars, so keep the number of ways small
		if len(x) > 30 {
			x = x[:15] + x[len(x)-15:]
		}
		in.Strings = append(in.Strings, eng.Str(x))
	}
	if s.Rare(12) {
		pad := gen.Pad(s, al)
		for i := range in.Globs {
			in.Globs[i].Glob = eng.Str(pad(string(in.Globs[i].Glob)))
		}
		for i := range in.Strings {
			if !s.Prob(5) {
				in.Strings[i] = eng.Str(pad(string(in.Strings[i])))
			}
		}
	}
	return in
}

type regGlob struct {
	index int
	norm  string
	raw   string
	nodes []ref.Node
	g     *glob.Glob
}

func runTree(in treeIn, o *eng.Obs) error {
	tree := glob.NewTree()
	var reg []regGlob
	for _, tg := range in.Globs {
		raw := string(tg.Glob)
		nodes, err := ref.ParseGlob(raw)
		if err != nil || raw == "" {
			continue
		}
		g, err := glob.Parse(raw)
		if err != nil {
			return fmt.Errorf("Parse(%q): %v, but the glob is well formed", raw, err)
		}
		var norm string
		if tg.Parsed {
			own, _ := glob.Parse(raw)
			norm, _, err = tree.AddGlob(own, tg.Index)
		} else {
			norm, _, err = tree.Add(raw, tg.Index)
		}
		if err == glob.ErrGlobExist {
			o.Label("equivalent glob already there")
			known := false
			for _, r := range reg {
				known = known || r.norm == g.Node || r.raw == raw || r.norm == raw || r.raw == g.Node
			}
			if !known {
				return fmt.Errorf("adding %q with index %d: %v, but it was not added before", raw, tg.Index, err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("adding %q with index %d: %v", raw, tg.Index, err)
		}
		reg = append(reg, regGlob{tg.Index, norm, raw, nodes, g})
	}
	some, all := false, true
	for _, str := range in.Strings {
		s := string(str)
		want := map[int]string{}
		min := -1
		for _, r := range reg {
			m := ref.Match(r.nodes, s)
			if alone := r.g.Match(s); alone != m {
				// the single matcher is wrong (C01); the tree is judged
				// against the meaning of the glob
				o.Label("single match differs from the reference")
			}
			if m {
				want[r.index] = r.norm
				if min == -1 || r.index < min {
					min = r.index
				}
			}
		}
		rec := newRec()
		n := tree.Match(s, rec)
		o.Checks++
		if rec.bad != "" {
			return fmt.Errorf("on %q: %s", s, rec.bad)
		}
		if n != rec.n {
			return fmt.Errorf("on %q: Match returned %d but reported %d results", s, n, rec.n)
		}
		if d := diffSets(rec.got, want); d != "" {
			return fmt.Errorf("on %q: %s (globs %s)", s, d, showReg(reg))
		}
		for _, r := range reg {
			if k := rec.times[r.index]; k > 1 && k > ref.Ways(r.nodes, s) {
				return fmt.Errorf("on %q: %q, which can match in %d ways, is reported %d times (globs %s)", s, r.raw, ref.Ways(r.nodes, s), k, showReg(reg))
			}
		}
		// the stores of the library hold the same answer
		st := items.NewAllStore()
		st.Init()
		ms, is, ss := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore()
		tree.Match(s, st)
		tree.Match(s, ms)
		tree.Match(s, is)
		tree.Match(s, ss)
		if ms.Min != min || st.Min.Min != min {
			return fmt.Errorf("on %q: lowest index %d (alone %d), want %d", s, st.Min.Min, ms.Min, min)
		}
		if len(is.N) != n || len(ss.S) != n || len(st.Index.N) != n || len(st.S.S) != n {
			return fmt.Errorf("on %q: stores hold %d/%d/%d/%d results, Match returned %d", s, len(is.N), len(ss.S), len(st.Index.N), len(st.S.S), n)
		}
		for i := range is.N {
			if want[is.N[i]] != ss.S[i] || want[st.Index.N[i]] != st.S.S[i] {
				return fmt.Errorf("on %q: stores disagree: %v %q", s, is.N, ss.S)
			}
		}
		if len(want) > 0 {
			some = true
		}
		if len(want) < len(reg) {
			all = false
		}
		o.LabelIf(len(want) == 0, "no glob matches")
		o.LabelIf(len(want) == 1, "one glob matches")
		o.LabelIf(len(want) > 1, "several globs match")
		o.LabelIf(n > len(want), "a glob reported more than once")
		o.LabelIf(n > 1000, "more than 1000 reports")
		o.LabelIf(n > 30000, "more than 30000 reports")
		o.LabelIf(n > 1000000, "more than 1000000 reports")
	}
	o.NonTrivial = some && len(reg) > 1 && !all
	return nil
}

func diffSets(got, want map[int]string) string {
	for i, q := range want {
		if g, ok := got[i]; !ok {
			return fmt.Sprintf("index %d (%q) matches but is not reported", i, q)
		} else if g != q {
			return fmt.Sprintf("index %d reported with query %q, registered as %q", i, g, q)
		}
	}
	for i, q := range got {
		if _, ok := want[i]; !ok {
			return fmt.Sprintf("index %d (%q) is reported but does not match", i, q)
		}
	}
	return ""
}

func showReg(reg []regGlob) string {
	sort.Slice(reg, func(i, j int) bool { return reg[i].index < reg[j].index })
	s := ""
	for _, r := range reg {
		s += fmt.Sprintf(" %d:%q", r.index, r.raw)
		if len(s) > 300 {
			return s + " ..."
		}
	}
	return s
}

// enumTrees takes every ordered pair of short globs.
func enumTrees(th bool, yield func(treeIn) bool) {
	var gs []string
	toks := []string{"a", "b", "*", "?", "[ab]", "{a,b}", "{a*,b}", "{?,ab,}"}
	add := func(m matchIn) bool { gs = append(gs, string(m.Glob)); return true }
	n := 2
	enumTokens(toks, n, nil, add)
	if th {
		enumTokens([]string{"a", "*", "?", "[ab]", "{a*b,b}", "{,ab}"}, 3, nil, add)
	}
	w := words[:63]
	if !th {
		w = words[:31]
	}
	for _, a := range gs {
		for _, b := range gs {
			if a == "" || b == "" {
				continue
			}
			if !yield(treeIn{[]treeGlob{{eng.Str(a), 0, false}, {eng.Str(b), 1, false}}, w}) {
				return
			}
		}
	}
}

func c02() *eng.Prop {
	return &eng.Prop{
		ID:   "C02",
		Rule: "A case is a set of 1 to about 50 well-formed globs that share prefixes, suffixes and elements, registered under distinct indexes (ascending, descending or scattered) with Add or AddGlob (30 to 300 in the large suite), and up to six strings derived from them; the enumerated suite takes every ordered pair of globs of up to two tokens and every short word. Non-trivial: at least two globs are registered, some string matches one and some string does not match all.",
		Assumptions: []string{
			"a result may be reported more than once (the existing tests pin such repeats), at most once for each way to read the string as the glob, a list that can be empty counting once more; answers are compared as sets and the count with the number of reports",
			"the order of the reports is not part of the contract",
		},
		Suites: []*eng.Suite{
			eng.Generated("tree", 400000, 8000000, genTree, runTree),
			eng.Generated("tree-large", 4000, 60000, genBigTree, runTree),
			eng.Enumerated("tree-pairs", enumTrees, runTree),
			eng.Enumerated("tree-sizes", sizedTrees, runTree),
		},
	}
}
