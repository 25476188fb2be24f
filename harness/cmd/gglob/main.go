package main

import (
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
	"verifharness/share"
)

// path globs

func parseParts(g string) ([][]ref.Node, error) {
	if strings.HasSuffix(g, ".") {
		g = g[:len(g)-1]
	}
	if g == "" {
		return nil, nil
	}
	var r [][]ref.Node
	for _, p := range strings.Split(g, ".") {
		if p == "" {
			return nil, ref.ErrGlob
		}
		n, err := ref.ParseGlob(p)
		if err != nil {
			return nil, err
		}
		r = append(r, n)
	}
	return r, nil
}

func pathParts(path string) []string {
	if strings.HasSuffix(path, ".") {
		path = path[:len(path)-1]
	}
	return strings.Split(path, ".")
}

func refMatch(parts [][]ref.Node, path string) bool {
	if path == "" || len(parts) == 0 {
		return false
	}
	pp := pathParts(path)
	if len(pp) != len(parts) {
		return false
	}
	for i, p := range pp {
		if p == "" || !ref.Match(parts[i], p) {
			return false
		}
	}
	return true
}

func noEmpty(pp []string) bool {
	for _, p := range pp {
		if p == "" {
			return false
		}
	}
	return len(pp) > 0
}

// plain is a word without symbols special in a path glob.
func part(s *eng.Src, al []rune, stars int) string {
	var g string
	switch s.Weighted(45, 20, 35) {
	case 0:
		g = gen.Word(s, al, 1, 3)
	case 1:
		g = "*"
	default:
		g = gen.Glob(s, al, gen.Opt{NoDot: true, NonEmpty: true, MaxElems: 4, Stars: stars})
	}
	if len(g) > 40 && !s.Prob(30) {
		g = "a*"
	}
	return g
}

func pathGlob(s *eng.Src, al []rune, stars int) string {
	n := 1 + s.Weighted(20, 30, 25, 15, 6, 4)
	if s.Prob(2) {
		n += s.Intn(20)
	}
	ps := make([]string, n)
	for i := range ps {
		ps[i] = part(s, al, stars)
	}
	return strings.Join(ps, ".")
}

func pathTarget(s *eng.Src, al []rune, parts [][]ref.Node) string {
	pp := make([]string, len(parts))
	for i, n := range parts {
		if s.Prob(12) {
			pp[i] = gen.Target(s, al, n)
		} else {
			pp[i] = gen.Sample(s, al, n, 0)
		}
		pp[i] = strings.ReplaceAll(pp[i], ".", "_")
		if pp[i] == "" && !s.Prob(5) {
			pp[i] = string(eng.Pick(s, al))
		}
	}
	if s.Prob(20) && len(pp) > 0 {
		at := s.Intn(len(pp))
		switch s.Intn(6) {
		case 0:
			pp = append(pp[:at:at], pp[at+1:]...)
		case 1:
			pp = append(pp[:at:at], append([]string{eng.Pick(s, pp)}, pp[at:]...)...)
		case 2:
			pp = append(pp, gen.Word(s, al, 1, 2))
		case 3:
			pp[at] = ""
		case 4:
			b := s.Intn(len(pp))
			pp[at], pp[b] = pp[b], pp[at]
		default:
			pp[at] = gen.Word(s, al, 1, 3)
		}
	}
	p := strings.Join(pp, ".")
	if s.Prob(6) {
		p += eng.Pick(s, []string{".", "..", "...", ".a"})
	}
	if s.Prob(2) {
		p = eng.Pick(s, []string{".", "..", "a."}) + p
	}
	return p
}

type gIn struct {
	Glob  eng.Str   `json:"glob"`
	Paths []eng.Str `json:"paths"`
}

func alphabet(s *eng.Src) []rune { return gen.Alphabet(s, gen.Opt{NoDot: true}) }

func genG(s *eng.Src) gIn {
	al := alphabet(s)
	g := pathGlob(s, al, 3)
	if s.Prob(5) {
		g += "."
	}
	parts, err := parseParts(g)
	if err != nil {
		share.Broken("generated a malformed path glob %q", g)
	}
	in := gIn{Glob: eng.Str(g)}
	for n := 1 + s.Intn(5); n > 0; n-- {
		in.Paths = append(in.Paths, eng.Str(pathTarget(s, al, parts)))
	}
	return in
}

func runG(in gIn, o *eng.Obs) error {
	parts, err := parseParts(string(in.Glob))
	if err != nil || len(parts) == 0 {
		return nil
	}
	g, err := gglob.Parse(string(in.Glob))
	if err != nil {
		return fmt.Errorf("Parse(%q): %v, but the glob is well formed", in.Glob, err)
	}
	var n *gglob.GGlob
	reparse := true
	for _, p := range g.Parts {
		if p.Node == "" {
			reparse = false // a part which is an empty class or list only
		}
	}
	if reparse {
		if n, err = gglob.Parse(g.Node); err != nil {
			return fmt.Errorf("%q normalizes to %q which does not parse: %v", in.Glob, g.Node, err)
		}
	}
	if len(parts) > 6 {
		o.Label("parts:7 or more")
	} else {
		o.Label(fmt.Sprintf("parts:%d", len(parts)))
	}
	for _, ep := range in.Paths {
		p := string(ep)
		want := refMatch(parts, p)
		o.Checks++
		if got := g.Match(p); got != want {
			return fmt.Errorf("%q on %q: Match = %v, want %v (normalized %q, min %d, max %d)", in.Glob, p, got, want, g.Node, g.MinLen, g.MaxLen)
		}
		if n != nil {
			if got := n.Match(p); got != want {
				return fmt.Errorf("%q normalizes to %q: Match on %q = %v, want %v", in.Glob, g.Node, p, got, want)
			}
		}
		pp := pathParts(p)
		if want {
			o.Label("match")
		} else {
			o.Label("no match")
			o.LabelIf(len(pp) != len(parts), "no match: number of parts")
			o.LabelIf(len(pp) == len(parts) && !noEmpty(pp), "no match: empty part")
		}
		o.LabelIf(strings.HasSuffix(p, "."), "trailing dot")
		if len(parts) > 1 && strings.ContainsAny(string(in.Glob), "*?[{") {
			o.NonTrivial = o.NonTrivial || want || len(pp) == len(parts)
		}
	}
	return nil
}

// rejection of malformed path globs

type badIn struct {
	Glob eng.Str `json:"glob"`
	Path eng.Str `json:"path"`
}

func genBad(s *eng.Src) badIn {
	al := alphabet(s)
	g := []rune(pathGlob(s, al, 2))
	for k := 1 + s.Intn(3); k > 0; k-- {
		p := s.Intn(len(g) + 1)
		if s.Prob(40) && p < len(g) {
			g = append(g[:p:p], g[p+1:]...)
		} else {
			g = append(g[:p:p], append([]rune{eng.Pick(s, []rune("..{}[],-*?a"))}, g[p:]...)...)
		}
	}
	return badIn{eng.Str(eng.Spice(s, string(g))), eng.Str(gen.Word(s, append(al, '.'), 0, 8))}
}

// doubtful globs: their reading is not settled by the documentation.
func doubtful(g string) bool {
	return strings.Contains(g, "-") || strings.Contains(g, "[!") || strings.Contains(g, "[^") || strings.Contains(g, "[,") || strings.ContainsRune(g, 0xFFFD)
}

// must parses with ParseMust and gives what it panics with.
func must(g string) (p *gglob.GGlob, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	return gglob.ParseMust(g), ""
}

func runBad(in badIn, o *eng.Obs) error {
	g := string(in.Glob)
	parts, want := parseParts(g)
	gg, err := gglob.Parse(g)
	o.Checks++
	tree := gglob.NewTree()
	if err != nil && err.Error() == "" {
		return fmt.Errorf("Parse(%q): an error without text", g)
	}
	if m, msg := must(g); (msg != "") != (err != nil) || (err == nil && m.Node != gg.Node) {
		return fmt.Errorf("Parse(%q): %v; ParseMust panics with %q", g, err, msg)
	}
	norm, _, terr := tree.Add(g, 0)
	_ = tree.Match(string(in.Path), share.NewRec())
	if (terr != nil) != (err != nil) {
		return fmt.Errorf("%q: Parse: %v, GGlobTree.Add: %v", g, err, terr)
	}
	if err == nil {
		got := gg.Match(string(in.Path))
		if want == nil && !doubtful(g) && got != refMatch(parts, string(in.Path)) {
			return fmt.Errorf("%q on %q: Match = %v", g, in.Path, got)
		}
		if norm != gg.Node && g != "" {
			return fmt.Errorf("%q: normalized as %q by Parse, as %q by GGlobTree.Add", g, gg.Node, norm)
		}
	}
	if doubtful(g) {
		o.Label("no panic only")
		return nil
	}
	if want != nil && err == nil {
		return fmt.Errorf("malformed %q is accepted as %q", g, gg.Node)
	}
	if want == nil && err != nil {
		return fmt.Errorf("well formed %q is rejected: %v", g, err)
	}
	if want != nil {
		o.Label("rejected")
		if len(tree.Globs) != 0 || len(tree.GlobsIndex) != 0 {
			return fmt.Errorf("rejected %q left %v %v in the tree", g, tree.Globs, tree.GlobsIndex)
		}
		o.NonTrivial = true
	} else {
		o.Label("accepted")
	}
	o.LabelIf(strings.Contains(g, ".."), "empty part")
	return nil
}

func enumBad(th bool, yield func(badIn) bool) {
	toks := []string{".", "a", "*", "{", "}", "[", "]", ","}
	n := 5
	if th {
		n = 7
	}
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		if !yield(badIn{eng.Str(p), "a.a"}) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, t := range toks {
			if !rec(p+t, n-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

// path globs and paths of a small scope
func enumG(th bool, yield func(gIn) bool) {
	pg := []string{"a", "b", "ab", "*", "?", "a*", "[ab]", "{a,ab}", "{,a}", "a?", "*b"}
	pw := []string{"a", "b", "ab", "", "aba"}
	n := 2
	if th {
		n = 3
	}
	var paths []eng.Str
	var words func(p string, n int)
	words = func(p string, n int) {
		for _, w := range pw {
			q := w
			if p != "." {
				q = p + "." + w
			}
			paths = append(paths, eng.Str(q), eng.Str(q+"."))
			if n > 1 {
				words(q, n-1)
			}
		}
	}
	words(".", n+1)
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		for _, t := range pg {
			q := t
			if p != "" {
				q = p + "." + t
			}
			if !yield(gIn{eng.Str(q), paths}) {
				return false
			}
			if n > 1 && !rec(q, n-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

func c03() *eng.Prop {
	return &eng.Prop{
		ID:   "C03",
		Rule: "A case is a path glob of 1 to about 25 parts and up to five paths sampled from it or near it (a part changed, added, dropped, emptied or swapped, trailing and doubled dots), or a damaged path glob to be rejected. Non-trivial: more than one part, a wildcard, and a path of the same number of parts; for the rejection suites: the glob is malformed.",
		Assumptions: []string{
			"one trailing dot of a path or a path glob is ignored (PathLevel)",
			"an empty part of a path never matches",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("path-match", 800000, 15000000, genG, runG),
				gIn{"a.b", []eng.Str{"a.b", "a.b.", "a", "ab", "a.bc", "a..b"}},
				gIn{"a.{b,cc}.d", []eng.Str{"a.cc.d", "a.b.d"}}),
			eng.Enumerated("path-match-small-scope", enumG, runG),
			eng.Enumerated("path-match-sizes", sizedG, runG),
			eng.With(eng.Generated("path-reject", 400000, 6000000, genBad, runBad), badIn{"a..", "a"}, badIn{"..", "a"}, badIn{".", "a"}),
			eng.Enumerated("path-reject-small-scope", enumBad, runBad),
			eng.Enumerated("path-reject-sizes", sizedBad, runBad),
		},
	}
}

// the tree

type treeGlob struct {
	Glob   eng.Str `json:"glob"`
	Index  int     `json:"index"`
	Parsed bool    `json:"parsed,omitempty"` // registered with AddGlob
}

type treeIn struct {
	Globs []treeGlob `json:"globs"`
	Paths []eng.Str  `json:"paths"`
}

func relatedPaths(s *eng.Src, al []rune, n int) []string {
	var gs []string
	for len(gs) < n {
		switch {
		case len(gs) > 0 && s.Prob(55):
			// change, add or drop a part of one
			pp := strings.Split(eng.Pick(s, gs), ".")
			at := s.Intn(len(pp))
			switch s.Weighted(45, 20, 15, 10, 10) {
			case 4:
				pp[at] = gen.Twin(s, al, pp[at])
			case 0:
				pp[at] = part(s, al, 2)
			case 1:
				pp = append(pp[:at:at], append([]string{part(s, al, 2)}, pp[at:]...)...)
			case 2:
				if len(pp) > 1 {
					pp = append(pp[:at:at], pp[at+1:]...)
				}
			default:
				pp[at] = eng.Pick(s, strings.Split(eng.Pick(s, gs), "."))
			}
			gs = append(gs, strings.Join(pp, "."))
		default:
			gs = append(gs, pathGlob(s, al, 2))
		}
	}
	return gs
}

func genTreeN(s *eng.Src, n int) treeIn {
	al := alphabet(s)
	gs := relatedPaths(s, al, n)
	idx := share.Indexes(s, n)
	var in treeIn
	for i, g := range gs {
		if s.Prob(3) {
			g += "."
		}
		in.Globs = append(in.Globs, treeGlob{eng.Str(g), idx[i], s.Prob(30)})
	}
	for m := 1 + s.Intn(6); m > 0; m-- {
		g := eng.Pick(s, gs)
		parts, err := parseParts(g)
		if err != nil {
			share.Broken("generated a malformed path glob %q", g)
		}
		in.Paths = append(in.Paths, eng.Str(pathTarget(s, al, parts)))
	}
	if s.Rare(12) {
		pad := gen.Pad(s, al)
		for i := range in.Globs {
			in.Globs[i].Glob = eng.Str(gen.PadParts(pad, string(in.Globs[i].Glob)))
		}
		for i := range in.Paths {
			if !s.Prob(5) {
				in.Paths[i] = eng.Str(gen.PadParts(pad, string(in.Paths[i])))
			}
		}
	}
	return in
}

func genTree(s *eng.Src) treeIn {
	n := 1 + s.Weighted(15, 20, 20, 15, 10, 8, 6, 3, 3)
	if s.Prob(3) {
		n += s.Intn(40)
	}
	return genTreeN(s, n)
}

func genBigTree(s *eng.Src) treeIn { return genTreeN(s, 40+s.Intn(260)) }

type regGlob struct {
	index int
	norm  string
	raw   string
	parts [][]ref.Node
	g     *gglob.GGlob
}

func build(in treeIn, o *eng.Obs) (*gglob.GGlobTree, []regGlob, error) {
	tree := gglob.NewTree()
	var reg []regGlob
	for _, tg := range in.Globs {
		raw := string(tg.Glob)
		parts, err := parseParts(raw)
		if err != nil || len(parts) == 0 {
			continue
		}
		g, err := gglob.Parse(raw)
		if err != nil {
			return nil, nil, fmt.Errorf("Parse(%q): %v, but the glob is well formed", raw, err)
		}
		if tg.Parsed {
			own, _ := gglob.Parse(raw)
			_, _, err = tree.AddGlob(own, tg.Index)
		} else {
			_, _, err = tree.Add(raw, tg.Index)
		}
		if err != nil {
			// refused as already there; C06 judges that
			o.Label("refused")
			continue
		}
		reg = append(reg, regGlob{tg.Index, g.Node, raw, parts, g})
	}
	return tree, reg, nil
}

func runTree(in treeIn, o *eng.Obs) error {
	tree, reg, err := build(in, o)
	if err != nil {
		return err
	}
	some, all := false, true
	for _, ep := range in.Paths {
		p := string(ep)
		want := map[int]string{}
		for _, r := range reg {
			if refMatch(r.parts, p) {
				want[r.index] = r.norm
			}
		}
		o.Checks++
		_, err := share.JudgeOnce(fmt.Sprintf("Match(%q)", p), want, func(st items.Store) int { return tree.Match(p, st) })
		if err == nil && noEmpty(pathParts(p)) {
			_, err = share.JudgeOnce(fmt.Sprintf("MatchByParts(%q)", pathParts(p)), want, func(st items.Store) int { return tree.MatchByParts(pathParts(p), st) })
		}
		if err != nil {
			return fmt.Errorf("%v (globs%s)", err, showReg(reg))
		}
		if len(want) > 0 {
			some = true
		}
		if len(want) < len(reg) {
			all = false
		}
		o.LabelIf(len(want) == 0, "no glob matches")
		o.LabelIf(len(want) == 1, "one glob matches")
		o.LabelIf(len(want) > 1, "several globs match")
	}
	o.NonTrivial = some && len(reg) > 1 && !all
	return nil
}

func showReg(reg []regGlob) string {
	s := ""
	for _, r := range reg {
		s += fmt.Sprintf(" %d:%q", r.index, r.raw)
		if len(s) > 300 {
			return s + " ..."
		}
	}
	return s
}

func enumTrees(th bool, yield func(treeIn) bool) {
	pg := []string{"a", "b", "*", "a*", "[ab]", "{a,b}"}
	var gs []string
	for _, a := range pg {
		gs = append(gs, a)
		for _, b := range pg {
			gs = append(gs, a+"."+b)
		}
	}
	if th {
		for _, a := range pg {
			for _, b := range pg {
				for _, c := range pg[:4] {
					gs = append(gs, a+"."+b+"."+c)
				}
			}
		}
	}
	var paths []eng.Str
	pw := []string{"a", "b", "ab"}
	for _, a := range pw {
		paths = append(paths, eng.Str(a))
		for _, b := range pw {
			paths = append(paths, eng.Str(a+"."+b))
			if th {
				paths = append(paths, eng.Str(a+"."+b+".a"), eng.Str(a+"."+b+".ab"))
			}
		}
	}
	paths = append(paths, "a.", "a..", "a..b", ".a", "a.b.")
	for _, a := range gs {
		for _, b := range gs {
			if !yield(treeIn{[]treeGlob{{eng.Str(a), 0, false}, {eng.Str(b), 1, false}}, paths}) {
				return
			}
		}
	}
}

func c04() *eng.Prop {
	return &eng.Prop{
		ID:   "C04",
		Rule: "A case is a set of 1 to about 50 path globs (40 to 300 in the large suite) sharing parts, registered under distinct indexes with Add or AddGlob, and up to six paths near them; the enumerated suite takes every ordered pair of path globs of up to two parts. Non-trivial: at least two globs are registered, some path matches one and some path does not match all.",
		Assumptions: []string{
			"answers are compared as sets and the count with the number of reports; order is not part of the contract",
		},
		Suites: []*eng.Suite{
			eng.Generated("path-tree", 250000, 4000000, genTree, runTree),
			eng.Generated("path-tree-large", 4000, 60000, genBigTree, runTree),
			eng.Enumerated("path-tree-pairs", enumTrees, runTree),
			eng.Enumerated("path-tree-sizes", sizedTrees, runTree),
		},
	}
}

func main() {
	eng.Main(c03(), c04(), c05())
}
