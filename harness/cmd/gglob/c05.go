package main

import (
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/share"
)

// splitting paths

type splitIn struct {
	Paths []eng.Str `json:"paths"` // split one after another into one buffer
	Cap   int       `json:"cap"`
}

func rawPath(s *eng.Src) string {
	al := append(alphabet(s), '.', '.')
	switch s.Weighted(40, 40, 20) {
	case 0:
		return gen.Word(s, al, 0, 12)
	case 1:
		n := 1 + s.Intn(6)
		pp := make([]string, n)
		for i := range pp {
			pp[i] = gen.Word(s, al[:len(al)-2], 1, 4)
		}
		p := strings.Join(pp, ".")
		if s.Prob(20) {
			p += "."
		}
		return p
	default:
		if s.Rare(20) {
			// many parts, or long ones
			n := s.Size(6, 150)
			pp := make([]string, n)
			for i := range pp {
				pp[i] = strings.Repeat(gen.Word(s, al[:len(al)-2], 1, 3), 1+s.Intn(4))
			}
			if s.Rare(6) {
				pp[s.Intn(n)] = ""
			}
			return strings.Join(pp, ".")
		}
		return gen.Word(s, []rune(".a"), 0, 8)
	}
}

func genSplit(s *eng.Src) splitIn {
	in := splitIn{Cap: s.Intn(6)}
	for n := 1 + s.Intn(4); n > 0; n-- {
		in.Paths = append(in.Paths, eng.Str(eng.Spice(s, rawPath(s))))
	}
	return in
}

func runSplit(in splitIn, o *eng.Obs) error {
	buf := make([]string, 0, in.Cap)
	for _, ep := range in.Paths {
		p := string(ep)
		var want []string
		if p != "" {
			want = pathParts(p)
		}
		o.Checks++
		got := gglob.PathSplit(p)
		if !equal(got, want) {
			return fmt.Errorf("PathSplit(%q) = %q, want %q", p, got, want)
		}
		trim := strings.TrimSuffix(p, ".")
		q, n := gglob.PathLevel(p)
		if q != trim || n != len(want) {
			return fmt.Errorf("PathLevel(%q) = %q, %d, want %q, %d", p, q, n, trim, len(want))
		}
		empty := false
		for _, w := range want {
			if w == "" {
				empty = true
			}
		}
		if h := gglob.HasEmptyParts(got); h != empty {
			return fmt.Errorf("HasEmptyParts(%q) = %v", got, h)
		}
		ok := gglob.PathSplitB(p, &buf)
		if p == "." {
			// nothing but the ignored dot
			o.Label("single dot")
			continue
		}
		if ok != (len(want) > 0 && !empty) {
			return fmt.Errorf("PathSplitB(%q) = %v with %q", p, ok, buf)
		}
		if ok && !equal(buf, want) {
			return fmt.Errorf("PathSplitB(%q) gives %q, want %q", p, buf, want)
		}
		o.LabelIf(ok, "split")
		o.LabelIf(!ok, "empty part refused")
		o.NonTrivial = o.NonTrivial || len(want) > 1
	}
	return nil
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func enumSplit(th bool, yield func(splitIn) bool) {
	n := 8
	if th {
		n = 12
	}
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		if !yield(splitIn{Paths: []eng.Str{"x.y.z", eng.Str(p)}}) {
			return false
		}
		if n == 0 {
			return true
		}
		return rec(p+".", n-1) && rec(p+"a", n-1) && (n > 5 || rec(p+"я", n-1))
	}
	rec("", n)
}

// by path and by parts

func runParts(in treeIn, o *eng.Obs) error {
	tree, reg, err := build(in, o)
	if err != nil {
		return err
	}
	var buf []string
	for _, ep := range in.Paths {
		p := string(ep)
		pp := gglob.PathSplit(p)
		if p == "" || gglob.HasEmptyParts(pp) {
			o.Label("path with an empty part")
			// such a path matches nothing when it is given whole
			if n := tree.Match(p, share.NewRec()); n != 0 {
				return fmt.Errorf("Match(%q) = %d", p, n)
			}
			continue
		}
		if !gglob.PathSplitB(p, &buf) || !equal(buf, pp) {
			return fmt.Errorf("PathSplit(%q) = %q, PathSplitB gives %q", p, pp, buf)
		}
		for _, other := range [][]string{nil, {}, pp[:len(pp)-1], append(pp[:len(pp):len(pp)], "a"), append([]string{"a"}, pp...)} {
			q := strings.Join(other, ".")
			for _, r := range reg {
				if a, b := r.g.Match(q), r.g.MatchByParts(other, 0); a != b {
					return fmt.Errorf("%q: Match(%q) = %v, MatchByParts = %v", r.raw, q, a, b)
				}
			}
			x, y := share.NewRec(), share.NewRec()
			if tree.Match(q, x) != tree.MatchByParts(other, y) || share.Diff(y.Got, x.Got) != "" {
				return fmt.Errorf("on %q: %v by path, %v by parts (globs%s)", q, x.Got, y.Got, showReg(reg))
			}
			o.Checks++
		}
		length := len(strings.TrimSuffix(p, "."))
		for _, r := range reg {
			o.Checks++
			a, b, c := r.g.Match(p), r.g.MatchByParts(pp, 0), r.g.MatchByParts(buf, length)
			if a != b || a != c {
				return fmt.Errorf("%q on %q: Match %v, MatchByParts without length %v, with length %d %v", r.raw, p, a, b, length, c)
			}
			if a {
				o.NonTrivial = true
				o.Label("match")
			} else {
				o.Label("no match")
			}
		}
		x, y := share.NewRec(), share.NewRec()
		n, m := tree.Match(p, x), tree.MatchByParts(pp, y)
		if d := share.Diff(y.Got, x.Got); d != "" || n != m {
			return fmt.Errorf("on %q: %d by path, %d by parts: %s (globs%s)", p, n, m, d, showReg(reg))
		}
		var st items.AllStore
		st.Init()
		tree.MatchByParts(pp, &st)
		if strings.Join(pp, ".") != strings.TrimSuffix(p, ".") {
			return fmt.Errorf("matching changed the parts of %q: %q", p, pp)
		}
	}
	return nil
}

func c05() *eng.Prop {
	return &eng.Prop{
		ID:   "C05",
		Rule: "A case is a list of paths split one after another (words over a small alphabet with many dots), or a set of path globs with paths matched whole, by PathSplit parts and by PathSplitB parts. Non-trivial: a path of at least two parts; for matching, a glob that matches.",
		Assumptions: []string{
			"parts given to MatchByParts hold no dot and are not empty (HasEmptyParts is there to check it)",
			"the length given to MatchByParts is 0 (unknown) or that of the path without the trailing dot",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("path-split", 400000, 6000000, genSplit, runSplit), splitIn{[]eng.Str{"a.."}, 2}, splitIn{[]eng.Str{"a.b.c", ".."}, 2}),
			eng.Enumerated("path-split-small-scope", enumSplit, runSplit),
			eng.Generated("by-parts", 200000, 3000000, genTree, runParts),
			eng.Enumerated("path-split-sizes", sizedSplit, runSplit),
			eng.Enumerated("by-parts-sizes", sizedTrees, runParts),
		},
	}
}
