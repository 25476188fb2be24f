package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

// --- C24: where the wildcards of a glob are, and what globs have in common

type wildIn struct {
	Text eng.Str `json:"text"`
}

func genWild(s *eng.Src) wildIn {
	in := genWildText(s)
	return wildIn{eng.Str(eng.Spice(s, string(in.Text)))}
}

func genWildText(s *eng.Src) wildIn {
	switch s.Weighted(50, 30, 20) {
	case 0:
		return wildIn{eng.Str(gen.Word(s, []rune("ab.я[]{}*?,-"), 0, 10))}
	case 1:
		return wildIn{eng.Str(gen.Glob(s, gen.Alphabet(s, gen.Opt{}), gen.Opt{}))}
	default:
		b := make([]byte, s.Size(0, 8))
		for i := range b {
			b[i] = eng.Pick(s, []byte{'a', '*', '?', '{', ']', '}', '[', 0xff, 0xd1, 0x8f, 0, '.'})
		}
		return wildIn{eng.Str(b)}
	}
}

func runWild(in wildIn, o *eng.Obs) error {
	t := string(in.Text)
	first, last, opens := -1, -1, 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '[', '{', '*', '?':
			opens++
			fallthrough
		case ']', '}':
			if first == -1 {
				first = i
			}
			last = i
		}
	}
	for _, f := range []struct {
		pkg         string
		has         func(string) bool
		first, last func(string) int
		count       func(string) int
	}{
		{"gglob", gglob.HasWildcard, gglob.IndexWildcard, gglob.IndexLastWildcard, gglob.WildcardCount},
		{"items", items.HasWildcard, items.IndexWildcard, items.IndexLastWildcard, items.WildcardCount},
	} {
		o.Checks += 4
		if g := f.has(t); g != (first != -1) {
			return fmt.Errorf("%s.HasWildcard(%q) = %v", f.pkg, t, g)
		}
		if g := f.first(t); g != first {
			return fmt.Errorf("%s.IndexWildcard(%q) = %d, want %d", f.pkg, t, g, first)
		}
		if g := f.last(t); g != last {
			return fmt.Errorf("%s.IndexLastWildcard(%q) = %d, want %d", f.pkg, t, g, last)
		}
		if g := f.count(t); g != opens {
			return fmt.Errorf("%s.WildcardCount(%q) = %d, want %d", f.pkg, t, g, opens)
		}
	}
	o.NonTrivial = first != -1
	o.LabelIf(first == -1, "no wildcard")
	o.LabelIf(opens > 1, "several")
	return nil
}

type commonIn struct {
	Globs []eng.Str `json:"globs"`
}

func genCommon(s *eng.Src) commonIn {
	al := gen.Alphabet(s, gen.Opt{})
	base := gen.Word(s, al, 0, 6)
	var in commonIn
	for n := 1 + s.Weighted(10, 40, 30, 10, 10); n > 0; n-- {
		g := ""
		switch s.Weighted(50, 25, 25) {
		case 0:
			g = base + gen.Glob(s, al, gen.Opt{MaxElems: 2})
		case 1:
			rs := []rune(base)
			g = string(rs[:s.Intn(len(rs)+1)]) + gen.Glob(s, al, gen.Opt{MaxElems: 3})
		default:
			g = gen.Mutate(s, al, base)
		}
		if utf8.ValidString(g) && !strings.ContainsRune(g, utf8.RuneError) {
			in.Globs = append(in.Globs, eng.Str(g))
		}
	}
	return in
}

func runCommon(in commonIn, o *eng.Obs) error {
	var gs []string
	for _, g := range in.Globs {
		gs = append(gs, string(g))
	}
	want := ""
	if len(gs) > 0 {
		want = gs[0]
		for _, g := range gs {
			if i := strings.IndexAny(g, "[]{}*?"); i >= 0 {
				g = g[:i]
			}
			n := 0
			for n < len(g) && n < len(want) {
				c, l := utf8.DecodeRuneInString(g[n:])
				d, _ := utf8.DecodeRuneInString(want[n:])
				if c != d {
					break
				}
				n += l
			}
			want = want[:n]
		}
	}
	o.Checks++
	keep := append([]string(nil), gs...)
	if got := items.IntersectGlobs(gs); got != want {
		return fmt.Errorf("IntersectGlobs(%q) = %q, want %q", gs, got, want)
	}
	for i := range gs {
		if gs[i] != keep[i] {
			return fmt.Errorf("IntersectGlobs changed its argument %q to %q", keep, gs)
		}
	}
	o.NonTrivial = len(gs) > 1 && want != ""
	o.LabelIf(want == "", "nothing in common")
	o.LabelIf(want != "", "common start")
	return nil
}

func enumCommon(th bool, yield func(commonIn) bool) {
	var ws []eng.Str
	n := 3
	if th {
		n = 4
	}
	var rec func(p string, k int)
	rec = func(p string, k int) {
		ws = append(ws, eng.Str(p))
		if k > 0 {
			for _, t := range []string{"a", "b", "я", "*", "["} {
				rec(p+t, k-1)
			}
		}
	}
	rec("", n)
	for _, a := range ws {
		for _, b := range ws {
			if !yield(commonIn{[]eng.Str{a, b}}) {
				return
			}
		}
	}
}

// equality of the parts of globs

type eqIn struct {
	A eng.Str `json:"a"`
	B eng.Str `json:"b"`
}

func genEq(s *eng.Src) eqIn {
	al := gen.Alphabet(s, gen.Opt{})
	o := gen.Opt{MaxElems: 4}
	a := gen.Glob(s, al, o)
	b := a
	switch s.Weighted(20, 50, 30) {
	case 0:
	case 1:
		for i := 0; i < 4; i++ {
			x := gen.Mutate(s, al, a)
			if _, err := ref.ParseGlob(x); err == nil && utf8.ValidString(x) {
				b = x
				break
			}
		}
	default:
		b = gen.Glob(s, al, o)
	}
	return eqIn{eng.Str(a), eng.Str(b)}
}

func text(xs []items.Item) string {
	var b strings.Builder
	for _, x := range xs {
		x.WriteString(&b)
	}
	return b.String()
}

func runEq(in eqIn, o *eng.Obs) error {
	if _, err := ref.ParseGlob(string(in.A)); err != nil {
		return nil
	}
	if _, err := ref.ParseGlob(string(in.B)); err != nil {
		return nil
	}
	a, err1 := glob.Parse(string(in.A))
	a2, err2 := glob.Parse(string(in.A))
	b, err3 := glob.Parse(string(in.B))
	if err1 != nil || err2 != nil || err3 != nil {
		return nil // C07
	}
	o.Checks++
	if !items.ItemsEqual(a.Items, a2.Items) {
		return fmt.Errorf("%q parsed twice: the items are not equal", in.A)
	}
	ab, ba := items.ItemsEqual(a.Items, b.Items), items.ItemsEqual(b.Items, a.Items)
	if ab != ba {
		return fmt.Errorf("%q and %q: items equal %v, the other way %v", in.A, in.B, ab, ba)
	}
	if ab && text(a.Items) != text(b.Items) {
		return fmt.Errorf("%q and %q: items are equal, but written %q and %q", in.A, in.B, text(a.Items), text(b.Items))
	}
	same := a.Node == b.Node
	for i, x := range a.Items {
		if !x.Equal(x) {
			return fmt.Errorf("%q: item %q is not equal to itself", in.A, x.String())
		}
		for j, y := range b.Items {
			if d := i - j; len(a.Items) > 40 && (d > 2 || d < -2) {
				continue // neighbours only
			}
			xy, yx := x.Equal(y), y.Equal(x)
			o.Checks++
			if xy != yx {
				return fmt.Errorf("%q and %q: %q equal to %q is %v, the other way %v", in.A, in.B, x.String(), y.String(), xy, yx)
			}
			if xy && x.String() != y.String() {
				return fmt.Errorf("%q and %q: %q is equal to %q", in.A, in.B, x.String(), y.String())
			}
			o.LabelIf(xy, "equal")
			o.LabelIf(!xy, "different")
		}
	}
	o.NonTrivial = !same && len(a.Items) > 0 && len(b.Items) > 0
	return nil
}

func c24() *eng.Prop {
	return &eng.Prop{
		ID:   "C24",
		Rule: "A case is a text searched for wildcards, or up to five globs with or without a common start, or two globs whose items are compared pairwise; the enumerated suite takes every pair of texts of up to three symbols. Non-trivial: the text has a wildcard; the common start is not empty; the two globs differ and have items.",
		Assumptions: []string{
			"for the common start, globs are valid UTF-8 without U+FFFD",
			"closing brackets count as wildcards for the search, opening ones only for the number, as the functions have it",
			"that different spellings of the same meaning compare unequal is not judged",
		},
		Suites: []*eng.Suite{
			eng.Generated("wildcards", 1000000, 6000000, genWild, runWild),
			eng.With(eng.Generated("common-start", 800000, 6000000, genCommon, runCommon), commonIn{[]eng.Str{"ab", "ac"}}),
			eng.Enumerated("common-start-small-scope", enumCommon, runCommon),
			eng.Generated("equal", 600000, 6000000, genEq, runEq),
			eng.Enumerated("wildcards-sizes", sizedWild, runWild),
			eng.Enumerated("common-start-sizes", sizedCommon, runCommon),
			eng.Enumerated("equal-sizes", sizedEq, runEq),
		},
	}
}
