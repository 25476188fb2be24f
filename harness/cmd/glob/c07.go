package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/glob"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

var soup = []string{"[", "]", "{", "}", "*", "?", ",", "-", "a", "b", "я", ".", "世", "\xff", "z", "!", "^", "\\", "0", "\xd1", "𝒳", " "}

// genSoup makes strings of glob punctuation, damaged globs and noise.
func genSoup(s *eng.Src) matchIn {
	al := gen.Alphabet(s, gen.Opt{})
	var g string
	switch s.Weighted(40, 45, 15) {
	case 0:
		n := s.Size(0, 14)
		for i := 0; i < n; i++ {
			g += eng.Pick(s, soup)
		}
	case 1:
		g = gen.Glob(s, al, gen.Opt{})
		k := 1 + s.Intn(3)
		for i := 0; i < k; i++ {
			p := s.Intn(len(g) + 1)
			switch s.Intn(3) {
			case 0:
				if p < len(g) {
					g = g[:p] + g[p+1:]
				}
			case 1:
				g = g[:p] + eng.Pick(s, soup) + g[p:]
			default:
				q := s.Intn(len(g) + 1)
				if p < len(g) && q < len(g) {
					b := []byte(g)
					b[p], b[q] = b[q], b[p]
					g = string(b)
				}
			}
		}
	default:
		n := s.Size(0, 20)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(s.Intn(256))
		}
		g = string(b)
	}
	g = eng.Spice(s, g)
	if strings.Count(g, "*") > 4 {
		g = strings.Replace(g, "*", "?", strings.Count(g, "*")-4)
	}
	in := matchIn{Glob: eng.Str(g)}
	n := 1 + s.Intn(4)
	nodes, err := ref.ParseGlob(g)
	for i := 0; i < n; i++ {
		x := ""
		if err == nil && s.Prob(60) {
			x = gen.Target(s, al, nodes)
		} else {
			k := s.Size(0, 10)
			for j := 0; j < k; j++ {
				x += eng.Pick(s, soup)
			}
		}
		if len(x) > 40 && !s.Rare(20) {
			x = x[:40]
		}
		in.Strings = append(in.Strings, eng.Str(x))
	}
	return in
}

// plain tells if a glob is inside the domain where acceptance is specified.
func plain(g string) bool {
	return utf8.ValidString(g) && !strings.ContainsAny(g, "\x00\uFFFD")
}

// must parses with ParseMust and gives what it panics with.
func must(g string) (p *glob.Glob, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	return glob.ParseMust(g), ""
}

func runSoup(in matchIn, o *eng.Obs) error {
	g := string(in.Glob)
	_, rerr := ref.ParseGlob(g)
	p, err := glob.Parse(g)
	o.Checks++
	if plain(g) {
		if rerr == nil && err != nil {
			return fmt.Errorf("Parse(%q): %v, but the glob is well formed", g, err)
		}
		if rerr != nil && err == nil {
			return fmt.Errorf("Parse(%q) accepts a malformed glob (normalized %q)", g, p.Node)
		}
	} else {
		o.Label("not UTF-8 or with NUL")
	}
	if err != nil && err.Error() == "" {
		return fmt.Errorf("Parse(%q): an error without text", g)
	}
	if m, msg := must(g); (msg != "") != (err != nil) || (err == nil && m.Node != p.Node) {
		return fmt.Errorf("Parse(%q): %v; ParseMust panics with %q", g, err, msg)
	}
	tree := glob.NewTree()
	if _, _, e := tree.Add("other*", 7); e != nil {
		return fmt.Errorf("Add(%q): %v", "other*", e)
	}
	_, _, terr := tree.Add(g, 3)
	o.Checks++
	if g != "" && (terr == nil) != (err == nil) {
		return fmt.Errorf("Add(%q): %v, Parse: %v", g, terr, err)
	}
	if err != nil {
		o.Label("rejected")
		if _, there := tree.GlobsIndex[3]; there {
			return fmt.Errorf("Add(%q) failed (%v) but registered index 3", g, terr)
		}
	} else {
		o.Label("accepted")
	}
	for _, s := range in.Strings {
		rec := newRec()
		n := tree.Match(string(s), rec)
		o.Checks++
		if n != rec.n || rec.bad != "" {
			return fmt.Errorf("glob %q on %q: Match returned %d, reported %d: %s", g, s, n, rec.n, rec.bad)
		}
		_, there := rec.got[3]
		if err != nil {
			if there {
				return fmt.Errorf("glob %q was rejected but is reported on %q", g, s)
			}
			continue
		}
		alone := p.Match(string(s))
		if g != "" && alone != there {
			return fmt.Errorf("glob %q on %q: alone %v, in a tree %v", g, s, alone, there)
		}
	}
	o.NonTrivial = strings.ContainsAny(g, "[]{}*?")
	return nil
}

// enumSoup takes every string over the glob alphabet up to a length.
func enumSoup(th bool, yield func(matchIn) bool) {
	n := 5
	if th {
		n = 6
	}
	enumTokens([]string{"a", "b", "*", "?", "[", "]", "{", "}", ",", "-"}, n, words[:15], yield)
}

func c07() *eng.Prop {
	return &eng.Prop{
		ID:   "C07",
		Rule: "A case is an arbitrary string given as a glob (soup of glob punctuation, well-formed globs with up to three bytes deleted, inserted or swapped, random bytes) and up to four strings to match; one suite takes malformed globs around each size of a ladder (and around the constants written in the code); the enumerated suite takes every string of up to five symbols of the glob alphabet. Non-trivial: the string has glob punctuation.",
		Assumptions: []string{
			"which globs are well formed: brackets and braces are closed, classes hold no descending range and no range between symbols of different UTF-8 length, brace lists do not nest (the existing tests pin these)",
			"acceptance is not judged for globs that are not UTF-8 or hold NUL or U+FFFD; absence of panics and hangs is",
		},
		Suites: []*eng.Suite{
			eng.Generated("soup", 1000000, 20000000, genSoup, runSoup),
			eng.Enumerated("soup-small-scope", enumSoup, runSoup),
			eng.Enumerated("sizes", sizedSoup, runSoup),
		},
	}
}
