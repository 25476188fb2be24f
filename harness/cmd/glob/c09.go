package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

func runBounds(in matchIn, o *eng.Obs) error {
	nodes, err := ref.ParseGlob(string(in.Glob))
	if err != nil {
		return nil
	}
	g, err := glob.Parse(string(in.Glob))
	if err != nil {
		return fmt.Errorf("Parse(%q): %v, but the glob is well formed", in.Glob, err)
	}
	lo, hi := ref.Bounds(nodes)
	o.Checks++
	if g.MinLen > lo {
		return fmt.Errorf("%q: MinLen %d, but it matches a string of %d bytes", in.Glob, g.MinLen, lo)
	}
	if g.MaxLen != -1 && (hi == -1 || g.MaxLen < hi) {
		return fmt.Errorf("%q: MaxLen %d, but it matches a string of %d bytes", in.Glob, g.MaxLen, hi)
	}
	o.LabelIf(hi == -1, "unlimited")
	o.LabelIf(hi != -1, "limited")
	o.LabelIf(g.MinLen == lo, "least length exact")
	o.LabelIf(g.MaxLen == hi, "greatest length exact")
	for _, es := range in.Strings {
		s := string(es)
		if !ref.Match(nodes, s) {
			continue
		}
		o.Checks++
		o.Label("match")
		if len(s) < g.MinLen || (g.MaxLen != -1 && len(s) > g.MaxLen) {
			return fmt.Errorf("%q matches %q of %d bytes, out of %d..%d", in.Glob, s, len(s), g.MinLen, g.MaxLen)
		}
		if !g.Match(s) {
			return fmt.Errorf("%q does not match %q (bounds %d..%d)", in.Glob, s, g.MinLen, g.MaxLen)
		}
		o.NonTrivial = g.MinLen > 0 || g.MaxLen != -1
	}
	return nil
}

func c09() *eng.Prop {
	return &eng.Prop{
		ID:   "C09",
		Rule: "A case is a well-formed glob and up to six strings sampled from it or near it, the lengths of MinLen and MaxLen being compared with the exact least and greatest length computed from the pattern. Non-trivial: a sampled string matches and a bound is not trivial.",
		Assumptions: []string{
			"bounds need to be sound, not tight",
			"lengths are bytes",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("bounds", 2000000, 30000000, genMatch, runBounds),
				matchIn{"[a]{*a}", []eng.Str{"abba"}}, matchIn{"{a,bb,ccc}[aя]?", []eng.Str{"aa世", "cccя𝒳"}}),
			eng.Enumerated("bounds-small-scope", enumGlobs, runBounds),
			eng.Enumerated("bounds-sizes", sizedGlobs, runBounds),
		},
	}
}

type randIn struct {
	Glob eng.Str `json:"glob"`
	Path bool    `json:"path,omitempty"`
	Seed int64   `json:"seed"`
	Fill int     `json:"fill,omitempty"`
}

func genRand(s *eng.Src) randIn {
	in := randIn{Seed: int64(s.Intn(1 << 30))}
	in.Path = s.Prob(25)
	if s.Prob(30) {
		in.Fill = s.Size(0, 5000)
	}
	al := gen.Alphabet(s, gen.Opt{NoDot: in.Path})
	in.Glob = eng.Str(gen.Glob(s, al, gen.Opt{NoDot: in.Path, NonEmpty: in.Path}))
	return in
}

func runRand(in randIn, o *eng.Obs) (err error) {
	nodes, perr := ref.ParseGlob(string(in.Glob))
	if perr != nil || (in.Path && in.Glob == "") {
		return nil
	}
	rand.Seed(in.Seed)
	var w interface{ WriteRandom(*strings.Builder) }
	if in.Path {
		g, err := gglob.Parse(string(in.Glob))
		if err != nil || len(g.Parts) != 1 {
			return fmt.Errorf("gglob.Parse(%q): %v", in.Glob, err)
		}
		w = g.Parts[0]
	} else {
		g, err := glob.Parse(string(in.Glob))
		if err != nil {
			return fmt.Errorf("Parse(%q): %v", in.Glob, err)
		}
		w = g
	}
	seen := map[string]bool{}
	for i := 0; i < 6; i++ {
		var b strings.Builder
		before := strings.Repeat("<>.", in.Fill/3) + "<"
		b.WriteString(before)
		w.WriteRandom(&b)
		s := b.String()
		o.Checks++
		if !strings.HasPrefix(s, before) || !ref.Match(nodes, s[len(before):]) {
			return fmt.Errorf("WriteRandom of %q wrote %q, which it does not match", in.Glob, strings.TrimPrefix(s, before))
		}
		seen[s] = true
	}
	globLabels(nodes, o, "")
	o.LabelIf(len(seen) > 1, "different strings")
	for _, n := range nodes {
		if n.K != ref.Lit {
			o.NonTrivial = true
		}
	}
	return nil
}

func c22() *eng.Prop {
	p := &eng.Prop{
		ID:   "C22",
		Rule: "A case is a well-formed glob (or a part of a path glob) and a seed of math/rand; six strings are drawn from it. Non-trivial: the glob has a wildcard.",
		Assumptions: []string{
			"every string written has to match; nothing is asked of their distribution",
		},
		Suites: []*eng.Suite{
			eng.Generated("write-random", 200000, 4000000, genRand, runRand),
			eng.Enumerated("write-random-sizes", sizedRand, runRand),
		},
	}
	p.Suites[0].Serial, p.Suites[1].Serial = true, true
	return p
}
