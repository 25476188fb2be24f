package main

import (
	"fmt"
	"os"

	"github.com/msaf1980/go-matcher/glob"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

type matchIn struct {
	Glob    eng.Str   `json:"glob"`
	Strings []eng.Str `json:"strings"`
}

func genMatch(s *eng.Src) matchIn {
	al := gen.Alphabet(s, gen.Opt{})
	g := gen.Glob(s, al, gen.Opt{})
	nodes, err := ref.ParseGlob(g)
	if err != nil {
		malformed(g)
	}
	n := 1 + s.Intn(6)
	in := matchIn{Glob: eng.Str(g)}
	for i := 0; i < n; i++ {
		in.Strings = append(in.Strings, eng.Str(gen.Target(s, al, nodes)))
	}
	return in
}

func malformed(g string) {
	fmt.Fprintf(os.Stderr, "harness: generated a malformed glob %q\n", g)
	os.Exit(4)
}

func globLabels(nodes []ref.Node, o *eng.Obs, pre string) {
	for _, n := range nodes {
		switch n.K {
		case ref.Lit:
			o.Label(pre + "literal")
		case ref.One:
			o.Label(pre + "one")
		case ref.Star:
			o.Label(pre + "star")
		case ref.Class:
			o.Label(pre + "class")
		case ref.Alt:
			o.Label(pre + "list")
			if pre == "" {
				for _, a := range n.Alts {
					if len(a) == 0 {
						o.Label("list:empty-value")
					}
					globLabels(a, o, "list:")
				}
			}
		}
	}
}

func runMatch(in matchIn, o *eng.Obs) error {
	nodes, err := ref.ParseGlob(string(in.Glob))
	if err != nil {
		return nil
	}
	g, err := glob.Parse(string(in.Glob))
	if err != nil {
		return fmt.Errorf("Parse(%q): %v, but the glob is well formed", in.Glob, err)
	}
	globLabels(nodes, o, "")
	var yes, no bool
	for i, s := range in.Strings {
		want := ref.Match(nodes, string(s))
		if i == 0 && len(in.Glob)%8 == 0 {
			if ref.Regexp(nodes).MatchString(string(s)) != want {
				fmt.Fprintf(os.Stderr, "harness: reference and regexp disagree on %q %q\n", in.Glob, s)
				os.Exit(4)
			}
			o.Label("reference confirmed by regexp")
		}
		got := g.Match(string(s))
		o.Checks++
		if got != want {
			return fmt.Errorf("glob %q on %q: Match = %v, want %v (normalized %q, min %d, max %d)", in.Glob, s, got, want, g.Node, g.MinLen, g.MaxLen)
		}
		if want {
			yes = true
			o.Label("match")
		} else {
			no = true
			o.Label("no match")
		}
	}
	wild := false
	for _, n := range nodes {
		if n.K != ref.Lit {
			wild = true
		}
	}
	o.NonTrivial = wild && (yes || no)
	return nil
}

func main() {
	eng.Main(c01(), c02(), c07(), c08(), c09(), c22())
}
