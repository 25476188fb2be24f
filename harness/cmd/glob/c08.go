package main

import (
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/glob"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

type normIn struct {
	Glob    eng.Str   `json:"glob"`
	Other   eng.Str   `json:"other,omitempty"` // an equivalent spelling
	Rules   []string  `json:"rules,omitempty"`
	Same    bool      `json:"same_normal_form,omitempty"`
	Strings []eng.Str `json:"strings"`
}

// piece is one element of a glob being rewritten.
type piece struct {
	kind byte // l, *, ?, [, {
	lit  string
	vals []string
}

func splitGlob(g string) []piece {
	var ps []piece
	for g != "" {
		switch g[0] {
		case '*', '?':
			ps = append(ps, piece{kind: g[0], lit: g[:1]})
			g = g[1:]
		case '[':
			e := strings.IndexByte(g, ']')
			ps = append(ps, piece{kind: '[', lit: g[1:e]})
			g = g[e+1:]
		case '{':
			e := strings.IndexByte(g, '}')
			ps = append(ps, piece{kind: '{', vals: strings.Split(g[1:e], ",")})
			g = g[e+1:]
		default:
			e := strings.IndexAny(g, "[]{}*?")
			if e < 0 {
				e = len(g)
			}
			ps = append(ps, piece{kind: 'l', lit: g[:e]})
			g = g[e:]
		}
	}
	return ps
}

func joinGlob(ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		switch p.kind {
		case '[':
			b.WriteString("[" + p.lit + "]")
		case '{':
			b.WriteString("{" + strings.Join(p.vals, ",") + "}")
		default:
			b.WriteString(p.lit)
		}
	}
	return b.String()
}

// classItems splits a class body without stray dashes into members.
func classItems(body string) []string {
	var r []string
	rs := []rune(strings.Trim(body, "-"))
	for i := 0; i < len(rs); i++ {
		if i+2 < len(rs) && rs[i+1] == '-' {
			r = append(r, string(rs[i:i+3]))
			i += 2
		} else {
			r = append(r, string(rs[i:i+1]))
		}
	}
	return r
}

func rewrite(s *eng.Src, g string) (string, []string, bool) {
	ps := splitGlob(g)
	var rules []string
	same := true
	k := 1 + s.Intn(3)
	for i := 0; i < k; i++ {
		if len(ps) == 0 {
			break
		}
		at := s.Intn(len(ps))
		p := &ps[at]
		switch p.kind {
		case '{':
			if s.Prob(50) {
				pm := s.Perm(len(p.vals))
				v := make([]string, len(p.vals))
				for a, b := range pm {
					v[a] = p.vals[b]
				}
				p.vals = v
				rules = append(rules, "reorder list values")
			} else {
				x := eng.Pick(s, p.vals)
				a := s.Intn(len(p.vals) + 1)
				p.vals = append(p.vals[:a:a], append([]string{x}, p.vals[a:]...)...)
				rules = append(rules, "repeat a list value")
			}
		case '[':
			it := classItems(p.lit)
			if len(it) == 0 {
				continue
			}
			if s.Prob(50) {
				pm := s.Perm(len(it))
				v := make([]string, len(it))
				for a, b := range pm {
					v[a] = it[b]
				}
				it = v
				rules = append(rules, "reorder class members")
			} else {
				it = append(it, eng.Pick(s, it))
				rules = append(rules, "repeat a class member")
			}
			p.lit = strings.Join(it, "")
		case '*':
			if at+1 < len(ps) && ps[at+1].kind == '?' && s.Prob(60) {
				ps[at], ps[at+1] = ps[at+1], ps[at]
				rules = append(rules, "*? to ?*")
			} else {
				p.lit += "*"
				rules = append(rules, "* to **")
			}
		case '?':
			if at+1 < len(ps) && ps[at+1].kind == '*' {
				ps[at], ps[at+1] = ps[at+1], ps[at]
				rules = append(rules, "?* to *?")
			}
		case 'l':
			if s.Prob(60) {
				rs := []rune(p.lit)
				c := s.Intn(len(rs))
				if rs[c] == '-' || rs[c] == ',' {
					continue
				}
				rest := append([]piece(nil), ps[at+1:]...)
				ps = ps[:at]
				if c > 0 {
					ps = append(ps, piece{kind: 'l', lit: string(rs[:c])})
				}
				if s.Prob(50) {
					ps = append(ps, piece{kind: '[', lit: string(rs[c])})
					rules = append(rules, "x to [x]")
				} else {
					ps = append(ps, piece{kind: '{', vals: []string{string(rs[c])}})
					rules = append(rules, "x to {x}")
				}
				if c+1 < len(rs) {
					ps = append(ps, piece{kind: 'l', lit: string(rs[c+1:])})
				}
				ps = append(ps, rest...)
			} else {
				ps = append(ps[:at:at], append([]piece{{kind: '{', vals: []string{""}}}, ps[at:]...)...)
				rules = append(rules, "insert an empty list")
			}
		}
	}
	return joinGlob(ps), rules, same
}

func genNorm(s *eng.Src) normIn {
	al := gen.Alphabet(s, gen.Opt{})
	if s.Prob(8) {
		// symbols around the places where the encoding gets longer
		al = []rune("yz{|}~\x7f\u0080\u07fe\u07ff\u0800\u0801\U0000fffe\uffff\U00010000\U00010001\U0010ffff")
		var k []rune
		for _, c := range al {
			if !strings.ContainsRune("[]{}*?,-", c) {
				k = append(k, c)
			}
		}
		al = k
	}
	g := gen.Glob(s, al, gen.Opt{NonEmpty: true})
	nodes, err := ref.ParseGlob(g)
	if err != nil {
		malformed(g)
	}
	in := normIn{Glob: eng.Str(g)}
	if s.Prob(70) {
		o, rules, same := rewrite(s, g)
		if len(rules) > 0 {
			if _, err := ref.ParseGlob(o); err != nil {
				malformed(o)
			}
			in.Other, in.Rules, in.Same = eng.Str(o), rules, same
		}
	}
	n := 1 + s.Intn(5)
	for i := 0; i < n; i++ {
		in.Strings = append(in.Strings, eng.Str(gen.Target(s, al, nodes)))
	}
	return in
}

func runNorm(in normIn, o *eng.Obs) error {
	nodes, err := ref.ParseGlob(string(in.Glob))
	if err != nil {
		return nil
	}
	g, err := glob.Parse(string(in.Glob))
	if err != nil {
		return fmt.Errorf("Parse(%q): %v", in.Glob, err)
	}
	if g.String() != g.Node || g.Raw() != string(in.Glob) {
		return fmt.Errorf("%q: String %q, normalized %q, Raw %q", in.Glob, g.String(), g.Node, g.Raw())
	}
	n, err := glob.Parse(g.Node)
	if err != nil {
		return fmt.Errorf("%q normalizes to %q which does not parse: %v", in.Glob, g.Node, err)
	}
	nn, err := ref.ParseGlob(g.Node)
	if err != nil {
		return fmt.Errorf("%q normalizes to %q which is malformed", in.Glob, g.Node)
	}
	var x *glob.Glob
	if in.Other != "" {
		for _, r := range in.Rules {
			o.Label(r)
		}
		if x, err = glob.Parse(string(in.Other)); err != nil {
			return fmt.Errorf("Parse(%q): %v", in.Other, err)
		}
		if in.Same && x.Node != g.Node {
			return fmt.Errorf("%q normalizes to %q but the equivalent %q (%s) to %q", in.Glob, g.Node, in.Other, strings.Join(in.Rules, ", "), x.Node)
		}
	}
	o.LabelIf(g.Node != string(in.Glob), "normal form differs from the glob")
	for _, es := range in.Strings {
		s := string(es)
		want := ref.Match(nodes, s)
		o.Checks++
		if ref.Match(nn, s) != want {
			return fmt.Errorf("%q normalizes to %q, but only one of them means a match on %q", in.Glob, g.Node, s)
		}
		if n.Match(s) != g.Match(s) {
			return fmt.Errorf("%q and its normal form %q differ on %q", in.Glob, g.Node, s)
		}
		if x != nil && x.Match(s) != g.Match(s) {
			return fmt.Errorf("%q and the equivalent %q (%s) differ on %q", in.Glob, in.Other, strings.Join(in.Rules, ", "), s)
		}
	}
	o.NonTrivial = g.Node != string(in.Glob) || x != nil
	return nil
}

func enumNorm(th bool, yield func(normIn) bool) {
	enumGlobs(th, func(m matchIn) bool {
		w := m.Strings
		if len(w) > 40 {
			w = w[:40]
		}
		return yield(normIn{Glob: m.Glob, Strings: w})
	})
}

func c08() *eng.Prop {
	return &eng.Prop{
		ID:   "C08",
		Rule: "A case is a well-formed glob, in most cases an equivalent spelling of it made by one to three rewrites (list values or class members reordered or repeated, * to **, *? and ?* exchanged, x to [x] or {x}, an empty list inserted), and up to five strings derived from it. Non-trivial: the normal form differs from the glob or there is an equivalent spelling.",
		Assumptions: []string{
			"normalizing a normal form again may change its text (lists with wildcards are ordered before their values are normalized); only its meaning is judged",
		},
		Suites: []*eng.Suite{
			eng.Generated("normalize", 1500000, 25000000, genNorm, runNorm),
			eng.Enumerated("normalize-small-scope", enumNorm, runNorm),
			eng.Enumerated("normalize-sizes", sizedNorm, runNorm),
		},
	}
}
