package main

import (
	"regexp"
	"regexp/syntax"
	"strings"

	"verifharness/eng"
	"verifharness/gen"
)

// genRe writes a regular expression over the alphabet: alternatives of
// sequences, anchored or not, with groups, classes, repetitions and flags.
func genRe(s *eng.Src, al []rune) string {
	v := reAlt(s, al, 2)
	switch s.Weighted(50, 10, 10, 20, 4, 3, 3) {
	case 1:
		v = "^" + v
	case 2:
		v += "$"
	case 3:
		v = "^" + v + "$"
	case 4:
		v = "(?i)" + v
	case 5:
		v = "(?s)" + v
	case 6:
		v = "(?m)" + v
	}
	if len(v) > 60 || strings.TrimSpace(v) != v || strings.ContainsAny(v, "'\"") {
		return "^a|b$"
	}
	if _, err := compileRe(v); err != nil {
		return "^a|b$"
	}
	return v
}

func reAlt(s *eng.Src, al []rune, depth int) string {
	n := 1 + s.Weighted(60, 25, 10, 5)
	r := make([]string, n)
	for i := range r {
		r[i] = reSeq(s, al, depth)
	}
	return strings.Join(r, "|")
}

func reSeq(s *eng.Src, al []rune, depth int) string {
	var b strings.Builder
	if s.Prob(20) {
		b.WriteByte('^')
	}
	for n := 1 + s.Weighted(45, 30, 15, 10); n > 0; n-- {
		switch s.Weighted(50, 10, 8, 4, 4, 4, 12, 8) {
		case 0:
			b.WriteString(regexp.QuoteMeta(gen.Word(s, al, 1, 3)))
			continue
		case 1:
			b.WriteByte('.')
		case 2:
			b.WriteString("[" + eng.Pick(s, []string{"", "^"}) + regexp.QuoteMeta(gen.Word(s, al, 1, 3)) + "]")
		case 3:
			b.WriteString(eng.Pick(s, []string{`\d`, `\w`, `\W`, `\D`, `[a-c]`, `\pL`}))
		case 4:
			b.WriteString(eng.Pick(s, []string{`\b`, `^`, `$`, `\B`, `\A`, `\z`}))
			continue
		case 5:
			// nothing
			continue
		default:
			if depth == 0 {
				b.WriteString("a")
				break
			}
			b.WriteString(eng.Pick(s, []string{"(", "(?:", "(?i:"}) + reAlt(s, al, depth-1) + ")")
		}
		b.WriteString(eng.Pick(s, []string{"", "", "", "*", "+", "?", "{2}", "{0,1}", "*?"}))
	}
	if s.Prob(20) {
		b.WriteByte('$')
	}
	return b.String()
}

// sampleRe writes a text the expression is likely to be found in, or nearly.
func sampleRe(s *eng.Src, al []rune, re string) string {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return re
	}
	var b strings.Builder
	sampleNode(s, al, x, &b)
	v := b.String()
	switch s.Weighted(50, 15, 15, 10, 10) {
	case 1:
		v = gen.Word(s, al, 1, 2) + v
	case 2:
		v += gen.Word(s, al, 1, 2)
	case 3:
		v = gen.Mutate(s, al, v)
	case 4:
		v += eng.Pick(s, []string{" ", "\n", "x", "="})
	}
	return v
}

func sampleNode(s *eng.Src, al []rune, x *syntax.Regexp, b *strings.Builder) {
	if b.Len() > 60 {
		return
	}
	switch x.Op {
	case syntax.OpLiteral:
		b.WriteString(string(x.Rune))
	case syntax.OpCharClass:
		if len(x.Rune) > 1 {
			i := s.Intn(len(x.Rune)/2) * 2
			lo, hi := x.Rune[i], x.Rune[i+1]
			if hi > lo+3 {
				hi = lo + 3
			}
			b.WriteRune(lo + rune(s.Intn(int(hi-lo)+1)))
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteRune(eng.Pick(s, al))
	case syntax.OpCapture, syntax.OpConcat:
		for _, y := range x.Sub {
			sampleNode(s, al, y, b)
		}
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		n := s.Intn(3)
		if x.Op == syntax.OpPlus {
			n++
		} else if x.Op == syntax.OpRepeat {
			n = x.Min + s.Intn(2)
		}
		for ; n > 0; n-- {
			sampleNode(s, al, x.Sub[0], b)
		}
	case syntax.OpAlternate:
		sampleNode(s, al, eng.Pick(s, x.Sub), b)
	}
}
