// Package gen holds the generators shared by the checks.
package gen

import (
	"strings"
	"unicode/utf8"

	"verifharness/eng"
	"verifharness/ref"
)

// Opt describes the globs wanted.
type Opt struct {
	NoDot    bool // no '.' anywhere (a part of a dotted glob)
	NoQuote  bool // no quotes, spaces or operators (inside seriesByTag)
	NonEmpty bool
	Simple   bool // fewer odd elements
	MaxElems int
	Stars    int
}

var alphabets = []string{
	"ab", "abc", "abcd", "aя", "ab.c", "aяж", "abc01_-", "aЯ世𝒳é", "abcdefghij", "xXyY09.-_:/", "aя世𝒳", "ABCabc", "~!@#$%^&()+=|;<> \"'\\,a", "a\x00\x7f\u0080\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010fffe\U0010ffff",
}

// Alphabet picks the symbols of one case: small alphabets make overlaps and
// near misses likely.
func Alphabet(s *eng.Src, o Opt) []rune {
	k := s.Weighted(22, 18, 8, 10, 8, 8, 6, 6, 4, 3, 3, 2, 2, 2, 3)
	var a []rune
	if k < len(alphabets) {
		a = []rune(alphabets[k])
	} else {
		a = eng.DictRunes(s, "[]{}*?")
	}
	var r []rune
	for _, c := range a {
		if o.NoDot && c == '.' {
			continue
		}
		if o.NoQuote && strings.ContainsRune("\"'=~! ()\\", c) {
			continue
		}
		r = append(r, c)
	}
	return r
}

// Word is a literal over the alphabet.
func Word(s *eng.Src, al []rune, lo, hi int) string {
	n := s.Size(lo, hi)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(eng.Pick(s, al))
	}
	if n > 0 && s.Rare(150) {
		if w := eng.DictWord(s); w != "" {
			return w
		}
	}
	return b.String()
}

func noComma(w string) string { return strings.ReplaceAll(w, ",", "_") }

// ClassRune is a symbol of a large class, of any length.
func ClassRune(s *eng.Src, c rune, o Opt, inList bool) rune {
	switch s.Weighted(30, 30, 20, 10, 10) {
	case 1:
		c = '0' + rune(s.Intn(75))
	case 2:
		c = 0x400 + rune(s.Intn(90))
	case 3:
		c = 0x4e00 + rune(s.Intn(200))
	case 4:
		c = 0x1f600 + rune(s.Intn(60))
	}
	if o.NoQuote && strings.ContainsRune("\"'=~! ()\\", c) || o.NoDot && c == '.' {
		c = 'a'
	}
	return c
}

// ClassBody is the inside of a well formed, non-negated character class.
func ClassBody(s *eng.Src, al []rune, o Opt, inList bool) string {
	var b strings.Builder
	if s.Prob(2) {
		b.WriteByte('-')
	}
	n := 1 + s.Weighted(30, 30, 20, 10, 5, 5)
	many := s.Rare(60)
	if many {
		n += s.Size(4, 60)
	}
	for i := 0; i < n; i++ {
		c := eng.Pick(s, al)
		if many {
			c = ClassRune(s, c, o, inList)
		}
		if s.Prob(3) {
			c = []rune("*?{[0Az~")[s.Intn(8)]
		}
		for (c == '-' || c == ']') || (inList && c == ',') || (b.Len() == 0 && (c == '!' || c == '^')) || (inList && (c == '{' || c == '}')) || c == '}' && inList {
			c = 'a'
		}
		if s.Prob(35) {
			// range
			hi := c + rune(s.Intn(6))
			if c >= 'a' && c <= 'z' && hi > 'z' {
				hi = 'z'
			}
			if s.Prob(5) && c < 128 {
				hi = '~'
			}
			if c > 127 && s.Prob(10) {
				hi = c + 200
			}
			for hi > c && (utf8.RuneLen(hi) != utf8.RuneLen(c) || hi == ']' || hi == '-' || hi == 0xFFFD ||
				(o.NoDot && hi == '.') || (o.NoQuote && strings.ContainsRune("\"'", hi)) ||
				(inList && (hi == ',' || hi == '{' || hi == '}')) || hi > 0x10FFFF || (hi >= 0xD800 && hi < 0xE000)) {
				hi--
			}
			if hi >= c && hi != ']' && hi != '-' {
				b.WriteRune(c)
				b.WriteByte('-')
				b.WriteRune(hi)
				continue
			}
		}
		b.WriteRune(c)
	}
	if s.Prob(2) {
		b.WriteByte('-')
	}
	return b.String()
}

// element writes one element of a glob; stars is the budget of stars.
func element(s *eng.Src, al []rune, o Opt, inList bool, stars *int) string {
	for {
		w := []int{40, 16, 13, 14, 22}
		if o.Simple {
			w = []int{50, 20, 10, 8, 12}
		}
		if inList {
			w = []int{40, 26, 18, 16, 0}
		}
		switch s.Weighted(w...) {
		case 0:
			x := Word(s, al, 1, 4)
			if s.Rare(300) {
				x = strings.Repeat(Word(s, al, 1, 40), 1+s.Intn(12))
			}
			if inList {
				x = noComma(x)
			}
			return x
		case 1:
			if *stars <= 0 {
				return "?"
			}
			*stars--
			if s.Prob(4) {
				return "**"
			}
			if s.Rare(200) {
				return strings.Repeat("*", 3+s.Intn(20))
			}
			return "*"
		case 2:
			if s.Rare(80) {
				return strings.Repeat("?", 4+s.Size(0, 80))
			}
			return strings.Repeat("?", 1+s.Weighted(80, 15, 5))
		case 3:
			if s.Prob(2) {
				return "[]"
			}
			return "[" + ClassBody(s, al, o, inList) + "]"
		default:
			return List(s, al, o, stars)
		}
	}
}

// List is a brace list.
func List(s *eng.Src, al []rune, o Opt, stars *int) string {
	if s.Prob(1) {
		return "{}"
	}
	n := 1 + s.Weighted(6, 45, 25, 12, 6, 4, 2)
	if s.Prob(2) {
		n += s.Intn(20)
	}
	wild := s.Weighted(55, 45) == 1
	if s.Rare(150) {
		n += s.Size(20, 300)
		wild = wild && n < 40
	}
	vals := make([]string, n)
	for i := range vals {
		switch s.Weighted(8, 52, 40) {
		case 0:
			vals[i] = ""
		case 1:
			vals[i] = noComma(Word(s, al, 1, 4))
		default:
			if !wild {
				vals[i] = noComma(Word(s, al, 1, 3))
				continue
			}
			k := 1 + s.Weighted(40, 35, 20, 5)
			if s.Rare(25) {
				k += s.Size(2, 16)
			}
			var b strings.Builder
			for j := 0; j < k; j++ {
				b.WriteString(element(s, al, o, true, stars))
			}
			vals[i] = b.String()
		}
	}
	return "{" + strings.Join(vals, ",") + "}"
}

// Glob is a well formed glob.
func Glob(s *eng.Src, al []rune, o Opt) string {
	hi := o.MaxElems
	if hi == 0 {
		hi = 8
	}
	stars := 4
	if o.Stars > 0 {
		stars = o.Stars
	}
	for {
		n := s.Size(0, hi)
		if n == 0 && o.NonEmpty {
			n = 1
		}
		if s.Rare(60) {
			n += s.Size(2, 18)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(element(s, al, o, false, &stars))
		}
		return b.String()
	}
}

// Sample writes a string the pattern matches.
// long is the greatest number of symbols a star is replaced with (0: a few).
func Sample(s *eng.Src, al []rune, nodes []ref.Node, long int) string {
	var b strings.Builder
	sample(s, al, nodes, &b, long)
	return b.String()
}

func sample(s *eng.Src, al []rune, nodes []ref.Node, b *strings.Builder, long int) {
	for _, n := range nodes {
		switch n.K {
		case ref.Lit:
			b.WriteString(n.Lit)
		case ref.One:
			if s.Prob(1) {
				b.WriteByte(0xff)
			} else {
				b.WriteRune(eng.Pick(s, al))
			}
		case ref.Star:
			k := s.Weighted(30, 25, 20, 15, 10)
			if long > 200 {
				// a repeated piece, to keep the choices few
				w := Word(s, al, 1, 30)
				b.WriteString(strings.Repeat(w, s.Intn(long/(1+utf8.RuneCountInString(w))+1)))
				k %= 3
			} else if long > 0 {
				k = s.Intn(long)
			}
			for i := 0; i < k; i++ {
				b.WriteRune(eng.Pick(s, al))
			}
		case ref.Class:
			r := eng.Pick(s, n.Set)
			c := r.Lo + rune(s.Intn(int(r.Hi-r.Lo)+1))
			if !utf8.ValidRune(c) || c == utf8.RuneError {
				c = r.Lo
			}
			b.WriteRune(c)
		case ref.Alt:
			sample(s, al, eng.Pick(s, n.Alts), b, long)
		}
	}
}

// Stars counts the stars of a pattern.
func Stars(nodes []ref.Node) (n int) {
	for _, x := range nodes {
		if x.K == ref.Star {
			n++
		}
		for _, a := range x.Alts {
			n += Stars(a)
		}
	}
	return
}

// Mutate edits a string a little.
func Mutate(s *eng.Src, al []rune, x string) string {
	rs := []rune(x)
	k := 1 + s.Weighted(60, 30, 10)
	for i := 0; i < k; i++ {
		p := s.Intn(len(rs) + 1)
		switch s.Weighted(25, 25, 20, 10, 10, 10) {
		case 0: // delete
			if p < len(rs) {
				rs = append(rs[:p:p], rs[p+1:]...)
			}
		case 1: // insert
			rs = append(rs[:p:p], append([]rune{eng.Pick(s, al)}, rs[p:]...)...)
		case 2: // replace
			if p < len(rs) {
				rs = append([]rune(nil), rs...)
				rs[p] = eng.Pick(s, al)
			}
		case 3: // cut
			rs = rs[:p]
		case 4: // repeat a piece
			q := s.Range(p, len(rs))
			if q-p > 10 {
				q = p + 10
			}
			rs = append(rs[:q:q], append(append([]rune(nil), rs[p:q]...), rs[q:]...)...)
		default: // a neighbour of a symbol
			if p < len(rs) {
				rs = append([]rune(nil), rs...)
				d := rune(1 - 2*s.Intn(2))
				if rs[p]+d > 0 && utf8.ValidRune(rs[p]+d) && rs[p]+d != utf8.RuneError {
					rs[p] += d
				}
			}
		}
	}
	return string(rs)
}

// Target is a string to match against a pattern: a sample, a near miss or
// something else.
func Target(s *eng.Src, al []rune, nodes []ref.Node) string {
	var x string
	switch s.Weighted(40, 38, 16, 6) {
	case 0:
		x = Sample(s, al, nodes, 0)
	case 1:
		x = Mutate(s, al, Sample(s, al, nodes, 0))
	case 2:
		x = Word(s, al, 0, 8)
	default:
		long := 60
		if Stars(nodes) == 1 && s.Prob(20) {
			long = 2500
		}
		x = Sample(s, al, nodes, long)
		if s.Prob(50) {
			x = Mutate(s, al, x)
		}
	}
	if s.Prob(2) && len(x) > 0 {
		// damage the encoding
		p := s.Intn(len(x))
		switch s.Intn(3) {
		case 0:
			x = x[:p] + "\xff" + x[p:]
		case 1:
			x = x[:p] + x[p+1:]
		default:
			x = x[:p] + "\xd1" + x[p:]
		}
	}
	return x
}

// Twin is a glob that differs from g in one symbol.
func Twin(s *eng.Src, al []rune, g string) string {
	rs := []rune(g)
	for try := 0; try < 4 && len(rs) > 0; try++ {
		p := s.Intn(len(rs))
		if s.Prob(40) {
			p = len(rs) - 1 - s.Intn(3)
			if p < 0 {
				p = 0
			}
		}
		if strings.ContainsRune("[]{}*?,-.", rs[p]) {
			continue
		}
		t := append([]rune(nil), rs...)
		t[p] = eng.Pick(s, al)
		if strings.ContainsRune("[]{}*?,-.'\"", t[p]) {
			continue
		}
		if _, err := ref.ParseGlob(string(t)); err == nil {
			return string(t)
		}
	}
	return g
}

// Pad makes a function that adds a long common text to globs and to strings:
// a string is matched by a glob if and only if it is with the text added to
// both.
func Pad(s *eng.Src, al []rune) func(string) string {
	w := strings.NewReplacer(",", "_", ".", "_", "-", "_", "'", "_", "\"", "_", " ", "_").Replace(Word(s, al, 6, 70))
	head, tail := w, ""
	switch s.Weighted(60, 30, 10) {
	case 1:
		head, tail = "", w
	case 2:
		tail = w
	}
	return func(x string) string { return head + x + tail }
}

// PadParts adds the text to each part of a path.
func PadParts(pad func(string) string, path string) string {
	pp := strings.Split(path, ".")
	for i := range pp {
		if pp[i] != "" {
			pp[i] = pad(pp[i])
		}
	}
	return strings.Join(pp, ".")
}
