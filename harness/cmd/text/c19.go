package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/eng"
	"verifharness/ref"
)

// --- C19: histories over a set of symbols

type setOp struct {
	Op string  `json:"op"`
	S  eng.Str `json:"s"`
}

type setIn struct {
	Init  eng.Str   `json:"init"` // class to start with, without brackets
	Ops   []setOp   `json:"ops"`
	Texts []eng.Str `json:"texts"`
}

var symbols = []rune("abcdyz019AZ_.,~!\x00\x7f\u0080éяжЯ\u07ff\u0800世丗丘\uffef\U00010000𝒳𝒴")

func sym(s *eng.Src) rune {
	switch s.Weighted(59, 30, 10, 1) {
	case 3:
		return eng.Pick(s, eng.DictRunes(s, ""))
	case 0:
		return symbols[s.Intn(8)]
	case 1:
		return eng.Pick(s, symbols)
	default:
		return rune(s.Intn(0x2000) + 1)
	}
}

func symOK(c rune) bool { return c != '-' && c != ']' && c != 0xfffd && utf8.ValidRune(c) }

func class(s *eng.Src, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		c := sym(s)
		if !symOK(c) {
			c = 'a'
		}
		b.WriteRune(c)
		if s.Prob(35) {
			hi := c + rune(s.Weighted(30, 25, 20, 15, 10))
			if s.Prob(10) {
				hi = c + rune(s.Intn(300))
			}
			for hi > c && (!symOK(hi) || utf8.RuneLen(hi) != utf8.RuneLen(c)) {
				hi--
			}
			b.WriteString("-" + string(hi))
		}
	}
	return b.String()
}

func genSet(s *eng.Src) setIn {
	in := setIn{}
	if s.Prob(75) {
		in.Init = eng.Str(class(s, s.Size(0, 10)))
	}
	for k := s.Weighted(40, 25, 20, 15); k > 0; k-- {
		op := setOp{Op: eng.Pick(s, []string{"add", "adds", "merge"})}
		n := 1
		if op.Op == "adds" {
			n = s.Size(0, 6)
		}
		if op.Op != "merge" {
			var b strings.Builder
			for ; n > 0; n-- {
				c := sym(s)
				if c == 0xfffd || !utf8.ValidRune(c) {
					c = 'a'
				}
				b.WriteRune(c)
			}
			op.S = eng.Str(b.String())
		}
		in.Ops = append(in.Ops, op)
	}
	set, _ := ref.ParseClass(string(in.Init))
	for k := 1 + s.Intn(4); k > 0; k-- {
		var b strings.Builder
		for n := s.Size(0, 8); n > 0; n-- {
			switch s.Weighted(30, 45, 17, 8) {
			case 0:
				b.WriteRune(sym(s))
			case 1: // the edges of the set, inside and out
				if len(set) == 0 {
					b.WriteRune(sym(s))
					continue
				}
				r := eng.Pick(s, set)
				c := []rune{r.Lo, r.Hi, r.Lo - 1, r.Hi + 1, (r.Lo + r.Hi) / 2}[s.Intn(5)]
				if c >= 0 && utf8.ValidRune(c) {
					b.WriteRune(c)
				}
			case 2:
				b.WriteString("--q"[:1+s.Intn(3)])
			default:
				b.WriteString(eng.Pick(s, []string{"\xff", "\xd1", "\xe4\xb8", "\x80", "\ufffd"}))
			}
		}
		in.Texts = append(in.Texts, eng.Str(b.String()))
	}
	return in
}

func has(set []ref.RR, c rune) bool {
	return c != utf8.RuneError && ref.InSet(set, c)
}

// firstIn finds the first symbol of s in the set; an invalid byte is in no set.
func firstIn(set []ref.RR, s string) (int, rune, int) {
	for i, c := range s {
		if has(set, c) {
			return i, c, utf8.RuneLen(c)
		}
	}
	return -1, utf8.RuneError, 0
}

func judgeSet(what string, rs *utils.RunesRanges, set []ref.RR, texts []eng.Str, o *eng.Obs) error {
	lo, hi := 0, 0
	var probe []rune
	for _, r := range set {
		for _, c := range []rune{r.Lo, r.Hi} {
			if n := utf8.RuneLen(c); n > hi {
				hi = n
			}
			if n := utf8.RuneLen(c); lo == 0 || n < lo {
				lo = n
			}
		}
		probe = append(probe, r.Lo-1, r.Lo, (r.Lo+r.Hi)/2, r.Hi, r.Hi+1)
	}
	if rs.MinSize != lo || rs.MaxSize != hi {
		return fmt.Errorf("%s: sizes %d..%d, want %d..%d", what, rs.MinSize, rs.MaxSize, lo, hi)
	}
	for c := rune(0); c < 128; c++ {
		probe = append(probe, c)
	}
	for _, es := range texts {
		probe = append(probe, []rune(string(es))...)
	}
	for _, c := range probe {
		if c < 0 || c == utf8.RuneError || !utf8.ValidRune(c) {
			continue
		}
		o.Checks++
		if rs.Contains(c) != has(set, c) {
			return fmt.Errorf("%s: Contains(%q) = %v", what, c, !has(set, c))
		}
		if c > 127 && rs.ContainsUnicode(c) != has(set, c) {
			return fmt.Errorf("%s: ContainsUnicode(%q) = %v", what, c, !has(set, c))
		}
	}
	for i := 1; i < len(rs.UnicodeRanges); i++ {
		if rs.UnicodeRanges[i-1].Last >= rs.UnicodeRanges[i].First {
			return fmt.Errorf("%s: ranges out of order: %v", what, rs.UnicodeRanges)
		}
	}
	for _, es := range texts {
		s := string(es)
		p, c, n := firstIn(set, s)
		o.Checks += 4
		if gp, gc, gn := rs.Index(s); gp != p || gc != c || gn != n {
			return fmt.Errorf("%s: Index(%q) = %d, %q, %d, want %d, %q, %d", what, s, gp, gc, gn, p, c, n)
		}
		if gp, gc, gn := rs.IndexByte([]byte(s)); gp != p || gc != c || gn != n {
			return fmt.Errorf("%s: IndexByte(%q) = %d, %q, %d, want %d, %q, %d", what, s, gp, gc, gn, p, c, n)
		}
		wc, wn := utf8.RuneError, -1
		if c, n := utf8.DecodeRuneInString(s); has(set, c) {
			wc, wn = c, n
		}
		if gc, gn := rs.StartsWith(s); gc != wc || gn != wn {
			return fmt.Errorf("%s: StartsWith(%q) = %q, %d, want %q, %d", what, s, gc, gn, wc, wn)
		}
		wc, wn = utf8.RuneError, -1
		if c, n := utf8.DecodeLastRuneInString(s); has(set, c) {
			wc, wn = c, len(s)-n
		}
		if gc, gn := rs.EndsWith(s); gc != wc || gn != wn {
			return fmt.Errorf("%s: EndsWith(%q) = %q, %d, want %q, %d", what, s, gc, gn, wc, wn)
		}
		o.LabelIf(p >= 0, "found")
		o.LabelIf(p > 0, "found inside")
		o.LabelIf(!utf8.ValidString(s), "invalid UTF-8")
	}
	if !ref.InSet(set, '-') && !ref.InSet(set, ']') {
		str := rs.String()
		back, err := ref.ParseClass(strings.TrimSuffix(strings.TrimPrefix(str, "["), "]"))
		o.Checks++
		if err != nil || !strings.HasPrefix(str, "[") || !strings.HasSuffix(str, "]") || !sameSet(back, set) {
			return fmt.Errorf("%s: written as %q", what, str)
		}
		again, ok := utils.RunesRangeExpand(str)
		if !ok || !again.Equal(rs) || !rs.Equal(&again) {
			return fmt.Errorf("%s: written as %q, which is read back as another set (%v)", what, str, ok)
		}
	}
	return nil
}

func norm(set []ref.RR) []ref.RR {
	s := append([]ref.RR(nil), set...)
	sort.Slice(s, func(i, j int) bool { return s[i].Lo < s[j].Lo })
	var out []ref.RR
	for _, r := range s {
		if n := len(out); n > 0 && out[n-1].Hi+1 >= r.Lo {
			if r.Hi > out[n-1].Hi {
				out[n-1].Hi = r.Hi
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

func sameSet(a, b []ref.RR) bool {
	a, b = norm(a), norm(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runSet(in setIn, o *eng.Obs) error {
	set, err := ref.ParseClass(string(in.Init))
	rs, ok := utils.RunesRangeExpand("[" + string(in.Init) + "]")
	if ok != (err == nil) {
		return fmt.Errorf("RunesRangeExpand([%s]) = %v, want %v", in.Init, ok, err == nil)
	}
	if err != nil {
		return nil
	}
	what := "[" + string(in.Init) + "]"
	if err := judgeSet(what, &rs, set, in.Texts, o); err != nil {
		return err
	}
	dirty := false
	for _, op := range in.Ops {
		switch op.Op {
		case "add":
			for _, c := range string(op.S) {
				rs.Add(c)
				set = append(set, ref.RR{Lo: c, Hi: c})
			}
			dirty = true
		case "adds":
			rs.Adds(string(op.S))
			for _, c := range string(op.S) {
				set = append(set, ref.RR{Lo: c, Hi: c})
			}
			dirty = true
		default:
			rs.Merge()
			dirty = false
		}
		what += fmt.Sprintf(" %s %q", op.Op, op.S)
		if !dirty {
			if err := judgeSet(what, &rs, set, in.Texts, o); err != nil {
				return err
			}
		}
	}
	if dirty {
		rs.Merge()
		if err := judgeSet(what+" merge", &rs, set, in.Texts, o); err != nil {
			return err
		}
	}
	o.LabelIf(len(in.Ops) > 0, "grown")
	wide := false
	for _, r := range set {
		wide = wide || r.Lo > 127
	}
	o.LabelIf(wide, "beyond ASCII")
	o.NonTrivial = len(set) > 1
	return nil
}

// ASCII sets

type asciiIn struct {
	Init  eng.Str   `json:"init"`
	Ops   []setOp   `json:"ops"`
	Texts []eng.Str `json:"texts"`
}

func genASCII(s *eng.Src) asciiIn {
	in := asciiIn{}
	text := func(n int) eng.Str {
		b := make([]byte, n)
		for i := range b {
			switch s.Weighted(50, 40, 10) {
			case 0:
				b[i] = "abcdez"[s.Intn(6)]
			case 1:
				b[i] = byte(s.Intn(128))
			default:
				b[i] = []byte{0, 0x1f, 0x20, 0x3f, 0x40, 0x5f, 0x60, 0x7e, 0x7f, 0x80, 0xa0, 0xff}[s.Intn(12)]
			}
		}
		return eng.Str(eng.Spice(s, string(b)))
	}
	in.Init = text(s.Size(0, 12))
	for k := s.Weighted(40, 30, 20, 10); k > 0; k-- {
		op := setOp{Op: eng.Pick(s, []string{"add", "clear"})}
		if op.Op == "add" {
			op.S = text(1 + s.Intn(3))
		}
		in.Ops = append(in.Ops, op)
	}
	for k := 1 + s.Intn(3); k > 0; k-- {
		in.Texts = append(in.Texts, text(s.Size(0, 8)))
	}
	return in
}

func judgeASCII(what string, as *utils.ASCIISet, m map[byte]bool, texts []eng.Str, o *eng.Obs) error {
	first, all := -1, ""
	for c := 0; c < 256; c++ {
		o.Checks++
		if as.Contains(byte(c)) != m[byte(c)] {
			return fmt.Errorf("%s: Contains(%#x) = %v", what, c, !m[byte(c)])
		}
		if m[byte(c)] {
			if first < 0 {
				first = c
			}
			all += string(rune(c))
		}
	}
	if n, f := as.Count(); n != len(m) || (n > 0 && int(f) != first) {
		return fmt.Errorf("%s: Count() = %d, %#x, want %d, %#x", what, n, f, len(m), first)
	}
	if as.IsEmpty() != (len(m) == 0) {
		return fmt.Errorf("%s: IsEmpty() = %v", what, as.IsEmpty())
	}
	if got := as.StringAll(); got != all {
		return fmt.Errorf("%s: StringAll() = %q, want %q", what, got, all)
	}
	var b strings.Builder
	b.WriteString("<")
	as.WriteStringAll(&b)
	if b.String() != "<"+all {
		return fmt.Errorf("%s: WriteStringAll wrote %q", what, b.String())
	}
	if !m['-'] {
		str := as.String()
		back, err := ref.ParseClass(str)
		bad := err != nil
		n := 0
		for c := rune(0); c < 128 && !bad; c++ {
			bad = ref.InSet(back, c) != m[byte(c)]
			if m[byte(c)] {
				n++
			}
		}
		if bad {
			return fmt.Errorf("%s: String() = %q", what, str)
		}
	}
	for _, es := range texts {
		s := string(es)
		i := strings.IndexFunc(s, func(rune) bool { return false })
		l := -1
		for p := 0; p < len(s); p++ {
			if m[s[p]] {
				if i < 0 {
					i = p
				}
				l = p
			}
		}
		o.Checks += 4
		if g := as.Index(s); g != i {
			return fmt.Errorf("%s: Index(%q) = %d, want %d", what, s, g, i)
		}
		if g := as.IndexByte([]byte(s)); g != i {
			return fmt.Errorf("%s: IndexByte(%q) = %d, want %d", what, s, g, i)
		}
		if g := as.LastIndex(s); g != l {
			return fmt.Errorf("%s: LastIndex(%q) = %d, want %d", what, s, g, l)
		}
		if g := as.LastIndexByte([]byte(s)); g != l {
			return fmt.Errorf("%s: LastIndexByte(%q) = %d, want %d", what, s, g, l)
		}
		o.LabelIf(i >= 0 && i != l, "found twice")
	}
	return nil
}

func runASCII(in asciiIn, o *eng.Obs) error {
	init := string(in.Init)
	as, ok := utils.MakeASCIISet(init)
	want := true
	m := map[byte]bool{}
	for i := 0; i < len(init); i++ {
		if init[i] > 127 {
			want = false
		}
	}
	if ok != want {
		return fmt.Errorf("MakeASCIISet(%q) = %v", init, ok)
	}
	if ok {
		for i := 0; i < len(init); i++ {
			m[init[i]] = true
		}
		if must := utils.MakeASCIISetMust(init); must != as {
			return fmt.Errorf("MakeASCIISetMust(%q) differs from MakeASCIISet", init)
		}
	} else {
		as = utils.ASCIISet{}
		o.Label("not ASCII")
	}
	what := fmt.Sprintf("set %q", init)
	if err := judgeASCII(what, &as, m, in.Texts, o); err != nil {
		return err
	}
	for _, op := range in.Ops {
		if op.Op == "clear" {
			as.Clear()
			m = map[byte]bool{}
		} else {
			for i := 0; i < len(op.S); i++ {
				c := op.S[i]
				if got := as.Add(c); got != (c < 128) {
					return fmt.Errorf("%s: Add(%#x) = %v", what, c, got)
				}
				if c < 128 {
					m[c] = true
				}
			}
		}
		what += fmt.Sprintf(" %s %q", op.Op, op.S)
		if err := judgeASCII(what, &as, m, in.Texts, o); err != nil {
			return err
		}
	}
	o.NonTrivial = len(m) > 1
	return nil
}

func enumSets(thorough bool, yield func(setIn) bool) {
	tok := []string{"a", "b", "d", "a-c", "b-d", "\x00", "\x7f", "\u0080", "я", "а-я", "я-ҿ", "世", "\u07ff", "\u0800", "𝒳", "b-a", "-", "a-я"}
	n := 3
	if thorough {
		n = 4
	}
	texts := []eng.Str{"", "a", "xa", "яb", "q世", "世q", "\xffaя", "я\xff", "dd", "\x7f\u0080", "\u0800\u07ff𝒳", "-"}
	var rec func(p string, k int) bool
	rec = func(p string, k int) bool {
		if !yield(setIn{Init: eng.Str(p), Texts: texts}) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, t := range tok {
			if !rec(p+t, k-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

// stepping over symbols

type skipIn struct {
	S eng.Str `json:"s"`
	N int     `json:"n"`
}

func runSkip(in skipIn, o *eng.Obs) error {
	s := string(in.S)
	want, rest := 0, s
	for i := 0; i < in.N; i++ {
		if rest == "" {
			want = -1
			break
		}
		_, n := utf8.DecodeRuneInString(rest)
		want, rest = want+n, rest[n:]
	}
	o.Checks += 2
	if got := utils.StringSkipRunes(s, in.N); got != want {
		return fmt.Errorf("StringSkipRunes(%q, %d) = %d, want %d", s, in.N, got, want)
	}
	want, rest = len(s), s
	for i := 0; i < in.N; i++ {
		if rest == "" {
			want = -1
			break
		}
		_, n := utf8.DecodeLastRuneInString(rest)
		want, rest = want-n, rest[:len(rest)-n]
	}
	if got := utils.StringSkipRunesLast(s, in.N); got != want {
		return fmt.Errorf("StringSkipRunesLast(%q, %d) = %d, want %d", s, in.N, got, want)
	}
	if c := utils.CloneString(s); c != s {
		return fmt.Errorf("CloneString(%q) = %q", s, c)
	}
	o.LabelIf(want < 0, "too short")
	o.NonTrivial = in.N > 0 && want >= 0 && !isASCII(s)
	return nil
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

func genSkip(s *eng.Src) skipIn {
	return skipIn{eng.Str(genText(s)), s.Size(0, 14)}
}

func c19() *eng.Prop {
	return &eng.Prop{
		ID:   "C19",
		Rule: "A case is a character class, up to three operations that grow it (Add, Adds, Merge), and up to four texts made of symbols in it, at its edges and out of it, and invalid UTF-8, every query being compared with a plain list of ranges; or the same with an ASCII set; or a text and a number of symbols to step over. The enumerated suite takes every class of up to three pieces. Non-trivial: at least two symbols in the set (stepping: a text beyond ASCII, long enough).",
		Assumptions: []string{
			"a set is judged after Merge, as its documentation asks",
			"sets with a dash or a closing bracket are not judged as text; U+FFFD, surrogates and invalid bytes are in no set",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("rune-set", 900000, 4000000, genSet, runSet),
				setIn{Init: "a", Texts: []eng.Str{"xya"}},
				setIn{Init: "яa", Texts: []eng.Str{"xy\xffb"}}),
			eng.Enumerated("rune-set-small-scope", enumSets, runSet),
			eng.Generated("ascii-set", 600000, 4000000, genASCII, runASCII),
			eng.Generated("step-over", 600000, 6000000, genSkip, runSkip),
			eng.Enumerated("rune-set-sizes", sizedSet, runSet),
			eng.Enumerated("ascii-set-sizes", sizedASCII, runASCII),
			eng.Enumerated("step-over-sizes", sizedSkip, runSkip),
		},
	}
}
