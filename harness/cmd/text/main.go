// Command text checks the building blocks: URL escaping, symbol sets, single
// glob items and result stores.
package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"

	"github.com/msaf1980/go-matcher/pkg/escape"

	"verifharness/eng"
	"verifharness/gen"
)

func main() { eng.Main(c15(), c19(), c20(), c23(), c24()) }

// --- C15

type escIn struct {
	Strings []eng.Str `json:"strings"`
	Pre     eng.Str   `json:"pre"` // what is in the buffers before
	Cap     int       `json:"cap"`
}

func genText(s *eng.Src) string { return eng.Spice(s, genPlain(s)) }

func genPlain(s *eng.Src) string {
	if s.Rare(20) {
		return gen.Word(s, eng.DictRunes(s, ""), 0, 12)
	}
	al := eng.Pick(s, []string{
		"ab", "a b", "a+ %", "abz019-_.~", "a/?&=;:,$@+", "a b%41+2Bfg", "яж 世𝒳a+", "\x00\x01\x1f\x7f\x80\xff\xd1 a", "!\"#'()*<>[\\]^`{|}a ",
	})
	rs := []rune(al)
	if !strings.Contains(al, "\xff") {
		var b strings.Builder
		n := s.Size(0, 14)
		if s.Prob(4) {
			n = s.Range(15, 120)
		}
		for i := 0; i < n; i++ {
			b.WriteRune(eng.Pick(s, rs))
		}
		return b.String()
	}
	b := make([]byte, s.Size(0, 10))
	for i := range b {
		if s.Prob(50) {
			b[i] = al[s.Intn(len(al))]
		} else {
			b[i] = byte(s.Intn(256))
		}
	}
	return string(b)
}

func genEsc(s *eng.Src) escIn {
	in := escIn{}
	n := 1 + s.Weighted(60, 25, 15)
	for i := 0; i < n; i++ {
		in.Strings = append(in.Strings, eng.Str(genText(s)))
	}
	if s.Prob(40) {
		in.Pre = eng.Str(genText(s))
	}
	if s.Prob(50) {
		in.Cap = s.Intn(64)
	}
	return in
}

// pathEscape is the reference: what a path may hold stays as it is, every
// other byte is written as %XX.
func pathEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~$&+,/:;=@", c) >= 0 {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func runEsc(in escIn, o *eng.Obs) error {
	buf := bytes.NewBuffer(make([]byte, 0, in.Cap))
	buf.WriteString(string(in.Pre))
	want := string(in.Pre)
	for _, es := range in.Strings {
		s := string(es)
		q, p := url.QueryEscape(s), pathEscape(s)
		o.Checks += 5
		if got := escape.Query(s); got != q {
			return fmt.Errorf("Query(%q) = %q, want %q", s, got, q)
		}
		if got := escape.Path(s); got != p {
			return fmt.Errorf("Path(%q) = %q, want %q", s, got, p)
		}
		if got := escape.Unescape(q); got != s {
			return fmt.Errorf("Unescape(%q) = %q, want %q", q, got, s)
		}
		if got, err := url.PathUnescape(escape.Path(s)); err != nil || got != s {
			return fmt.Errorf("Path(%q) = %q reads back as %q, %v", s, p, got, err)
		}
		escape.QueryTo(s, buf)
		want += q
		if buf.String() != want {
			return fmt.Errorf("QueryTo(%q) wrote %q, want %q", s, strings.TrimPrefix(buf.String(), want[:len(want)-len(q)]), q)
		}
		escape.PathTo(s, buf)
		want += p
		if buf.String() != want {
			return fmt.Errorf("PathTo(%q) wrote %q, want %q", s, strings.TrimPrefix(buf.String(), want[:len(want)-len(p)]), p)
		}
		if q != s {
			o.NonTrivial = true
		}
		o.LabelIf(q != s, "escaped")
		o.LabelIf(strings.Contains(q, "+"), "space")
		o.LabelIf(len(q) > 64, "long")
	}
	return nil
}

func genUnesc(s *eng.Src) escIn {
	in := genEsc(s)
	for i := range in.Strings {
		x := string(in.Strings[i])
		switch s.Intn(4) {
		case 0:
			x = url.QueryEscape(x)
		case 1:
			x = strings.ToLower(url.QueryEscape(x))
		case 2:
			var b strings.Builder
			n := s.Size(0, 10)
			for j := 0; j < n; j++ {
				switch s.Weighted(40, 35, 12, 13) {
				case 0:
					b.WriteString(eng.Pick(s, []string{"a", "F", "0", "g", "я", " ", "\xff"}))
				case 1:
					fmt.Fprintf(&b, []string{"%%%02x", "%%%02X"}[s.Intn(2)], s.Intn(256))
				case 2:
					b.WriteByte('+')
				default:
					b.WriteString(eng.Pick(s, []string{"%", "%4", "%g1", "%1g", "%%", "%+", "%4+"}))
				}
			}
			x = b.String()
		}
		in.Strings[i] = eng.Str(x)
	}
	return in
}

func runUnesc(in escIn, o *eng.Obs) error {
	var sb strings.Builder
	sb.Grow(in.Cap)
	sb.WriteString(string(in.Pre))
	type kept struct{ what, got, want string }
	var keep []kept
	for _, es := range in.Strings {
		s := string(es)
		want, err := url.QueryUnescape(s)
		got := escape.Unescape(s)
		o.Checks++
		if err == nil && got != want {
			return fmt.Errorf("Unescape(%q) = %q, want %q", s, got, want)
		}
		if len(got) > len(s) {
			return fmt.Errorf("Unescape(%q) = %q is longer", s, got)
		}
		// the part before the first damaged escape is settled too
		for i := 0; err != nil && i < len(s); i++ {
			if s[i] == '%' {
				if _, e := url.QueryUnescape(s[i:min2(i+3, len(s))]); e != nil {
					w, _ := url.QueryUnescape(s[:i])
					if !strings.HasPrefix(got, w) {
						return fmt.Errorf("Unescape(%q) = %q, want it to start with %q", s, got, w)
					}
					break
				}
				i += 2
			}
		}
		want = got
		before := sb.String()
		u := escape.UnescapeTo(s, &sb)
		keep = append(keep, kept{"UnescapeTo", u, want})
		if !strings.HasPrefix(sb.String(), before) {
			return fmt.Errorf("UnescapeTo(%q) changed the buffer from %q to %q", s, before, sb.String())
		}
		before = sb.String()
		n, t := escape.UnescapeNameTo(s, &sb)
		keep = append(keep, kept{"UnescapeNameTo, name", n, want}, kept{"UnescapeNameTo, tag", t, "__name__=" + want})
		if !strings.HasPrefix(sb.String(), before) {
			return fmt.Errorf("UnescapeNameTo(%q) changed the buffer from %q to %q", s, before, sb.String())
		}
		for _, k := range keep {
			o.Checks++
			if k.got != k.want {
				return fmt.Errorf("after %q in %q: %s = %q, want %q", s, in.Strings, k.what, k.got, k.want)
			}
		}
		o.LabelIf(err == nil && got != s, "unescaped")
		o.LabelIf(err != nil, "damaged escape")
		if got != s {
			o.NonTrivial = true
		}
	}
	return nil
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func enumEsc(thorough bool, yield func(escIn) bool) {
	syms := []string{"a", " ", "+", "%", "/", "я", "4", "\xff", "=", "?", "f"}
	n := 4
	if thorough {
		n = 5
	}
	for i := 0; i < 256; i++ {
		for _, x := range []string{string([]byte{byte(i)}), string([]byte{byte(i), 'a'}), string([]byte{'a', byte(i)}), string([]byte{' ', byte(i), '+'})} {
			if !yield(escIn{Strings: []eng.Str{eng.Str(x)}}) {
				return
			}
		}
	}
	var rec func(p string, k int) bool
	rec = func(p string, k int) bool {
		if !yield(escIn{Strings: []eng.Str{eng.Str(p)}}) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, t := range syms {
			if !rec(p+t, k-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

func c15() *eng.Prop {
	return &eng.Prop{
		ID:   "C15",
		Rule: "A case is one to three strings (plain, reserved, space, plus, percent, Unicode, control and invalid bytes, up to 120 symbols) escaped with Query, Path and their appending variants and read back, or strings with well-formed and damaged escapes read by all the unescaping functions into one buffer with earlier content; enumerated suites take every string of up to four symbols of a small alphabet and every byte in four places. Non-trivial: the text is changed by the function.",
		Assumptions: []string{
			"net/url is the reference for query strings; for paths it is the list of symbols RFC 3986 lets stand in a path, as net/url has it",
			"what becomes of a damaged escape is not judged, only that the text before it is read and nothing is invented",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("escape", 1500000, 8000000, genEsc, runEsc), escIn{Strings: []eng.Str{"a b"}}),
			eng.Generated("unescape", 1500000, 8000000, genUnesc, runUnesc),
			eng.Enumerated("escape-small-scope", enumEsc, runEsc),
			eng.Enumerated("unescape-small-scope", enumEsc, runUnesc),
			eng.Enumerated("escape-sizes", sizedEsc(false), runEsc),
			eng.Enumerated("unescape-sizes", sizedEsc(true), runUnesc),
		},
	}
}
