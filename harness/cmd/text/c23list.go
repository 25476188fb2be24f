package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
)

// --- C23: a list of plain values

type listIn struct {
	Vals  []eng.Str `json:"vals"`
	Texts []eng.Str `json:"texts"`
}

func genListItem(s *eng.Src) listIn {
	al := gen.Alphabet(s, gen.Opt{})
	var in listIn
	n := 2 + s.Weighted(40, 30, 20, 10)
	if s.Rare(50) {
		n += s.Size(5, 120)
	}
	word := func(lo, hi int) eng.Str {
		return eng.Str(strings.ReplaceAll(gen.Word(s, al, lo, hi), ",", "_"))
	}
	for i := 0; i < n; i++ {
		if s.Prob(10) {
			in.Vals = append(in.Vals, "")
		} else {
			in.Vals = append(in.Vals, word(1, 4))
		}
	}
	for k := 1 + s.Intn(4); k > 0; k-- {
		x := string(word(0, 4))
		if s.Prob(70) {
			x = string(word(0, 3)) + string(eng.Pick(s, in.Vals)) + string(word(0, 3))
		}
		if s.Prob(30) {
			x = string(eng.Pick(s, in.Vals)) + x
		}
		if s.Prob(5) {
			x = "\xd1" + x
		}
		in.Texts = append(in.Texts, eng.Str(x))
	}
	return in
}

func runListItem(in listIn, o *eng.Obs) error {
	set := map[string]bool{}
	for _, v := range in.Vals {
		if strings.ContainsAny(string(v), "[]{}*?,") {
			return nil
		}
		set[string(v)] = true
	}
	optional := set[""]
	delete(set, "")
	var vals []string
	for v := range set {
		vals = append(vals, v)
	}
	sort.Strings(vals)
	text := "{" + strings.Join(eng.Plain(in.Vals), ",") + "}"
	it, _, err := items.NextWildcardItem(text)
	if err != nil {
		return fmt.Errorf("NextWildcardItem(%q): %v", text, err)
	}
	list, ok := it.(items.ItemList)
	if !ok {
		// one value is read as a literal
		if len(vals)+map[bool]int{true: 1}[optional] > 1 {
			return fmt.Errorf("NextWildcardItem(%q) gives %T", text, it)
		}
		o.Label("no list")
		return nil
	}
	o.Checks++
	if list.Len() != len(vals) || list.IsOptional() != optional {
		return fmt.Errorf("%q: %d values, optional %v; want %d, %v", text, list.Len(), list.IsOptional(), len(vals), optional)
	}
	m := list.Map()
	if len(m) != len(vals)+map[bool]int{true: 1}[optional] {
		return fmt.Errorf("%q: Map holds %d values: %v", text, len(m), m)
	}
	for _, v := range vals {
		if _, ok := m[v]; !ok {
			return fmt.Errorf("%q: Map does not hold %q", text, v)
		}
	}
	if _, ok := m[""]; ok != optional {
		return fmt.Errorf("%q: Map holds the empty value: %v", text, ok)
	}
	lo, hi := -1, 0
	ascii := true
	var first [256]bool
	for _, v := range vals {
		if lo == -1 || len(v) < lo {
			lo = len(v)
		}
		if len(v) > hi {
			hi = len(v)
		}
		ascii = ascii && v[0] < 128
		first[v[0]] = true
	}
	if optional {
		lo = 0
	}
	if list.MinLen() > lo || list.MaxLen() < hi {
		return fmt.Errorf("%q: lengths %d..%d, want %d..%d", text, list.MinLen(), list.MaxLen(), lo, hi)
	}
	for _, et := range in.Texts {
		t := string(et)
		// every value answers for itself, whatever their order is
		var pre, at []string
		for i := 0; i < list.Len(); i++ {
			o.Checks++
			if k := list.MatchN(t, i); k >= 0 {
				if k > len(t) {
					return fmt.Errorf("%q: MatchN(%q, %d) = %d", text, t, i, k)
				}
				pre = append(pre, t[:k])
			}
			if k, n := list.FindN(t, i); k >= 0 {
				if k+n > len(t) || k != strings.Index(t, t[k:k+n]) {
					return fmt.Errorf("%q: FindN(%q, %d) = %d, %d", text, t, i, k, n)
				}
				at = append(at, t[k:k+n])
			}
		}
		var wantPre, wantAt []string
		for _, v := range vals {
			if strings.HasPrefix(t, v) {
				wantPre = append(wantPre, v)
			}
			if strings.Contains(t, v) {
				wantAt = append(wantAt, v)
			}
		}
		sort.Strings(pre)
		sort.Strings(at)
		if strings.Join(pre, ",") != strings.Join(wantPre, ",") || len(pre) != len(wantPre) {
			return fmt.Errorf("%q: values at the start of %q: %q, want %q", text, t, pre, wantPre)
		}
		if strings.Join(at, ",") != strings.Join(wantAt, ",") || len(at) != len(wantAt) {
			return fmt.Errorf("%q: values found in %q: %q, want %q", text, t, at, wantAt)
		}
		if k, ok := list.FindFirst(t); ok {
			want := -1
			for i := 0; i < len(t) && want < 0; i++ {
				if first[t[i]] {
					want = i
				}
			}
			if !ascii || k != want {
				return fmt.Errorf("%q: FindFirst(%q) = %d, want %d", text, t, k, want)
			}
			o.Label("search of the first symbol")
		}
		if may, ok := list.MatchFirst(t); ok {
			if want := t != "" && first[t[0]]; may != want {
				return fmt.Errorf("%q: MatchFirst(%q) = %v, want %v", text, t, may, want)
			}
		} else if !may && len(wantPre) > 0 {
			return fmt.Errorf("%q: MatchFirst(%q) = false, but it starts with %q", text, t, wantPre)
		}
		if k, flag := list.MatchLast(t); flag == items.FindDone {
			want := -1
			for _, v := range vals {
				if strings.HasSuffix(t, v) {
					want = len(t) - len(v)
				}
			}
			if (k >= 0) != (want >= 0) {
				return fmt.Errorf("%q: MatchLast(%q) = %d, want %d", text, t, k, want)
			}
		}
		o.LabelIf(len(wantPre) > 1, "several values at the start")
		o.LabelIf(len(wantAt) > 0, "found")
		o.NonTrivial = o.NonTrivial || len(wantAt) > 0
	}
	o.LabelIf(optional, "optional")
	o.LabelIf(!ascii, "not ASCII")
	return nil
}

// --- C23: literals put together piece by piece

type joinIn struct {
	Start eng.Str   `json:"start"`
	Ops   []string  `json:"ops"`
	Args  []eng.Str `json:"args"`
}

var joinOps = []string{"add", "prepend", "byte", "prepend byte", "rune", "prepend rune"}

func genJoin(s *eng.Src) joinIn {
	al := gen.Alphabet(s, gen.Opt{})
	in := joinIn{Start: eng.Str(gen.Word(s, al, 0, 3))}
	for k := 1 + s.Intn(5); k > 0; k-- {
		in.Ops = append(in.Ops, eng.Pick(s, joinOps))
		in.Args = append(in.Args, eng.Str(gen.Word(s, al, 1, 3)))
	}
	return in
}

func runJoin(in joinIn, o *eng.Obs) error {
	want := string(in.Start)
	var it *items.String
	if r := []rune(want); len(r) == 1 && len(in.Args) > 0 && len(in.Ops) > 0 {
		// a single symbol grows to a literal
		x := string(in.Args[0])
		switch {
		case r[0] < 128 && in.Ops[0] == "byte":
			it, want = items.Byte(r[0]).AppendByte('x'), want+"x"
		case r[0] < 128 && in.Ops[0] == "rune":
			it, want = items.Byte(r[0]).AppendRune('ё'), want+"ё"
		case r[0] < 128:
			it, want = items.Byte(r[0]).Append(x), want+x
		case in.Ops[0] == "byte":
			it, want = items.Rune(r[0]).AppendByte('x'), want+"x"
		case in.Ops[0] == "rune":
			it, want = items.Rune(r[0]).AppendRune('世'), want+"世"
		default:
			it, want = items.Rune(r[0]).Append(x), want+x
		}
		o.Label("from a symbol")
	} else {
		it, _ = items.NewString(want).(*items.String)
	}
	if it == nil {
		return fmt.Errorf("NewString(%q) is no *String", want)
	}
	for i, op := range in.Ops {
		x := string(in.Args[i])
		r := []rune(x)[0]
		b := byte('a' + r%26)
		switch op {
		case "add":
			it.Add(x)
			want += x
		case "prepend":
			it.Prepend(x)
			want = x + want
		case "byte":
			it.AddByte(b)
			want += string(rune(b))
		case "prepend byte":
			it.PrependByte(b)
			want = string(rune(b)) + want
		case "rune":
			it.AddRune(r)
			want += string(r)
		default:
			it.PrependRune(r)
			want = string(r) + want
		}
		o.Checks++
		if it.String() != want || it.S != want {
			return fmt.Errorf("%q after %q of %q: %q, want %q", in.Start, in.Ops[:i+1], in.Args[:i+1], it.String(), want)
		}
		if k, _ := it.Match(want + "!"); k != len(want) || it.MinLen() != len(want) || it.MaxLen() != len(want) {
			return fmt.Errorf("literal %q: Match %d, lengths %d..%d", want, k, it.MinLen(), it.MaxLen())
		}
	}
	o.NonTrivial = len(in.Ops) > 1
	return nil
}
