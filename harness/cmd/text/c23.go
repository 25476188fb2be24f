package main

import (
	"fmt"
	"strings"

	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

// --- C23: one item of a glob on its own

type itemIn struct {
	Item  eng.Str   `json:"item"` // literal, class or a run of ?
	Next  eng.Str   `json:"next"` // what follows in the glob
	Texts []eng.Str `json:"texts"`
}

func genItem(s *eng.Src) itemIn {
	al := gen.Alphabet(s, gen.Opt{})
	in := itemIn{}
	switch s.Intn(3) {
	case 0:
		in.Item = eng.Str(gen.Word(s, al, 1, 4))
	case 1:
		in.Item = eng.Str("[" + gen.ClassBody(s, al, gen.Opt{}, false) + "]")
	default:
		in.Item = eng.Str(strings.Repeat("?", 1+s.Intn(3)))
	}
	in.Next = eng.Str(eng.Pick(s, []string{"", "*", "?a", "{a,b}", "[ab]"}))
	nodes, err := ref.ParseGlob(string(in.Item))
	if err != nil {
		return in
	}
	for k := 1 + s.Intn(4); k > 0; k-- {
		x := gen.Target(s, al, nodes)
		switch s.Intn(4) {
		case 1:
			x += gen.Word(s, al, 0, 4)
		case 2:
			x = gen.Word(s, al, 0, 4) + x
		case 3:
			x = gen.Word(s, al, 0, 3) + x + gen.Word(s, al, 0, 3)
		}
		in.Texts = append(in.Texts, eng.Str(x))
	}
	return in
}

func runItem(in itemIn, o *eng.Obs) error {
	nodes, err := ref.ParseGlob(string(in.Item))
	if err != nil || len(nodes) == 0 {
		return nil
	}
	var it items.Item
	rest := string(in.Next)
	if in.Item[0] == '?' {
		it = items.Any(len(in.Item))
	} else {
		it, rest, err = items.NextWildcardItem(string(in.Item + in.Next))
		if err != nil {
			return fmt.Errorf("NextWildcardItem(%q): %v", in.Item+in.Next, err)
		}
		if in.Item[0] != '[' && in.Next == "" {
			rest = ""
		}
		if it == nil || rest != string(in.Next) {
			return fmt.Errorf("NextWildcardItem(%q) = %v and leaves %q, want %q", in.Item+in.Next, it, rest, in.Next)
		}
	}
	if in.Item[0] == '[' {
		if r := items.NewRunesRanges(string(in.Item)); r == nil {
			return fmt.Errorf("NewRunesRanges(%q) = nil", in.Item)
		} else if r.String() != it.String() {
			if len(r.String()) != len(it.String())+2 {
				return fmt.Errorf("NewRunesRanges(%q) = %q, NextWildcardItem gives %q", in.Item, r, it)
			}
			// one symbol is read as a literal; judge the class in half of the cases
			if len(in.Texts)%2 == 0 {
				it = r
			}
		} else {
			it = r
		}
	}
	lo, hi := ref.Bounds(nodes)
	o.Checks++
	if it.MinLen() > lo || (it.MaxLen() != -1 && it.MaxLen() < hi) {
		return fmt.Errorf("item %q: lengths %d..%d, want %d..%d", in.Item, it.MinLen(), it.MaxLen(), lo, hi)
	}
	found := false
	for _, es := range in.Texts {
		s := string(es)
		pre, suf, idx, end := -1, -1, -1, -1
		// ? takes a symbol as it is decoded, never the beginning of one
		whole := map[int]bool{len(s): true}
		for i := range s {
			whole[i] = true
		}
		cut := func(k int) bool { return in.Item[0] != '?' || whole[k] }
		for k := 0; k <= len(s) && pre < 0; k++ {
			if cut(k) && ref.Match(nodes, s[:k]) {
				pre = k
			}
		}
		for k := len(s); k >= 0 && suf < 0; k-- {
			if ref.Match(nodes, s[k:]) {
				suf = k
			}
		}
		for i := 0; i <= len(s) && idx < 0; i++ {
			for k := i; k <= len(s); k++ {
				if cut(i) && cut(k) && ref.Match(nodes, s[i:k]) {
					idx, end = i, k
					break
				}
			}
		}
		o.Checks += 2
		got, flag := it.Match(s)
		if flag != items.FindDone || got != pre {
			return fmt.Errorf("item %q: Match(%q) = %d (%d), want %d", in.Item, s, got, flag, pre)
		}
		gi, gl, flag := it.Find(s)
		switch {
		case gi != idx:
			return fmt.Errorf("item %q: Find(%q) = %d, want %d", in.Item, s, gi, idx)
		case idx >= 0 && gl != end-idx:
			return fmt.Errorf("item %q: Find(%q) = %d of length %d, want %d", in.Item, s, gi, gl, end-idx)
		case flag != items.FindDone && flag != items.FindForwarded:
			return fmt.Errorf("item %q: Find(%q) is not supported", in.Item, s)
		}
		got, flag = it.MatchLast(s)
		if flag == items.FindDone {
			o.Checks++
			o.Label("suffix")
			if got != suf {
				return fmt.Errorf("item %q: MatchLast(%q) = %d, want %d", in.Item, s, got, suf)
			}
		}
		found = found || idx >= 0
		o.LabelIf(pre >= 0, "starts with it")
		o.LabelIf(suf >= 0, "ends with it")
		o.LabelIf(idx > 0, "inside")
		o.LabelIf(idx < 0, "not found")
	}
	o.NonTrivial = found
	return nil
}

func c23() *eng.Prop {
	return &eng.Prop{
		ID:   "C23",
		Rule: "A case is one item of a glob (literal, class, run of ?) read from the front of a glob, and up to four texts that start with it, end with it, hold it inside, or almost do; what it says about a prefix, a suffix and the first occurrence is compared with the reference on every substring; a class is read by NewRunesRanges as well. Or a list of plain values (up to 120) with texts, each value being matched and searched for by itself; or a literal grown from both ends, symbol by symbol. Non-trivial: an item or value occurs in some text; two steps of growth.",
		Assumptions: []string{
			"an item may say that it does not support the search of a suffix",
			"lists with wildcards in their values and stars are searched by the glob that holds them and are covered there",
			"the values of a list may be numbered in any order",
			"the search for a first symbol may be unsupported",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("item", 1500000, 6000000, genItem, runItem),
				itemIn{"a", "*", []eng.Str{"", "a", "ba", "xay"}},
				itemIn{"[ab]", "", []eng.Str{"xxa", "a"}},
				itemIn{"[aя]", "", []eng.Str{"xxa", "яx"}}),
			eng.Generated("list", 600000, 6000000, genListItem, runListItem),
			eng.Generated("join", 300000, 2000000, genJoin, runJoin),
			eng.Enumerated("item-sizes", sizedItem, runItem),
			eng.Enumerated("list-sizes", sizedList, runListItem),
			eng.Enumerated("join-sizes", sizedJoin, runJoin),
		},
	}
}
