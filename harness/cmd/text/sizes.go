package main

import (
	"fmt"
	"strings"

	"verifharness/eng"
	"verifharness/share"
)

// sizes: inputs of which something counts n

func sizedEsc(unesc bool) func(th bool, yield func(escIn) bool) {
	return func(th bool, yield func(escIn) bool) {
		for _, n := range append(share.Ladder(th), share.Huge()...) {
			r := func(x string) string { return strings.Repeat(x, n) }
			xs := []string{r("a"), r(" "), r("%"), r("я"), r("a "), r("/"), r("a") + " ", " " + r("a"), r("a") + "%", r("\xff"), r("a+") + "b", "世" + r("a"), r("a") + "=" + r("b")}
			if unesc {
				xs = append(xs, r("%41"), r("+"), r("%d1%8f"), r("a")+"%20", r("a")+"%2", "%20"+r("a"), r("%20a"), r("%41")+"%4", r("a")+"%zz", r("%41")+"+")
			}
			for k, x := range xs {
				for _, c := range []int{0, n, 3 * n} {
					in := escIn{Strings: []eng.Str{eng.Str(x), "a b", eng.Str(x)}, Cap: c}
					if k%2 == 0 {
						in.Pre = eng.Str(r("p"))
					}
					if !yield(in) {
						return
					}
				}
			}
		}
	}
}

func sizedSet(th bool, yield func(setIn) bool) {
	for _, n := range share.Ladder(th) {
		for _, k := range []struct {
			at  rune
			d   rune
			len rune
		}{{0x4e00, 2, 0}, {0x4e00, 5, 1}, {0x4e00, 1, 0}, {0x400, 3, 1}, {0x10000, 7, 3}} {
			var b, rev strings.Builder
			var all []rune
			for i := 0; i < n; i++ {
				c := k.at + k.d*rune(i)
				d := k.at + k.d*rune(n-1-i)
				if c+k.len >= 0xd800 && c < 0xe000 || k.at == 0x400 && c+k.len >= 0x800 {
					break
				}
				all = append(all, c)
				b.WriteRune(c)
				if k.len > 0 {
					b.WriteString("-" + string(c+k.len))
				}
				if k.at != 0x400 {
					rev.WriteRune(d)
					if k.len > 0 {
						rev.WriteString("-" + string(d+k.len))
					}
				}
			}
			var t []eng.Str
			for _, i := range []int{0, 1, len(all) / 2, len(all) - 1} {
				if i < len(all) {
					c := all[i]
					t = append(t, eng.Str("x"+string(c)+"y"), eng.Str(string(c-1)+"x"), eng.Str(string(c+k.len)), eng.Str("\xff"+string(c+k.len+1)+string(c)))
				}
			}
			for _, x := range []string{b.String(), rev.String(), "a-z" + b.String() + "0", b.String() + "az"} {
				if !yield(setIn{Init: eng.Str(x), Texts: t}) || !yield(setIn{Init: "a", Ops: []setOp{{"adds", eng.Str(string(all))}, {"merge", ""}}, Texts: t}) {
					return
				}
				if n < 130 || th {
					var ops []setOp
					for _, c := range all {
						ops = append(ops, setOp{"add", eng.Str(string(c))})
					}
					if !yield(setIn{Init: "я", Ops: append(ops, setOp{"merge", ""}), Texts: t}) {
						return
					}
				}
			}
		}
		if !farSymbol(n, yield) {
			return
		}
	}
	for _, n := range share.Huge() {
		if !farSymbol(n, yield) {
			return
		}
	}
}

// farSymbol looks for a symbol far into a text.
func farSymbol(n int, yield func(setIn) bool) bool {
	for _, fill := range []string{"x", "я", "世", "\xff", "-"} {
		f := strings.Repeat(fill, n)
		if !yield(setIn{Init: "aяc-e", Texts: []eng.Str{eng.Str(f + "a"), eng.Str("a" + f), eng.Str(f + "d" + f), eng.Str(f + "я"), eng.Str(f)}}) {
			return false
		}
		if !yield(setIn{Init: "ac-e", Texts: []eng.Str{eng.Str(f + "a"), eng.Str("a" + f), eng.Str(f + "d" + f), eng.Str(f + "c"), eng.Str(f + "я" + f), eng.Str(f)}}) {
			return false
		}
	}
	return true
}

func sizedASCII(th bool, yield func(asciiIn) bool) {
	for _, n := range append(share.Ladder(th), share.Huge()...) {
		f, g := strings.Repeat("x", n), strings.Repeat("\x80", n)
		if !yield(asciiIn{Init: "ab\x7f", Texts: []eng.Str{eng.Str(f + "a"), eng.Str("a" + f), eng.Str(f + "b" + f), eng.Str(f), eng.Str(g + "\x7f" + g), eng.Str(f + "a" + g + "b" + f)}}) {
			return
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i % 128)
		}
		if !yield(asciiIn{Init: eng.Str(b), Texts: []eng.Str{eng.Str(b), "a", "\x7f\x80", eng.Str(g)}}) {
			return
		}
	}
}

func sizedSkip(th bool, yield func(skipIn) bool) {
	for _, n := range append(share.Ladder(th), share.Huge()...) {
		for _, x := range []string{"a", "я", "世", "\U00010000", "\xff", "aя", "\xd1a", "世\xe4\xb8"} {
			t := strings.Repeat(x, n)
			for _, k := range []int{n - 1, n, n + 1, 2*n - 1, 2 * n, 3 * n, 3*n + 1, n / 2} {
				if !yield(skipIn{eng.Str(t), k}) {
					return
				}
			}
		}
	}
}

func sizedStore(th bool, yield func(storeIn) bool) {
	for _, n := range share.Huge() {
		in := storeIn{Ops: []storeOp{{"grow", "", n}, {"store", "a", n}, {"store", "b", n - 1}, {"store", "c", n + 1}, {"store", "d", 1<<31 - n}, {"init", "", 0}, {"store", "e", n << 16}, {"store", "f", n<<16 + 1}, {"grow", "", n + 2}, {"store", "g", n<<16 - 1}}}
		if !yield(in) {
			return
		}
	}
	for _, n := range share.HugeFew() {
		var in storeIn
		for i := 0; i < n; i++ {
			in.Ops = append(in.Ops, storeOp{"store", "q", n - i + 5})
		}
		in.Ops = append(in.Ops, storeOp{"grow", "", 7}, storeOp{"store", "z", n}, storeOp{"init", "", 0}, storeOp{"store", "y", n + 9})
		if !yield(in) {
			return
		}
	}
	for _, n := range share.Ladder(th) {
		if n > 520 && !th || n > 1100 {
			continue
		}
		for k := 0; k < 5; k++ {
			in := storeIn{Zero: k%2 == 1}
			if k > 2 {
				in.Ops = append(in.Ops, storeOp{"grow", "", n})
			}
			for i := 0; i < n; i++ {
				x := i
				switch k {
				case 1:
					x = n - i
				case 2:
					x = i * 37 % (n + 1)
				}
				in.Ops = append(in.Ops, storeOp{"store", eng.Str(fmt.Sprint("q", i)), x})
			}
			in.Ops = append(in.Ops, storeOp{"grow", "", n + 1}, storeOp{"store", "z", 0}, storeOp{"grow", "", n - 1}, storeOp{"init", "", 0}, storeOp{"grow", "", 2 * n}, storeOp{"store", "y", 7}, storeOp{"store", "x", 3})
			if !yield(in) {
				return
			}
		}
	}
}

func sizedItem(th bool, yield func(itemIn) bool) {
	for _, n := range share.Ladder(th) {
		if n > 130 && !th || n > 600 {
			break // the reference looks at every substring
		}
		r := strings.Repeat
		L := r("abcde", n)[:n]
		U := r("я", n)
		for _, in := range []itemIn{
			{eng.Str(L), "*", []eng.Str{eng.Str(L), eng.Str("x" + L), eng.Str(L + "x"), eng.Str(L[1:] + "xyz"), eng.Str(L[:n-1])}},
			{eng.Str(U), "?a", []eng.Str{eng.Str(U), eng.Str("x" + U), eng.Str(U + "x")}},
			{eng.Str(r("?", n)), "", []eng.Str{eng.Str(L), eng.Str(U), eng.Str(L + "x"), eng.Str(L[1:]), eng.Str(U[2:])}},
			{"[ac-eя]", "", []eng.Str{eng.Str(r("x", n) + "a"), eng.Str(r("世", n) + "d"), eng.Str("я" + r("x", n)), eng.Str(r("\xff", n) + "я")}},
			{"ab", "{a,b}", []eng.Str{eng.Str(r("x", n) + "ab"), eng.Str(r("a", n) + "b"), eng.Str(r("b", n) + "a")}},
			{"a", "*", []eng.Str{eng.Str(r("x", n) + "a"), eng.Str(r("я", n) + "ab")}},
			{"я", "*", []eng.Str{eng.Str(r("x", n) + "я"), eng.Str(r("\xd1", n) + "я")}},
		} {
			if !yield(in) {
				return
			}
		}
	}
}

func sizedList(th bool, yield func(listIn) bool) {
	for _, n := range share.Ladder(th) {
		for k := 0; k < 4; k++ {
			v := func(i int) string {
				switch k {
				case 0:
					return fmt.Sprintf("w%04d", i)
				case 1:
					return string(rune(0x4e00+i)) + "x"
				case 2:
					return strings.Repeat("a", i%50) + fmt.Sprint("b", i, ".")
				}
				return string(rune('!'+i%90)) + fmt.Sprint(i)
			}
			var in listIn
			for i := 0; i < n; i++ {
				x := strings.NewReplacer("[", "_", "]", "_", "{", "_", "}", "_", "*", "_", "?", "_", ",", "_").Replace(v(i))
				in.Vals = append(in.Vals, eng.Str(x))
			}
			in.Vals = append(in.Vals, "zz")
			if n%2 == 0 {
				in.Vals = append(in.Vals, "")
			}
			for _, i := range []int{0, n / 2, n - 1} {
				in.Texts = append(in.Texts, in.Vals[i]+"x", "xx"+in.Vals[i], in.Vals[i][1:]+"zz")
			}
			if !yield(in) {
				return
			}
		}
	}
}

func sizedJoin(th bool, yield func(joinIn) bool) {
	for _, n := range share.Ladder(th) {
		if n > 260 && !th {
			break
		}
		for k := range joinOps {
			in := joinIn{Start: "ab"}
			for i := 0; i < n; i++ {
				in.Ops = append(in.Ops, joinOps[(k+i/3)%len(joinOps)])
				in.Args = append(in.Args, eng.Str(string(rune('a'+i%26))+[]string{"", "я", "x"}[i%3]))
			}
			if !yield(in) {
				return
			}
		}
	}
}

func sizedWild(th bool, yield func(wildIn) bool) {
	for _, n := range append(share.Ladder(th), share.Huge()...) {
		for _, c := range []string{"*", "?", "[", "]", "{", "}", "a*"} {
			for _, fill := range []string{"a", "я"} {
				f := strings.Repeat(fill, n)
				if !yield(wildIn{eng.Str(f + c)}) || !yield(wildIn{eng.Str(c + f)}) || !yield(wildIn{eng.Str(f + c + f)}) || !yield(wildIn{eng.Str(strings.Repeat(c, n))}) {
					return
				}
			}
		}
	}
}

func sizedCommon(th bool, yield func(commonIn) bool) {
	for _, n := range append(share.Ladder(th), share.Huge()...) {
		long := strings.Repeat("abя", n)
		var many, last commonIn
		for i := 0; i < n; i++ {
			many.Globs = append(many.Globs, eng.Str(fmt.Sprintf("prefix%04d", i)))
			last.Globs = append(last.Globs, "prefix*")
		}
		last.Globs = append(last.Globs, "pr?")
		for _, in := range []commonIn{many, last,
			{[]eng.Str{eng.Str(long + "x*"), eng.Str(long + "y")}}, {[]eng.Str{eng.Str(long), eng.Str(long)}}, {[]eng.Str{eng.Str(long + "*"), eng.Str(long + "a"), eng.Str("ab*")}}} {
			if !yield(in) {
				return
			}
		}
	}
}

// oneDiffers gives pairs of globs of n elements of which one differs.
func oneDiffers(n int) (out []eqIn) {
	for _, k := range []struct {
		el, other string
		sep       string
		pre, post string
	}{
		{"a?", "b?", "", "", ""},
		{"a?", "b?", "", "x*", "y"},
		{"a?", "b?", "", "{", ",zz}"},
		{"a?", "a[bc]", "", "x{zz*,", "}"},
		{"[ab]c", "[ad]c", "", "", ""},
		{"[ab]c", "[ad]c", "", "{", ",zz}"},
		{"[ab]", "[ac]", "", "{", ",zz}"},
		{"[ab]", "[ac]", "", "*{zz?,", "}"},
		{"c[ab]", "c[ac]", "", "", ""},
		{"c[ab]", "c[ac]", "", "x{", ",}"},
		{"{a,bb}", "{a,bc}", "", "", ""},
		{"{a,bb}?", "{a,b}?", "", "", ""},
		{"$", "$x", ",", "{", ",zz}"},
		{"$a", "$b", ",", "{", ",zz}"},
		{"$a", "$b", ",", "{", "}"},
		{"$a?", "$b?", ",", "{", "}x"},
		{"$", "$x", ",", "*{", ",zz}"},
		{"$?", "$x?", ",", "{", ",zz}"},
		{"$?", "$x?", ",", "x{", ",}y"},
		{"$*", "$?", ",", "{", ",zz}"},
		{"R", "Rr", "", "[", "]"},
		{"R", "Rr", "", "*[a-c", "]b"},
	} {
		els := func(i int, x string) string {
			x = strings.ReplaceAll(x, "$", fmt.Sprintf("w%04d", i))
			x = strings.ReplaceAll(x, "Rr", string(rune(0x4e00+5*i))+"-"+string(rune(0x4e02+5*i)))
			return strings.ReplaceAll(x, "R", string(rune(0x4e00+5*i))+"-"+string(rune(0x4e01+5*i)))
		}
		x := make([]string, n)
		for i := range x {
			x[i] = els(i, k.el)
		}
		a := k.pre + strings.Join(x, k.sep) + k.post
		for j, i := range []int{n - 1, 0, n / 2} {
			if j > 0 && i == n-1 || j == 2 && i == 0 {
				continue
			}
			y := append([]string(nil), x...)
			y[i] = els(i, k.other)
			out = append(out, eqIn{eng.Str(a), eng.Str(k.pre + strings.Join(y, k.sep) + k.post)})
		}
	}
	return out
}

func sizedEq(th bool, yield func(eqIn) bool) {
	for _, n := range share.Huge() {
		gs := share.HugeGlobs(n)
		for i, g := range gs {
			for _, b := range []string{g.Glob, g.Glob + "x", "a" + g.Glob, g.Glob[:len(g.Glob)-1], gs[(i+1)%len(gs)].Glob} {
				if !yield(eqIn{eng.Str(g.Glob), eng.Str(b)}) {
					return
				}
			}
		}
	}
	for _, n := range share.Ladder(th) {
		for _, in := range oneDiffers(n) {
			if !yield(in) {
				return
			}
		}
		gs := share.SizedGlobs(n)
		for i, g := range gs {
			if n > 130 && !th && i%4 != n%4 {
				continue
			}
			for _, b := range []string{g.Glob, g.Glob + "x", "a" + g.Glob, gs[(i+1)%len(gs)].Glob} {
				if !yield(eqIn{eng.Str(g.Glob), eng.Str(b)}) {
					return
				}
			}
			// one symbol of a literal, a list or a class differs
			rs := []rune(g.Glob)
			for k := len(rs) - 1; k >= 0; k-- {
				if rs[k] >= 'a' && rs[k] <= 'y' || rs[k] >= 0x4e00 {
					rs[k]++
					break
				}
			}
			if !yield(eqIn{eng.Str(g.Glob), eng.Str(string(rs))}) {
				return
			}
		}
	}
}
