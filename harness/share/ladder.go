package share

import (
	"fmt"
	"sort"
	"strings"

	"verifharness/eng"
)

// Ladder gives the sizes the size suites take: every small one and those
// around powers of two and of ten.
func Ladder(th bool) []int {
	var r []int
	lo := 40
	if th {
		lo = 320
	}
	for n := 1; n <= lo; n++ {
		r = append(r, n)
	}
	for _, n := range []int{47, 48, 49, 50, 51, 60, 62, 63, 64, 65, 66, 72, 80, 90, 96, 99, 100, 101, 110, 120, 126, 127, 128, 129, 130, 150, 180, 199, 200, 201, 230,
		254, 255, 256, 257, 258, 300, 383, 384, 385, 400, 499, 500, 501, 510, 511, 512, 513, 600, 700, 767, 768, 769, 900, 999, 1000, 1001, 1022, 1023, 1024, 1025} {
		if n > lo {
			r = append(r, n)
		}
	}
	if th {
		r = append(r, 1280, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000)
	}
	// and around the numbers written in the code
	have := map[int]bool{}
	for _, n := range r {
		have[n] = true
	}
	near := eng.DictInts(2, 1030)
	if len(near) > 60 {
		near = near[:60]
	}
	far := eng.DictInts(1031, 5000)
	if len(far) > 4 {
		far = far[:4]
	}
	for _, n := range append(near, far...) {
		for _, m := range []int{n - 1, n, n + 1} {
			if !have[m] {
				have[m] = true
				r = append(r, m)
			}
		}
	}
	sort.Ints(r)
	return r
}

// Named says whether n is a number written in the code, or next to one.
func Named(n int) bool {
	return len(eng.DictInts(n-1, n+1)) > 0
}

// SizedGlob is a glob of some size and strings on both sides of its language.
type SizedGlob struct {
	Shape   string
	Glob    string
	Strings []string
}

func rep(x string, n int) string {
	if n < 0 {
		n = 0
	}
	return strings.Repeat(x, n)
}

// words gives n different words of one length, w0000 and so on.
func words(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("w%04d", i)
	}
	return r
}

// grown gives n different words, none the beginning of another, of many
// lengths.
func grown(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = rep("a", i%97) + fmt.Sprintf("b%d.", i)
	}
	return r
}

// edges picks the first, the last and some places between.
func edges(n int) []int {
	seen := map[int]bool{}
	var r []int
	for _, i := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			r = append(r, i)
		}
	}
	return r
}

// change replaces the symbol at i.
func change(x string, i int) string {
	r := []rune(x)
	if i < 0 || i >= len(r) {
		return x
	}
	if r[i] == 'q' {
		r[i] = 'Q'
	} else {
		r[i] = 'q'
	}
	return string(r)
}

// near gives x and strings which differ from it a little.
func near(x string) []string {
	r := []rune(x)
	n := len(r)
	out := []string{x, x + "a", "a" + x}
	if n > 0 {
		out = append(out, string(r[:n-1]), string(r[1:]))
	}
	for _, i := range edges(n) {
		out = append(out, change(x, i))
	}
	return out
}

// SizedGlobs gives globs of which something counts n.
func SizedGlobs(n int) []SizedGlob {
	var out []SizedGlob
	add := func(shape, g string, ss ...[]string) {
		s := SizedGlob{Shape: shape, Glob: g}
		for _, x := range ss {
			s.Strings = append(s.Strings, x...)
		}
		out = append(out, s)
	}
	list := func(x ...string) []string { return x }
	var lit, uni strings.Builder
	for i := 0; i < n; i++ {
		lit.WriteByte("abcde"[i%5])
		uni.WriteRune([]rune("aя世b")[i%4])
	}
	L, U := lit.String(), uni.String()

	// literals
	add("literal", L, near(L))
	add("literal", U, near(U))
	add("literal and star", L+"*", near(L), near(L+"xyz"))
	add("star and literal", "*"+L, near(L), near("xyz"+L))
	add("star and literal", "*"+U, near(U), near("яz"+U))
	add("star inside", L+"*"+L, near(L+L), near(L+"x"+L), list(L, L+L[:n-1]))
	add("stars around", "*"+L+"*", near("xx"+L+"yy"), list(L, L[1:], L[:n-1]))
	add("stars around", "*"+U+"*", near("xя"+U+"yy"), list(U))
	add("? around", "?"+L+"?", near("x"+L+"я"))
	// ?
	q := rep("?", n)
	add("?", q, near(L), near(U))
	add("* ?", "*"+q, near(L), list(L+L, U, U+"x", "\xff"+L))
	add("? *", q+"*", near(L), list(L+L, U, U+"x"))
	add("a ? b", "a"+q+"b", near("a"+L+"b"), near("a"+U+"b"))
	add("* ? b", "*"+q+"b", near(L+"b"), list("xx"+U+"b", "b"))
	add("a * ?", "a*"+q, near("a"+L), list("axx"+U, "a"))
	add("? * ?", q+"*"+q, near(L+L), list(L, U+U, U+"x"+U))
	// stars for n symbols
	add("* for many", "x*y", near("x"+L+"y"), near("x"+U+"y"))
	add("* for many", "*y", near(L+"y"))
	add("* for many", "x*", near("x"+L))
	add("* for many", "*", list(L, U))
	add("* for many", "x*[bc]*y", list("x"+rep("a", n)+"b"+rep("a", n)+"y", "x"+rep("a", n)+"y"))
	add("* for many", "*{b,c}", list(rep("a", n)+"b", rep("a", n)+"bd"), list(rep("b", n)))
	add("* for many", "*?y", list(rep("a", n)+"y", "y"))
	add("many *", rep("*", n)+"a", list("a", "xa", "ab"))
	add("many *", "x"+rep("*", n)+"a?", list("xab", "xza", "xyya", "xyyab", "xaa", "xa"))
	add("many *", rep("*", n)+"b[a-c]*", list("ba", "xbc", "bd", "xxbb", "b"))
	add("many *", rep("*", n)+"{ab,c}?", list("abx", "xc", "xxcя", "ab"))
	// elements one after another
	add("classes", rep("[ab]", n), near(rep("ab", n)[:n]), list(rep("b", n), rep("c", n)))
	add("lists", rep("{a,b}", n), near(rep("ab", n)[:n]), list(rep("b", n), rep("c", n)))
	add("lists", rep("{a,bb}", n), near(rep("a", n)), list(rep("bb", n)))
	add("a ? a ?", rep("a?", n), near(rep("ab", n)), list(rep("aя", n)))
	add("a [] a []", rep("a[bc]", n), near(rep("ab", n)), list(rep("ac", n)))
	add("[] ? [] ?", rep("[a-c]?", n), near(rep("ab", n)), list(rep("cя", n)))
	if n <= 120 {
		// each star stands for nothing or one symbol
		x := strings.Builder{}
		y := strings.Builder{}
		for i := 0; i < n; i++ {
			c := string(rune('0' + i))
			if strings.ContainsAny(c, "[]{}*?,-") {
				c = "_"
			}
			x.WriteString(c + "*")
			y.WriteString(c)
			if i%2 == 0 {
				y.WriteByte(' ')
			}
		}
		add("stars", x.String(), list(y.String(), y.String()+"x", y.String()[1:], y.String()[:2*n/3]))
	}
	// lists
	w := words(n)
	some := func(pre, post string) (r []string) {
		for _, i := range edges(n) {
			r = append(r, pre+w[i]+post, pre+w[i][1:]+post)
		}
		r = append(r, pre+fmt.Sprintf("w%04d", n)+post, pre+post)
		return r
	}
	join := strings.Join(w, ",")
	add("list", "{"+join+"}", some("", ""))
	add("list and empty", "{,"+join+"}", some("", ""))
	for _, i := range edges(n) {
		r := append(append(append([]string{}, w[:i+1]...), w[i]), w[i:]...)
		add("list with a value repeated", "{"+strings.Join(r, ",")+"}", some("", "")[:2*len(edges(n))])
	}
	add("list with many repeated", "{"+rep("a,", n)+"b,"+rep("c,", n)+"c}", list("a", "b", "c", "d", ""))
	add("list with many repeated", "x{"+rep("aa,", n)+rep("bb*,", n)+"c}y", list("xaay", "xbby", "xcy", "xbbzy", "xy"))
	add("list with many repeated", "*{"+rep(",", n)+"b,"+rep("c,", n)+"d}", list("b", "xc", "d", ""))
	add("list with many repeated", "{b,"+rep("a?,", n)+"c,c}*z", list("bz", "axz", "cz", "az", "z"))
	add("list with all repeated", "x{"+join+","+join+"}", some("x", ""))
	add("list with most repeated", "*{"+strings.Join(w[:n-1], ",")+","+join+"}?", some("z", "x"))
	add("list inside", "x{"+join+"}y", some("x", "y"))
	add("list and empty inside", "x{"+join+",}y", some("x", "y"))
	add("list and star", "{"+join+"}*", some("", ""), some("", "zz"))
	add("star and list", "*{"+join+"}", some("", ""), some("zz", ""))
	add("star, list, literal", "*{"+join+"}z", some("", "z"), some("zz", "z"))
	add("? and list", "?{"+join+"}", some("", ""), some("z", ""))
	v := grown(n)
	var gr []string
	for _, i := range edges(n) {
		gr = append(gr, v[i], v[i]+"x", "x"+v[i], v[i][:len(v[i])-1])
	}
	add("list of lengths", "{"+strings.Join(v, ",")+"}", gr)
	add("list of lengths and ?", "{"+strings.Join(v, ",")+"}?", gr)
	add("long value", "{"+L+",zz}", near(L), list("zz"))
	add("long value", "x{"+U+",zz,}y", near("x"+U+"y"), list("xzzy", "xy"))
	add("long value", "*{"+L+",zz}", near("xx"+L), list("xzz"))
	add("long value, wild", "{"+L+"*,zz}", near(L), list("zz", L+"xx"))
	// values of lists of many elements
	add("value of ?", "{"+q+",zz}", near(L), near(U), list("zz"))
	add("value of a?", "x{"+rep("a?", n)+",}y", near("x"+rep("ab", n)+"y"), list("xy", "x"+rep("aя", n)+"y"))
	add("value of []", "{b,"+rep("[ab]", n)+"}c", near(rep("ab", n)[:n]+"c"), list("bc", rep("b", n)))
	add("value of a[]?", "{"+rep("a[bc]?", n)+",z*}", near(rep("abz", n)), list("z", rep("acя", n)))
	if n <= 300 {
		add("value of a?", "*{"+rep("a?", n)+"b,c}", near(rep("ab", n)+"b"), list("zz"+rep("aя", n)+"b", "zc"))
		add("value of a[]?", "*{z,"+rep("a[bc]?", n)+"}y", near(rep("abz", n)+"y"), list("zy", "x"+rep("acя", n)+"y"))
		add("value of a? and star", "{"+rep("a?", n)+"*b,c}d", near(rep("ab", n)+"xxbd"), list("cd", rep("aя", n)+"bd"))
		add("value of star and a?", "{*"+rep("a?", n)+",c}", near("x"+rep("ab", n)), list("c", rep("aя", n)))
		var nested []string
		for i := 1; i <= n; i++ {
			nested = append(nested, rep("a", i))
		}
		add("values inside of one another", "x{"+strings.Join(nested, ",")+"}y", list("x"+rep("a", n)+"y", "x"+rep("a", n+1)+"y", "xay", "xy", "x"+rep("a", n/2+1)+"y"))
		add("values inside of one another", "{"+strings.Join(nested, ",")+"}b", list(rep("a", n)+"b", rep("a", n+1)+"b", "ab", "b"))
		var a, b, c []string
		for _, x := range w {
			a, b, c = append(a, x+"*"), append(b, "*"+x), append(c, x+"?")
		}
		add("wild list", "{"+strings.Join(a, ",")+"}", some("", ""), some("", "x"))
		add("wild list", "{"+strings.Join(b, ",")+"}", some("", ""), some("x", ""))
		add("wild list", "x{"+strings.Join(c, ",")+",}", some("x", "z"), list("x"))
		add("star and wild list", "*{"+strings.Join(a, ",")+"}", some("", ""), some("zz", "x"))
		add("star and wild list", "*{"+strings.Join(c, ",")+"}", some("", ""), some("", "x"), some("zz", "x"))
		add("star and wild list", "*{"+strings.Join(c, ",")+",}y", some("", "xy"), some("zz", "xy"), list("y", "zzy"))
		// one value is longer or shorter than all others
		for _, i := range edges(n) {
			for _, d := range []string{"", "xyz1"} {
				x := append([]string(nil), w...)
				for k := range x {
					if k != i {
						x[k] += "xy"
					}
				}
				x[i] += d
				y := append([]string(nil), x...)
				for k := range y {
					y[k] += "?"
				}
				o := x[(i+1)%n]
				add("a length of its own", "{"+strings.Join(x, ",")+"}", list(x[i], x[i]+"x", o, o+"x", w[i]+"x"))
				add("a length of its own", "*{"+strings.Join(x, ",")+"}b", list(x[i]+"b", "z"+x[i]+"b", o+"b", "z"+o+"xb"))
				add("a length of its own", "{"+strings.Join(y, ",")+"}", list(x[i], x[i]+"x", o+"x", o+"xx", x[i]+"я"))
				add("a length of its own", "*{"+strings.Join(y, ",")+"}b", list(x[i]+"zb", "z"+x[i]+"яb", o+"zb", x[i]+"b"))
			}
		}
	}
	// classes
	var cl, cr strings.Builder
	for i := 0; i < n; i++ {
		cl.WriteRune(rune(0x4e00 + 2*i))
		cr.WriteString(string(rune(0x4e00+4*i)) + "-" + string(rune(0x4e01+4*i)))
	}
	s1 := func(k, d int) []string {
		return list(string(rune(0x4e00+k*(n-1))), string(rune(0x4e00+k*(n-1)+d)), string(rune(0x4e00+k*n)), string(rune(0x4e00+k*(n/2))), string(rune(0x4e00+k*(n/2)+d)), "a")
	}
	pre := func(p, q string, x []string) (r []string) {
		for _, y := range x {
			r = append(r, p+y+q)
		}
		return
	}
	add("class", "["+cl.String()+"]", s1(2, 1))
	add("class", "a["+cl.String()+"]*", pre("a", "zz", s1(2, 1)))
	add("class", "*["+cl.String()+"]", pre("a", "", s1(2, 1)))
	add("class of ranges", "["+cr.String()+"]", s1(4, 1), s1(4, 2))
	add("class of ranges", "*["+cr.String()+"a]b", pre("x", "b", s1(4, 1)), pre("", "b", s1(4, 2)))
	add("range", "["+string(rune(0x4e00))+"-"+string(rune(0x4e00+n-1))+"]", s1(1, 1))
	add("mixed class", "["+cl.String()+"a-z0]", s1(2, 1), list("0", "z", "я"))
	add("repeated members", "["+rep("ab", n)+"]", list("a", "b", "c"))
	if n < 60 {
		c := strings.Builder{}
		for i := 0; i < n; i++ {
			c.WriteRune(rune('A' + i))
		}
		body := strings.NewReplacer("[", "", "]", "", "\\", "", "^", "").Replace(c.String())
		add("ASCII class", "["+body+"]", list(body[:1], body[len(body)-1:], "~", body[len(body)/2:len(body)/2+1]))
		add("ASCII class", "x*["+body+"]", list("x"+body[:1], "xx"+body[len(body)-1:], "x~", "xyz"+body[len(body)/2:len(body)/2+1]))
	}
	return out
}

// Huge gives sizes around those where two bytes end, and around the great
// numbers written in the code; for inputs whose cost is the size.
func Huge() []int {
	r := []int{32767, 32768, 32769, 65535, 65536, 65537}
	far := eng.DictInts(5002, 200000)
	if len(far) > 4 {
		far = far[:4]
	}
	for _, n := range far {
		r = append(r, n-1, n, n+1)
	}
	return r
}

// HugeFew gives the sizes after those where two bytes end; for inputs of n things.
func HugeFew() []int { return []int{32769, 65537} }

// HugeGlobs gives globs of few elements and n symbols, for strings of n symbols
// or so.
func HugeGlobs(n int) []SizedGlob {
	L := rep("abcde", n/5+1)[:n]
	U := rep("aя世", n/3+1)
	U = string([]rune(U)[:n])
	few := func(x string) []string {
		r := []rune(x)
		m := len(r)
		return []string{x, x + "a", string(r[1:]), string(r[:m-1]), change(x, m-1), change(x, m/2)}
	}
	pre := func(p, q string, x []string) (r []string) {
		for _, y := range x {
			r = append(r, p+y+q)
		}
		return
	}
	w := make([]string, n)
	for i := range w {
		w[i] = fmt.Sprintf("w%06d", i)
	}
	all := strings.Join(w, ",")
	ends := []string{w[0], w[n-1], w[n/2], fmt.Sprintf("w%06d", n), "w", ""}
	return []SizedGlob{
		{"huge literal", L, few(L)},
		{"huge literal", U, few(U)},
		{"huge literal and star", L + "*", append(few(L), L+L)},
		{"star and huge literal", "*" + U, pre("x", "", few(U))},
		{"huge literal and ?", "?" + L + "[a-c]", pre("я", "b", few(L))},
		{"star for many", "*", []string{L, U}},
		{"star for many", "x*y", pre("x", "y", []string{L, U, ""})},
		{"star for many", "*?b", []string{L + "b", U, U + "b"}},
		{"star for many", "x*[я-ю]y", []string{"x" + L + "яy", "x" + U + "ay"}},
		{"star for many", "{x*,y}z", []string{"x" + U + "z", "y" + L + "z", "x" + L}},
		{"huge value", "{" + L + ",zz}", few(L)},
		{"huge value", "x{zz," + U + ",}y", pre("x", "y", few(U))},
		{"huge value, wild", "{" + L + "?,zz}", pre("", "я", few(L))},
		{"huge list", "{" + all + "}", ends},
		{"huge list", "x{" + all + ",}?", pre("x", "z", ends)},
	}
}

// SizedSet is a set of globs of some size, and strings.
type SizedSet struct {
	Shape   string
	Globs   []string
	Strings []string
}

// SizedSets gives sets of n globs; in the path ones a dot is between parts.
func SizedSets(n int, path bool) []SizedSet {
	var out []SizedSet
	add := func(shape string, f func(i int) (glob string), ss func(i int) []string) {
		s := SizedSet{Shape: shape}
		for i := 0; i < n; i++ {
			s.Globs = append(s.Globs, f(i))
		}
		for _, i := range append(edges(n), n) {
			s.Strings = append(s.Strings, ss(i)...)
		}
		out = append(out, s)
	}
	w := func(i int) string { return fmt.Sprintf("w%04d", i) }
	// different first symbols as well
	d := func(i int) string { return string(rune(0x4e00+i)) + "d" }
	for _, f := range []struct {
		shape     string
		pre, post string
		s         []string
	}{
		{"literals", "", "", []string{"$", "$x", "x$"}},
		{"after a literal", "pre", "", []string{"pre$", "pre$x", "$"}},
		{"before a literal", "", "post", []string{"$post", "$", "x$post"}},
		{"after a star", "*", "", []string{"$", "xx$", "$x"}},
		{"before a star", "", "*", []string{"$", "$xx", "x$"}},
		{"between stars", "*", "*", []string{"$", "x$x"}},
		{"after a ?", "?", "", []string{"$", "x$"}},
		{"after a class", "[ab]", "", []string{"a$", "b$", "c$"}},
		{"after a list", "{a,b}", "", []string{"a$", "b$", "c$"}},
		{"before a list", "", "{a,b}", []string{"$a", "$b", "$c", "$"}},
		{"after a wild list", "{a?,b}", "", []string{"ax$", "b$", "c$"}},
		{"inside", "x*", "*y", []string{"x$y", "xx$yy", "x$"}},
		{"after a star, before a ?", "*", "?", []string{"$x", "xx$я", "$"}},
		{"after a ?, before a ?", "?", "?", []string{"$x", "x$я", "x$"}},
		{"after a class, before a ?", "[ab]", "?", []string{"a$x", "b$я", "c$x", "a$"}},
		{"after a list, before a ?", "{a,b}", "?", []string{"a$x", "b$я", "c$x", "a$"}},
		{"after a wild list, before a ?", "{a?,b}", "?", []string{"ax$x", "b$я", "c$x", "b$"}},
		{"after a wild list, before a star", "{a?,b}", "*", []string{"ax$x", "b$", "c$x", "bx$"}},
		{"after a star, before a class", "*", "[ab]", []string{"$a", "xx$b", "$c", "$"}},
		{"after an optional list, before a ?", "{a,}", "?", []string{"a$x", "$x", "c$x", "$"}},
		{"after an optional wild list, before a ?", "{a?,}", "?", []string{"ax$x", "$x", "c$x", "$"}},
		{"after a starred list, before a ?", "{a*,b}", "?", []string{"ax$x", "b$x", "a$x", "c$x", "$"}},
		{"after a list that ends with a list, before a ?", "{a[cd],b}{,e}", "?", []string{"ac$x", "be$x", "b$x", "c$x", "$"}},
		{"after a star and a list, before a ?", "*{a,b}", "?", []string{"a$x", "xb$x", "c$x", "$"}},
		{"after a star and an optional list, before a ?", "*{a,}", "?", []string{"a$x", "xa$x", "c$x", "$"}},
		{"after a star and a wild list, before a ?", "*{a?,b}", "?", []string{"ax$x", "xb$x", "c$x", "$"}},
		{"after a star and an optional wild list, before a ?", "*{a?,}", "?", []string{"ax$x", "xax$x", "c$x", "$"}},
		{"after a star and a starred list, before a ?", "*{a*,b}", "?", []string{"ax$x", "xb$x", "c$x", "$"}},
		{"after a star and a class, before a ?", "*[ab]", "?", []string{"a$x", "xb$x", "c$x", "$"}},
		{"after a star and ?, before a ?", "*?", "?", []string{"a$x", "xb$x", "$x", "$"}},
	} {
		f := f
		if strings.Contains(f.shape, ", before") && (path || n > 300) {
			continue // nodes of the tree of plain globs only
		}
		for k, word := range []func(int) string{w, d} {
			if k == 1 && (f.pre == "" && f.post != "" || len(f.pre) > 3 || strings.Contains(f.shape, ", before")) {
				continue
			}
			word := word
			add(f.shape, func(i int) string { return f.pre + word(i) + f.post }, func(i int) (r []string) {
				for _, x := range f.s {
					r = append(r, strings.ReplaceAll(x, "$", word(i)))
				}
				return
			})
		}
	}
	if n <= 300 {
		add("chain", func(i int) string { return rep("a", i+1) }, func(i int) []string { return []string{rep("a", i+1), rep("a", i) + "b"} })
		add("chain with a star", func(i int) string { return rep("a", i+1) + "*" }, func(i int) []string { return []string{rep("a", i+1), rep("a", i) + "b"} })
		add("?", func(i int) string { return rep("?", i+1) }, func(i int) []string { return []string{rep("a", i+1), rep("я", i+1)} })
		add("? and star", func(i int) string { return rep("?", i+1) + "*" }, func(i int) []string { return []string{rep("a", i+1), rep("я", i)} })
		add("classes", func(i int) string { return "x[" + string(rune(0x4e00+i)) + "-" + string(rune(0x4e02+i)) + "]" }, func(i int) []string { return []string{"x" + string(rune(0x4e00+i)), "x" + string(rune(0x4e01+i))} })
		add("lists", func(i int) string { return "x{" + w(i) + "," + w(i+1) + "}" }, func(i int) []string { return []string{"x" + w(i), "x" + w(i+1)} })
		add("wild lists", func(i int) string { return "x{" + w(i) + "*," + w(i+1) + "}" }, func(i int) []string { return []string{"x" + w(i), "x" + w(i) + "z", "x" + w(i+1)} })
		deep := rep("a?[bc]{d,e}*", 1)
		add("after many elements", func(i int) string { return deep + w(i) }, func(i int) []string { return []string{"axbd" + w(i), "axbezz" + w(i), w(i)} })
	}
	if !path {
		return out
	}
	add("first parts", func(i int) string { return w(i) + ".b" }, func(i int) []string { return []string{w(i) + ".b", w(i) + ".c", w(i)} })
	add("last parts", func(i int) string { return "a." + w(i) }, func(i int) []string { return []string{"a." + w(i), "b." + w(i), "a." + w(i) + ".a"} })
	add("parts after a star", func(i int) string { return "*." + w(i) }, func(i int) []string { return []string{"a." + w(i), w(i) + "." + w(i), "a." + w(i) + ".a"} })
	add("parts with a star", func(i int) string { return "a." + w(i) + "*" }, func(i int) []string { return []string{"a." + w(i), "a." + w(i) + "x", "a.x"} })
	add("parts after a list", func(i int) string { return "{a,b}." + w(i) }, func(i int) []string { return []string{"a." + w(i), "b." + w(i), "c." + w(i)} })
	add("parts before a star", func(i int) string { return w(i) + ".*" }, func(i int) []string { return []string{w(i) + ".a", w(i) + ".a.b"} })
	add("parts in the middle", func(i int) string { return "a." + w(i) + ".c" }, func(i int) []string { return []string{"a." + w(i) + ".c", "a." + w(i) + ".d"} })
	if n <= 300 {
		add("path chain", func(i int) string { return "a" + rep(".a", i) }, func(i int) []string { return []string{"a" + rep(".a", i), "a" + rep(".a", i) + ".b"} })
		add("path chain of stars", func(i int) string { return "*" + rep(".*", i) }, func(i int) []string { return []string{"a" + rep(".a", i)} })
	}
	return out
}

// SizedPaths gives path globs of n parts.
func SizedPaths(n int) []SizedGlob {
	var out []SizedGlob
	for _, f := range []struct{ part, s string }{{"a", "a"}, {"*", "b"}, {"a*", "ab"}, {"?", "я"}, {"[ab]", "a"}, {"{a,b}", "b"}, {"{a*,b}", "ab"}, {"w", "w"}} {
		g := f.part + rep("."+f.part, n-1)
		p := f.s + rep("."+f.s, n-1)
		s := SizedGlob{Shape: "parts " + f.part, Glob: g}
		s.Strings = []string{p, p + ".", p + "." + f.s, f.s + "." + p, p + ".."}
		pp := strings.Split(p, ".")
		s.Strings = append(s.Strings, strings.Join(pp[1:], "."))
		for _, i := range edges(n) {
			for _, x := range []string{"", "zz", "b"} {
				q := append([]string(nil), pp...)
				q[i] = x
				s.Strings = append(s.Strings, strings.Join(q, "."))
			}
		}
		out = append(out, s)
	}
	// only one part is a glob
	for _, i := range edges(n) {
		pp := strings.Split("a"+rep(".a", n-1), ".")
		s := SizedGlob{Shape: "one part", Strings: []string{strings.Join(pp, ".")}}
		pp[i] = "b*"
		s.Glob = strings.Join(pp, ".")
		pp[i] = "bc"
		s.Strings = append(s.Strings, strings.Join(pp, "."), strings.Join(pp, ".")+".a")
		out = append(out, s)
	}
	return out
}

// Strs makes them inputs.
func Strs(xs []string) []eng.Str {
	r := make([]eng.Str, len(xs))
	for i, x := range xs {
		r[i] = eng.Str(x)
	}
	return r
}
