package main

import (
	"strings"

	"verifharness/eng"
	"verifharness/share"
)

// sizes: globs and sets of globs of which something counts n

func sizedGlobs(th bool, yield func(matchIn) bool) {
	for _, n := range share.Ladder(th) {
		for _, g := range share.SizedGlobs(n) {
			if !yield(matchIn{eng.Str(g.Glob), share.Strs(g.Strings)}) {
				return
			}
		}
	}
	for _, n := range share.Huge() {
		for _, g := range share.HugeGlobs(n) {
			if !yield(matchIn{eng.Str(g.Glob), share.Strs(g.Strings)}) {
				return
			}
		}
	}
}

func sizedNorm(th bool, yield func(normIn) bool) {
	sizedGlobs(th, func(m matchIn) bool { return yield(normIn{Glob: m.Glob, Strings: m.Strings}) })
}

func sizedRand(th bool, yield func(randIn) bool) {
	k := 0
	sizedGlobs(th, func(m matchIn) bool {
		k++
		return yield(randIn{Glob: m.Glob, Seed: int64(k), Path: false, Fill: k % 3 * 50})
	})
}

func sizedTrees(th bool, yield func(treeIn) bool) {
	for _, n := range share.Ladder(th) {
		for k, t := range share.SizedSets(n, false) {
			in := treeIn{Strings: share.Strs(t.Strings)}
			for i, g := range t.Globs {
				in.Globs = append(in.Globs, treeGlob{eng.Str(g), i, (i+k)%7 == 0})
			}
			if !yield(in) {
				return
			}
		}
		if n > 150 && !th && n%64 != 0 && !share.Named(n) {
			continue
		}
		for _, g := range share.SizedGlobs(n) {
			in := treeIn{Globs: []treeGlob{{eng.Str(g.Glob), 3, false}, {eng.Str(g.Glob + "x"), 1, false}, {eng.Str("a" + g.Glob), 2, true}}}
			in.Strings = share.Strs(g.Strings)
			for i, s := range g.Strings {
				if i < 4 {
					in.Strings = append(in.Strings, eng.Str(s+"x"), eng.Str("a"+s))
				}
			}
			if n > 1100 {
				// the work grows with the square of n
				var some []eng.Str
				for i, s := range in.Strings {
					if i%3 == 0 || i == 1 {
						some = append(some, s)
					}
				}
				in.Strings = some
			}
			if !yield(in) {
				return
			}
		}
	}
	for _, n := range share.Huge() {
		// the lists in a tree of their own: the strings of the others are long
		var in, lists treeIn
		for i, g := range share.HugeGlobs(n) {
			to := &in
			if g.Shape == "huge list" {
				to = &lists
			}
			to.Globs = append(to.Globs, treeGlob{eng.Str(g.Glob), i, i%3 == 0})
			for k, s := range g.Strings {
				if k < 2 || k == i%6 || to == &lists {
					to.Strings = append(to.Strings, eng.Str(s))
				}
			}
		}
		if n%2 == 0 && !yield(lists) {
			return
		}
		if !yield(in) {
			return
		}
	}
}

// sizedSoup: malformed globs of all sizes, and well formed ones next to them
func sizedSoup(th bool, yield func(matchIn) bool) {
	toks := []string{"[", "]", "{", "}", "*", "?", ",", "-", "[a", "{a", "a]", "a}", "[]", "{}", "[]a", "{}a", "[a]", "{a,b}", "{,}", "{a,", "[a-", "[a-b", "-]", ",}", "{[", "[{", "[}]", "{]}", "{?}", "{[a],b}", "[*]", "*[", "?{"}
	for _, n := range share.Ladder(th) {
		for _, a := range toks {
			// a class of every size is judged by what stands around it
			if a == "*" && n > 40 {
				continue
			}
			for _, g := range []string{strings.Repeat(a, n), "x" + strings.Repeat(a, n), strings.Repeat(a, n) + "x", "[" + strings.Repeat(a, n) + "]", "{" + strings.Repeat(a, n) + "}", "{b," + strings.Repeat(a, n)} {
				if strings.Count(g, "*") > 40 {
					continue
				}
				if !yield(matchIn{eng.Str(g), []eng.Str{"x", eng.Str(strings.Repeat("a", n))}}) {
					return
				}
			}
		}
		for k, g := range share.SizedGlobs(n) {
			if n > 130 && !th && k%3 != n%3 {
				continue
			}
			var ss []eng.Str
			for i, x := range g.Strings {
				if i%3 == 0 {
					ss = append(ss, eng.Str(x))
				}
			}
			x := g.Glob
			r := []rune(x)
			cut := []string{x, string(r[:len(r)-1]), string(r[1:]), string(r[:len(r)/2]), x + "[", x + "{a", x + "]", "}" + x, x + "[a-]", "[" + x, "{" + x + ",a}"}
			for _, c := range "[]{}" {
				if i := strings.LastIndex(x, string(c)); i >= 0 {
					cut = append(cut, x[:i]+x[i+1:])
				}
			}
			for _, y := range cut {
				if !yield(matchIn{eng.Str(y), ss}) {
					return
				}
			}
		}
	}
}
