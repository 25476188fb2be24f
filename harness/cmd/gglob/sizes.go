package main

import (
	"fmt"
	"strings"

	"verifharness/eng"
	"verifharness/share"
)

// sizes: path globs and sets of them of which something counts n

func sizedG(th bool, yield func(gIn) bool) {
	for _, n := range share.Ladder(th) {
		for _, g := range share.SizedPaths(n) {
			if !yield(gIn{eng.Str(g.Glob), share.Strs(g.Strings)}) {
				return
			}
		}
		if n > 150 && !th && n%64 != 0 {
			continue
		}
		for _, g := range share.SizedGlobs(n) {
			part := strings.ReplaceAll(g.Glob, ".", "_")
			var ss []eng.Str
			for _, s := range g.Strings {
				s = strings.ReplaceAll(s, ".", "_")
				ss = append(ss, eng.Str("a."+s+".bc"), eng.Str("a."+s+".b"), eng.Str("b."+s+".b"))
			}
			if !yield(gIn{eng.Str("a." + part + ".b*"), ss}) {
				return
			}
		}
	}
	for _, n := range share.Huge() {
		for _, g := range share.HugeGlobs(n) {
			var ss []eng.Str
			for _, s := range g.Strings {
				ss = append(ss, eng.Str("a."+s+".bc"))
			}
			if !yield(gIn{eng.Str("a." + g.Glob + ".b*"), ss}) {
				return
			}
		}
		for _, in := range hugePaths(n) {
			if !yield(in) {
				return
			}
		}
	}
}

// hugePaths are path globs of n parts.
func hugePaths(n int) (r []gIn) {
	for _, f := range []string{"a", "*", "{b,a}", "[ab]"} {
		g := f + strings.Repeat("."+f, n-1)
		p := "a" + strings.Repeat(".a", n-1)
		r = append(r, gIn{eng.Str(g), []eng.Str{eng.Str(p), eng.Str(p + ".a"), eng.Str(p[2:]), eng.Str(p + "."), eng.Str(p[:len(p)-1] + "c"), eng.Str("c" + p[1:])}})
	}
	return
}

func sizedTrees(th bool, yield func(treeIn) bool) {
	for _, n := range share.Ladder(th) {
		for k, t := range share.SizedSets(n, true) {
			in := treeIn{Paths: share.Strs(t.Strings)}
			for i, g := range t.Globs {
				in.Globs = append(in.Globs, treeGlob{eng.Str(g), i, (i+k)%7 == 0})
			}
			if !yield(in) {
				return
			}
		}
		for _, g := range share.SizedPaths(n) {
			in := treeIn{Paths: share.Strs(g.Strings), Globs: []treeGlob{{eng.Str(g.Glob), 3, false}, {eng.Str(g.Glob + ".a"), 1, false}, {eng.Str("a." + g.Glob), 2, true}}}
			if !yield(in) {
				return
			}
		}
	}
	for _, n := range share.Huge() {
		var in treeIn
		for i, g := range hugePaths(n) {
			in.Globs = append(in.Globs, treeGlob{g.Glob, 2 * i, i%2 == 0}, treeGlob{"b." + g.Glob, 2*i + 1, false})
			if in.Paths = g.Paths; i == 2 {
				break
			}
		}
		if !yield(in) {
			return
		}
		// the lists in a tree of their own: the paths of the others are long
		in = treeIn{}
		var lists treeIn
		for i, g := range share.HugeGlobs(n) {
			to := &in
			if g.Shape == "huge list" {
				to = &lists
			} else if i%5 != n%5 {
				continue
			}
			to.Globs = append(to.Globs, treeGlob{eng.Str("a." + g.Glob), i, i%2 == 0}, treeGlob{eng.Str(g.Glob + ".a*"), 100 + i, i%2 == 1})
			to.Paths = append(to.Paths, eng.Str("a."+g.Strings[0]), eng.Str(g.Strings[0]+".a"), eng.Str("a."+g.Strings[1]), eng.Str(g.Strings[1]+".ab"))
		}
		if !yield(in) || (n%2 == 0 && !yield(lists)) {
			return
		}
		// and n globs
		name := func(i int) string { return fmt.Sprintf("a%d.b%d", i/256, i%256) }
		in = treeIn{Paths: []eng.Str{"a0.b0", eng.Str(name(n - 1)), eng.Str(name(n)), eng.Str(name(n/2) + ".c")}}
		for i := 0; i < n; i++ {
			in.Globs = append(in.Globs, treeGlob{eng.Str(name(i)), i, false})
		}
		if !yield(in) {
			return
		}
	}
}

func sizedSplit(th bool, yield func(splitIn) bool) {
	for _, n := range append(share.Ladder(th), share.Huge()...) {
		long := strings.Repeat("ab", n)[:n]
		for k, p := range []string{
			strings.Repeat("a.", n), strings.Repeat("a.", n) + "b", strings.Repeat("a.", n-1) + ".b", "." + strings.Repeat("a.", n), strings.Repeat("a.", n) + ".",
			strings.Repeat("a.", n/2) + "." + strings.Repeat("b.", n/2), strings.Repeat("яб.", n) + "世", long + "." + long, long, "a." + long + ".b", strings.Repeat(".", n), long + strings.Repeat(".", n),
		} {
			if !yield(splitIn{Paths: []eng.Str{"x.y.z", eng.Str(p), "a.b"}, Cap: k}) {
				return
			}
		}
	}
}

// sizedBad: malformed path globs of all sizes, and well formed ones next to
// them.
func sizedBad(th bool, yield func(badIn) bool) {
	for _, n := range share.Ladder(th) {
		for k, g := range share.SizedPaths(n) {
			if n > 130 && !th && k%3 != n%3 {
				continue
			}
			x, s := g.Glob, eng.Str(g.Strings[0])
			parts := strings.Split(x, ".")
			for _, y := range []string{x, x + ".", "." + x, x + "..", x + ".[", "[." + x, x + ".{a", x + ".a]", "}." + x, x[1:], x[:len(x)-1], x + "[b"} {
				if !yield(badIn{eng.Str(y), s}) {
					return
				}
			}
			for _, i := range []int{0, n / 2, n - 2, n - 1} {
				if i < 0 {
					continue
				}
				for _, p := range []string{"", "[", "a]", "{b", "b}", "[]", "{a,{b}}"} {
					q := append([]string(nil), parts...)
					q[i] = p
					if !yield(badIn{eng.Str(strings.Join(q, ".")), s}) {
						return
					}
				}
			}
		}
	}
}
