package main

import (
	"fmt"
	"strings"

	"verifharness/eng"
	"verifharness/share"
)

// sizes: expressions of which something counts n

func sizedExps(n int) []string {
	rep := strings.Repeat
	var w, g []string
	var cl, cr strings.Builder
	for i := 0; i < n; i++ {
		w = append(w, fmt.Sprintf("w%04d", n-i))
		g = append(g, rep("a", i%61)+fmt.Sprint("b", i))
		cl.WriteRune(rune(0x4e00 + 2*(n-i)))
		c := rune(0x4e00 + 5*(n-i))
		cr.WriteString(string(c) + "-" + string(c+1))
	}
	long := rep("abc", n)[:n]
	list := strings.Join(w, ",")
	hi := "[" + string(rune(0x4e00)) + "-" + string(rune(0x4e00+n-1)) + "]"
	return []string{
		"{" + list + "}", "x{" + list + "}y", "{," + list + ",}", "{" + list + "}{a,b}", "{a,b}.{" + list + "}", "{" + strings.Join(g, ",") + "}.z",
		"{" + rep("a,", n) + "b}", "{" + rep(",", n) + "}", "{" + long + ",b}", "{b," + long + "}[ac]", long + "{a,b}", "{a,b}" + long, "{a,b}" + long + "[cd]",
		"[" + cl.String() + "]", "x[" + cl.String() + "a]{a,b}", "[" + cr.String() + "]", hi, hi + "{a,b}", "[" + rep("ab", n) + "]", "[" + rep("a", n) + "]",
		rep("{a,b}", n), rep("[ab]", n), rep("a{b,c}", n), rep("{a,b}.", n), "a" + rep(".{b,c}", n), rep("{x}", n), rep("[x]", n), rep("x{y}", n) + "{a,b}", rep("[]", n) + "{a,b}", rep("{}", n) + "[ab]",
		rep("a.", n) + "{b,c}", rep(".", n) + "{b,c}.[ab]", "{a,b}" + rep(".a", n) + ".{b,c}", rep("{x}.", n) + "[bc]", "*" + long, "{a,b}?" + long + "{c,d}",
	}
}

func sizedFull(th bool, yield func(expIn) bool) {
	for _, n := range share.Ladder(th) {
		for _, x := range sizedExps(n) {
			c := call{-1, 0, false}
			if size(x, c, maxResults) >= maxResults {
				continue
			}
			if !yield(expIn{eng.Str(x), []call{c}}) {
				return
			}
		}
	}
	for _, n := range share.Huge() {
		for _, x := range hugeExps(n) {
			if !yield(expIn{eng.Str(x), []call{{-1, 0, false}}}) {
				return
			}
		}
	}
}

// hugeExps are expressions of which something counts n, and at most 2n results.
func hugeExps(n int) []string {
	long := strings.Repeat("ab", n)[:n]
	w := make([]string, n)
	for i := range w {
		w[i] = fmt.Sprint("w", i)
	}
	all := strings.Join(w, ",")
	return []string{
		long, "{" + long + ",b}{c,d}", "{b,c}" + long + "{c,d}*", "a{" + all + "}", "[ab]{" + all + "}", "{" + all + "}?", "{a,b}{" + all,
		strings.Repeat(".", n) + "{a,b}", "{a,b}" + strings.Repeat(".", n) + "{a,b}", "{" + strings.Repeat("a,", n) + "b}", "a[" + strings.Repeat("ab", n/2) + "c]b",
	}
}

func sizedLimits(th bool, yield func(expIn) bool) {
	for _, n := range share.Ladder(th) {
		var calls []call
		for _, m := range []int{n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1, 2*n + 4, 1, 3, 64} {
			calls = append(calls, call{m, 0, false})
		}
		for _, d := range []int{n - 1, n, n + 1, n + 2, 2 * n} {
			calls = append(calls, call{5, d, false}, call{-1, d, true})
		}
		calls = append(calls, call{-1, 0, true}, call{0, 0, false}, call{2 * n, n, false})
		for k, x := range sizedExps(n) {
			some := calls
			if n > 140 && !th {
				some = nil
				step := 3
				if n > 1100 {
					step = len(calls)
				}
				for i := k % step; i < len(calls); i += step {
					c := calls[i]
					if n > 1100 && c.Max > 100 && strings.Contains(x, "}a{") {
						c.Max = 64 // n values, each as long as n
					}
					some = append(some, c)
				}
			}
			if !yield(expIn{eng.Str(x), some}) {
				return
			}
		}
	}
	hugeLimits(yield)
}

func hugeLimits(yield func(expIn) bool) bool {
	for _, n := range share.Huge() {
		for k, x := range hugeExps(n) {
			calls := []call{{n, 0, false}, {n - 1, 0, false}, {n + 1, 0, false}, {2*n - 1, 0, false}, {3, 0, false}, {4, n, false}, {-1, n + 1, true}, {-1, 0, true}}
			if !yield(expIn{eng.Str(x), []call{calls[k%8], calls[n%8], calls[(n+k+1)%8]}}) {
				return false
			}
		}
	}
	return true
}

func sizedMean(th bool, yield func(meanIn) bool) {
	for _, n := range share.Ladder(th) {
		if n > 300 && !th {
			break
		}
		for k, g := range share.SizedGlobs(n) {
			c := []call{{-1, 0, false}, {n, 0, false}, {n + 1, 0, false}, {n, 1, false}}[k%4]
			if size(g.Glob, c, 600) >= 600 {
				c.Max = 30
			}
			if !yield(meanIn{eng.Str(g.Glob), c, share.Strs(g.Strings)}) {
				return
			}
		}
	}
}
