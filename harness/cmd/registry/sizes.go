package main

import (
	"fmt"
	"strings"

	"verifharness/eng"
	"verifharness/share"
)

// sizes: histories of many registrations, and globs of which something counts n

func sizedHist(path bool) func(th bool, yield func(histIn) bool) {
	return func(th bool, yield func(histIn) bool) {
		long := func(gs []share.SizedGlob) bool {
			for k, g := range gs {
				x := g.Glob
				p := g.Strings
				if path {
					x = "a." + strings.ReplaceAll(x, ".", "_")
					for i := range p {
						p[i] = "a." + strings.ReplaceAll(p[i], ".", "_")
					}
				}
				in := histIn{path, []op{
					{Add: eng.Str(x), Index: 4, Parsed: k%2 == 0}, {Add: eng.Str(x), Index: 5}, {Add: eng.Str(x), Index: 4, Parsed: true}, {Add: eng.Str(x + "z"), Index: 4},
					{Add: eng.Str(x + "["), Index: 6}, {Add: eng.Str(x + "z"), Index: 2, Parsed: true}, {Add: eng.Str(x + "[]"), Index: 7}, {Probe: share.Strs(p[:min3(len(p))])},
				}}
				if !yield(in) {
					return false
				}
			}
			return true
		}
		for _, n := range share.Huge() {
			if !long(share.HugeGlobs(n)) {
				return
			}
		}
		for _, n := range share.Ladder(th) {
			if n > 260 && !th || n > 1100 {
				continue
			}
			for k, f := range []string{"w%04d", "a*w%d", "w%d?", "[ab]w%d", "x{w%d,v}", "w%d"} {
				g := func(i int) string {
					x := fmt.Sprintf(f, i)
					if path {
						if k%2 == 0 {
							return "a." + x
						}
						return x + ".b*"
					}
					return x
				}
				in := histIn{Path: path}
				for i := 0; i < n; i++ {
					in.Ops = append(in.Ops, op{Add: eng.Str(g(i)), Index: i, Parsed: i%4 == 3})
				}
				var again []op
				for _, i := range []int{0, 1, n / 2, n - 1} {
					if i >= n {
						continue
					}
					s := strings.NewReplacer("*", "z", "?", "y", "[ab]", "b", "{w", "w", ",v}", "").Replace(g(i))
					again = append(again, op{Probe: []eng.Str{eng.Str(s), eng.Str(s + "x")}},
						op{Add: eng.Str(g(i)), Index: n + 1}, op{Add: eng.Str(g(i)), Index: n + 1, Parsed: true}, op{Add: eng.Str(g(n + 1)), Index: i}, op{Add: eng.Str(g(n + 1)), Index: i, Parsed: true}, op{Add: eng.Str(g(n + 1)), Index: -1})
				}
				in.Ops = append(in.Ops, again...)
				in.Ops = append(in.Ops, op{Add: eng.Str(g(n + 1)), Index: n})
				in.Ops = append(in.Ops, again...)
				if !yield(in) {
					return
				}
			}
			if !long(share.SizedGlobs(n)) {
				return
			}
		}
	}
}

func min3(n int) int {
	if n > 3 {
		return 3
	}
	return n
}
