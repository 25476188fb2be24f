package main

import (
	"fmt"
	"strings"

	"verifharness/share"
)

// sizedRace asks globs, paths, queries and sets of them of many sizes.
func sizedRace(th bool, yield func(raceIn) bool) {
	k := 0
	give := func(kind string, ps []string, xs []string) bool {
		if k++; len(xs) == 0 {
			return true
		}
		return yield(raceIn{Kind: kind, Patterns: share.Strs(ps), Inputs: share.Strs(xs), Workers: 2 + k%7, Rounds: 1 + k%2, Reparse: k%5 == 0})
	}
	for i, n := range share.Ladder(th) {
		if n > 1030 || n > 260 && !th {
			break
		}
		if n > 10 && i%5 != 0 && n%64 != 0 && !th {
			continue
		}
		for _, g := range share.SizedGlobs(n) {
			if !give("glob", []string{g.Glob}, g.Strings) {
				return
			}
			if n < 12 && !give("globtree", []string{g.Glob, g.Glob + "x", "*" + g.Glob}, g.Strings) {
				return
			}
		}
		for _, g := range share.SizedPaths(n) {
			if !give("pathglob", []string{g.Glob}, g.Strings) || !give("pathglobtree", []string{g.Glob, g.Glob + ".a", "*." + g.Glob}, g.Strings) {
				return
			}
		}
		if n > 130 && !th {
			continue
		}
		for _, t := range share.SizedSets(n, false) {
			if !give("globtree", t.Globs, t.Strings) {
				return
			}
		}
		for _, t := range share.SizedSets(n, true) {
			if !give("pathglobtree", t.Globs, t.Strings) {
				return
			}
		}
		for _, op := range []string{"=", "!=", "=~", "!=~"} {
			var ts, qs []string
			in, in2 := "x", "x"
			for i := 0; i < n; i++ {
				v := []string{"v", "v*", "?", "{v,w}"}[i%4]
				if strings.HasSuffix(op, "~") {
					v = []string{"v", "^v", "v$", "w|v"}[i%4]
				}
				ts = append(ts, fmt.Sprintf("'k%d%s%s'", i, op, v))
				qs = append(qs, fmt.Sprintf("seriesByTag('k%d%s%s')", i%17, op, fmt.Sprint("v", i)))
				in += fmt.Sprintf(";k%d=v", i)
				in2 += fmt.Sprintf(";k%d=v%d", i, i)
			}
			xs := []string{in, in2, in + ";kk=1", in[:len(in)/2], strings.Replace(in, "=v", "=z", 1), "x;k0=v"}
			if n <= 128 && !give("query", []string{"seriesByTag(" + strings.Join(ts, ",") + ")"}, xs) {
				return
			}
			if !give("querytree", qs, xs) {
				return
			}
		}
	}
}
