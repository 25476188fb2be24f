package main

import (
	"fmt"
	"strings"

	"verifharness/eng"
	"verifharness/share"
)

// sizes: queries, sets of queries and tag sets of which something counts n

func sizedKV(n int, f func(i int) (string, string), more ...kv) []kv {
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k, v := f(i)
		m[k] = v
	}
	for _, x := range more {
		if x.V == "-" {
			delete(m, string(x.K))
		} else {
			m[string(x.K)] = string(x.V)
		}
	}
	return tagSet(m)
}

func edges(n int) []int {
	seen := map[int]bool{}
	var r []int
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			r = append(r, i)
		}
	}
	return r
}

func sizeKey(i int) string { return fmt.Sprintf("k%04d", i) }

// tag sets around k0000=v..., each edge changed or left out
func sizedTags(n int, val func(i int) string) [][]kv {
	f := func(i int) (string, string) { return sizeKey(i), val(i) }
	sets := [][]kv{sizedKV(n, f), sizedKV(n, f, kv{"__name__", "x"}), sizedKV(n, f, kv{"__name__", "x"}, kv{"zz", "y"}), nil}
	for _, i := range edges(n) {
		k := eng.Str(sizeKey(i))
		sets = append(sets, sizedKV(n, f, kv{"__name__", "x"}, kv{k, "other"}), sizedKV(n, f, kv{k, "-"}))
	}
	return sets
}

func sizedTerms(th bool, yield func(termsIn) bool) {
	value := func(op, i int) eng.Str {
		switch op {
		case opNe, opNotMatch:
			return "other"
		case opMatch:
			return "^v"
		}
		return eng.Str([]string{"v", "v*", "?", "{v,w}"}[i%4])
	}
	v := func(int) string { return "v" }
	for _, n := range share.Ladder(th) {
		sets := sizedTags(n, v)
		for op := 0; op < 4; op++ {
			var ts []term
			for i := 0; i < n; i++ {
				ts = append(ts, term{eng.Str(sizeKey(i)), op, value(op, i)})
			}
			if n <= 300 || th || share.Named(n) {
				if !yield(termsIn{eng.Str(render(nil, ts)), ts, sets}) {
					return
				}
			}
			// few terms, many tags
			for k, i := range edges(n) {
				if n > 130 && k%2 != op%2 && !th {
					continue
				}
				ts := []term{{eng.Str(sizeKey(i)), op, value(op, i)}, {"name", opNe, "y"}, {eng.Str(sizeKey(n)), opNe, "v"}}
				if !yield(termsIn{eng.Str(render(nil, ts)), ts, sets}) {
					return
				}
			}
			// many terms of one key
			ts = nil
			for i := 0; i < n; i++ {
				ts = append(ts, term{"a", op, eng.Str(fmt.Sprintf("w%d", i))})
			}
			if n > 128 && !th && !share.Named(n) {
				continue
			}
			if !yield(termsIn{eng.Str(render(nil, ts)), ts, [][]kv{{{"a", "w0"}}, {{"a", eng.Str(fmt.Sprintf("w%d", n-1))}}, {{"a", "x"}}, {{"__name__", "w0"}}}}) {
				return
			}
		}
		if !longTerms(n, yield) {
			return
		}
	}
	for _, n := range share.Huge() {
		if !longTerms(n, yield) {
			return
		}
	}
	for _, n := range share.HugeFew() {
		sets := sizedTags(n, v)
		for k, i := range edges(n) {
			for op := 0; op < 4; op++ {
				if (k+op)%4 != n%4 {
					continue
				}
				ts := []term{{eng.Str(sizeKey(i)), op, value(op, i)}, {"name", opNe, "y"}, {eng.Str(sizeKey(n)), opNe, "v"}}
				if !yield(termsIn{eng.Str(render(nil, ts)), ts, sets}) {
					return
				}
			}
		}
	}
}

// longTerms: long keys and values
func longTerms(n int, yield func(termsIn) bool) bool {
	long := strings.Repeat("ab", n)[:n]
	for op, val := range []string{long, "^" + long + "$", long + "*", long} {
		if n > 32000 && (op == opMatch || op == opNotMatch) {
			continue // slow by nature
		}
		k := "k" + long
		ts := []term{{eng.Str(k), op, eng.Str(val)}, {"name", opEq, eng.Str(long)}}
		sets := [][]kv{}
		for _, x := range []string{long, long[1:], long + "a", "c" + long[1:], long[:n-1] + "c"} {
			sets = append(sets, []kv{{"__name__", eng.Str(long)}, {eng.Str(k), eng.Str(x)}}, []kv{{"__name__", eng.Str(x)}, {eng.Str(k), eng.Str(long)}}, []kv{{"__name__", eng.Str(long)}, {eng.Str("k" + x), eng.Str(long)}})
		}
		if !yield(termsIn{eng.Str(render(nil, ts)), ts, sets}) {
			return false
		}
	}
	return true
}

func sizedTree(th bool, yield func(treeIn) bool) {
	val := func(op, i int) eng.Str {
		if op == opMatch || op == opNotMatch {
			return eng.Str(fmt.Sprintf("^v%d$", i))
		}
		return eng.Str(fmt.Sprintf("v%d", i))
	}
	add := func(in *treeIn, ts ...term) {
		i := len(in.Queries)
		in.Queries = append(in.Queries, query{eng.Str(render(nil, ts)), ts, i, i%5 == 0})
	}
	same := func(i int) string { return "v" }
	other := func(i int) string { return fmt.Sprintf("v%d", i) }
	manyTags := func(n int) bool {
		// many tags, queries for the first, the last and between
		var in treeIn
		for _, i := range edges(n) {
			add(&in, term{eng.Str(sizeKey(i)), opEq, "v"})
			add(&in, term{eng.Str(sizeKey(i)), opEq, "v*"}, term{eng.Str(sizeKey(n - 1)), opEq, "v"})
			add(&in, term{eng.Str(sizeKey(i)), opNe, "v"})
			add(&in, term{"name", opEq, "x"}, term{eng.Str(sizeKey(i)), opMatch, "v"}, term{eng.Str(sizeKey(n)), opNotMatch, "v"})
		}
		add(&in, term{"zz", opEq, "y"})
		add(&in)
		in.Tags = sizedTags(n, same)
		if !yield(in) {
			return false
		}
		return true
	}
	for _, n := range share.HugeFew() {
		if !manyTags(n) {
			return
		}
		// many queries, few of them in one place
		var in treeIn
		two := func(i int) []kv {
			return []kv{{"a", eng.Str(fmt.Sprint("v", i/256))}, {"b", eng.Str(fmt.Sprint("w", i%256))}}
		}
		for i := 0; i < n; i++ {
			x := two(i)
			add(&in, term{"a", opEq, x[0].V}, term{"b", opEq, x[1].V})
		}
		in.Tags = [][]kv{two(0), two(n / 2), two(n - 1), two(n)}
		if !yield(in) {
			return
		}
	}
	for _, n := range share.Huge() {
		var in treeIn
		// long values
		long := strings.Repeat("ab", n)[:n]
		for _, op := range []int{opEq, opNe} {
			for _, v := range []string{long, long + "*", long + "b", "b" + long[1:]} {
				add(&in, term{"a", op, eng.Str(v)})
			}
		}
		add(&in, term{"name", opEq, eng.Str(long)}, term{"a", opEq, eng.Str(long)})
		in.Tags = [][]kv{{{"a", eng.Str(long)}}, {{"__name__", eng.Str(long)}, {"a", eng.Str(long)}}, {{"a", eng.Str(long + "b")}}, {{"a", eng.Str(long[1:])}}}
		if !yield(in) {
			return
		}
	}
	for _, n := range share.Ladder(th) {
		for op := 0; op < 4; op++ {
			// a key of its own for each query
			var in treeIn
			for i := 0; i < n; i++ {
				add(&in, term{eng.Str(sizeKey(i)), op, val(op, i)})
			}
			in.Tags = [][]kv{sizedKV(n, func(i int) (string, string) { return sizeKey(i), other(i) })}
			for _, i := range edges(n) {
				in.Tags = append(in.Tags, []kv{{"__name__", "x"}, {eng.Str(sizeKey(i)), eng.Str(other(i))}})
			}
			if op < 2 || n <= 130 || n%64 == 0 {
				if !yield(in) {
					return
				}
			}
			// the values of one key
			for _, key := range []eng.Str{"a", "name"} {
				in = treeIn{}
				for i := 0; i < n; i++ {
					if key == "name" || i%2 == 0 {
						add(&in, term{key, op, val(op, i)})
					} else {
						add(&in, term{key, op, val(op, i)}, term{"b", opEq, "b"})
					}
				}
				k := kv{K: term{Key: key}.keyStr()}
				for _, i := range append(edges(n), n) {
					k.V = eng.Str(other(i))
					in.Tags = append(in.Tags, []kv{k})
				}
				in.Tags = append(in.Tags, nil)
				if key == "a" && len(in.Tags) > 0 {
					in.Tags = append(in.Tags, []kv{{"a", eng.Str(other(n - 1))}, {"b", "b"}})
				}
				if (op < 2 || n <= 130 || n%64 == 0) && !yield(in) {
					return
				}
			}
		}
		if !manyTags(n) {
			return
		}
		// queries that go on from one another
		if n <= 128 {
			for op := 0; op < 4; op++ {
				var in treeIn
				var ts []term
				for i := 0; i < n; i++ {
					v := eng.Str("v")
					if op == opNe || op == opNotMatch {
						v = "other"
					}
					ts = append(ts[:len(ts):len(ts)], term{eng.Str(sizeKey(i)), op, v})
					add(&in, ts...)
					in.Queries[i].Parsed = (i+op)%2 == 0
				}
				in.Tags = sizedTags(n, same)
				if !yield(in) {
					return
				}
			}
		}
	}
}

func (t term) keyStr() eng.Str { return eng.Str(t.key()) }

func sizedHist(th bool, yield func(histIn) bool) {
	for _, n := range share.Ladder(th) {
		if n > 260 && !th || n > 1100 {
			continue
		}
		for k := 0; k < 4; k++ {
			if k == 3 && (n > 126 || n > 20 && n%8 != 0 && !share.Named(n)) {
				continue
			}
			var in histIn
			q := func(i int) []term {
				switch k {
				case 3:
					// each goes on from the one before
					var ts []term
					for j := 0; j <= i; j++ {
						ts = append(ts, term{eng.Str(sizeKey(j)), opEq, "v"})
					}
					return ts
				case 0:
					return []term{{eng.Str(sizeKey(i)), opEq, "v"}}
				case 1:
					return []term{{"a", opEq, eng.Str(fmt.Sprintf("v%d", i))}, {"b", opNe, "x"}}
				}
				return []term{{"name", opEq, eng.Str(fmt.Sprintf("v%d", i))}}
			}
			probe := op{Probe: [][]kv{{{"__name__", "v0"}, {"a", "v0"}, {eng.Str(sizeKey(0)), "v"}}, {{"__name__", eng.Str(fmt.Sprintf("v%d", n-1))}, {"a", eng.Str(fmt.Sprintf("v%d", n-1))}, {eng.Str(sizeKey(n - 1)), "v"}}}}
			if k == 3 {
				probe.Probe = sizedTags(n, func(int) string { return "v" })
			}
			for i := 0; i < n; i++ {
				in.Ops = append(in.Ops, op{Query: eng.Str(render(nil, q(i))), Terms: q(i), Index: i, Parsed: i%3 == 0})
			}
			in.Ops = append(in.Ops, probe)
			for _, i := range edges(n) {
				in.Ops = append(in.Ops,
					op{Query: eng.Str(render(nil, q(i))), Terms: q(i), Index: n + 1},
					op{Query: eng.Str(render(nil, q(i))), Terms: q(i), Index: n + 1, Parsed: true},
					op{Query: eng.Str(render(nil, q(n+1))), Terms: q(n + 1), Index: i},
					op{Query: eng.Str(render(nil, q(n+1))), Terms: q(n + 1), Index: -1})
			}
			in.Ops = append(in.Ops, op{Query: eng.Str(render(nil, q(n+1))), Terms: q(n + 1), Index: n}, probe)
			if !yield(in) {
				return
			}
		}
	}
}

func sizedPath(th bool, yield func(pathIn) bool) {
	for _, n := range append(share.Ladder(th), share.Huge()...) {
		long := strings.Repeat("ab", n)[:n]
		odd := strings.Repeat("a я=&;%+?", n/9+1)
		f := func(i int) (string, string) { return sizeKey(i), fmt.Sprintf("v %d", i) }
		few := n
		if n > 32000 {
			few = 40
		}
		for _, in := range []pathIn{
			{Name: "name", Tags: sizedKV(n, f), Lib: true},
			{Name: "na me", Tags: sizedKV(n, f), Stale: sizedKV(n+1, f)},
			{Name: "name", Stale: sizedKV(n, f)},
			{Name: eng.Str(long), Tags: []kv{{"a", "b"}}, Lib: true},
			{Name: eng.Str(odd), Tags: []kv{{"a", "b"}}},
			{Name: "x", Tags: []kv{{"a", "b"}, {eng.Str("k" + long), "v"}, {"z", ""}}, Lib: true},
			{Name: "x", Tags: []kv{{"a", "b"}, {eng.Str("k" + odd), "v"}, {"z", ""}}},
			{Name: "x", Tags: []kv{{"a", "b"}, {"k", eng.Str(long)}, {"z", ""}}, Lib: true},
			{Name: "x", Tags: []kv{{"a", "b"}, {"k", eng.Str(odd)}, {"z", ""}}},
			{Name: eng.Str(long), Tags: sizedKV(n, func(i int) (string, string) { return sizeKey(i), long[:i%17*few/17] })},
		} {
			if !yield(in) {
				return
			}
		}
	}
}

// one query whose lengths count n
func sizedParse(th bool, yield func(parseIn) bool) {
	blanks := func(n int) bool {
		// blanks and empty terms
		ts := []term{{"a", opEq, "v"}, {"b", opNe, "w"}}
		for _, q := range []string{
			"%sseriesByTag('a=v','b!=w')", "seriesByTag(%s'a=v','b!=w')", "seriesByTag('%sa=v','b!=w')", "seriesByTag('a%s=v','b!=w')", "seriesByTag('a=%sv','b!=w')",
			"seriesByTag('a=v%s','b!=w')", "seriesByTag('a=v'%s,'b!=w')", "seriesByTag('a=v',%s'b!=w')", "seriesByTag('a=v','b!=w'%s)", "seriesByTag('a=v','b!=w')%s",
		} {
			if !yield(parseIn{ts, eng.Str(fmt.Sprintf(q, strings.Repeat(" ", n))), eng.Str(render(nil, ts))}) {
				return false
			}
		}
		if !yield(parseIn{ts, eng.Str("seriesByTag('a=v'," + strings.Repeat("'',", n) + "'b!=w')"), eng.Str(render(nil, ts))}) {
			return false
		}
		return true
	}
	for _, n := range share.Huge() {
		long := strings.Repeat("ab", n)[:n]
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprintf("w%d", n-i)
		}
		for _, ts := range [][]term{
			{{"a", opEq, eng.Str(long)}}, {{"a", opNe, eng.Str(long + "*")}, {"b", opMatch, eng.Str(long + "[a-c]")}},
			{{eng.Str("k" + long), opEq, "v"}, {eng.Str("k" + long + "b"), opEq, "v"}}, {{"a", opEq, eng.Str("{" + strings.Join(l, ",") + "}")}},
		} {
			rev := []term{ts[len(ts)-1], ts[0]}
			if !yield(parseIn{ts, eng.Str(render(nil, ts)), eng.Str(render(nil, rev[:len(ts)]))}) {
				return
			}
		}
		if !blanks(n) {
			return
		}
	}
	for _, n := range share.Ladder(th) {
		long := strings.Repeat("ab", n)[:n]
		var l, lw, c []string
		for i := 0; i < n; i++ {
			l, lw, c = append(l, fmt.Sprintf("w%d", n-i)), append(lw, fmt.Sprintf("w%d*", i)), append(c, string(rune(0x4e00+2*(n-i))))
		}
		sets := [][]term{
			{{"a", opEq, eng.Str(long)}}, {{"a", opNe, eng.Str(long + "*")}, {"b", opMatch, eng.Str(long + "[a-c]")}},
			{{eng.Str("k" + long), opEq, "v"}, {eng.Str("k" + long + "b"), opEq, "v"}},
			{{"a", opEq, eng.Str("{" + strings.Join(l, ",") + "}")}}, {{"a", opEq, eng.Str("[" + strings.Join(c, "") + "]")}},
			{{"a", opMatch, eng.Str("^(" + strings.Join(l, "|") + ")")}}, {{"a", opEq, eng.Str(strings.Repeat("=", n))}},
			{{"a", opEq, eng.Str(strings.Repeat("a?", n))}},
		}
		if n < 100 {
			sets = append(sets, []term{{"a", opEq, eng.Str("{" + strings.Join(lw, ",") + "}")}})
		}
		var one, two []term
		for i := 0; i < n; i++ {
			one = append(one, term{eng.Str(sizeKey(i * 37 % 5003)), i % 4, "v"})
			two = append(two, term{"a", opNe, eng.Str(fmt.Sprintf("w%d", i*37%5003))})
		}
		sets = append(sets, one, two)
		for _, ts := range sets {
			rev := make([]term, len(ts))
			for i := range ts {
				rev[len(ts)-1-i] = ts[i]
			}
			if !yield(parseIn{ts, eng.Str(render(nil, ts)), eng.Str(render(nil, rev))}) {
				return
			}
		}
		if !blanks(n) {
			return
		}
	}
}
