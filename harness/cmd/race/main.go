// Command race checks concurrent use; it is built with the race detector.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

func main() { eng.Main(c21()) }

type raceIn struct {
	Kind     string    `json:"kind"`
	Patterns []eng.Str `json:"patterns"`
	Inputs   []eng.Str `json:"inputs"`
	Workers  int       `json:"workers"`
	Rounds   int       `json:"rounds"`
	Reparse  bool      `json:"reparse"` // other objects are made meanwhile
}

var kinds = []string{"glob", "pathglob", "globtree", "pathglobtree", "query", "querytree"}

func pattern(s *eng.Src, al []rune, kind string) (string, []ref.Node) {
	switch kind {
	case "glob", "globtree":
		g := gen.Glob(s, al, gen.Opt{MaxElems: 5, Stars: 2})
		n, _ := ref.ParseGlob(g)
		return g, n
	case "pathglob", "pathglobtree":
		var parts []string
		var nodes []ref.Node
		for k := 1 + s.Intn(4); k > 0; k-- {
			p := gen.Glob(s, al, gen.Opt{MaxElems: 3, Stars: 1, NoDot: true, NonEmpty: true})
			parts = append(parts, p)
			n, _ := ref.ParseGlob(p)
			if len(nodes) > 0 {
				nodes = append(nodes, ref.Node{K: ref.Lit, Lit: "."})
			}
			nodes = append(nodes, n...)
		}
		return strings.Join(parts, "."), nodes
	default:
		var ts []string
		used := map[string]bool{}
		for k := 1 + s.Intn(4); k > 0; k-- {
			key := eng.Pick(s, []string{"a", "b", "c", "name", "__name__"})
			if used[key] {
				continue
			}
			used[key] = true
			op := eng.Pick(s, []string{"=", "!=", "=~", "!=~"})
			v := ""
			if strings.HasSuffix(op, "~") {
				v = eng.Pick(s, []string{"a", "^a", "b$", "[ab]+", "a.*b"})
			} else {
				v = gen.Glob(s, al, gen.Opt{MaxElems: 3, Stars: 1, NoQuote: true, NonEmpty: true})
				v = strings.NewReplacer(" ", "_", ",", "_", "~", "_").Replace(v)
				if _, err := ref.ParseGlob(v); err != nil {
					v = "a*"
				}
			}
			ts = append(ts, "'"+key+op+v+"'")
		}
		return "seriesByTag(" + strings.Join(ts, ", ") + ")", nil
	}
}

func genRace(s *eng.Src) raceIn {
	in := raceIn{Kind: eng.Pick(s, kinds), Workers: 2 + s.Intn(7), Rounds: 1 + s.Intn(3), Reparse: s.Prob(40)}
	tagged := strings.HasPrefix(in.Kind, "query")
	al := gen.Alphabet(s, gen.Opt{NoDot: strings.HasPrefix(in.Kind, "path"), NoQuote: tagged})
	n := 1
	if strings.HasSuffix(in.Kind, "tree") {
		n = 1 + s.Size(1, 16)
	}
	var nodes [][]ref.Node
	for i := 0; i < n; i++ {
		p, nn := pattern(s, al, in.Kind)
		in.Patterns = append(in.Patterns, eng.Str(p))
		nodes = append(nodes, nn)
	}
	for k := 2 + s.Intn(5); k > 0; k-- {
		if tagged {
			x := "x"
			if s.Prob(70) {
				x = eng.Pick(s, []string{"a", "ab", "b", "ba"})
			}
			for _, key := range []string{"a", "b", "c", "d"} {
				if s.Prob(60) {
					x += ";" + key + "=" + escape.Query(eng.Pick(s, []string{"a", "ab", "b", "aab", gen.Word(s, al, 0, 3)}))
				}
			}
			in.Inputs = append(in.Inputs, eng.Str(x))
		} else {
			in.Inputs = append(in.Inputs, eng.Str(gen.Target(s, al, eng.Pick(s, nodes))))
		}
	}
	return in
}

// object is something to match against, and what it does with one input.
type object struct {
	ask func(in string) string
}

func results(match func(items.Store) int) string {
	all := items.NewAllStore()
	n := match(all)
	r := make([]string, len(all.Index.N))
	for i := range r {
		r[i] = fmt.Sprintf("%d:%s", all.Index.N[i], all.S.S[i])
	}
	sort.Strings(r)
	return fmt.Sprintf("%d %d %s", n, all.Min.Min, strings.Join(r, " "))
}

func build(kind string, ps []eng.Str) (object, error) {
	switch kind {
	case "glob":
		g, err := glob.Parse(string(ps[0]))
		if err != nil {
			return object{}, err
		}
		return object{func(in string) string { return fmt.Sprint(g.Match(in), g.String(), g.Raw()) }}, nil
	case "pathglob":
		g, err := gglob.Parse(string(ps[0]))
		if err != nil {
			return object{}, err
		}
		return object{func(in string) string {
			parts := gglob.PathSplit(in)
			r := fmt.Sprint(g.Match(in))
			if len(parts) > 0 {
				r += fmt.Sprint(g.MatchByParts(parts, len(in)))
			}
			return r
		}}, nil
	case "globtree":
		t := glob.NewTree()
		for i, p := range ps {
			_, _, _ = t.Add(string(p), i)
		}
		return object{func(in string) string {
			return results(func(st items.Store) int { return t.Match(in, st) })
		}}, nil
	case "pathglobtree":
		t := gglob.NewTree()
		for i, p := range ps {
			_, _, _ = t.Add(string(p), i)
		}
		return object{func(in string) string {
			parts := gglob.PathSplit(in)
			r := results(func(st items.Store) int { return t.Match(in, st) })
			if len(parts) > 0 {
				r += results(func(st items.Store) int { return t.MatchByParts(parts, st) })
			}
			return r
		}}, nil
	case "query":
		ts, err := gtags.ParseSeriesByTag(string(ps[0]))
		if err != nil {
			return object{}, err
		}
		return object{func(in string) string {
			m, err := gtags.PathTagsMap(in)
			t, err2 := gtags.PathTags(in)
			if err != nil || err2 != nil {
				return fmt.Sprint(err, err2)
			}
			return fmt.Sprint(ts.MatchByTagsMap(m), ts.MatchByTags(t), ts.String())
		}}, nil
	default:
		q := gtags.NewTree()
		for i, p := range ps {
			_, _, _ = q.Add(string(p), i)
		}
		return object{func(in string) string {
			m, err := gtags.GraphitePathTagsMap(in)
			t, err2 := gtags.GraphitePathTags(in)
			if err != nil || err2 != nil {
				return fmt.Sprint(err, err2)
			}
			return results(func(st items.Store) int { return q.MatchByTagsMap(m, st) }) +
				results(func(st items.Store) int { return q.MatchByTags(t, st) })
		}}, nil
	}
}

// aside is work on objects of its own.
func aside(in raceIn) string {
	o, err := build(in.Kind, in.Patterns)
	if err != nil {
		return err.Error()
	}
	var b strings.Builder
	for _, x := range in.Inputs {
		b.WriteString(o.ask(string(x)))
		b.WriteString(escape.Unescape(escape.Query(string(x)) + escape.Path(string(x))))
	}
	if p := string(in.Patterns[0]); len(p) < 40 {
		r, _ := expand.Expand(p, 16, 0)
		b.WriteString(strings.Join(r, " "))
		r, _ = expand.ExpandTry(p, 16, 2)
		b.WriteString(strings.Join(r, " "))
	}
	var all []string
	for _, x := range in.Patterns {
		all = append(all, string(x))
	}
	b.WriteString(items.IntersectGlobs(all))
	var sb strings.Builder
	var bb bytes.Buffer
	var parts []string
	m := map[string]string{}
	for _, e := range in.Inputs {
		x := string(e)
		var rs utils.RunesRanges
		rs.Adds(x)
		rs.Merge()
		i, c, n := rs.Index(b.String())
		as, _ := utils.MakeASCIISet(x)
		fmt.Fprint(&b, rs.String(), i, c, n, as.String(), utils.StringSkipRunes(x, 2), utils.StringSkipRunesLast(x, 2))
		name, tag := escape.UnescapeNameTo(x, &sb)
		escape.QueryTo(x, &bb)
		escape.PathTo(x, &bb)
		fmt.Fprint(&b, name, tag, escape.UnescapeTo(x, &sb), gglob.PathSplitB(x, &parts), parts, gtags.PathTagsMapB(x, m), gtags.GraphitePathTagsMapB(x, m), len(m))
		tags, err := gtags.PathTags(x)
		fmt.Fprint(&b, tags, err)
	}
	return b.String() + bb.String()
}

func runRace(in raceIn, o *eng.Obs) error {
	if len(in.Patterns) == 0 || in.Workers < 1 || in.Rounds < 1 {
		return nil
	}
	fresh, err := build(in.Kind, in.Patterns)
	if err != nil {
		return nil
	}
	want := make([]string, len(in.Inputs))
	for i, x := range in.Inputs {
		want[i] = fresh.ask(string(x))
	}
	wantAside := ""
	if in.Reparse {
		wantAside = aside(in)
	}
	// nobody has asked this one before
	shared, err := build(in.Kind, in.Patterns)
	if err != nil {
		return fmt.Errorf("%s %q: parsed once, then %v", in.Kind, in.Patterns, err)
	}
	errs := make([]error, in.Workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < in.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[w] = fmt.Errorf("%s %q: panic in goroutine %d: %v", in.Kind, in.Patterns, w, r)
				}
			}()
			<-start
			if in.Reparse && w%2 == 1 {
				for r := 0; r < in.Rounds; r++ {
					if got := aside(in); got != wantAside {
						errs[w] = fmt.Errorf("%s %q: goroutine %d on objects of its own got %q, want %q", in.Kind, in.Patterns, w, got, wantAside)
						return
					}
				}
				return
			}
			for r := 0; r < in.Rounds; r++ {
				for k := range in.Inputs {
					i := (k + w) % len(in.Inputs)
					if got := shared.ask(string(in.Inputs[i])); got != want[i] {
						errs[w] = fmt.Errorf("%s %q: goroutine %d asked %q and got %q, want %q", in.Kind, in.Patterns, w, in.Inputs[i], got, want[i])
						return
					}
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	o.Checks += in.Workers * in.Rounds * len(in.Inputs)
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for i, x := range in.Inputs {
		if got := shared.ask(string(x)); got != want[i] {
			return fmt.Errorf("%s %q: after the concurrent use %q gets %q, want %q", in.Kind, in.Patterns, x, got, want[i])
		}
	}
	o.Label(in.Kind)
	o.LabelIf(in.Reparse, "other objects made meanwhile")
	diff := map[string]bool{}
	for _, x := range want {
		diff[x] = true
	}
	o.NonTrivial = len(diff) > 1
	return nil
}

func c21() *eng.Prop {
	p := &eng.Prop{
		ID:   "C21",
		Rule: "A case is a glob, a path glob, a seriesByTag query or a tree of up to 17 of them (in the enumerated suite of many sizes, up to some hundreds of them), asked by two to eight goroutines at once about up to six inputs in different orders, in some cases while other goroutines parse and match the same patterns in objects of their own; the program is built with the race detector, and every answer is compared with the one a separate object gave alone. Non-trivial: the inputs get different answers.",
		Assumptions: []string{
			"nothing is added to a tree while it is matched; every goroutine has its own store",
			"the schedules are those the Go scheduler makes; the race detector sees unordered accesses also when they did not collide",
		},
		Suites: []*eng.Suite{eng.Generated("concurrent", 15000, 400000, genRace, runRace), eng.Enumerated("concurrent-sizes", sizedRace, runRace)},
	}
	p.Suites[0].Multi = true
	p.Suites[1].Multi = true
	return p
}
