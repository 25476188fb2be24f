// Command owned checks that calls do not disturb each other: what is given
// stays, what is returned stays, and the same question gets the same answer.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/msaf1980/go-matcher/expand"
	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
)

func main() { eng.Main(c25()) }

// call is one call of the history: a kind of call, the pattern, text, object
// and numbers it is about.
type call struct {
	Do string `json:"do"`
	P  int    `json:"p"` // pattern
	X  int    `json:"x"` // text
	O  int    `json:"o"` // object made before
	N  int    `json:"n"`
	M  int    `json:"m"`
}

type histIn struct {
	Globs   []eng.Str `json:"globs"`
	Paths   []eng.Str `json:"paths"`
	Queries []eng.Str `json:"queries"`
	Exps    []eng.Str `json:"exps"`
	Texts   []eng.Str `json:"texts"`
	Dotted  []eng.Str `json:"dotted"`
	Tagged  []eng.Str `json:"tagged"`
	Calls   []call    `json:"calls"`
}

var doing = []string{
	"glob", "glob.match", "globtree.add", "globtree.match",
	"path", "path.match", "path.parts", "pathtree.add", "pathtree.match", "split", "splitB",
	"query", "conditions", "query.match", "querytree.add", "querytree.match", "tags", "tagsB",
	"expand", "exp", "exp.expand", "escape", "escapeTo", "unescapeTo", "nameTo",
	"start", "set", "ascii", "list", "random",
}

// fact is what one call was told and gave.
type fact struct {
	name  string
	kept  string        // how it looked when the call returned
	look  func() string // how it looks now
	first string        // the answer
	again func() string // the same question once more; nil when it cannot be asked twice
	spoil func()        // what a caller may do to what it was given back
}

type world struct {
	in     *histIn
	globs  []*glob.Glob
	paths  []*gglob.GGlob
	terms  []gtags.TaggedTermList
	exps   []*expand.Expressions
	gtrees [2]*glob.GlobTree
	ptrees [2]*gglob.GGlobTree
	qtrees [2]*gtags.GTagsTree
	ver    [3][2]int
	index  int
	parts  []string
	tags   map[string]string
	buf    bytes.Buffer
	sb     strings.Builder
	facts  []fact
}

func at(a []eng.Str, i int) string {
	if len(a) == 0 {
		return ""
	}
	if i < 0 {
		i = -i
	}
	return string(a[i%len(a)])
}

func one[T any](a []T, i int) T {
	if i < 0 {
		i = -i
	}
	return a[i%len(a)]
}

func dumpGlob(g *glob.Glob) string {
	vals := make([]string, 0, len(g.Vals))
	for v := range g.Vals {
		vals = append(vals, v)
	}
	sort.Strings(vals)
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %d %d %q %q %q", g.Raw(), g.String(), g.MinLen, g.MaxLen, g.Prefix, g.Suffix, vals)
	for _, i := range g.Items {
		fmt.Fprintf(&b, " %T%q %d %d", i, i.String(), i.MinLen(), i.MaxLen())
	}
	return b.String()
}

func dumpPath(g *gglob.GGlob) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %d %d", g.Glob, g.Node, g.MinLen, g.MaxLen)
	for _, p := range g.Parts {
		b.WriteString(" (" + dumpGlob(p) + ")")
	}
	return b.String()
}

func dumpTerms(t gtags.TaggedTermList) string {
	var b strings.Builder
	for i := range t {
		fmt.Fprintf(&b, "%q %v %q %s ", t[i].Key, t[i].Op, t[i].Value, t[i].String())
	}
	return b.String() + t.String()
}

func dumpMap(m map[string]string) string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func results(match func(items.Store) int) string {
	all := items.NewAllStore()
	n := match(all)
	r := make([]string, len(all.Index.N))
	for i := range r {
		r[i] = fmt.Sprintf("%d:%q", all.Index.N[i], all.S.S[i])
	}
	sort.Strings(r)
	return fmt.Sprintf("%d %d %s", n, all.Min.Min, strings.Join(r, " "))
}

// spoilList overwrites a list and what lies between its length and capacity.
func spoilList[T any](a []T, x T) {
	a = a[:cap(a)]
	for i := range a {
		a[i] = x
	}
}

func none() string { return "" }

// do makes one call and records what there is to know about it.
func (w *world) do(c call) {
	f := fact{name: fmt.Sprintf("%s %+v", c.Do, c), look: none}
	in := w.in
	tree := c.N & 1
	switch c.Do {
	case "glob":
		p := at(in.Globs, c.P)
		f.name = fmt.Sprintf("glob.Parse(%q)", p)
		g, err := glob.Parse(p)
		if err != nil {
			f.again = func() string { _, err := glob.Parse(p); return fmt.Sprint(err) }
			f.first = fmt.Sprint(err)
			f.look = func() string { return fmt.Sprint(err) }
			break
		}
		w.globs = append(w.globs, g)
		f.look = func() string { return dumpGlob(g) }
		f.again = func() string {
			g, err := glob.Parse(p)
			if err != nil {
				return err.Error()
			}
			return dumpGlob(g)
		}
		f.first = dumpGlob(g)
	case "glob.match":
		if len(w.globs) == 0 {
			return
		}
		g, x := one(w.globs, c.O), at(in.Texts, c.X)
		f.name = fmt.Sprintf("glob %q matches %q", g.Raw(), x)
		f.again = func() string { return fmt.Sprint(g.Match(x)) }
	case "globtree.add":
		t := w.gtrees[tree]
		w.ver[0][tree]++
		w.index++
		if c.N&2 != 0 || len(w.globs) == 0 {
			p := at(in.Globs, c.P)
			f.name = fmt.Sprintf("globtree %d Add(%q)", tree, p)
			norm, n, err := t.Add(p, w.index)
			f.look = func() string { return fmt.Sprint(norm, n, err) }
		} else {
			g := one(w.globs, c.O)
			f.name = fmt.Sprintf("globtree %d AddGlob(%q)", tree, g.Raw())
			norm, n, err := t.AddGlob(g, w.index)
			f.look = func() string { return fmt.Sprint(norm, n, err) + dumpGlob(g) }
		}
	case "globtree.match":
		t, x, v := w.gtrees[tree], at(in.Texts, c.X), w.ver[0][tree]
		f.name = fmt.Sprintf("globtree %d matches %q", tree, x)
		f.again = func() string {
			if w.ver[0][tree] != v {
				return ""
			}
			return results(func(s items.Store) int { return t.Match(x, s) })
		}
	case "path":
		p := at(in.Paths, c.P)
		f.name = fmt.Sprintf("gglob.Parse(%q)", p)
		f.again = func() string {
			g, err := gglob.Parse(p)
			if err != nil {
				return err.Error()
			}
			return dumpPath(g)
		}
		if g, err := gglob.Parse(p); err == nil {
			w.paths = append(w.paths, g)
			f.look = func() string { return dumpPath(g) }
		}
	case "path.match":
		if len(w.paths) == 0 {
			return
		}
		g, x := one(w.paths, c.O), at(in.Dotted, c.X)
		f.name = fmt.Sprintf("path glob %q matches %q", g.Glob, x)
		f.again = func() string { return fmt.Sprint(g.Match(x)) }
	case "path.parts":
		if len(w.paths) == 0 {
			return
		}
		g, x := one(w.paths, c.O), at(in.Dotted, c.X)
		parts := gglob.PathSplit(x)
		if len(parts) == 0 || gglob.HasEmptyParts(parts) {
			return
		}
		f.name = fmt.Sprintf("path glob %q matches the parts of %q", g.Glob, x)
		f.look = func() string { return fmt.Sprintf("%q", parts) }
		f.again = func() string { return fmt.Sprint(g.MatchByParts(parts, 0)) }
	case "pathtree.add":
		t := w.ptrees[tree]
		w.ver[1][tree]++
		w.index++
		if c.N&2 != 0 || len(w.paths) == 0 {
			p := at(in.Paths, c.P)
			f.name = fmt.Sprintf("pathtree %d Add(%q)", tree, p)
			norm, n, err := t.Add(p, w.index)
			f.look = func() string { return fmt.Sprint(norm, n, err) }
		} else {
			g := one(w.paths, c.O)
			f.name = fmt.Sprintf("pathtree %d AddGlob(%q)", tree, g.Glob)
			norm, n, err := t.AddGlob(g, w.index)
			f.look = func() string { return fmt.Sprint(norm, n, err) + dumpPath(g) }
		}
	case "pathtree.match":
		t, x, v := w.ptrees[tree], at(in.Dotted, c.X), w.ver[1][tree]
		parts := gglob.PathSplit(x)
		whole := c.M&1 != 0 || len(parts) == 0 || gglob.HasEmptyParts(parts)
		f.name = fmt.Sprintf("pathtree %d matches %q (whole: %v)", tree, x, whole)
		f.look = func() string { return fmt.Sprintf("%q", parts) }
		f.again = func() string {
			if w.ver[1][tree] != v {
				return ""
			}
			if whole {
				return results(func(s items.Store) int { return t.Match(x, s) })
			}
			return results(func(s items.Store) int { return t.MatchByParts(parts, s) })
		}
	case "split":
		x := at(in.Dotted, c.X)
		f.name = fmt.Sprintf("PathSplit(%q)", x)
		r := gglob.PathSplit(x)
		f.look = func() string { return fmt.Sprintf("%q", r) }
		f.again = func() string { return fmt.Sprintf("%q", gglob.PathSplit(x)) }
		f.spoil = func() { spoilList(r, "spoiled.part") }
	case "splitB":
		x := at(in.Dotted, c.X)
		f.name = fmt.Sprintf("PathSplitB(%q)", x)
		f.again = func() string {
			ok := gglob.PathSplitB(x, &w.parts)
			if !ok {
				return "not ok"
			}
			return fmt.Sprintf("%q", w.parts)
		}
	case "query":
		q := at(in.Queries, c.P)
		f.name = fmt.Sprintf("ParseSeriesByTag(%q)", q)
		f.again = func() string {
			t, err := gtags.ParseSeriesByTag(q)
			if err != nil {
				return err.Error()
			}
			return dumpTerms(t)
		}
		if t, err := gtags.ParseSeriesByTag(q); err == nil {
			w.terms = append(w.terms, t)
			f.look = func() string { return dumpTerms(t) }
		}
	case "conditions":
		q := at(in.Queries, c.P)
		t, err := gtags.ParseSeriesByTag(q)
		if err != nil || len(t) == 0 {
			return
		}
		conds := make([]string, 0, len(t)+2)
		for i := len(t) - 1; i >= 0; i-- {
			key := t[i].Key
			if c.M&1 != 0 && key == "__name__" {
				key = "name"
			}
			if c.M&2 != 0 {
				conds = append(conds, " "+key+" "+t[i].Op.String()+" "+t[i].Value+" ")
			} else {
				conds = append(conds, key+t[i].Op.String()+t[i].Value)
			}
		}
		f.name = fmt.Sprintf("ParseTaggedConditions(%q)", conds)
		f.look = func() string { return fmt.Sprintf("%q", conds) }
		f.kept = f.look()
		f.again = func() string {
			t, err := gtags.ParseTaggedConditions(conds)
			if err != nil {
				return err.Error()
			}
			return dumpTerms(t)
		}
		if t, err := gtags.ParseTaggedConditions(conds); err == nil {
			w.terms = append(w.terms, t)
			given, parsed := f.look, dumpTerms(t)
			f.kept += parsed
			f.look = func() string { return given() + dumpTerms(t) }
		}
	case "query.match":
		if len(w.terms) == 0 {
			return
		}
		t, x := one(w.terms, c.O), at(in.Tagged, c.X)
		m, tags, ok := readTags(x)
		if !ok {
			return
		}
		f.name = fmt.Sprintf("query %s matches %q", t, x)
		f.look = func() string { return dumpMap(m) + fmt.Sprintf("%q", tags) }
		f.again = func() string { return fmt.Sprint(t.MatchByTagsMap(m), t.MatchByTags(tags)) }
	case "querytree.add":
		t := w.qtrees[tree]
		w.ver[2][tree]++
		w.index++
		if c.N&2 != 0 || len(w.terms) == 0 {
			q := at(in.Queries, c.P)
			f.name = fmt.Sprintf("querytree %d Add(%q)", tree, q)
			norm, n, err := t.Add(q, w.index)
			f.look = func() string { return fmt.Sprint(norm, n, err) }
		} else {
			q := one(w.terms, c.O)
			f.name = fmt.Sprintf("querytree %d AddTerms(%s)", tree, q)
			norm, n, err := t.AddTerms(q, w.index)
			f.look = func() string { return fmt.Sprint(norm, n, err) + dumpTerms(q) }
		}
	case "querytree.match":
		t, x, v := w.qtrees[tree], at(in.Tagged, c.X), w.ver[2][tree]
		m, tags, ok := readTags(x)
		if !ok {
			return
		}
		f.name = fmt.Sprintf("querytree %d matches %q", tree, x)
		f.look = func() string { return dumpMap(m) + fmt.Sprintf("%q", tags) }
		f.again = func() string {
			if w.ver[2][tree] != v {
				return ""
			}
			return results(func(s items.Store) int { return t.MatchByTagsMap(m, s) }) + " " +
				results(func(s items.Store) int { return t.MatchByTags(tags, s) })
		}
	case "tags":
		x := at(in.Tagged, c.X)
		f.name = fmt.Sprintf("reading %q", x)
		type read struct {
			t, t2    []gtags.Tag
			m, m2, c map[string]string
		}
		show := func(r read) string {
			return fmt.Sprintf("%q %q %s / %s / %s", r.t, r.t2, dumpMap(r.m), dumpMap(r.m2), dumpMap(r.c))
		}
		ask := func() (r read, err, err2, err3, err4 error) {
			if r.t, err = gtags.GraphitePathTags(x); err != nil {
				r.t = nil
			}
			if r.m, err2 = gtags.GraphitePathTagsMap(x); err2 != nil {
				r.m = nil
			}
			if r.t2, err3 = gtags.PathTags(x); err3 != nil {
				r.t2 = nil
			}
			if r.m2, err4 = gtags.PathTagsMap(x); err4 != nil {
				r.m2 = nil
			}
			r.c = gtags.TagsMap(r.t)
			return
		}
		r, _, _, _, _ := ask()
		f.look = func() string { return show(r) }
		f.again = func() string {
			r, err, err2, err3, err4 := ask()
			return fmt.Sprint(show(r), err, err2, err3, err4)
		}
		f.spoil = func() {
			spoilList(r.t, gtags.Tag{Key: "spoiled", Value: "tag"})
			spoilList(r.t2, gtags.Tag{Key: "spoiled", Value: "tag"})
			for _, m := range []map[string]string{r.m, r.m2, r.c} {
				for k := range m {
					m[k] = "spoiled"
				}
				if m != nil {
					m["spoiled"] = "too"
				}
			}
		}
	case "tagsB":
		x := at(in.Tagged, c.X)
		f.name = fmt.Sprintf("reading %q into a map used before", x)
		f.again = func() string {
			for k := range w.tags {
				delete(w.tags, k)
			}
			if err := gtags.GraphitePathTagsMapB(x, w.tags); err != nil {
				return err.Error()
			}
			return dumpMap(w.tags)
		}
	case "expand":
		p := at(in.Exps, c.P)
		try := c.O&1 != 0
		f.name = fmt.Sprintf("Expand(%q, %d, %d) (try: %v)", p, c.N, c.M, try)
		ask := func() ([]string, error) {
			if try {
				return expand.ExpandTry(p, c.N, c.M)
			}
			return expand.Expand(p, c.N, c.M)
		}
		r, err := ask()
		f.look = func() string { return fmt.Sprintf("%q %v", r, err) }
		f.again = func() string { r, err := ask(); return fmt.Sprintf("%q %v", r, err) }
		f.spoil = func() { spoilList(r, "spoiled") }
	case "exp":
		w.exps = append(w.exps, expand.ParseExpr(at(in.Exps, c.P)))
		return
	case "exp.expand":
		if len(w.exps) == 0 {
			return
		}
		e := one(w.exps, c.O)
		f.name = fmt.Sprintf("parsed expression %d expanded (%d, %d)", c.O%len(w.exps), c.N, c.M)
		r, err := e.Expand(c.N, c.M, c.X&1 != 0)
		f.look = func() string { return fmt.Sprintf("%q %v", r, err) }
		f.again = func() string { r, err := e.Expand(c.N, c.M, c.X&1 != 0); return fmt.Sprintf("%q %v", r, err) }
		f.spoil = func() { spoilList(r, "spoiled") }
	case "escape":
		x := at(in.Texts, c.X)
		f.name = fmt.Sprintf("escaping %q", x)
		q, p, u := escape.Query(x), escape.Path(x), escape.Unescape(x)
		f.look = func() string { return fmt.Sprintf("%q %q %q", q, p, u) }
		f.again = func() string { return fmt.Sprintf("%q %q %q", escape.Query(x), escape.Path(x), escape.Unescape(x)) }
	case "escapeTo":
		x := at(in.Texts, c.X)
		f.name = fmt.Sprintf("escaping %q into a buffer", x)
		from := w.buf.Len()
		escape.QueryTo(x, &w.buf)
		mid := w.buf.Len()
		escape.PathTo(x, &w.buf)
		to := w.buf.Len()
		f.look = func() string { return fmt.Sprintf("%q %q", w.buf.Bytes()[from:mid], w.buf.Bytes()[mid:to]) }
		f.again = func() string {
			from := w.buf.Len()
			escape.QueryTo(x, &w.buf)
			escape.PathTo(x, &w.buf)
			return string(w.buf.Bytes()[from:])
		}
	case "unescapeTo":
		x := escape.Query(at(in.Texts, c.X)) + at(in.Texts, c.P)
		f.name = fmt.Sprintf("unescaping %q into a buffer", x)
		r := escape.UnescapeTo(x, &w.sb)
		f.look = func() string { return r }
		f.again = func() string { return escape.UnescapeTo(x, &w.sb) }
	case "nameTo":
		x := escape.Path(at(in.Texts, c.X))
		f.name = fmt.Sprintf("unescaping the name %q into a buffer", x)
		n, t := escape.UnescapeNameTo(x, &w.sb)
		f.look = func() string { return n + " " + t }
		f.again = func() string { n, t := escape.UnescapeNameTo(x, &w.sb); return n + " " + t }
	case "start":
		var gs []string
		for i := 0; i <= c.N%4; i++ {
			gs = append(gs, at(in.Globs, c.P+i))
		}
		f.name = fmt.Sprintf("IntersectGlobs(%q)", gs)
		f.look = func() string { return fmt.Sprintf("%q", gs) }
		f.again = func() string { return items.IntersectGlobs(gs) }
	case "set":
		x, y := at(in.Texts, c.X), at(in.Texts, c.P)
		f.name = fmt.Sprintf("set of the symbols of %q asked about %q", x, y)
		var rs utils.RunesRanges
		rs.Adds(x)
		rs.Merge()
		ask := func() string {
			i, r, n := rs.Index(y)
			j, q, m := rs.IndexByte([]byte(y))
			r2, n2 := rs.StartsWith(y)
			r3, n3 := rs.EndsWith(y)
			return fmt.Sprint(i, r, n, j, q, m, r2, n2, r3, n3)
		}
		f.look = func() string { return rs.String() }
		f.again = ask
	case "ascii":
		x, y := at(in.Texts, c.X), at(in.Texts, c.P)
		f.name = fmt.Sprintf("ASCII set of %q asked about %q", x, y)
		as, ok := utils.MakeASCIISet(x)
		b := []byte(y)
		f.look = func() string { return fmt.Sprintf("%v %q %q", ok, as.StringAll(), b) }
		f.again = func() string {
			n, first := as.Count()
			return fmt.Sprint(as.Index(y), as.LastIndex(y), as.IndexByte(b), as.LastIndexByte(b), n, first)
		}
	case "list":
		p := at(in.Exps, c.P)
		f.name = fmt.Sprintf("values of %q", p)
		r, ok := items.ListExpand(p)
		f.look = func() string { return fmt.Sprintf("%q %v", r, ok) }
		f.again = func() string { r, ok := items.ListExpand(p); return fmt.Sprintf("%q %v", r, ok) }
		f.spoil = func() { spoilList(r, "spoiled") }
	case "random":
		if len(w.globs) == 0 {
			return
		}
		g := one(w.globs, c.O)
		f.name = fmt.Sprintf("random text of %q", g.Raw())
		from := w.sb.Len()
		g.WriteRandom(&w.sb)
		to := w.sb.Len()
		f.look = func() string { return w.sb.String()[from:to] + dumpGlob(g) }
	default:
		return
	}
	if f.kept == "" {
		f.kept = f.look()
	}
	if f.again != nil {
		f.first = f.again()
	}
	// shown text may share memory with what it shows
	f.first, f.kept = strings.Clone(f.first), strings.Clone(f.kept)
	w.facts = append(w.facts, f)
}

func readTags(x string) (map[string]string, []gtags.Tag, bool) {
	m, err := gtags.GraphitePathTagsMap(x)
	t, err2 := gtags.GraphitePathTags(x)
	return m, t, err == nil && err2 == nil
}

func (w *world) check(when string, kept bool) error {
	for i := range w.facts {
		f := &w.facts[i]
		if kept {
			if now := f.look(); now != f.kept {
				return fmt.Errorf("%s: given or returned %s, %s it is %s", f.name, f.kept, when, now)
			}
		}
		if f.again != nil {
			if now := f.again(); now != f.first && !f.outdated(w, now) {
				return fmt.Errorf("%s: gave %s, %s it gives %s", f.name, f.first, when, now)
			}
		}
	}
	return nil
}

// outdated: the tree got more members meanwhile (their answers are judged by
// other properties).
func (f *fact) outdated(_ *world, now string) bool {
	return now == "" && strings.Contains(f.name, "tree ")
}

func runHist(in histIn, o *eng.Obs) error {
	w := &world{in: &in, tags: map[string]string{}}
	for i := range w.gtrees {
		w.gtrees[i], w.ptrees[i], w.qtrees[i] = glob.NewTree(), gglob.NewTree(), gtags.NewTree()
	}
	for i, c := range in.Calls {
		w.do(c)
		if len(in.Calls) <= 60 && i%8 == 7 {
			if err := w.check(fmt.Sprintf("after call %d (%s)", i+1, c.Do), true); err != nil {
				return err
			}
		}
	}
	if err := w.check("after all calls", true); err != nil {
		return err
	}
	o.Checks += 2 * len(w.facts)
	// only what has not been given to anything else may be spoiled
	spoiled := 0
	for i := range w.facts {
		if w.facts[i].spoil != nil {
			w.facts[i].spoil()
			spoiled++
		}
	}
	for i := range w.parts {
		w.parts[i] = "spoiled"
	}
	o.LabelIf(spoiled > 0, "results overwritten")
	if spoiled > 0 {
		var left []fact
		for _, f := range w.facts {
			if f.spoil != nil {
				f.look = none
				f.kept = ""
			}
			left = append(left, f)
		}
		w.facts = left
		if err := w.check("after the caller changed its results", true); err != nil {
			return err
		}
	}
	kinds := map[string]bool{}
	for _, c := range in.Calls {
		kinds[c.Do] = true
	}
	o.NonTrivial = len(w.facts) >= 3 && len(kinds) >= 3
	o.LabelIf(len(w.globs)+len(w.paths)+len(w.terms) > 1, "several parsed objects")
	o.LabelIf(w.index > 1, "trees with several members")
	return nil
}

func genHist(long bool) func(*eng.Src) histIn {
	return func(s *eng.Src) histIn {
		var in histIn
		al := gen.Alphabet(s, gen.Opt{})
		dal := gen.Alphabet(s, gen.Opt{NoDot: true})
		var nodes [][]ref.Node
		for k := 2 + s.Intn(5); k > 0; k-- {
			g := gen.Glob(s, al, gen.Opt{MaxElems: 5, Stars: 2})
			if s.Prob(6) {
				g = gen.Mutate(s, al, g)
			}
			if n, err := ref.ParseGlob(g); err == nil {
				nodes = append(nodes, n)
			}
			in.Globs = append(in.Globs, eng.Str(g))
			if s.Prob(30) {
				in.Globs = append(in.Globs, eng.Str(gen.Twin(s, al, g)))
			}
		}
		for k := 3 + s.Intn(5); k > 0; k-- {
			if len(nodes) > 0 && s.Prob(75) {
				in.Texts = append(in.Texts, eng.Str(gen.Target(s, al, eng.Pick(s, nodes))))
			} else {
				in.Texts = append(in.Texts, eng.Str(gen.Word(s, al, 0, 8)+eng.Pick(s, []string{"", "%41", "%", "+", " ", "%d1%8f"})))
			}
		}
		var parts []string
		var pnodes [][]ref.Node
		for k := 2 + s.Intn(4); k > 0; k-- {
			p := gen.Glob(s, dal, gen.Opt{MaxElems: 3, Stars: 1, NoDot: true, NonEmpty: true})
			n, err := ref.ParseGlob(p)
			if err != nil {
				continue
			}
			parts = append(parts, p)
			pnodes = append(pnodes, n)
		}
		for k := 2 + s.Intn(4); k > 0 && len(parts) > 0; k-- {
			var ps, xs []string
			for n := 1 + s.Intn(4); n > 0; n-- {
				i := s.Intn(len(parts))
				ps = append(ps, parts[i])
				xs = append(xs, strings.ReplaceAll(gen.Target(s, dal, pnodes[i]), ".", "_"))
			}
			tail := eng.Pick(s, []string{"", "", "", "."})
			in.Paths = append(in.Paths, eng.Str(strings.Join(ps, ".")+tail))
			in.Dotted = append(in.Dotted, eng.Str(strings.Join(xs, ".")+tail))
			if s.Prob(25) {
				in.Dotted = append(in.Dotted, eng.Str(strings.Join(xs, ".")+".b"))
			}
		}
		keys := []string{"a", "b", "c", "name", "__name__", "aa", "ab"}
		vals := []string{"a", "b", "ab", "aab", "", "a b", "я"}
		for k := 2 + s.Intn(4); k > 0; k-- {
			var ts []string
			for n := 1 + s.Intn(4); n > 0; n-- {
				op := eng.Pick(s, []string{"=", "!=", "=~", "!=~"})
				v := eng.Pick(s, []string{"a", "a*", "{a,b}", "[ab]b", "?", "*b", "{a,b}*", "ab"})
				if strings.HasSuffix(op, "~") {
					v = eng.Pick(s, []string{"a", "^a", "b$", "[ab]+$", "a.*b", "^a$|b"})
				}
				ts = append(ts, "'"+eng.Pick(s, keys)+op+v+"'")
			}
			in.Queries = append(in.Queries, eng.Str("seriesByTag("+strings.Join(ts, ", ")+")"))
		}
		for k := 2 + s.Intn(5); k > 0; k-- {
			x := eng.Pick(s, vals[:4])
			used := map[string]bool{}
			for _, key := range []string{"a", "aa", "ab", "b", "c"} {
				if s.Prob(50) && !used[key] {
					used[key] = true
					x += ";" + key + "=" + escape.Query(eng.Pick(s, vals))
				}
			}
			if s.Prob(15) {
				x = strings.Replace(strings.Replace(x, ";", "?", 1), ";", "&", -1)
			}
			in.Tagged = append(in.Tagged, eng.Str(x))
		}
		for k := 2 + s.Intn(3); k > 0; k-- {
			e := ""
			for n := 1 + s.Intn(4); n > 0; n-- {
				e += eng.Pick(s, []string{"a", "b", ".", "{a,b}", "{a,b,c}", "[ab]", "[a-c]", "{a,}", "{я,b}", "*", "?", "[я-а]", "{a", "[bя]"})
			}
			in.Exps = append(in.Exps, eng.Str(e))
		}
		n := 4 + s.Size(0, 40)
		if long {
			n = 100 + s.Intn(1500)
		}
		// a few kinds of calls in most cases, so that they meet
		kinds := doing
		if s.Prob(60) {
			kinds = nil
			for k := 2 + s.Intn(5); k > 0; k-- {
				kinds = append(kinds, eng.Pick(s, doing))
			}
			if s.Prob(60) {
				kinds = append(kinds, "glob", "path", "query", "exp")
			}
		}
		for ; n > 0; n-- {
			in.Calls = append(in.Calls, call{Do: eng.Pick(s, kinds), P: s.Intn(8), X: s.Intn(8), O: s.Intn(12),
				N: eng.Pick(s, []int{0, 1, 2, 3, -1, 4, 7}), M: s.Intn(4)})
		}
		return in
	}
}

func c25() *eng.Prop {
	p := &eng.Prop{
		ID:   "C25",
		Rule: "A case is a history of 4 to about 45 calls (100 to 1600 in the long suite) of every part of the library - parsing, matching, trees, splitting, reading tags, expanding, escaping, symbol sets - over a few globs, path globs, queries, expressions and texts, with parsed objects shared between trees; what every call was given and gave is looked at again in between and at the end, every question is asked again, then the lists and maps which belong to the caller are overwritten and every question is asked once more. Non-trivial: at least three calls of at least three kinds.",
		Assumptions: []string{
			"parsed objects, and lists of terms given to a tree, are not written to by the caller; the lists and maps of plain texts and tags which a call returned may be",
			"a buffer, list or map given to be written into is the caller's, and its old content is only looked at where the call is said to append",
			"what a tree answers after something was added to it is judged by other properties",
		},
		Suites: []*eng.Suite{
			eng.Generated("history", 150000, 3000000, genHist(false), runHist),
			eng.Generated("history-long", 800, 20000, genHist(true), runHist),
		},
	}
	return p
}
