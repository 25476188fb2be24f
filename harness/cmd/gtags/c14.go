package main

import (
	"fmt"
	"net/url"
	"reflect"
	"strings"

	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"

	"verifharness/eng"
	"verifharness/gen"
)

type pathIn struct {
	Name  eng.Str `json:"name"`
	Tags  []kv    `json:"tags"`
	Stale []kv    `json:"stale,omitempty"` // left in the map handed over
	Lib   bool    `json:"lib"`             // escaped by the library (or by net/url)
}

var pathAl = [][]rune{[]rune("ab"), []rune("abc._-"), []rune("aя世"), []rune("a&=;?%+ #/"), []rune("a\x00\n\"'~!*()[]{},:@$\\|^`<>"), []rune("a\x00\x7f\u0080\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff"), []rune("ABZaz09_.-~")}

func genPath(s *eng.Src) pathIn {
	var al []rune
	if k := s.Intn(len(pathAl) + 1); k < len(pathAl) {
		al = pathAl[k]
	} else {
		al = eng.DictRunes(s, "")
	}
	in := pathIn{Name: eng.Str(gen.Word(s, al, 0, 5)), Lib: s.Prob(50)}
	m := map[string]string{}
	n := s.Weighted(15, 25, 25, 15, 10, 10)
	if s.Prob(3) {
		n += s.Intn(30)
	}
	for i := 0; i < n; i++ {
		k := gen.Word(s, al, 1, 4)
		if s.Rare(40) {
			k = strings.Repeat(k, 1+s.Intn(40))
		}
		if k == "__name__" {
			continue
		}
		m[k] = gen.Word(s, al, 0, 5)
		if s.Rare(30) {
			m[k] = strings.Repeat(m[k], 1+s.Intn(80))
		}
	}
	if s.Rare(60) {
		in.Name = eng.Str(strings.Repeat(string(in.Name), 1+s.Intn(80)))
	}
	if s.Prob(12) {
		// any bytes
		raw := func() string {
			b := make([]byte, 1+s.Intn(5))
			for i := range b {
				b[i] = byte(s.Intn(256))
			}
			return string(b)
		}
		if s.Prob(50) {
			in.Name = eng.Str(raw())
		}
		m[raw()] = raw()
		m[raw()] = raw()
	}
	in.Tags = tagSet(m)
	for s.Prob(30) {
		in.Stale = append(in.Stale, kv{eng.Str(gen.Word(s, al, 1, 3)), "stale"})
	}
	return in
}

func runPath(in pathIn, o *eng.Obs) error {
	esc := url.QueryEscape
	if in.Lib {
		esc = escape.Query
	}
	for i, t := range in.Tags {
		if t.K == "" || t.K == "__name__" || (i > 0 && in.Tags[i-1].K >= t.K) {
			return nil
		}
	}
	want := []gtags.Tag{{Key: "__name__", Value: string(in.Name)}}
	wantMap := map[string]string{"__name__": string(in.Name)}
	var q []string
	for _, t := range in.Tags {
		want = append(want, gtags.Tag{Key: string(t.K), Value: string(t.V)})
		wantMap[string(t.K)] = string(t.V)
		q = append(q, esc(string(t.K))+"="+esc(string(t.V)))
	}
	plainName := esc(string(in.Name))
	for _, f := range []struct {
		what string
		path string
		sl   func(string) ([]gtags.Tag, error)
		mp   func(string) (map[string]string, error)
		mpB  func(string, map[string]string) error
		next func(string) (string, string, string, bool)
	}{
		{"path", plainName + "?" + strings.Join(q, "&"), gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB, gtags.NextTag},
		{"Graphite path", plainName + ";" + strings.Join(q, ";"), gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB, gtags.GraphiteNextTag},
	} {
		// one at a time
		rest := f.path[len(plainName)+1:]
		for i, t := range in.Tags {
			k, v, next, ok := f.next(rest)
			if !ok || k != esc(string(t.K)) || v != esc(string(t.V)) {
				return fmt.Errorf("%s %q: tag %d read from %q is %q, %q, %v, want %q, %q", f.what, f.path, i, rest, k, v, ok, t.K, t.V)
			}
			rest = next
		}
		if rest != "" {
			return fmt.Errorf("%s %q: %q is left after the last tag", f.what, f.path, rest)
		}
		o.Checks++
		got, err := f.sl(f.path)
		if err != nil || !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s %q as a slice: %q, %v, want %q", f.what, f.path, got, err, want)
		}
		m, err := f.mp(f.path)
		if err != nil || !reflect.DeepEqual(m, wantMap) {
			return fmt.Errorf("%s %q as a map: %q, %v, want %q", f.what, f.path, m, err, wantMap)
		}
		re := map[string]string{}
		for _, x := range in.Stale {
			re[string(x.K)] = string(x.V)
		}
		if err := f.mpB(f.path, re); err != nil || !reflect.DeepEqual(re, wantMap) {
			return fmt.Errorf("%s %q into a used map: %q, %v, want %q", f.what, f.path, re, err, wantMap)
		}
		if tm := gtags.TagsMap(got); !reflect.DeepEqual(tm, wantMap) {
			return fmt.Errorf("TagsMap(%q) = %q", got, tm)
		}
	}
	o.LabelIf(len(in.Stale) > 0, "used map")
	o.LabelIf(len(in.Tags) == 0, "no tags")
	odd := strings.Join(q, "") != "" && strings.ContainsAny(strings.Join(q, "")+plainName, "%+")
	o.LabelIf(odd, "escaped symbols")
	o.NonTrivial = len(in.Tags) > 0
	return nil
}

// any path: all variants agree

type anyPath struct {
	Path eng.Str `json:"path"`
}

func genAny(s *eng.Src) anyPath {
	return anyPath{eng.Str(eng.Spice(s, gen.Word(s, eng.Pick(s, [][]rune{[]rune("a?&="), []rune("a;="), []rune("ab?&=;%+4F"), []rune("?&=;"), []rune("aя世?&=;%Ffd18"), []rune("A_.-~/:?&=;#+")}), 0, 14)))}
}

func runAny(in anyPath, o *eng.Obs) error {
	p := string(in.Path)
	for _, f := range []struct {
		what     string
		sep, and string
		sl       func(string) ([]gtags.Tag, error)
		mp       func(string) (map[string]string, error)
		mpB      func(string, map[string]string) error
		next     func(string) (string, string, string, bool)
	}{
		{"path", "?", "&", gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB, gtags.NextTag},
		{"Graphite path", ";", ";", gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB, gtags.GraphiteNextTag},
	} {
		sl, e1 := f.sl(p)
		m, e2 := f.mp(p)
		re := map[string]string{"old": "1"}
		e3 := f.mpB(p, re)
		o.Checks++
		if (e1 == nil) != (e2 == nil) || (e1 == nil) != (e3 == nil) {
			return fmt.Errorf("%s %q: errors %v (slice), %v (map), %v (used map)", f.what, p, e1, e2, e3)
		}
		name, args, ok := strings.Cut(p, f.sep)
		bad := !ok || strings.Contains(name, "=")
		empty := false
		pieces := strings.Split(args, f.and)
		for i, a := range pieces {
			// a tag without = is malformed unless it is the empty end
			if !strings.Contains(a, "=") && a != "" {
				bad = true
			}
			empty = empty || a == "" && i < len(pieces)-1
		}
		if empty {
			o.Label("empty tag: not judged")
			continue
		}
		if bad && e1 == nil {
			return fmt.Errorf("%s %q: malformed, but read as %q", f.what, p, sl)
		}
		if bad {
			o.Label("rejected")
			o.NonTrivial = true
			continue
		}
		if e1 != nil {
			return fmt.Errorf("%s %q: %v", f.what, p, e1)
		}
		o.Label("accepted")
		// as a plain reading gives it
		want := []gtags.Tag{{Key: "__name__", Value: escape.Unescape(name)}}
		for _, a := range pieces {
			if a != "" {
				k, v, _ := strings.Cut(a, "=")
				want = append(want, gtags.Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})
			}
		}
		if !reflect.DeepEqual(want, sl) {
			return fmt.Errorf("%s %q: read as %q, want %q", f.what, p, sl, want)
		}
		// one at a time gives the same
		one, rest := []gtags.Tag{{Key: "__name__", Value: escape.Unescape(name)}}, args
		for rest != "" {
			k, v, next, ok := f.next(rest)
			if !ok || len(next) >= len(rest) {
				return fmt.Errorf("%s %q: reading a tag from %q: %q, %q, %q, %v", f.what, p, rest, k, v, next, ok)
			}
			one = append(one, gtags.Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})
			rest = next
		}
		if !reflect.DeepEqual(one, sl) {
			return fmt.Errorf("%s %q: one at a time %q, slice %q", f.what, p, one, sl)
		}
		if !reflect.DeepEqual(m, re) || !reflect.DeepEqual(gtags.TagsMap(sl), m) {
			return fmt.Errorf("%s %q: slice %q, map %q, used map %q", f.what, p, sl, m, re)
		}
	}
	return nil
}

func enumAny(th bool, yield func(anyPath) bool) {
	n := 7
	if th {
		n = 9
	}
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		if !yield(anyPath{eng.Str(p)}) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, c := range []string{"a", "?", "&", "=", ";"} {
			if !rec(p+c, n-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

func c14() *eng.Prop {
	return &eng.Prop{
		ID:   "C14",
		Rule: "A case is a name and up to about 35 sorted tags over plain, Unicode, reserved and control symbols, escaped and written as both kinds of tagged path and read back by every function into fresh and used maps; or any short path over the separators. Non-trivial: there are tags; for any path: it is malformed.",
		Assumptions: []string{
			"keys are not empty; tags are written in sorted order, as a tagged path has them",
			"empty tags between separators (a=1&&b=2) are not judged",
			"what is returned beside an error is not judged",
		},
		Suites: []*eng.Suite{
			eng.Generated("path-round-trip", 300000, 5000000, genPath, runPath),
			eng.Generated("path-any", 200000, 3000000, genAny, runAny),
			eng.Enumerated("path-any-small-scope", enumAny, runAny),
			eng.Enumerated("path-sizes", sizedPath, runPath),
		},
	}
}
