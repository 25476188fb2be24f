// Package share holds pieces several groups of checks use.
package share

import (
	"fmt"
	"os"

	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
)

// Rec is a store which records what a tree reports.
type Rec struct {
	N   int
	Got map[int]string
	Bad string
}

// NewRec makes an empty recorder.
func NewRec() *Rec { return &Rec{Got: map[int]string{}} }

// Store implements items.Store.
func (r *Rec) Store(s string, index int) {
	r.N++
	if r.N > 20000000 {
		panic("more than 20000000 results of one match")
	}
	if old, ok := r.Got[index]; ok && old != s {
		r.Bad = fmt.Sprintf("index %d reported with %q and with %q", index, old, s)
	}
	r.Got[index] = s
}

// Diff compares the answer with the one expected.
func Diff(got, want map[int]string) string {
	for i, q := range want {
		if g, ok := got[i]; !ok {
			return fmt.Sprintf("index %d (%q) matches but is not reported", i, q)
		} else if g != q {
			return fmt.Sprintf("index %d reported with query %q, registered as %q", i, g, q)
		}
	}
	for i, q := range got {
		if _, ok := want[i]; !ok {
			return fmt.Sprintf("index %d (%q) is reported but does not match", i, q)
		}
	}
	return ""
}

// Min is the least index of an answer, or -1.
func Min(want map[int]string) int {
	m := -1
	for i := range want {
		if m == -1 || i < m {
			m = i
		}
	}
	return m
}

// Judge runs a match with the recorder and with the stores of the library.
func Judge(what string, want map[int]string, match func(items.Store) int) (int, error) {
	rec := NewRec()
	n := match(rec)
	if rec.Bad != "" {
		return n, fmt.Errorf("%s: %s", what, rec.Bad)
	}
	if n != rec.N {
		return n, fmt.Errorf("%s returned %d but reported %d results", what, n, rec.N)
	}
	if d := Diff(rec.Got, want); d != "" {
		return n, fmt.Errorf("%s: %s", what, d)
	}
	all := items.NewAllStore()
	all.Init()
	ms, is, ss := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore()
	for _, st := range []items.Store{all, ms, is, ss} {
		if k := match(st); k != n {
			return n, fmt.Errorf("%s returned %d, then %d", what, n, k)
		}
	}
	min := Min(want)
	if ms.Min != min || all.Min.Min != min {
		return n, fmt.Errorf("%s: lowest index %d (MinStore) %d (AllStore), want %d", what, ms.Min, all.Min.Min, min)
	}
	if len(is.N) != n || len(ss.S) != n || len(all.Index.N) != n || len(all.S.S) != n {
		return n, fmt.Errorf("%s: stores hold %d/%d/%d/%d results, %d were returned", what, len(is.N), len(ss.S), len(all.Index.N), len(all.S.S), n)
	}
	for i := range is.N {
		if want[all.Index.N[i]] != all.S.S[i] {
			return n, fmt.Errorf("%s: AllStore pairs index %d with %q", what, all.Index.N[i], all.S.S[i])
		}
		if _, ok := want[is.N[i]]; !ok {
			return n, fmt.Errorf("%s: IndexStore holds %d", what, is.N[i])
		}
	}
	have := map[string]bool{}
	for _, q := range want {
		have[q] = true
	}
	for _, q := range ss.S {
		if !have[q] {
			return n, fmt.Errorf("%s: StringStore holds %q", what, q)
		}
	}
	return n, nil
}

// BigIndex is an index at the edge of some width of integers.
func BigIndex(s *eng.Src) int {
	if s.Rare(8) {
		if d := eng.DictInts(2, 1<<40); len(d) > 0 {
			return eng.Pick(s, d) - 1 + s.Intn(3)
		}
	}
	w := eng.Pick(s, []uint{7, 8, 15, 16, 24, 31, 32, 40, 53, 62, 63})
	v := int(uint64(1)<<w - 2 + uint64(s.Intn(8)))
	if v < 0 {
		v = int(^uint(0)>>1) - s.Intn(4)
	}
	return v
}

// NegIndex is a negative index.
func NegIndex(s *eng.Src) int {
	if s.Prob(70) {
		return -1 - s.Intn(3)
	}
	return -1 - BigIndex(s)
}

// Indexes makes n different indexes.
func Indexes(s *eng.Src, n int) []int {
	idx := make([]int, n)
	switch s.Weighted(60, 20, 20) {
	case 0:
		for i := range idx {
			idx[i] = i
		}
	case 1:
		for i := range idx {
			idx[i] = n - 1 - i
		}
	default:
		seen := map[int]bool{}
		for i := range idx {
			v := s.Intn(1000)
			if s.Prob(12) {
				v = BigIndex(s)
			}
			for seen[v] {
				if v++; v < 0 {
					v = 0
				}
			}
			seen[v] = true
			idx[i] = v
		}
	}
	return idx
}

// Broken ends the run: the harness itself is wrong.
func Broken(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(4)
}

// JudgeOnce is Judge for what reports each result once.
func JudgeOnce(what string, want map[int]string, match func(items.Store) int) (int, error) {
	n, err := Judge(what, want, match)
	if err == nil && n != len(want) {
		err = fmt.Errorf("%s reported %d results, %d match", what, n, len(want))
	}
	return n, err
}
