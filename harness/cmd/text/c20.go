package main

import (
	"fmt"

	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/share"
)

// --- C20: histories over result stores

type storeOp struct {
	Op string  `json:"op"`
	S  eng.Str `json:"s,omitempty"`
	N  int     `json:"n"`
}

type storeIn struct {
	Zero bool      `json:"zero"` // zero values, initialised with Init
	Ops  []storeOp `json:"ops"`
}

func genStore(s *eng.Src) storeIn {
	in := storeIn{Zero: s.Prob(30)}
	n := s.Size(1, 30)
	for i := 0; i < n; i++ {
		switch s.Weighted(75, 13, 12) {
		case 0:
			op := storeOp{Op: "store", S: eng.Str(eng.Pick(s, []string{"a", "b", "a*", "", "x.y", "яж", "\xff", "seriesByTag('a=b')"})), N: s.Intn(6)}
			if s.Prob(20) {
				op.N = s.Intn(100000)
				if s.Prob(40) {
					op.N = share.BigIndex(s)
				}
			}
			op.S = eng.Str(eng.Spice(s, string(op.S)))
			in.Ops = append(in.Ops, op)
		case 1:
			in.Ops = append(in.Ops, storeOp{Op: "init"})
		default:
			in.Ops = append(in.Ops, storeOp{Op: "grow", N: s.Intn(40)})
		}
	}
	return in
}

type pair struct {
	s string
	n int
}

func runStore(in storeIn, o *eng.Obs) error {
	ms, is, ss, all := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore(), items.NewAllStore()
	if in.Zero {
		ms, is, ss, all = &items.MinStore{}, &items.IndexStore{}, &items.StringStore{}, &items.AllStore{}
		ms.Init()
		is.Init()
		ss.Init()
		all.Init()
	}
	var model []pair
	inits := 0
	judge := func(what string) error {
		o.Checks++
		min := -1
		for _, p := range model {
			if min < 0 || p.n < min {
				min = p.n
			}
		}
		if ms.Min != min {
			return fmt.Errorf("%s: MinStore holds %d, want %d", what, ms.Min, min)
		}
		if all.Min.Min != min {
			return fmt.Errorf("%s: AllStore holds the lowest index %d, want %d", what, all.Min.Min, min)
		}
		if len(is.N) != len(model) || len(ss.S) != len(model) || len(all.Index.N) != len(model) || len(all.S.S) != len(model) {
			return fmt.Errorf("%s: %d/%d/%d/%d results, want %d", what, len(is.N), len(ss.S), len(all.Index.N), len(all.S.S), len(model))
		}
		for i, p := range model {
			if is.N[i] != p.n || all.Index.N[i] != p.n {
				return fmt.Errorf("%s: result %d has index %d (AllStore %d), want %d", what, i, is.N[i], all.Index.N[i], p.n)
			}
			if ss.S[i] != p.s || all.S.S[i] != p.s {
				return fmt.Errorf("%s: result %d is %q (AllStore %q), want %q", what, i, ss.S[i], all.S.S[i], p.s)
			}
		}
		return nil
	}
	if err := judge("new"); err != nil {
		return err
	}
	for i, op := range in.Ops {
		switch op.Op {
		case "store":
			for _, st := range []items.Store{ms, is, ss, all} {
				st.Store(string(op.S), op.N)
			}
			model = append(model, pair{string(op.S), op.N})
		case "init":
			ms.Init()
			is.Init()
			ss.Init()
			all.Init()
			model = nil
			inits++
		default:
			is.Grow(op.N)
			ss.Grow(op.N)
			all.Grow(op.N)
			if cap(is.N) < op.N || cap(ss.S) < op.N || cap(all.Index.N) < op.N || cap(all.S.S) < op.N {
				return fmt.Errorf("step %d: Grow(%d) left room for %d/%d/%d/%d", i, op.N, cap(is.N), cap(ss.S), cap(all.Index.N), cap(all.S.S))
			}
		}
		if len(model) > 1200 && op.Op == "store" && i%8192 > 0 {
			continue // looked at later
		}
		if err := judge(fmt.Sprintf("step %d (%s)", i, op.Op)); err != nil {
			return err
		}
	}
	if err := judge("at last"); err != nil {
		return err
	}
	o.LabelIf(inits > 0, "used again")
	o.LabelIf(len(model) > 1, "several results")
	o.NonTrivial = len(in.Ops) > 2
	return nil
}

func enumStore(thorough bool, yield func(storeIn) bool) {
	ops := []storeOp{{"store", "a", 0}, {"store", "b", 1}, {"store", "c", 5}, {"init", "", 0}, {"grow", "", 3}, {"grow", "", 0}}
	n := 5
	if thorough {
		n = 7
	}
	var rec func(p []storeOp, k int) bool
	rec = func(p []storeOp, k int) bool {
		c := append([]storeOp(nil), p...)
		if !yield(storeIn{false, c}) || !yield(storeIn{true, c}) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, op := range ops {
			if !rec(append(p[:len(p):len(p)], op), k-1) {
				return false
			}
		}
		return true
	}
	rec(nil, n)
}

func c20() *eng.Prop {
	return &eng.Prop{
		ID:   "C20",
		Rule: "A case is a history of up to 30 operations (Store with fresh and repeated indexes in any order, Init, Grow) on the four result stores, made by their constructors or as zero values with Init, compared after every step with a plain list of results; the enumerated suite takes every history of up to five operations (thorough: seven). Non-trivial: at least three operations.",
		Assumptions: []string{
			"indexes are not negative, as the trees guarantee",
			"a zero value is initialised with Init before use",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("stores", 1000000, 6000000, genStore, runStore),
				storeIn{false, []storeOp{{"store", "a", 5}}}),
			eng.Enumerated("stores-small-scope", enumStore, runStore),
			eng.Enumerated("stores-sizes", sizedStore, runStore),
		},
	}
}
