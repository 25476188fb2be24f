package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"

	"verifharness/eng"
	"verifharness/gen"
	"verifharness/ref"
	"verifharness/share"
)

// A tree under test.
type tree interface {
	parse(raw string) (norm string, err error)
	add(raw string, index int, parsed bool) (string, int, error)
	match(s string, st items.Store) int
	globs() map[string]int
	index() map[int]string
	ref(raw, s string) bool
}

type globTree struct{ t *glob.GlobTree }

func (g globTree) parse(raw string) (string, error) {
	x, err := glob.Parse(raw)
	if err != nil {
		return "", err
	}
	return x.Node, nil
}

func (g globTree) add(raw string, index int, parsed bool) (string, int, error) {
	if parsed {
		return g.t.AddGlob(glob.ParseMust(raw), index)
	}
	return g.t.Add(raw, index)
}
func (g globTree) match(s string, st items.Store) int { return g.t.Match(s, st) }
func (g globTree) globs() map[string]int              { return g.t.Globs }
func (g globTree) index() map[int]string              { return g.t.GlobsIndex }
func (g globTree) ref(raw, s string) bool             { return ref.Match(ref.MustGlob(raw).Nodes, s) }

type pathTree struct{ t *gglob.GGlobTree }

func (g pathTree) parse(raw string) (string, error) {
	x, err := gglob.Parse(raw)
	if err != nil {
		return "", err
	}
	return x.Node, nil
}

func (g pathTree) add(raw string, index int, parsed bool) (string, int, error) {
	if parsed {
		return g.t.AddGlob(gglob.ParseMust(raw), index)
	}
	return g.t.Add(raw, index)
}
func (g pathTree) match(s string, st items.Store) int { return g.t.Match(s, st) }
func (g pathTree) globs() map[string]int              { return g.t.Globs }
func (g pathTree) index() map[int]string              { return g.t.GlobsIndex }
func (g pathTree) ref(raw, s string) bool {
	if s == "" {
		return false
	}
	gp, sp := strings.Split(strings.TrimSuffix(raw, "."), "."), strings.Split(strings.TrimSuffix(s, "."), ".")
	if len(gp) != len(sp) {
		return false
	}
	for i := range gp {
		if sp[i] == "" || !ref.Match(ref.MustGlob(gp[i]).Nodes, sp[i]) {
			return false
		}
	}
	return true
}

type op struct {
	Add    eng.Str   `json:"add"`
	Index  int       `json:"index"`
	Parsed bool      `json:"parsed,omitempty"`
	Probe  []eng.Str `json:"probe,omitempty"` // match these instead of adding
}

type histIn struct {
	Path bool `json:"path,omitempty"` // GGlobTree
	Ops  []op `json:"ops"`
}

func wellFormed(path bool, raw string) bool {
	if !path {
		_, err := ref.ParseGlob(raw)
		return err == nil
	}
	if raw = strings.TrimSuffix(raw, "."); raw == "" {
		return false
	}
	for _, p := range strings.Split(raw, ".") {
		if _, err := ref.ParseGlob(p); p == "" || err != nil {
			return false
		}
	}
	return true
}

// respell writes an equivalent glob.
func respell(s *eng.Src, g string) string {
	switch s.Intn(5) {
	case 0:
		return strings.Replace(g, "*", "**", 1)
	case 1:
		if g != "" && !strings.ContainsAny(g[:1], "[]{}*?-.,") && g[0] < 128 {
			return "[" + g[:1] + "]" + g[1:]
		}
	case 2:
		if g != "" && !strings.ContainsAny(g[:1], "[]{}*?-.,") && g[0] < 128 {
			return "{" + g[:1] + "}" + g[1:]
		}
	case 3:
		// repeat or turn around the values of a simple list
		a := strings.IndexByte(g, '{')
		if a >= 0 {
			b := a + strings.IndexByte(g[a:], '}')
			if b > a && !strings.ContainsAny(g[a+1:b], "[") {
				vals := strings.Split(g[a+1:b], ",")
				for i, j := 0, len(vals)-1; i < j; i, j = i+1, j-1 {
					vals[i], vals[j] = vals[j], vals[i]
				}
				return g[:a+1] + strings.Join(vals, ",") + g[b:]
			}
		}
	}
	return g + "[]"
}

func genHist(path bool) func(s *eng.Src) histIn {
	return func(s *eng.Src) histIn {
		in := histIn{Path: path}
		o := gen.Opt{NoDot: path, MaxElems: 4, Stars: 2, NonEmpty: true}
		al := gen.Alphabet(s, o)
		glob1 := func() string {
			if !path {
				if s.Prob(40) {
					return gen.Word(s, al, 1, 3)
				}
				return gen.Glob(s, al, o)
			}
			n := 1 + s.Intn(3)
			pp := make([]string, n)
			for i := range pp {
				if s.Prob(50) {
					pp[i] = gen.Word(s, al, 1, 2)
				} else {
					pp[i] = gen.Glob(s, al, o)
				}
			}
			return strings.Join(pp, ".")
		}
		var seen []string
		var idx []int
		n := 1 + s.Size(1, 14)
		for i := 0; i < n; i++ {
			var p op
			if s.Prob(15) {
				for k := 1 + s.Intn(3); k > 0; k-- {
					p.Probe = append(p.Probe, eng.Str(probe(s, al, path, seen)))
				}
				in.Ops = append(in.Ops, p)
				continue
			}
			g := ""
			switch w := s.Weighted(50, 15, 15, 5, 7, 3, 5); {
			case w == 1 && len(seen) > 0:
				g = eng.Pick(s, seen)
			case w == 2 && len(seen) > 0:
				g = respell(s, eng.Pick(s, seen))
			case w == 3 && len(seen) > 0:
				g = gen.Twin(s, al, eng.Pick(s, seen))
			case w == 4:
				// damage it
				r := []rune(glob1())
				at := s.Intn(len(r) + 1)
				g = string(r[:at]) + eng.Pick(s, []string{"{", "}", "[", "]", "..", "[b-a]"}) + string(r[at:])
			case w == 5:
				g = ""
			case w == 6 && len(seen) > 0:
				// a longer one with the same start or end
				g = eng.Pick(s, seen)
				sep := ""
				if path {
					sep = "."
				}
				if s.Prob(70) {
					g += sep + glob1()
				} else {
					g = glob1() + sep + g
				}
			default:
				g = glob1()
			}
			if len(g) > 60 || strings.Count(g, "*") > 5 {
				g = gen.Word(s, al, 1, 3)
			}
			p.Add = eng.Str(g)
			p.Parsed = s.Prob(35)
			switch w := s.Weighted(70, 15, 8, 7); {
			case w == 1 && len(idx) > 0:
				p.Index = eng.Pick(s, idx)
			case w == 2:
				p.Index = share.NegIndex(s)
			case w == 3:
				p.Index = s.Intn(1 << 20)
				if s.Prob(30) {
					p.Index = share.BigIndex(s)
				}
			default:
				p.Index = i
			}
			if wellFormed(path, g) {
				seen = append(seen, g)
			}
			idx = append(idx, p.Index)
			in.Ops = append(in.Ops, p)
		}
		var p op
		for k := 2 + s.Intn(5); k > 0; k-- {
			p.Probe = append(p.Probe, eng.Str(probe(s, al, path, seen)))
		}
		in.Ops = append(in.Ops, p)
		if s.Rare(12) {
			one := gen.Pad(s, al)
			pad := func(x *eng.Str) {
				if path {
					*x = eng.Str(gen.PadParts(one, string(*x)))
				} else if *x != "" {
					*x = eng.Str(one(string(*x)))
				}
			}
			for i := range in.Ops {
				if len(in.Ops[i].Probe) == 0 {
					pad(&in.Ops[i].Add)
				}
				for j := range in.Ops[i].Probe {
					pad(&in.Ops[i].Probe[j])
				}
			}
		}
		return in
	}
}

func probe(s *eng.Src, al []rune, path bool, seen []string) string {
	if len(seen) == 0 {
		return gen.Word(s, al, 0, 4)
	}
	g := eng.Pick(s, seen)
	cut := func(x string) string {
		if len(x) > 24 {
			x = x[:24]
		}
		return x
	}
	if !path {
		return cut(gen.Target(s, al, ref.MustGlob(g).Nodes))
	}
	pp := strings.Split(strings.TrimSuffix(g, "."), ".")
	for i := range pp {
		pp[i] = strings.ReplaceAll(cut(gen.Target(s, al, ref.MustGlob(pp[i]).Nodes)), ".", "_")
	}
	return strings.Join(pp, ".")
}

func copySI(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func copyIS(m map[int]string) map[int]string {
	r := map[int]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

type entry struct {
	raw, norm string
	index     int
	parsed    bool
}

func runHist(in histIn, o *eng.Obs) error {
	var t tree = globTree{glob.NewTree()}
	if in.Path {
		t = pathTree{gglob.NewTree()}
	}
	var have []entry
	byNorm := map[string]int{}          // normal form to index
	byText := map[string]map[int]bool{} // any text ever registered to indexes
	byIndex := map[int]string{}
	probeAll := func(where string, ps []eng.Str) error {
		for _, ep := range ps {
			p := string(ep)
			want := map[int]string{}
			for _, e := range have {
				if t.ref(e.raw, p) {
					want[e.index] = e.norm
				}
			}
			o.Checks++
			o.LabelIf(len(want) > 0, "probe matched")
			judge := share.Judge
			if _, path := t.(pathTree); path {
				judge = share.JudgeOnce
			}
			if _, err := judge(fmt.Sprintf("%s: Match(%q)", where, p), want, func(st items.Store) int { return t.match(p, st) }); err != nil {
				return err
			}
		}
		return nil
	}
	refused := 0
	for i, op := range in.Ops {
		where := fmt.Sprintf("op %d", i)
		if len(op.Probe) > 0 {
			if err := probeAll(where, op.Probe); err != nil {
				return err
			}
			continue
		}
		raw := string(op.Add)
		norm, perr := t.parse(raw)
		parsed := op.Parsed
		if parsed && (perr != nil || raw == "") {
			parsed = false // nothing to hand over
		}
		if in.Path && raw == "." {
			continue // a glob without parts: not settled
		}
		if parsed {
			where += fmt.Sprintf(" AddGlob(%q, %d)", raw, op.Index)
		} else {
			where += fmt.Sprintf(" Add(%q, %d)", raw, op.Index)
		}
		beforeG, beforeI := copySI(t.globs()), copyIS(t.index())
		gn, n, err := t.add(raw, op.Index, parsed)
		o.Checks++

		_, dup := byIndex[op.Index]
		must, mustBe := byNorm[norm], false
		if perr == nil {
			_, mustBe = byNorm[norm]
		}
		accept := false
		switch {
		case raw == "":
			o.Label("empty glob")
			if err != nil || gn != "" {
				return fmt.Errorf("%s = %q, %d, %v: an empty glob is ignored", where, gn, n, err)
			}
		case op.Index < 0:
			o.Label("negative index")
			if !errors.Is(err, glob.ErrIndexInvalid) {
				return fmt.Errorf("%s = %q, %d, %v, want %v", where, gn, n, err, glob.ErrIndexInvalid)
			}
		case err == nil:
			if perr != nil || mustBe || dup {
				return fmt.Errorf("%s is accepted (malformed %v, known %v, index taken %v)", where, perr, mustBe, dup)
			}
			accept = true
		case errors.Is(err, glob.ErrGlobExist):
			o.Label("known glob")
			if mustBe && n == must {
				break
			}
			if byText[raw][n] || (perr == nil && byText[norm][n]) {
				// the text itself or its normal form was written before as
				// the text of a glob whose normal form is another one, or
				// is the normal form of a known glob but no glob itself
				// (a.[].b is a..b): refused, for either reason
				o.Label("known text")
				break
			}
			return fmt.Errorf("%s = %q, %d, %v (known: %v as %d)", where, gn, n, err, mustBe, must)
		case errors.Is(err, glob.ErrIndexDup):
			o.Label("index taken")
			if !dup {
				return fmt.Errorf("%s = %v, but the index is free", where, err)
			}
			if gn != byIndex[op.Index] {
				return fmt.Errorf("%s = %q, %v, but the index holds %q", where, gn, err, byIndex[op.Index])
			}
		default:
			o.Label("malformed glob")
			if perr == nil {
				return fmt.Errorf("%s = %v, but the glob parses", where, err)
			}
		}
		if accept {
			o.Label("added")
			o.LabelIf(parsed, "added parsed")
			if gn != norm || n != op.Index {
				return fmt.Errorf("%s = %q, %d, want %q, %d", where, gn, n, norm, op.Index)
			}
			have = append(have, entry{raw, norm, op.Index, parsed})
			byNorm[norm] = op.Index
			byIndex[op.Index] = norm
			texts := []string{raw, norm}
			if in.Path {
				texts = append(texts, strings.TrimSuffix(raw, "."))
			}
			for _, x := range texts {
				if byText[x] == nil {
					byText[x] = map[int]bool{}
				}
				byText[x][op.Index] = true
			}
		} else {
			refused++
			if !reflect.DeepEqual(copySI(t.globs()), beforeG) || !reflect.DeepEqual(copyIS(t.index()), beforeI) {
				return fmt.Errorf("%s was refused (%v) but changed the tree: %v to %v, %v to %v", where, err, beforeG, t.globs(), beforeI, t.index())
			}
		}
		// the maps describe the globs registered
		if !reflect.DeepEqual(copyIS(t.index()), byIndex) {
			return fmt.Errorf("%s: GlobsIndex is %v, want %v", where, t.index(), byIndex)
		}
		for _, e := range have {
			if x, ok := t.globs()[e.norm]; !ok || x != e.index {
				return fmt.Errorf("%s: Globs[%q] is %d, %v, want %d", where, e.norm, x, ok, e.index)
			}
		}
		for g, x := range t.globs() {
			if !byText[g][x] {
				return fmt.Errorf("%s: Globs holds %q as %d", where, g, x)
			}
		}
	}
	o.NonTrivial = len(have) > 1 && refused > 0
	return nil
}

// every history of four operations over a small set of globs and indexes
func enumHist(path bool) func(th bool, yield func(histIn) bool) {
	return func(th bool, yield func(histIn) bool) {
		gs := []string{"a", "a*", "a**", "{b,a}", "{a,b}", "[a]", "[", ""}
		ps := []eng.Str{"a", "ab", "b"}
		if path {
			gs = []string{"a.b", "a.*", "a.**", "{b,a}.b", "{a,b}.b", "[a].b", "a..b", ""}
			ps = []eng.Str{"a.b", "a.c", "b.b"}
		}
		var ops []op
		for _, g := range gs {
			for _, x := range []int{0, 1, -1} {
				if x == -1 && g != "a" && g != "a.b" {
					continue
				}
				ops = append(ops, op{Add: eng.Str(g), Index: x})
				if g != "" && x == 0 {
					ops = append(ops, op{Add: eng.Str(g), Index: x + 2, Parsed: true}, op{Add: eng.Str(g), Index: x, Parsed: true})
				}
			}
		}
		n := 3
		if th {
			n = 4
		}
		var rec func(h []op, n int) bool
		rec = func(h []op, n int) bool {
			if n == 0 {
				return yield(histIn{path, append(append([]op(nil), h...), op{Probe: ps})})
			}
			for _, p := range ops {
				if !rec(append(h, p), n-1) {
					return false
				}
			}
			return true
		}
		rec(nil, n)
	}
}

func c06() *eng.Prop {
	return &eng.Prop{
		ID:   "C06",
		Rule: "A case is a history of up to 15 operations on a GlobTree or a GGlobTree: Add and AddGlob with fresh, repeated, longer, respelled, malformed and empty globs, fresh, taken and negative indexes, and matching in between; the enumerated suites take every history of three (thorough: four) operations over eight globs and the indexes 0, 1, 2 and -1. Non-trivial: at least two globs were added and an operation was refused.",
		Assumptions: []string{
			"two globs are the same when they normalize to the same text; the normal form itself is judged by C08",
			"when both a known glob and a taken index apply, either error is right",
			"AddGlob is given what Parse returned",
		},
		Suites: []*eng.Suite{
			eng.With(eng.Generated("glob-tree-history", 250000, 4000000, genHist(false), runHist),
				histIn{false, []op{{Add: "a*", Index: 0, Parsed: true}, {Add: "b", Index: 0}, {Probe: []eng.Str{"ab"}}}}),
			eng.With(eng.Generated("path-tree-history", 250000, 4000000, genHist(true), runHist),
				histIn{true, []op{{Add: "a.*", Index: 0, Parsed: true}, {Add: "b.a", Index: 0}, {Probe: []eng.Str{"a.b"}}}}),
			eng.Enumerated("glob-tree-small-scope", enumHist(false), runHist),
			eng.Enumerated("path-tree-small-scope", enumHist(true), runHist),
			eng.Enumerated("glob-tree-sizes", sizedHist(false), runHist),
			eng.Enumerated("path-tree-sizes", sizedHist(true), runHist),
		},
	}
}

func main() { eng.Main(c06()) }
