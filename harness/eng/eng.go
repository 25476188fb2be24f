package eng

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Obs collects what one case was like.
type Obs struct {
	Labels     map[string]int
	NonTrivial bool
	Checks     int // single oracle comparisons made by the case
}

// Label counts a class of cases.
func (o *Obs) Label(l string) { o.Labels[l]++ }

// LabelIf counts a class of cases.
func (o *Obs) LabelIf(c bool, l string) {
	if c {
		o.Labels[l]++
	}
}

// Suite is one generated-input search: a generator or an enumeration, and an
// oracle.
type Suite struct {
	Name   string
	Quick  int  // generated cases in the quick tier
	Thor   int  // generated cases in the thorough tier
	Multi  bool // the case starts goroutines of its own; cases run one by one
	Serial bool // cases run one by one (global state of the code under test)

	gen    func(*Src) any
	enum   func(thorough bool, yield func(any) bool)
	run    func(any, *Obs) error
	decode func([]byte) (any, error)
	corpus []any
}

// Generated makes a suite from a generator.
func Generated[T any](name string, quick, thorough int, gen func(*Src) T, run func(T, *Obs) error) *Suite {
	return &Suite{Name: name, Quick: quick, Thor: thorough,
		gen: func(s *Src) any { return gen(s) },
		run: func(x any, o *Obs) error { return run(x.(T), o) },
		decode: func(b []byte) (any, error) {
			var t T
			err := json.Unmarshal(b, &t)
			return t, err
		},
	}
}

// Enumerated makes a suite from a finite enumeration.
func Enumerated[T any](name string, enum func(thorough bool, yield func(T) bool), run func(T, *Obs) error) *Suite {
	return &Suite{Name: name,
		enum: func(th bool, yield func(any) bool) { enum(th, func(t T) bool { return yield(t) }) },
		run:  func(x any, o *Obs) error { return run(x.(T), o) },
		decode: func(b []byte) (any, error) {
			var t T
			err := json.Unmarshal(b, &t)
			return t, err
		},
	}
}

// With adds fixed regression inputs, run before the search.
func With[T any](s *Suite, in ...T) *Suite {
	for _, x := range in {
		s.corpus = append(s.corpus, x)
	}
	return s
}

// Prop is a property and its suites.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Suites      []*Suite
}

// Failure is a failing case.
type Failure struct {
	Property string          `json:"property"`
	Suite    string          `json:"suite"`
	Seed     int64           `json:"seed"`
	Source   string          `json:"source"` // corpus, enumerated or generated
	Index    int64           `json:"index"`
	Kind     string          `json:"kind"` // mismatch, panic, hang, memory or crash
	Error    string          `json:"error"`
	Input    json.RawMessage `json:"input"`
	Choices  []uint32        `json:"choices,omitempty"`
	Shrunk   bool            `json:"shrunk"`
	Original json.RawMessage `json:"original_input,omitempty"`
}

type suiteReport struct {
	Suite      string         `json:"suite"`
	Cases      int64          `json:"cases"`
	Corpus     int            `json:"regression_inputs"`
	NonTrivial int64          `json:"nontrivial"`
	Distinct   int64          `json:"distinct_nontrivial"`
	Checks     int64          `json:"oracle_comparisons"`
	Labels     map[string]int `json:"classes"`
	Exhaustive bool           `json:"exhaustive"`
	Seconds    float64        `json:"seconds"`
	samples    []any
}

type runResult struct {
	Reports []suiteReport `json:"reports"`
	Samples []any         `json:"samples"`
	Failure *Failure      `json:"failure,omitempty"`
}

// Excluded is returned by an oracle for an input which a listed known finding
// covers: it counts as a case, but is not judged.
type Excluded struct{ Finding string }

func (e Excluded) Error() string { return "known finding: " + e.Finding }

type panicErr struct {
	v     any
	stack string
}

func (p panicErr) Error() string { return fmt.Sprintf("panic: %v\n%s", p.v, p.stack) }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "go-matcher") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func (su *Suite) exec(in any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = panicErr{r, trimStack(debug.Stack())}
		}
	}()
	return su.run(in, o)
}

const (
	srcCorpus = iota
	srcEnum
	srcGen
)

var srcNames = []string{"corpus", "enumerated", "generated"}

type failRec struct {
	src   int
	index int64
	in    any
	rec   []uint32
	err   error
}

func less(a, b *failRec) bool {
	if a.src != b.src {
		return a.src < b.src
	}
	return a.index < b.index
}

func hashInput(in any) uint64 {
	b, _ := json.Marshal(in)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// runSuite runs one suite; it returns the lowest failing case.
func runSuite(st *status, si int, su *Suite, seed int64, thorough bool) (rep suiteReport, fail *failRec) {
	t0 := time.Now()
	rep.Suite = su.Name
	rep.Labels = map[string]int{}
	total := int64(su.Quick)
	if thorough {
		total = int64(su.Thor)
	}
	W := workers()
	if su.Multi || su.Serial {
		W = 1
	}
	var mu sync.Mutex
	best := int64(1<<62 - 1) // lowest failing global ordinal
	setFail := func(f *failRec, ord int64) {
		mu.Lock()
		defer mu.Unlock()
		if fail == nil || less(f, fail) {
			fail = f
			atomic.StoreInt64(&best, ord)
		}
	}
	distinct := make([]map[uint64]struct{}, W)
	samples := make([][]any, W)
	labels := make([]map[string]int, W)
	var cases, nontriv, checks int64

	one := func(w int, src int, index int64, in any, rec []uint32, ord int64) {
		o := Obs{Labels: labels[w]}
		err := su.exec(in, &o)
		atomic.AddInt64(&cases, 1)
		if o.Checks > 0 {
			atomic.AddInt64(&checks, int64(o.Checks))
		}
		if err != nil {
			if ex, ok := err.(Excluded); ok {
				labels[w]["excluded:"+ex.Finding]++
				return
			}
			setFail(&failRec{src, index, in, rec, err}, ord)
			return
		}
		if o.NonTrivial {
			n := atomic.AddInt64(&nontriv, 1)
			distinct[w][hashInput(in)] = struct{}{}
			if len(samples[w]) < 2 && (n < 3 || n%97 == 0) {
				samples[w] = append(samples[w], in)
			}
		}
	}

	// regression inputs
	for w := range distinct {
		distinct[w] = map[uint64]struct{}{}
		labels[w] = map[string]int{}
	}
	func() {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		for i, in := range su.corpus {
			st.begin(0, si, srcCorpus, int64(i))
			one(0, srcCorpus, int64(i), in, nil, -1)
			st.end(0)
			if fail != nil {
				break
			}
		}
	}()
	rep.Corpus = len(su.corpus)
	cases = 0
	if fail == nil {
		var wg sync.WaitGroup
		var next int64
		for w := 0; w < W; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				runtime.LockOSThread()
				defer runtime.UnlockOSThread()
				if su.enum != nil {
					var ord int64
					su.enum(thorough, func(in any) bool {
						i := ord
						ord++
						if (i/32)%int64(W) != int64(w) {
							return i < atomic.LoadInt64(&best)
						}
						if i >= atomic.LoadInt64(&best) {
							return false
						}
						st.begin(w, si, srcEnum, i)
						one(w, srcEnum, i, in, nil, i)
						st.end(w)
						return true
					})
					return
				}
				for {
					lo := atomic.AddInt64(&next, 16) - 16
					if lo >= total {
						return
					}
					for i := lo; i < lo+16 && i < total; i++ {
						if i >= atomic.LoadInt64(&best) {
							return
						}
						s := NewSrc(uint64(seed), su.Name, uint64(i))
						st.begin(w, si, srcGen, i)
						in := su.gen(s)
						one(w, srcGen, i, in, s.Rec, i)
						st.end(w)
					}
				}
			}(w)
		}
		wg.Wait()
	}
	all := map[uint64]struct{}{}
	for w := 0; w < W; w++ {
		for h := range distinct[w] {
			all[h] = struct{}{}
		}
		for l, n := range labels[w] {
			rep.Labels[l] += n
		}
		rep.samples = append(rep.samples, samples[w]...)
	}
	rep.Cases = cases
	rep.NonTrivial = nontriv
	rep.Distinct = int64(len(all))
	rep.Checks = checks
	rep.Exhaustive = su.enum != nil && fail == nil
	rep.Seconds = time.Since(t0).Seconds()
	return
}

func lessRec(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// shrinkWith minimises choices; try reports whether the choices still fail and
// the choices the generator really used.
func shrinkWith(rec []uint32, budget int, deadline time.Time, try func([]uint32) (bool, []uint32)) []uint32 {
	best := append([]uint32(nil), rec...)
	n := 0
	attempt := func(c []uint32) bool {
		if n >= budget || time.Now().After(deadline) {
			return false
		}
		n++
		ok, used := try(c)
		if !ok {
			return false
		}
		if lessRec(used, best) {
			best = append([]uint32(nil), used...)
			return true
		}
		return false
	}
	for improved := true; improved && n < budget && !time.Now().After(deadline); {
		improved = false
		// delete chunks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if attempt(c) {
					improved = true
				} else {
					i += size
				}
			}
			if n >= budget {
				break
			}
		}
		// delete one and lower an earlier count
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			for d := 1; d <= 8 && i+1+d <= len(best); d++ {
				c := append([]uint32(nil), best[:i+1]...)
				c[i]--
				c = append(c, best[i+1+d:]...)
				if attempt(c) {
					improved = true
					break
				}
			}
		}
		// zero chunks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				z := true
				for _, x := range best[i : i+size] {
					if x != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				c := append([]uint32(nil), best...)
				for k := i; k < i+size; k++ {
					c[k] = 0
				}
				if attempt(c) {
					improved = true
				}
			}
		}
		// lower single choices
		for i := 0; i < len(best); i++ {
			lo := uint32(0)
			for i < len(best) && best[i] > lo {
				mid := lo + (best[i]-lo)/2
				c := append([]uint32(nil), best...)
				c[i] = mid
				if attempt(c) {
					improved = true
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best
}

func kindOf(err error) string {
	if _, ok := err.(panicErr); ok {
		return "panic"
	}
	return "mismatch"
}

func mustJSON(x any) json.RawMessage {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

func (p *Prop) report(su *Suite, f *failRec, seed int64, st *status, si int) *Failure {
	out := &Failure{Property: p.ID, Suite: su.Name, Seed: seed, Source: srcNames[f.src], Index: f.index,
		Kind: kindOf(f.err), Error: f.err.Error(), Input: mustJSON(f.in)}
	if f.rec == nil {
		return out
	}
	out.Choices = f.rec
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var lastErr error
	var lastIn any
	bestRec := f.rec
	rec := shrinkWith(f.rec, 6000, time.Now().Add(40*time.Second), func(c []uint32) (bool, []uint32) {
		s := ReplaySrc(c)
		o := Obs{Labels: map[string]int{}}
		st.begin(0, si, srcGen, f.index)
		defer st.end(0)
		in := su.gen(s)
		err := su.exec(in, &o)
		if err == nil {
			return false, nil
		}
		if _, ok := err.(Excluded); ok {
			return false, nil
		}
		if lessRec(s.Rec, bestRec) {
			bestRec = append([]uint32(nil), s.Rec...)
			lastErr, lastIn = err, in
		}
		return true, s.Rec
	})
	if lastIn != nil {
		out.Original = out.Input
		out.Input = mustJSON(lastIn)
		out.Error = lastErr.Error()
		out.Kind = kindOf(lastErr)
		out.Choices = rec
		out.Shrunk = true
	}
	return out
}

// runAll is the child process: it runs every suite and writes the result.
func (p *Prop) runAll(statusFile, resultFile string, seed int64, thorough bool, only string) {
	debug.SetMaxStack(256 << 20)
	st, err := openStatus(statusFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	st.watch(p)
	var res runResult
	for si, su := range p.Suites {
		if only != "" && !strings.Contains(su.Name, only) {
			continue
		}
		rep, f := runSuite(st, si, su, seed, thorough)
		for i, s := range rep.samples {
			if i < 4 {
				res.Samples = append(res.Samples, map[string]any{"suite": su.Name, "case": shortSample(s)})
			}
		}
		res.Reports = append(res.Reports, rep)
		if f != nil {
			// the first failure is written before shrinking, so that a
			// crash of the shrinker does not lose it
			first := &Failure{Property: p.ID, Suite: su.Name, Seed: seed, Source: srcNames[f.src], Index: f.index,
				Kind: kindOf(f.err), Error: f.err.Error(), Input: mustJSON(f.in), Choices: f.rec}
			res.Failure = first
			writeJSON(resultFile, res)
			res.Failure = p.report(su, f, seed, st, si)
			break
		}
	}
	writeJSON(resultFile, res)
	os.Exit(0)
}

func writeJSON(file string, x any) {
	b, err := json.MarshalIndent(x, "", " ")
	if err == nil {
		err = os.WriteFile(file, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "write:", err)
		os.Exit(3)
	}
}

func sortedLabels(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
