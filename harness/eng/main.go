package eng

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Main is the entry point of every checker program.
//
//	prog check ID            run the check, write evidence, print a verdict
//	prog replay FILE         run one saved failing input, without generators
//	prog list                list the properties
func Main(props ...*Prop) {
	if len(os.Args) < 2 {
		fatal(3, "usage: check ID | replay FILE | list")
	}
	byID := map[string]*Prop{}
	for _, p := range props {
		byID[p.ID] = p
	}
	get := func(id string) *Prop {
		p := byID[id]
		if p == nil {
			fatal(3, "unknown property %s", id)
		}
		return p
	}
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			h := int64(0)
			for _, c := range []byte(v) {
				h = h*31 + int64(c)
			}
			n = h
		}
		seed = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	// for the child processes of a checker built with the race detector
	_ = os.Setenv("GORACE", "halt_on_error=1")
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
			for _, s := range p.Suites {
				fmt.Println("   ", s.Name, s.Quick, s.Thor)
			}
		}
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		only := fs.String("only", "", "only suites with this in their name")
		evid := fs.String("evidence", "", "evidence directory")
		id := os.Args[2]
		_ = fs.Parse(os.Args[3:])
		os.Exit(supervise(get(id), seed, tier, *only, *evid))
	case "run":
		// internal: run ID STATUS RESULT [ONLY]
		only := ""
		if len(os.Args) > 5 {
			only = os.Args[5]
		}
		if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
			w, _ := os.Create(f)
			_ = pprof.StartCPUProfile(w)
			go func() { time.Sleep(10 * time.Second); pprof.StopCPUProfile(); w.Close() }()
		}
		get(os.Args[2]).runAll(os.Args[3], os.Args[4], seed, tier == "thorough", only)
	case "one":
		// internal: one ID CASEFILE
		runOne(get(os.Args[2]), os.Args[3], tier == "thorough")
	case "replay":
		cmd := exec.Command(os.Args[0], "replay-run", os.Args[2])
		cmd.Stdout = os.Stdout
		var errb bytes.Buffer
		cmd.Stderr = &errb
		if err := cmd.Run(); err == nil {
			os.Exit(0)
		} else if cmd.ProcessState.ExitCode() == 1 {
			os.Exit(1)
		}
		if kind, msg, _ := classify(cmd, errb.String(), oneResult{}); kind != "" {
			b, _ := os.ReadFile(os.Args[2])
			var f Failure
			_ = json.Unmarshal(b, &f)
			fmt.Printf("input: %s\n%s: %s\nVIOLATION property=%s replay=%s\n", cut(string(f.Input)), kind, cut(msg), f.Property, os.Args[2])
			os.Exit(1)
		}
		fatal(3, "%s", errb.String())
	case "replay-run":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal(3, "%v", err)
		}
		var f Failure
		if err = json.Unmarshal(b, &f); err != nil {
			fatal(3, "%v", err)
		}
		p := get(f.Property)
		su := p.suite(f.Suite)
		if su == nil {
			fatal(3, "unknown suite %s", f.Suite)
		}
		if len(f.Input) == 0 || string(f.Input) == "null" {
			fatal(3, "no input in the replay file")
		}
		in, err := su.decode(f.Input)
		if err != nil {
			fatal(3, "input: %v", err)
		}
		limitCPU(300)
		debug.SetMaxStack(256 << 20)
		st, err := openStatus(filepath.Join(os.TempDir(), fmt.Sprintf("verif-replay-%d", os.Getpid())))
		if err != nil {
			fatal(3, "%v", err)
		}
		_ = os.Remove(filepath.Join(os.TempDir(), fmt.Sprintf("verif-replay-%d", os.Getpid())))
		st.watch(p)
		runtime.LockOSThread()
		st.begin(0, 0, 0, 0)
		o := Obs{Labels: map[string]int{}}
		if err = su.exec(in, &o); err != nil {
			fmt.Printf("input: %s\nerror: %s\n", cut(string(f.Input)), cut(err.Error()))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("held on this input")
	default:
		fatal(3, "unknown command")
	}
}

func (p *Prop) suite(name string) *Suite {
	for _, s := range p.Suites {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func limitCPU(sec uint64) {
	_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: sec, Max: sec + 5})
}

type oneCase struct {
	Suite   string
	Src     int
	Index   int64
	Seed    int64
	Choices []uint32
	UseCh   bool
	Out     string // where the input is written before it runs
	Sec     uint64
}

type oneResult struct {
	Input  json.RawMessage
	Rec    []uint32
	Done   bool
	Failed bool
	Kind   string
	Error  string
}

// runOne runs a single case in a process of its own.
func runOne(p *Prop, file string, thorough bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(3, "%v", err)
	}
	var c oneCase
	if err = json.Unmarshal(b, &c); err != nil {
		fatal(3, "%v", err)
	}
	limitCPU(10*c.Sec + 300)
	debug.SetMaxStack(256 << 20)
	hangCPU = time.Duration(c.Sec) * time.Second
	su := p.suite(c.Suite)
	st, err := openStatus(file + ".status")
	if err != nil {
		fatal(3, "%v", err)
	}
	st.watch(p)
	var in any
	var rec []uint32
	switch {
	case c.UseCh:
		s := ReplaySrc(c.Choices)
		in = su.gen(s)
		rec = s.Rec
	case c.Src == srcCorpus:
		in = su.corpus[c.Index]
	case c.Src == srcEnum:
		var ord int64
		su.enum(thorough, func(x any) bool {
			if ord == c.Index {
				in = x
				return false
			}
			ord++
			return true
		})
	default:
		s := NewSrc(uint64(c.Seed), su.Name, uint64(c.Index))
		in = su.gen(s)
		rec = s.Rec
	}
	r := oneResult{Input: mustJSON(in), Rec: rec}
	writeJSON(c.Out, r)
	o := Obs{Labels: map[string]int{}}
	si := 0
	for i := range p.Suites {
		if p.Suites[i] == su {
			si = i
		}
	}
	runtime.LockOSThread()
	st.begin(0, si, c.Src, c.Index)
	err = su.exec(in, &o)
	st.end(0)
	r.Done = true
	if err != nil {
		if _, ok := err.(Excluded); !ok {
			r.Failed = true
			r.Kind = kindOf(err)
			r.Error = err.Error()
		}
	}
	writeJSON(c.Out, r)
	os.Exit(0)
}

// solo runs one case in its own process and says how it ended: "" when the
// property held or the harness could not tell.
func solo(self string, p *Prop, dir string, c oneCase) (kind, msg string, r oneResult) {
	c.Out = filepath.Join(dir, "one.out")
	_ = os.Remove(c.Out)
	cf := filepath.Join(dir, "one.json")
	writeJSON(cf, c)
	cmd := exec.Command(self, "one", p.ID, cf)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	e := cmd.Run()
	if b, err := os.ReadFile(c.Out); err == nil {
		_ = json.Unmarshal(b, &r)
	}
	if e == nil {
		if r.Failed {
			return r.Kind, r.Error, r
		}
		return "", "", r
	}
	if r.Input == nil {
		return "", "", r // it never got to the code under test
	}
	return classify(cmd, errb.String(), r)
}

func classify(cmd *exec.Cmd, stderr string, r oneResult) (string, string, oneResult) {
	head := stderr
	if len(head) > 3000 {
		head = head[:3000]
	}
	switch {
	case cmd.ProcessState.ExitCode() == exitMemory, strings.Contains(stderr, "out of memory"):
		return "memory", "memory use without bound: " + head, r
	case cmd.ProcessState.ExitCode() == exitHang:
		return "hang", "no result after a very long computation: " + head, r
	case strings.Contains(stderr, "stack overflow"), strings.Contains(stderr, "stack exceeds"):
		return "crash", "unbounded recursion: " + head, r
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		return "race", head, r
	case strings.Contains(stderr, "concurrent map"):
		return "race", head, r
	case strings.Contains(stderr, "panic:"), strings.Contains(stderr, "fatal error:"):
		return "crash", head, r
	}
	return "", "", r
}

func supervise(p *Prop, seed int64, tier, only, evid string) int {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatal(3, "%v", err)
	}
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fatal(3, "%v", err)
	}
	defer os.RemoveAll(dir)
	statusFile := filepath.Join(dir, "status")
	resultFile := filepath.Join(dir, "result.json")
	args := []string{"run", p.ID, statusFile, resultFile}
	if only != "" {
		args = append(args, only)
	}
	cmd := exec.Command(self, args...)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = os.Stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	runErr := cmd.Run()
	var res runResult
	if b, err := os.ReadFile(resultFile); err == nil {
		_ = json.Unmarshal(b, &res)
	}
	if runErr != nil && res.Failure == nil {
		fmt.Fprintf(os.Stderr, "checker process ended with %v\n", runErr)
		s := errb.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		fmt.Fprintln(os.Stderr, s)
		res.Failure = investigate(self, p, dir, statusFile, seed, cmd, errb.String())
		if res.Failure == nil {
			return 3 // the harness or the machine failed: no verdict
		}
	}
	writeEvidence(p, seed, tier, evid, only, &res, time.Since(t0).Seconds())
	if res.Failure == nil {
		var n, d int64
		for _, r := range res.Reports {
			n += r.Cases
			d += r.Distinct
		}
		fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, tier, seed, n, d, time.Since(t0).Seconds())
		return 0
	}
	f := res.Failure
	rd := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(rd, 0o755)
	replay := filepath.Join(rd, fmt.Sprintf("%s-%s-seed%d.json", p.ID, f.Suite, seed))
	writeJSON(replay, f)
	fmt.Printf("suite %s (%s case %d), %s\ninput: %s\n%s\n", f.Suite, f.Source, f.Index, f.Kind, cut(string(f.Input)), cut(f.Error))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
	return 1
}

// investigate finds the case which ended the checker process.
func investigate(self string, p *Prop, dir, statusFile string, seed int64, cmd *exec.Cmd, stderr string) *Failure {
	cases := readStatus(statusFile)
	raceKind, raceMsg, _ := classify(cmd, stderr, oneResult{})
	for _, c := range cases {
		if c.suite >= len(p.Suites) {
			continue
		}
		su := p.Suites[c.suite]
		oc := oneCase{Suite: su.Name, Src: c.src, Index: c.index, Seed: seed, Sec: 40}
		tries := 1
		if su.Multi {
			tries = 20
		}
		for t := 0; t < tries; t++ {
			kind, msg, r := solo(self, p, dir, oc)
			if kind == "" && !(su.Multi && raceKind == "race" && t == tries-1) {
				continue
			}
			if kind == "" {
				kind, msg = raceKind, raceMsg
			}
			f := &Failure{Property: p.ID, Suite: su.Name, Seed: seed, Source: srcNames[c.src], Index: c.index,
				Kind: kind, Error: msg, Input: r.Input, Choices: r.Rec}
			if c.src == srcGen && !su.Multi {
				shrinkSolo(self, p, dir, f)
			}
			return f
		}
	}
	return nil
}

func shrinkSolo(self string, p *Prop, dir string, f *Failure) {
	sec := uint64(3)
	best := f.Choices
	rec := shrinkWith(f.Choices, 200, time.Now().Add(90*time.Second), func(c []uint32) (bool, []uint32) {
		kind, msg, r := solo(self, p, dir, oneCase{Suite: f.Suite, Choices: c, UseCh: true, Sec: sec})
		if kind != f.Kind {
			return false, nil
		}
		if lessRec(r.Rec, best) {
			best = r.Rec
			if f.Original == nil {
				f.Original = f.Input
			}
			f.Input, f.Error, f.Shrunk = r.Input, msg, true
		}
		return true, r.Rec
	})
	f.Choices = rec
}

func writeEvidence(p *Prop, seed int64, tier, dir, only string, res *runResult, wall float64) {
	var n, d, nt, checks int64
	var reg int
	exh := []string{}
	for _, r := range res.Reports {
		n += r.Cases
		d += r.Distinct
		nt += r.NonTrivial
		checks += r.Checks
		reg += r.Corpus
		if r.Exhaustive {
			exh = append(exh, r.Suite)
		}
	}
	samples := res.Samples
	if len(samples) == 0 {
		samples = []any{}
		if res.Failure != nil {
			samples = append(samples, shortSample(res.Failure.Input))
		}
	}
	viol := 0
	if res.Failure != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":             n,
			"distinct_nontrivial":     d,
			"oracle_comparisons":      checks,
			"regression_inputs":       reg,
			"rule":                    p.Rule,
			"samples":                 samples,
			"suites":                  res.Reports,
			"exhaustively_enumerated": exh,
		},
		"assumptions": p.Assumptions,
		"wall_s":      wall,
		"violations":  viol,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if dir == "" {
		if only != "" {
			return
		}
		dir = filepath.Join(verifDir(), "evidence")
	}
	_ = os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, p.ID+".json"), ev)
}

// cut shortens what is printed; the replay file has all of it.
func cut(s string) string {
	const most = 6000
	if len(s) <= most {
		return s
	}
	return fmt.Sprintf("%s\n... %d bytes left out ...\n%s", s[:most/2], len(s)-most, s[len(s)-most/2:])
}

// shortSample keeps the evidence readable: of a great case it has the start.
func shortSample(v any) any {
	b, err := json.Marshal(v)
	if err != nil || len(b) <= 2000 {
		return v
	}
	return map[string]any{"starts_with": strings.ToValidUTF8(string(b[:600]), ""), "bytes": len(b)}
}
