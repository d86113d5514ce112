package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is a property: how cases are drawn, and how one case is decided
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases per shard
	Thorough int
	Shards   int
	CaseMax  time.Duration // a case taking longer than this does not terminate
	Level    string
	draw     func(t *rapid.T) any
	check    func(spec any, r *Rec) error
	decode   func(data []byte) (any, error)
	fixed    func() []any // cases always run
}

// Rec records what a case exercised
type Rec struct {
	classes    map[string]int
	nontrivial bool
	evals      int
	sample     string
}

func (r *Rec) Class(name string) { r.classes[name]++ }
func (r *Rec) Classes(m map[string]int) {
	for k, v := range m {
		if v > 0 {
			r.classes[k]++
		}
	}
}
func (r *Rec) NonTrivial(b bool) { r.nontrivial = r.nontrivial || b }

// Evals counts further executions within the case
func (r *Rec) Evals(n int)     { r.evals += n }
func (r *Rec) Sample(s string) { r.sample = s }

var props = map[string]*Prop{}

func register[T any](id, rule string, quick, thorough int, draw func(t *rapid.T) *T, check func(spec *T, r *Rec) error) *Prop {
	p := &Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough, Shards: 8, CaseMax: 90 * time.Second, Level: "exploration"}
	p.draw = func(t *rapid.T) any { return draw(t) }
	p.check = func(spec any, r *Rec) error { return check(spec.(*T), r) }
	p.decode = func(data []byte) (any, error) {
		s := new(T)
		err := json.Unmarshal(data, s)
		return s, err
	}
	props[id] = p
	return p
}

type Violation struct {
	Spec json.RawMessage `json:"spec"`
	Msg  string          `json:"msg"`
}

// ShardResult is what a shard reports
type ShardResult struct {
	Evaluations int
	Cases       int
	Hashes      []uint64
	Classes     map[string]int
	Samples     []json.RawMessage
	Violation   *Violation
	Internal    string
	TimeUp      bool
}

type replayFile struct {
	Property string          `json:"property"`
	Spec     json.RawMessage `json:"spec"`
	Message  string          `json:"message"`
}

type internalError string

// safely runs a check - a panic of the code under test is a violation, one of the harness is not
func safely(p *Prop, spec any, r *Rec) (err error) {
	defer func() {
		if x := recover(); x != nil {
			msg := fmt.Sprint(x)
			stack := string(debug.Stack())
			if strings.HasPrefix(msg, "harness:") {
				panic(internalError(msg + "\n" + stack))
			}
			err = fmt.Errorf("panic: %s\n%s", msg, trimStack(stack))
		}
	}()
	return p.check(spec, r)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// tb is the minimal testing interface rapid needs
type tb struct {
	failed bool
	log    strings.Builder
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tb) Skip(a ...any)             { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

type shard struct {
	p      *Prop
	res    *ShardResult
	hashes map[uint64]bool
	mu     sync.Mutex
	cur    any
	since  time.Time
	out    string
	trace  string
	stop   time.Time
}

func (s *shard) write() {
	for h := range s.hashes {
		s.res.Hashes = append(s.res.Hashes, h)
	}
	data, err := json.Marshal(s.res)
	if err == nil {
		err = os.WriteFile(s.out, data, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot write result:", err)
		os.Exit(3)
	}
}

// one runs one case and reports whether it held; cases that were not chosen are left out if they'd take too long
func (s *shard) one(spec any, chosen bool) error {
	js, err := json.Marshal(spec)
	if err != nil {
		panic(internalError("harness: cannot marshal spec: " + err.Error()))
	}
	if !chosen && costOf(spec)*float64(len(js)+1000) > maxCost {
		s.res.Classes["left out: would render too much"]++
		return nil
	}
	if s.trace != "" {
		_ = os.WriteFile(s.trace, js, 0o644)
	}
	s.mu.Lock()
	s.cur, s.since = spec, time.Now()
	s.mu.Unlock()
	r := &Rec{classes: map[string]int{}, evals: 1}
	err = safely(s.p, spec, r)
	s.mu.Lock()
	if d := time.Since(s.since); d > time.Second && os.Getenv("VH_SLOW") != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/slow-%s-%d-%x.json", os.Getenv("VH_SLOW"), s.p.ID, d.Milliseconds(), hashOf(js)), js, 0o644)
	}
	s.cur = nil
	s.mu.Unlock()
	if err != nil {
		s.res.Violation = &Violation{Spec: js, Msg: err.Error()}
		return err
	}
	s.res.Cases++
	s.res.Evaluations += r.evals
	for k := range r.classes {
		s.res.Classes[k]++
	}
	if r.nontrivial {
		s.res.Classes["non-trivial"]++
		h := hashOf(js)
		if !s.hashes[h] {
			s.hashes[h] = true
			if n := len(s.hashes); n == 1 || n == 20 || n == 200 {
				if len(js) < 6000 {
					sm, _ := json.Marshal(map[string]any{"case": json.RawMessage(js), "result": r.sample})
					s.res.Samples = append(s.res.Samples, sm)
				}
			}
		}
	}
	return nil
}

func (s *shard) watchdog() {
	for range time.Tick(time.Second) {
		s.mu.Lock()
		cur, since := s.cur, s.since
		s.mu.Unlock()
		if cur != nil && time.Since(since) > s.p.CaseMax {
			js, _ := json.Marshal(cur)
			s.res.Violation = &Violation{Spec: js, Msg: fmt.Sprintf("does not terminate (still running after %v)", s.p.CaseMax)}
			s.write()
			os.Exit(0)
		}
	}
}

func runShard(p *Prop, checks int, seed uint64, limit time.Duration, out, trace string, first bool) {
	debug.SetMaxStack(256 << 20)
	s := &shard{p: p, hashes: map[uint64]bool{}, out: out, trace: trace, res: &ShardResult{Classes: map[string]int{}}, stop: time.Now().Add(limit)}
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	shrink := "20s"
	if s := os.Getenv("VH_SHRINK"); s != "" {
		shrink = s
	}
	_ = flag.Set("rapid.shrinktime", shrink)
	go s.watchdog()
	if first {
		for _, spec := range corpus(p) {
			if s.one(spec, true) != nil {
				s.write()
				return
			}
		}
	}
	t := &tb{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			if s.res.TimeUp || s.res.Internal != "" {
				return
			}
			if s.res.Violation == nil && time.Now().After(s.stop) {
				s.res.TimeUp = true
				return
			}
			defer func() {
				if x := recover(); x != nil {
					if ie, ok := x.(internalError); ok {
						s.res.Internal = string(ie)
						return
					}
					panic(x)
				}
			}()
			if err := s.one(p.draw(rt), false); err != nil {
				rt.Fatalf("violation: %v", err)
			}
		})
	}()
	<-done
	if t.failed && s.res.Violation == nil && s.res.Internal == "" {
		s.res.Internal = "rapid failed without a violation: " + t.log.String()
	}
	s.write()
}

// corpus is the saved regression cases of a property (plus any fixed ones)
func corpus(p *Prop) (r []any) {
	if p.fixed != nil {
		r = append(r, p.fixed()...)
	}
	files, _ := filepath.Glob(filepath.Join(verifDir(), "harness", "corpus", p.ID, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var rf replayFile
		if err := json.Unmarshal(data, &rf); err != nil {
			panic(internalError("harness: bad corpus file " + f + ": " + err.Error()))
		}
		spec, err := p.decode(rf.Spec)
		if err != nil {
			panic(internalError("harness: bad corpus file " + f + ": " + err.Error()))
		}
		r = append(r, spec)
	}
	return r
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	testing.Init()
	var (
		id     = flag.String("prop", "", "property")
		mode   = flag.String("mode", "run", "run, shard, replay, worker or list")
		tier   = flag.String("tier", "quick", "quick or thorough")
		seed   = flag.Uint64("seed", 1, "seed")
		checks = flag.Int("checks", 0, "cases per shard")
		limit  = flag.Duration("limit", 0, "time limit")
		out    = flag.String("out", "", "result file")
		trace  = flag.String("trace", "", "file for the current case")
		first  = flag.Bool("first", false, "run the corpus too")
		file   = flag.String("file", "", "replay file")
	)
	flag.Parse()
	if *mode == "worker" {
		worker()
		return
	}
	if *mode == "list" {
		for k := range props {
			fmt.Println(k)
		}
		return
	}
	p := props[*id]
	if p == nil {
		fatal(3, "harness: unknown property %q", *id)
	}
	switch *mode {
	case "shard":
		runShard(p, *checks, *seed, *limit, *out, *trace, *first)
	case "replay":
		replay(p, *file)
	case "run":
		run(p, *tier, *seed, *checks)
	default:
		fatal(3, "harness: unknown mode")
	}
}

func replay(p *Prop, file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		fatal(3, "harness: %v", err)
	}
	var rf replayFile
	if err = json.Unmarshal(data, &rf); err != nil {
		fatal(3, "harness: %v", err)
	}
	spec, err := p.decode(rf.Spec)
	if err != nil {
		fatal(3, "harness: %v", err)
	}
	if err = safely(p, spec, &Rec{classes: map[string]int{}}); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		os.Exit(1)
	}
	fmt.Printf("property %s holds for %s\n", p.ID, file)
}

func run(p *Prop, tier string, seed uint64, checks int) {
	start := time.Now()
	n, shards, limit := p.Quick, p.Shards, 150*time.Second
	if tier == "thorough" {
		n, shards, limit = p.Thorough, 8, 540*time.Second
	}
	if checks > 0 {
		n = checks
	}
	if d, _ := strconv.Atoi(os.Getenv("VH_DIV")); d > 1 { // for trying things out
		n = 1 + n/d
	}
	dir, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fatal(3, "harness: %v", err)
	}
	code := runShards(p, tier, seed, n, shards, limit, dir, start)
	_ = os.RemoveAll(dir)
	os.Exit(code)
}

func runShards(p *Prop, tier string, seed uint64, n, shards int, limit time.Duration, dir string, start time.Time) int {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	results := make([]*ShardResult, shards)
	errs := make([]error, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := seed*1000003 + uint64(i) + 1
			results[i], errs[i] = spawn(self, p, n, s, limit, dir, i)
		}(i)
	}
	wg.Wait()
	total := &ShardResult{Classes: map[string]int{}}
	hashes := map[uint64]bool{}
	var violation *Violation
	for i, r := range results {
		if errs[i] != nil {
			fmt.Fprintf(os.Stderr, "harness: shard %d: %v\n", i, errs[i])
			return 3
		}
		if r.Internal != "" {
			fmt.Fprintf(os.Stderr, "harness: shard %d: %s\n", i, r.Internal)
			return 3
		}
		total.Evaluations += r.Evaluations
		total.Cases += r.Cases
		for k, v := range r.Classes {
			total.Classes[k] += v
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		total.TimeUp = total.TimeUp || r.TimeUp
		if r.Violation != nil && (violation == nil || len(r.Violation.Spec) < len(violation.Spec)) {
			violation = r.Violation
		}
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	var fuzzed map[string]any
	if bin := os.Getenv("VH_FUZZ"); bin != "" && tier == "thorough" && violation == nil {
		violation, fuzzed = fuzz(p, bin, dir, 150*time.Second)
	}
	violations := 0
	code := 0
	if violation != nil {
		violations, code = 1, 1
		_ = os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
		name := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%016x.json", p.ID, hashOf(violation.Spec)))
		data, _ := json.MarshalIndent(replayFile{p.ID, violation.Spec, violation.Msg}, "", " ")
		if err := os.WriteFile(name, data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
		}
		fmt.Println(violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"coverage": map[string]any{
			"evaluations": total.Evaluations, "cases": total.Cases, "distinct_nontrivial": len(hashes), "rule": p.Rule,
			"classes": total.Classes, "samples": total.Samples, "shards": shards, "cut_short_by_time": total.TimeUp,
		},
	}
	if fuzzed != nil {
		ev["coverage"].(map[string]any)["coverage_guided"] = fuzzed
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	fmt.Printf("%s %s: %d cases, %d executions, %d distinct non-trivial, %d violations, %.1fs\n", p.ID, tier, total.Cases, total.Evaluations, len(hashes), violations, time.Since(start).Seconds())
	return code
}

// spawn runs a shard in a process of its own; if that process dies the case it died of is a violation
func spawn(self string, p *Prop, n int, seed uint64, limit time.Duration, dir string, i int) (*ShardResult, error) {
	attempt := func(trace string) (*ShardResult, string, error) {
		out := filepath.Join(dir, fmt.Sprintf("shard-%d.json", i))
		_ = os.Remove(out)
		args := []string{"-mode", "shard", "-prop", p.ID, "-checks", strconv.Itoa(n), "-seed", strconv.FormatUint(seed, 10), "-limit", limit.String(), "-out", out}
		if i == 0 {
			args = append(args, "-first")
		}
		if trace != "" {
			args = append(args, "-trace", trace)
		}
		cmd := exec.Command(self, args...)
		var stderr strings.Builder
		cmd.Stderr = &stderr
		err := cmd.Run()
		data, rerr := os.ReadFile(out)
		if err != nil || rerr != nil {
			return nil, stderr.String(), fmt.Errorf("shard ended with %v: %s", err, tail(stderr.String(), 3000))
		}
		r := &ShardResult{}
		return r, stderr.String(), json.Unmarshal(data, r)
	}
	r, msg, err := attempt("")
	if err == nil || strings.Contains(msg, "harness:") || !(strings.Contains(msg, "fatal error: stack overflow") || strings.Contains(msg, "stack exceeds") || strings.Contains(msg, "fatal error: concurrent map") || strings.Contains(msg, "fatal error: all goroutines are asleep") || strings.Contains(msg, "goroutine ")) {
		return r, err
	}
	// the process died of the code under test: run again, keeping the current case
	trace := filepath.Join(dir, fmt.Sprintf("trace-%d.json", i))
	r, msg, err2 := attempt(trace)
	if err2 == nil {
		return r, nil
	}
	spec, rerr := os.ReadFile(trace)
	if rerr != nil {
		return nil, err
	}
	return &ShardResult{Violation: &Violation{Spec: spec, Msg: "the process died: " + tail(msg, 1500)}}, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}
