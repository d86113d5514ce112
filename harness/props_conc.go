package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-andiamo/aitch"
	"pgregory.net/rapid"
)

// ---- A07

// ConcOp is what one goroutine does
//
// kinds: render (template I), pool (shared node I), build (template I, built by the goroutine out of the shared nodes),
// tmpl (execute the shared html/template), code (generate code from document I)
type ConcOp struct {
	K string `json:"k"`
	I int    `json:"i,omitempty"`
	C int    `json:"c,omitempty"` // context
}

type ConcSpec struct {
	Share  ShareSpec  `json:"share"`
	Tmpl   *TmplSpec  `json:"tmpl,omitempty"`
	Docs   []CodeSpec `json:"docs,omitempty"`
	Ops    []ConcOp   `json:"ops"`
	Rounds int        `json:"rounds"`
	Order  []int      `json:"order,omitempty"`  // which goroutine is next, at every switch
	Shared bool       `json:"shared,omitempty"` // contexts share their Data and Cargo
}

func drawA07(t *rapid.T) *ConcSpec {
	share := drawA06(t)
	g := newGen(t, opt{})
	g.id = 100000
	s := &ConcSpec{Share: *share, Rounds: g.i(1, 3), Shared: g.bool()}
	g.o = opt{depth: 2, budget: 10, dyn: true, cond: true, iter: true, imp: true, collect: true, doc: true, fns: true, pool: len(share.Pool), mixed: g.p(5)}
	g.kinds["style"] = "dattr; "
	if g.p(6) { // more kinds of nodes
		g.left = g.o.budget
		s.Share.Trees = append(s.Share.Trees, g.tree())
	}
	if g.p(6) { // an element whose attributes depend on the context
		s.Share.Trees = append(s.Share.Trees, g.condAttrs())
		for len(s.Share.Ctxs) < 3 {
			s.Share.Ctxs = append(s.Share.Ctxs, g.condCtx())
		}
	}
	if g.p(5) { // elements written imperatively
		s.Share.Trees = append(s.Share.Trees, g.startAttrs())
	}
	if g.p(4) {
		n := drawA20(t).Tree
		s.Share.Trees = append(s.Share.Trees, n)
	}
	if g.p(5) {
		s.Tmpl = drawA13(t)
		s.Tmpl.Fail, s.Tmpl.Broken = nil, ""
	}
	if g.p(3) {
		for k := g.i(1, 2); k > 0; k-- {
			d := drawCode(g.bool())(t)
			d.Chunks, d.RFail, d.WFail = nil, nil, nil
			s.Docs = append(s.Docs, *d)
		}
	}
	for k := g.i(2, 8); k > 0; k-- {
		op := ConcOp{K: "render", I: g.uni(len(s.Share.Trees)), C: g.uni(len(s.Share.Ctxs))}
		switch g.uni(10) {
		case 0, 1:
			op.K = "build"
		case 2:
			op.K, op.I = "pool", g.uni(len(s.Share.Pool))
		case 3, 4:
			if s.Tmpl != nil {
				op = ConcOp{K: "tmpl", C: g.uni(len(s.Tmpl.Ctxs))}
			}
		case 5:
			if len(s.Docs) > 0 {
				op = ConcOp{K: "code", I: g.uni(len(s.Docs))}
			}
		case 6, 7, 8:
			if k := len(s.Ops); k > 0 { // the same as another does
				op = s.Ops[g.uni(k)]
				if (op.K == "render" || op.K == "pool" || op.K == "build") && g.bool() {
					op.C = g.uni(len(s.Share.Ctxs))
				}
			}
		}
		s.Ops = append(s.Ops, op)
	}
	if g.p(8) {
		s.Order = rapid.SliceOfN(rapid.IntRange(0, 7), 1, 40).Draw(t, "order")
	}
	walkConc(s, func(v *V) {
		if v.K == "count" { // the callback itself isn't safe
			*v = V{K: "dfn", S: "count"}
		}
	})
	return s
}

// condAttrs draws an element with attributes that are declared unconditionally and in several conditionals
func (g *gen) condAttrs() N {
	n := N{K: "elem", Name: "p"}
	attrs := func() (r []N) {
		for k := g.i(1, 2); k > 0; k-- {
			name := pick(g, []string{"class", "style", "title"})
			a := N{K: "dattr", Name: Str(name), Delim: " ", Vals: g.withNils(g.valueItems(1, 3))}
			if name == "title" {
				a.K = "attr"
			}
			r = append(r, a)
		}
		return r
	}
	if g.p(12) {
		n.Kids = attrs()
	}
	for k := g.i(1, 4); k > 0; k-- {
		key := g.key()
		if g.p(4) {
			key = "!" + key
		}
		c := N{K: "when", Key: key, Kids: attrs()}
		if g.p(3) {
			c.Kids = append(c.Kids, N{K: "when", Key: g.key(), Kids: attrs()})
		}
		n.Kids = append(n.Kids, c)
	}
	return n
}

// startAttrs draws elements, written imperatively, with attributes of any kinds that share a name
func (g *gen) startAttrs() N {
	n := N{K: "imp"}
	for k := g.i(1, 3); k > 0; k-- {
		op := Op{K: "start", S: "p"}
		for j := g.i(2, 5); j > 0; j-- {
			a := N{K: pick(g, []string{"attr", "dattr", "dattr"}), Name: Str(pick(g, []string{"class", "style"})), Vals: g.withNils(g.valueItems(1, 3))}
			if a.K == "dattr" {
				a.Delim = " "
			}
			op.N = append(op.N, a)
		}
		n.Ops = append(n.Ops, op, Op{K: "end"})
	}
	return n
}

func walkConc(s *ConcSpec, f func(v *V)) {
	for i := range s.Share.Trees {
		walkV(&s.Share.Trees[i], f)
	}
	for i := range s.Share.Pool {
		walkV(&s.Share.Pool[i], f)
	}
	for i := range s.Share.KSlices {
		for j := range s.Share.KSlices[i] {
			walkV(&s.Share.KSlices[i][j], f)
		}
	}
	for i := range s.Share.Slices {
		for j := range s.Share.Slices[i] {
			walkVV(&s.Share.Slices[i][j], f)
		}
	}
	for i := range s.Share.VPool {
		walkVV(&s.Share.VPool[i], f)
	}
	if s.Tmpl != nil {
		for i := range s.Tmpl.Nodes {
			walkV(&s.Tmpl.Nodes[i], f)
		}
	}
}

// concEnv is everything the goroutines share
type concEnv struct {
	s     *ConcSpec
	e     *Env
	trees []aitch.Node
	tmpl  *aitch.Template
	data  []map[string]any
	cargo []any
}

func newConcEnv(s *ConcSpec) *concEnv {
	ce := &concEnv{s: s, e: &Env{}}
	for _, v := range s.Share.VPool {
		ce.e.vpool = append(ce.e.vpool, ce.e.val(v))
	}
	for _, vs := range s.Share.Slices {
		ce.e.slices = append(ce.e.slices, ce.e.vals(vs))
	}
	for _, n := range s.Share.Pool {
		ce.e.pool = append(ce.e.pool, ce.e.node(n))
	}
	for _, ks := range s.Share.KSlices {
		ce.e.kslices = append(ce.e.kslices, ce.e.kidsAny(ks))
		ce.e.nslices = append(ce.e.nslices, ce.e.kidsNodes(ks))
	}
	for _, n := range s.Share.Trees {
		ce.trees = append(ce.trees, ce.e.node(n))
	}
	if s.Tmpl != nil {
		text, nm := s.Tmpl.build(&Env{})
		tmpl, err := aitch.NewTemplate("t", text, nm)
		if err != nil {
			panic("harness: template: " + err.Error())
		}
		ce.tmpl = tmpl
	}
	for _, c := range s.Share.Ctxs {
		ce.data = append(ce.data, c.data())
		ce.cargo = append(ce.cargo, c.cargo())
	}
	return ce
}

// do runs an operation
func (ce *concEnv) do(op ConcOp, w io.Writer) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if msg := fmt.Sprint(x); strings.HasPrefix(msg, "harness:") {
				panic(x)
			}
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	render := func(n aitch.Node) error {
		c := ce.s.Share.Ctxs[op.C]
		data, cargo := ce.data[op.C], ce.cargo[op.C]
		if !ce.s.Shared {
			data, cargo = c.data(), c.cargo()
		}
		ctx := c.context(w, data, cargo)
		err := n.Render(ctx)
		if err == nil {
			err = ctx.Error
		}
		return err
	}
	switch op.K {
	case "render":
		return render(ce.trees[op.I])
	case "pool":
		if n := ce.e.pool[op.I]; n != nil {
			return render(n)
		}
		return nil
	case "build":
		e := &Env{pool: ce.e.pool, vpool: ce.e.vpool, slices: ce.e.slices, kslices: ce.e.kslices, nslices: ce.e.nslices}
		return render(e.node(ce.s.Share.Trees[op.I]))
	case "tmpl":
		c := ce.s.Tmpl.Ctxs[op.C]
		return ce.tmpl.Execute(w, c.data(), c.cargo())
	case "code":
		d := ce.s.Docs[op.I]
		return generate(d.SVG, strings.NewReader(string(d.In)), w)
	}
	panic("harness: unknown operation " + op.K)
}

// turns lets goroutines run one at a time, switching at every write and callback, in a given order
type turns struct {
	mu    sync.Mutex
	order []int
	k     int
	live  []int
	cur   int
	chans []chan struct{}
	free  bool
}

func newTurns(n int, order []int) *turns {
	t := &turns{order: order, cur: -1}
	for i := 0; i < n; i++ {
		t.live = append(t.live, i)
		t.chans = append(t.chans, make(chan struct{}, 1))
	}
	return t
}

// next picks who is next (t.mu is held)
func (t *turns) next() {
	if len(t.live) == 0 {
		return
	}
	t.cur = t.live[t.order[t.k%len(t.order)]%len(t.live)]
	t.k++
	select {
	case t.chans[t.cur] <- struct{}{}:
	default:
	}
}

func (t *turns) wait(id int) {
	t.mu.Lock()
	if t.free {
		t.mu.Unlock()
		return
	}
	if t.cur == id {
		t.next()
	}
	t.mu.Unlock()
	select {
	case <-t.chans[id]:
	case <-time.After(200 * time.Millisecond):
		// whoever's turn it is can't continue (e.g. it needs what this one has): let all of them run
		t.mu.Lock()
		t.free = true
		t.mu.Unlock()
	}
}

func (t *turns) done(id int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i, x := range t.live {
		if x == id {
			t.live = append(t.live[:i:i], t.live[i+1:]...)
			break
		}
	}
	if t.cur == id {
		t.next()
	}
}

type concWriter struct {
	id  int
	t   *turns
	n   int
	buf []byte
}

func (w *concWriter) point() {
	if w.t != nil {
		w.t.wait(w.id)
	} else if w.n++; w.n%3 == w.id%3 {
		runtime.Gosched()
	}
}

func (w *concWriter) Write(p []byte) (int, error) {
	w.point()
	w.buf = append(w.buf, p...)
	return len(p), nil
}

type concResult struct {
	out string
	err error
}

func runConc(s *ConcSpec, controlled bool) [][]concResult {
	ce := newConcEnv(s)
	got := make([][]concResult, len(s.Ops))
	var t *turns
	if controlled {
		t = newTurns(len(s.Ops), s.Order)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range s.Ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for r := 0; r < s.Rounds; r++ {
				w := &concWriter{id: i, t: t}
				w.point()
				err := ce.do(s.Ops[i], w)
				got[i] = append(got[i], concResult{string(w.buf), err})
			}
			if t != nil {
				t.done(i)
			}
		}(i)
	}
	if t != nil {
		t.mu.Lock()
		t.next()
		t.mu.Unlock()
	}
	close(start)
	wg.Wait()
	return got
}

// concCase runs a case (in the worker, which detects data races)
func concCase(s *ConcSpec) error {
	// the concurrent runs are first - so that nothing has been made ready by others
	runs := [][][]concResult{runConc(s, false)}
	if len(s.Order) > 0 {
		runs = append(runs, runConc(s, true))
	}
	for i, op := range s.Ops {
		w := &concWriter{id: i}
		err := newConcEnv(s).do(op, w)
		for k, run := range runs {
			for r, got := range run[i] {
				if fmt.Sprint(got.err) != fmt.Sprint(err) {
					return fmt.Errorf("goroutine %d (%v), run %d, round %d: error %v, on its own: %v", i, op, k, r, got.err, err)
				}
				if got.out != string(w.buf) {
					return fmt.Errorf("goroutine %d (%v), run %d, round %d: output\n%s\non its own:\n%s", i, op, k, r, clip(got.out), clip(string(w.buf)))
				}
			}
		}
	}
	return nil
}

type workerReply struct {
	Err      string `json:"err,omitempty"`
	Internal string `json:"internal,omitempty"`
}

// worker runs cases given on stdin
func worker() {
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		s := &ConcSpec{}
		rep := workerReply{}
		if err = json.Unmarshal(line, s); err != nil {
			rep.Internal = err.Error()
		} else {
			func() {
				defer func() {
					if x := recover(); x != nil {
						if msg := fmt.Sprint(x); strings.HasPrefix(msg, "harness:") {
							rep.Internal = msg
						} else {
							rep.Err = "panic: " + msg
						}
					}
				}()
				if err := concCase(s); err != nil {
					rep.Err = err.Error()
				}
			}()
		}
		if out.Encode(rep) != nil {
			return
		}
	}
}

// workerProc is a running worker
type workerProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr strings.Builder
	cases  int
}

// workers holds the running workers (nil: one that isn't running)
var workers = func() chan *workerProc {
	c := make(chan *workerProc, 1)
	for i := 0; i < cap(c); i++ {
		c <- nil
	}
	return c
}()

const casesPerWorker = 12

func raceBinary() string {
	if f := os.Getenv("VH_RACE"); f != "" {
		return f
	}
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return filepath.Join(filepath.Dir(self), "vh-race")
}

func startWorker() *workerProc {
	w := &workerProc{cmd: exec.Command(raceBinary(), "-mode", "worker")}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
	var err error
	var out io.ReadCloser
	if w.in, err = w.cmd.StdinPipe(); err == nil {
		if out, err = w.cmd.StdoutPipe(); err == nil {
			w.cmd.Stderr = &w.stderr
			w.out = bufio.NewReaderSize(out, 1<<20)
			err = w.cmd.Start()
		}
	}
	if err != nil {
		panic("harness: cannot start worker: " + err.Error())
	}
	return w
}

func (w *workerProc) stop() {
	_ = w.in.Close()
	_ = w.cmd.Wait()
}

func checkA07(s *ConcSpec, r *Rec) error {
	w := <-workers
	defer func() { workers <- w }()
	if w != nil && w.cases >= casesPerWorker {
		w.stop()
		w = nil
	}
	if w == nil {
		w = startWorker()
	}
	w.cases++
	js, err := json.Marshal(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	_, err = w.in.Write(append(js, '\n'))
	var line []byte
	if err == nil {
		line, err = w.out.ReadBytes('\n')
	}
	if err != nil {
		dead := w
		w = nil
		werr := dead.cmd.Wait()
		msg := dead.stderr.String()
		if strings.Contains(msg, "WARNING: DATA RACE") {
			return fmt.Errorf("data race: %s", tail(msg, 4000))
		}
		if strings.Contains(msg, "fatal error: concurrent map") || strings.Contains(msg, "stack overflow") || strings.Contains(msg, "all goroutines are asleep") {
			return fmt.Errorf("the process died: %s", tail(msg, 3000))
		}
		panic(fmt.Sprintf("harness: worker ended: %v: %s", werr, tail(msg, 3000)))
	}
	rep := workerReply{}
	if err = json.Unmarshal(line, &rep); err != nil {
		panic("harness: bad reply: " + string(line))
	}
	if rep.Internal != "" {
		panic("harness: " + strings.TrimPrefix(rep.Internal, "harness:"))
	}
	if rep.Err != "" {
		// a fresh process for whatever's next
		w.stop()
		w = nil
		return fmt.Errorf("%s", rep.Err)
	}
	uses := map[string]int{}
	shared := 0
	for _, op := range s.Ops {
		r.Class(op.K)
		key := fmt.Sprint(op.K, op.I)
		if op.K == "build" {
			key = "render" + fmt.Sprint(op.I)
		}
		if uses[key]++; uses[key] > 1 {
			shared++
		}
	}
	if len(s.Order) > 0 {
		r.Class("controlled order")
		r.Evals(len(s.Ops) * s.Rounds)
	}
	r.Evals(len(s.Ops)*s.Rounds - 1)
	r.NonTrivial(shared > 0)
	r.Sample(fmt.Sprintf("%d goroutines, %d rounds, %d doing what another does", len(s.Ops), s.Rounds, shared))
	return nil
}

// fixedA07 has everything there is done by several goroutines at once
func fixedA07() (r []any) {
	s := &ConcSpec{Rounds: 2, Order: []int{1, 0, 2, 3, 5, 4, 7, 6}}
	s.Share.Ctxs = []Ctx{{Data: map[string]V{"a": {K: "bool", B: true}, "s": {K: "str", S: "x<y"}, "list": {K: "list", Vs: []V{{K: "int", I: 1}, {K: "str", S: "two"}}}}}, {NoData: true}}
	kids := []N{}
	for _, h := range helpers {
		switch h.Kind {
		case "elem", "void":
			kids = append(kids, helperNode(h.Pkg+"."+h.Func, nil, []N{{K: "attr", Name: "x", Vals: []V{{K: "key", S: "s"}}}}))
		case "style":
			kids = append(kids, N{K: "elem", Name: "i", Kids: []N{{K: "dattr", Fn: h.Pkg + "." + h.Func, Name: "style", Delim: "; ", Vals: []V{{K: "concat", Vs: []V{{K: "bytes", S: Str(h.Name) + ":"}, {K: "str", S: "1"}}}}}}})
		default:
			kids = append(kids, N{K: "elem", Name: "i", Kids: []N{helperNode(h.Pkg+"."+h.Func, []V{{K: "str", S: "v"}}, nil)}})
		}
	}
	s.Share.Pool = []N{{K: "text", Vals: []V{{K: "key", S: "s"}}}, {K: "attr", Name: "id", Vals: []V{{K: "str", S: "i"}}}}
	t := N{K: "imp", ID: 1, Ops: []Op{{K: "start", S: "div", N: []N{{K: "ref", Ref: 1}}}, {K: "str", S: "x&y"}, {K: "nodes", N: []N{{K: "ref"}}}, {K: "endall"}}}
	s.Share.Trees = []N{{K: "coll", Kids: kids}, {K: "coll", Kids: []N{t, {K: "iterkey", Key: "list", Kids: []N{{K: "ref"}}}, {K: "iter", ID: 2, Items: []V{{K: "int", I: 3}}, Kids: []N{{K: "elem", Name: "p", Kids: []N{{K: "ref"}, {K: "ref", Ref: 1}}}}}, {K: "yield", ID: 3, Items: []V{{K: "int", I: 3}}, Kids: []N{{K: "ref"}}}, {K: "when", Key: "a", Kids: []N{{K: "ref"}}}, {K: "comment", Vals: []V{{K: "key", S: "s"}}}, {K: "pi", Name: "x", Vals: []V{{K: "str", S: "y"}}}, {K: "headers", Vals: []V{{K: "hmap", M: map[string]V{"A": {K: "str", S: "b"}}}}}}}}
	s.Tmpl = &TmplSpec{Nodes: []N{{K: "text", Vals: []V{{K: "key", S: "sv"}}}, {K: "attr", Name: "id", Vals: []V{{K: "str", S: "i"}}}}, Pieces: []Piece{{K: "text", S: "<p>"}, {K: "node"}, {K: "attr", I: 1}}, Ctxs: []Ctx{{Data: map[string]V{"sv": {K: "str", S: "q"}}}}}
	s.Docs = []CodeSpec{{In: "<!DOCTYPE html><p class=a><script>x<y</script><br>t<!--c--></p>"}, {SVG: true, In: "<svg><linearGradient id='a'/><text>t</text></svg>"}}
	for k := 0; k < 2; k++ {
		s.Ops = append(s.Ops, ConcOp{K: "build"}, ConcOp{K: "render"}, ConcOp{K: "build", I: 1}, ConcOp{K: "render", I: 1, C: 1}, ConcOp{K: "tmpl"}, ConcOp{K: "code"}, ConcOp{K: "code", I: 1}, ConcOp{K: "pool", C: k}, ConcOp{K: "pool", I: 1})
	}
	return []any{s}
}

func init() {
	p := register("A07", "random sets of templates sharing nodes, values and argument slices, an html/template and documents, used by 2 to 8 goroutines at once (rendering, building and rendering, executing, generating code), running freely under the race detector and then one at a time in a random order of switches at every write and callback, each output compared with that of the same operation on its own; non-trivial: two goroutines use the same template", 3000, 40000, drawA07, checkA07)
	p.fixed = fixedA07
}
