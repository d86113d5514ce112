package main

import (
	stdctx "context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"syscall"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"pgregory.net/rapid"
)

// ---- A08

type FaultSpec struct {
	Tree N     `json:"tree"`
	Ctx  Ctx   `json:"ctx"`
	Fail []int `json:"fail,omitempty"` // callbacks that report an error
	Errs int   `json:"errs,omitempty"` // kind of error
	Rich bool  `json:"rich,omitempty"` // the writer has more methods
}

// uncomparable is a kind of error that cannot be compared
type uncomparable []string

func (e uncomparable) Error() string { return strings.Join(e, ": ") }

type structErr struct {
	what string
	id   int
}

func (e structErr) Error() string { return e.what }

// nilErr is used as a nil pointer - which is an error all the same
type nilErr struct{ _ int }

func (e *nilErr) Error() string { return "nil error" }

var plainErrs = []error{io.EOF, io.ErrClosedPipe, io.ErrShortWrite, stdctx.Canceled, stdctx.DeadlineExceeded, syscall.EPIPE, os.ErrClosed, os.ErrDeadlineExceeded, errors.ErrUnsupported, (*nilErr)(nil)}

const errKinds = 20

// plannedErr is an error of the given kind
func plannedErr(kind, id int, what string) error {
	switch {
	case kind <= 0:
		return errors.New(what)
	case kind <= len(plainErrs):
		return plainErrs[kind-1]
	}
	switch kind - len(plainErrs) {
	case 1:
		return uncomparable{what}
	case 2:
		return structErr{what, id}
	case 3:
		return &os.PathError{Op: what, Path: "x", Err: syscall.ENOSPC}
	case 4:
		return errors.Join(errors.New(what), io.EOF)
	case 5:
		return fmt.Errorf("%s: %w", what, io.EOF)
	case 6:
		return errors.New("")
	case 7:
		return fmt.Errorf("%s: %w", what, plainErrs[id%len(plainErrs)])
	}
	return errors.New(what)
}

// sameErr is ==, also for errors that cannot be compared
func sameErr(a, b error) bool {
	if a == nil || b == nil || reflect.TypeOf(a).Comparable() || reflect.TypeOf(b).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// isErr is errors.Is, also for errors that cannot be compared
func isErr(err, target error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if sameErr(err, target) {
			return true
		}
	}
	return target == nil
}

// richWriter has all the methods that writers may have (all of which write as Write does)
type richWriter struct{ *faultWriter }

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}
func (w richWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string(r))) }
func (w richWriter) Flush() error                  { return nil }
func (w richWriter) Close() error                  { panic("the writer is closed") }
func (w richWriter) ReadFrom(r io.Reader) (n int64, err error) {
	data, err := io.ReadAll(r)
	if err == nil {
		var k int
		k, err = w.Write(data)
		n = int64(k)
	}
	return n, err
}

func drawA08(t *rapid.T) *FaultSpec {
	g := newGen(t, opt{})
	g.o = opt{cust: g.p(5), custForms: true, again: true, depth: 1 + g.i(1, 4), budget: 16, cond: g.p(9), iter: g.p(9), imp: g.p(7), collect: g.p(7), doc: true, dyn: g.p(12), efn: true, attrHeavy: g.p(8), fns: g.p(6), safeText: true, nils: g.p(3)}
	g.left = g.o.budget
	spec := &FaultSpec{Tree: g.tree(), Ctx: g.condCtx()}
	ids := callbackIDs(&spec.Tree)
	for k := g.i(0, 3); k > 0 && len(ids) > 0; k-- {
		spec.Fail = append(spec.Fail, pick(g, ids))
	}
	if g.bool() {
		spec.Errs = g.uni(errKinds)
	}
	spec.Rich = g.p(4)
	return spec
}

type faultRun struct {
	w     *faultWriter
	err   error
	ctx   *context.Context
	first error // the first error there was
	at    int   // bytes written by then
}

// faultRender renders with the given faults
func faultRender(tree N, c Ctx, fail []int, errs int, w *faultWriter, preset error) *faultRun {
	r := &faultRun{w: w}
	e := &Env{fail: map[int]error{}}
	for _, id := range fail {
		e.fail[id] = plannedErr(errs, id, fmt.Sprintf("callback %d failed", id))
	}
	e.onFail = func(err error) {
		if r.first == nil && len(w.calls) == w.okCalls() {
			r.first, r.at = err, w.buf.Len()
		}
	}
	node := e.node(tree)
	r.ctx = c.context(w, c.data(), c.cargo())
	if w.rich {
		r.ctx.Writer = richWriter{w}
	}
	if preset != nil {
		r.ctx.Error, r.first = preset, preset
	}
	r.err = node.Render(r.ctx)
	return r
}

func (w *faultWriter) okCalls() int {
	n := 0
	for _, c := range w.calls {
		if !c.failed {
			n++
		}
	}
	return n
}

func (f *faultRun) verify(what, want string, first error) error {
	if !sameErr(f.err, first) {
		return fmt.Errorf("%s: Render returned %v, the first error was %v", what, f.err, first)
	}
	if !sameErr(f.ctx.Error, first) {
		return fmt.Errorf("%s: the context's Error is %v, the first error was %v", what, f.ctx.Error, first)
	}
	if got := f.w.buf.String(); !strings.HasPrefix(want, got) {
		return fmt.Errorf("%s: what was written is not the beginning of the output without the error\n  written: %q\n  without: %q", what, got, want)
	}
	for i, c := range f.w.calls {
		if c.failed && i < len(f.w.calls)-1 {
			return fmt.Errorf("%s: write of %q after the failed write of %q", what, f.w.calls[i+1].data, c.data)
		}
	}
	return nil
}

func checkA08(spec *FaultSpec, r *Rec) error {
	free := faultRender(spec.Tree, spec.Ctx, nil, 0, &faultWriter{rich: spec.Rich}, nil)
	if free.err != nil || free.ctx.Error != nil {
		return fmt.Errorf("error-free render returned %v (context Error %v)", free.err, free.ctx.Error)
	}
	want := free.w.buf.String()
	m := newM(nil)
	m.node(expand(spec.Tree), spec.Ctx.model(), true)
	if err := m.compare(want); err != nil {
		return err
	}
	// errors of callbacks
	withFail := faultRender(spec.Tree, spec.Ctx, spec.Fail, spec.Errs, &faultWriter{rich: spec.Rich}, nil)
	if err := withFail.verify(fmt.Sprintf("callbacks %v fail", spec.Fail), want, withFail.first); err != nil {
		return err
	}
	switch got := withFail.w.buf.String(); {
	case withFail.first == nil && got != want:
		return fmt.Errorf("no callback failed but the output differs\n  got:  %q\n  want: %q", got, want)
	case withFail.first != nil && len(got) != withFail.at:
		return fmt.Errorf("callbacks %v fail: %q was written after the error", spec.Fail, got[withFail.at:])
	}
	if withFail.first != nil {
		r.Class("callback error")
	}
	// every failing write, once and from then on, with part of it written or nothing, with and without callbacks failing
	sets := [][]int{nil}
	if len(spec.Fail) > 0 {
		sets = append(sets, spec.Fail)
	}
	n := 0
	writeErr := plannedErr(spec.Errs, 0, "write failed")
	for _, fail := range sets {
		total := free.w.n
		if fail != nil {
			total = withFail.w.n
		}
		step := 1
		if total > 150 {
			step = 1 + total/150
		}
		for at := 1; at <= total; at += step {
			for mode := 0; mode < 2; mode++ {
				w := &faultWriter{at: map[int]error{at: writeErr}, partial: (at + mode) % 3, rich: spec.Rich}
				if mode == 1 {
					w.at[0] = writeErr // sticky
				}
				f := faultRender(spec.Tree, spec.Ctx, fail, spec.Errs, w, nil)
				n++
				if w.n < at {
					return fmt.Errorf("only %d writes instead of %d", w.n, total)
				}
				if err := f.verify(fmt.Sprintf("write %d of %d fails (callbacks %v, sticky %v)", at, total, fail, mode == 1), want, writeErr); err != nil {
					return err
				}
			}
		}
	}
	// a context that is already in error
	preset := plannedErr(spec.Errs, 0, "earlier error")
	f := faultRender(spec.Tree, spec.Ctx, spec.Fail, spec.Errs, &faultWriter{rich: spec.Rich}, preset)
	if err := f.verify("context already in error", "", preset); err != nil {
		return err
	}
	if f.w.n > 0 {
		return fmt.Errorf("write of %q although the context was already in error", f.w.calls[0].data)
	}
	r.Evals(n + 2)
	r.Classes(m.f)
	r.Sample(fmt.Sprintf("%d failing writes; %s", n, clip(want)))
	r.NonTrivial(free.w.n >= 4)
	return nil
}

// ---- A17

func drawA17(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{again: true, depth: 1 + g.i(1, 5), budget: 60, doc: true, fns: true, mixed: true, nils: g.p(3), attrHeavy: g.p(6)}
	g.left = g.o.budget
	spec := &TreeSpec{Tree: g.tree()}
	if g.p(3) {
		vals := []V{g.scalar()}
		for k := g.i(1, 400); k > 0; k-- {
			spec.Tree = N{K: "elem", Name: "div", Kids: []N{spec.Tree}}
			if spec.Tree.Kids[0].K == "doc" {
				spec.Tree = spec.Tree.Kids[0]
				break
			}
		}
		spec.Tree.Kids = append(spec.Tree.Kids, N{K: "attr", Name: "x", Vals: vals})
	}
	return spec
}

type countingWriter struct{ n int }

func (w *countingWriter) Write(p []byte) (int, error) {
	w.n += len(p)
	return len(p), nil
}

func checkA17(spec *TreeSpec, r *Rec) error {
	e := &Env{}
	var node aitch.Node = e.node(spec.Tree)
	m := newM(nil)
	m.node(expand(spec.Tree), Ctx{}.model(), true)
	w := &countingWriter{}
	ctx := context.New(w, nil, nil)
	var err error
	n := allocs(func() {
		if e := node.Render(ctx); e != nil {
			err = e
		}
	})
	if err != nil {
		return err
	}
	got, _, err := e.render(node, Ctx{})
	if err != nil {
		return err
	}
	if err := m.compare(got); err != nil {
		return err
	}
	c := measure(&spec.Tree)
	for k := range c.kinds {
		r.Class("kind:" + k)
	}
	if c.depth > 50 {
		r.Class("more than 50 levels")
	}
	r.Classes(m.f)
	r.NonTrivial(c.nodes >= 5)
	r.Sample(fmt.Sprintf("%d nodes, %d allocations; %s", c.nodes, n, clip(got)))
	if n > 0 {
		return fmt.Errorf("rendering allocates %d times\n  output: %q", n, clip(got))
	}
	return nil
}

func init() {
	p := register("A08", "random trees with callbacks of every kind, with every single write made to fail (once or for good, part of it written or not), random callbacks made to fail, and contexts already in error; non-trivial: at least 4 writes", 4500, 45000, drawA08, checkA08)
	p.Level = "fault_enumeration"
	p.fixed = largeFaults
	register("A17", "random static trees (up to 60 nodes, up to 400 levels), heap allocations counted by the runtime during renders into a counting writer; non-trivial: at least 5 nodes", 27000, 80000, drawA17, checkA17).fixed = largeStatic
}
