package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-andiamo/aitch"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// TreeSpec is a template and the context it is rendered with
type TreeSpec struct {
	Tree N   `json:"tree"`
	Ctx  Ctx `json:"ctx"`
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// renderCompare renders a spec and compares the output with the reference renderer's
func renderCompare(spec *TreeSpec, r *Rec, e *Env) (*M, string, error) {
	if e == nil {
		e = &Env{}
	}
	m := newM(nil)
	m.traceOn = e.traceOn
	m.node(expand(spec.Tree), spec.Ctx.model(), true)
	node := e.node(spec.Tree)
	if node == nil {
		return m, "", fmt.Errorf("constructor returned nil")
	}
	if len(e.trace) > 0 || e.counter > 0 {
		return m, "", fmt.Errorf("callback called at construction time: %v", e.trace)
	}
	got, ctx, err := e.render(node, spec.Ctx)
	if err != nil {
		return m, got, fmt.Errorf("Render returned %v", err)
	}
	if ctx.Error != nil {
		return m, got, fmt.Errorf("context Error is %v after a successful render", ctx.Error)
	}
	r.Classes(m.f)
	r.Sample(clip(got))
	return m, got, m.compare(got)
}

type counts struct {
	nodes, depth int
	kinds        map[string]int
}

func measure(n *N) counts {
	c := counts{kinds: map[string]int{}}
	var rec func(n *N, d int)
	rec = func(n *N, d int) {
		c.nodes++
		c.kinds[n.K]++
		if d > c.depth {
			c.depth = d
		}
		for i := range n.Kids {
			rec(&n.Kids[i], d+1)
		}
		for i := range n.Head {
			rec(&n.Head[i], d+1)
		}
		for i := range n.Ops {
			for j := range n.Ops[i].N {
				rec(&n.Ops[i].N[j], d+1)
			}
		}
	}
	rec(n, 1)
	return c
}

// ---- A02

func drawA02(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	imp := g.p(2)
	g.o = opt{rawNames: g.p(4), cust: g.p(5), again: true, depth: 1 + g.i(1, 4), budget: 24, doc: true, collect: true, mixed: !imp, fns: true, dyn: g.p(4), imp: imp, iter: g.p(2), noRawBytes: false}
	g.left = g.o.budget
	return &TreeSpec{Tree: g.tree(), Ctx: g.ctx()}
}

// attrsFirst moves the attributes of every element to the front of its contents
func attrsFirst(n N) N {
	kids := make([]N, 0, len(n.Kids))
	switch n.K {
	case "elem", "el", "velem", "vel":
		for _, k := range n.Kids {
			if _, ok := isAttr(k); ok {
				kids = append(kids, k)
			}
		}
		for _, k := range n.Kids {
			if _, ok := isAttr(k); !ok {
				kids = append(kids, attrsFirst(k))
			}
		}
	default:
		for _, k := range n.Kids {
			kids = append(kids, attrsFirst(k))
		}
	}
	n.Kids = kids
	return n
}

func hasNestedAttrs(n *N) bool {
	// an attribute in a collection or conditional directly in an element: moving others past it changes their order
	found := false
	walkN(n, func(n *N) {
		if n.K == "coll" || n.K == "cond" || n.K == "when" {
			for _, k := range n.Kids {
				if _, ok := isAttr(k); ok {
					found = true
				}
			}
		}
	})
	return found
}

func checkA02(spec *TreeSpec, r *Rec) error {
	_, got, err := renderCompare(spec, r, nil)
	if err != nil {
		return err
	}
	c := measure(&spec.Tree)
	for k := range c.kinds {
		r.Class("kind:" + k)
	}
	if c.depth >= 4 {
		r.Class("deep")
	}
	r.NonTrivial(c.nodes >= 4 && c.depth >= 2 && len(c.kinds) >= 3)
	if !hasNestedAttrs(&spec.Tree) && c.kinds["attr"]+c.kinds["battr"]+c.kinds["dattr"] > 0 && c.kinds["doc"] == 0 {
		r.Class("attributes moved")
		e := &Env{}
		got2, _, err := e.render(e.node(attrsFirst(expand(spec.Tree))), spec.Ctx)
		if err != nil {
			return err
		}
		if got != got2 {
			return fmt.Errorf("the position of attributes among contents changes the output\n  as declared:      %q\n  attributes first: %q", got, got2)
		}
		r.Evals(1)
	}
	return nil
}

// ---- A03

func drawA03(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	cond := g.p(10)
	g.o = opt{cust: g.p(5), again: true, depth: 1 + g.i(1, 3), budget: 22, cond: cond, condHeavy: cond, mixed: !cond, attrHeavy: true, dyn: g.p(5), fns: g.p(5), safeText: g.p(10), noRawBytes: true, lowerAttrNames: true, iter: g.p(2)}
	g.left = g.o.budget
	g.left--
	if cond && g.bool() {
		return &TreeSpec{Tree: g.condNest(), Ctx: g.condCtx()}
	}
	n := g.elem(g.o.depth)
	if g.p(1) {
		n.Kids = append(n.Kids, g.manyAttrs()...)
	}
	return &TreeSpec{Tree: n, Ctx: g.ctx()}
}

func checkA03(spec *TreeSpec, r *Rec) error {
	m, got, err := renderCompare(spec, r, nil)
	if err != nil {
		return err
	}
	r.NonTrivial(m.f["merged"]+m.f["lastwins"] > 0)
	if m.f["condattr"] > 0 && m.f["merged"]+m.f["lastwins"] > 0 {
		r.Class("conditional override or merge")
	}
	return uniqueAttrs(got)
}

// uniqueAttrs verifies that no start tag has an attribute twice
func uniqueAttrs(out string) error {
	z := html.NewTokenizer(strings.NewReader(out))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return nil
		case html.StartTagToken, html.SelfClosingTagToken:
			z.NextIsNotRawText()
			seen := map[string]bool{}
			raw := string(z.Raw())
			for {
				k, _, more := z.TagAttr()
				if len(k) > 0 {
					if seen[string(k)] {
						return fmt.Errorf("attribute %q more than once in %q", k, raw)
					}
					seen[string(k)] = true
				}
				if !more {
					break
				}
			}
		}
	}
}

// ---- A04

func drawA04(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{rawNames: g.p(2), cust: g.p(5), again: true, depth: 2 + g.i(1, 5), budget: 26, cond: true, condHeavy: true, attrHeavy: g.bool(), dyn: g.p(4), iter: g.p(6), safeText: true, noRawBytes: true, collect: g.p(3), imp: g.p(2)}
	g.left = g.o.budget
	if g.p(10) {
		n := g.condNest()
		if g.o.iter && g.bool() {
			n = N{K: "iter", ID: g.nextID(), Items: g.sliceV(1).Vs, Kids: []N{n}}
		}
		return &TreeSpec{Tree: n, Ctx: g.condCtx()}
	}
	return &TreeSpec{Tree: g.tree(), Ctx: g.condCtx()}
}

// condCtx draws a context in which many keys are booleans
func (g *gen) condCtx() Ctx {
	c := Ctx{Data: map[string]V{}}
	for _, k := range dataKeys {
		switch g.uni(5) {
		case 0, 1:
			c.Data[k] = V{K: "bool", B: true}
		case 2:
			c.Data[k] = V{K: "bool", B: false}
		case 3:
			c.Data[k] = g.dataV()
		}
	}
	if g.p(3) {
		c = Ctx{NoData: true}
	}
	if g.bool() {
		v := V{K: "str", S: Str(pick(g, []string{"a", "b", "foo", ""}))}
		c.Cargo = &v
	}
	return c
}

// mayEvaluate collects where conditions may be evaluated: wherever every enclosing condition holds
func (m *M) mayEvaluate(n N, c *mctx, allowed map[string]bool) {
	n = m.deref(n)
	if n.K == "cond" || n.K == "when" {
		if n.K == "cond" && n.C.K != "nil" {
			allowed[fmt.Sprintf("%d@%s", n.C.ID, c.sig())] = true
		}
		if !m.holds(n, c) {
			return
		}
	}
	in := func(c *mctx) {
		for _, k := range n.Kids {
			m.mayEvaluate(k, c, allowed)
		}
		for _, k := range n.Head {
			m.mayEvaluate(k, c, allowed)
		}
		for _, op := range n.Ops {
			for _, k := range op.N {
				m.mayEvaluate(k, c, allowed)
			}
		}
	}
	items := n.Items
	switch n.K {
	case "iterkey":
		items = nil
		if x, ok := c.data[string(n.Key)]; ok {
			items = sliceItems(x)
		}
	case "iter", "yield":
	default:
		in(c)
		return
	}
	for i := range items {
		ic := &mctx{data: c.data, cargo: &items[i], parent: c}
		if items[i].K == "map" {
			ic.data = items[i].M
		}
		in(ic)
	}
}

func checkA04(spec *TreeSpec, r *Rec) error {
	e := &Env{condOn: true}
	m, _, err := renderCompare(spec, r, e)
	if err != nil {
		return err
	}
	allowed := map[string]bool{}
	m.mayEvaluate(expand(spec.Tree), spec.Ctx.model(), allowed)
	for _, c := range e.conds {
		if !allowed[c] {
			return fmt.Errorf("condition %s evaluated although an enclosing condition is false", c)
		}
	}
	nested := 0
	var rec func(n *N, d int)
	rec = func(n *N, d int) {
		if n.K == "cond" || n.K == "when" {
			d++
		}
		if d > nested {
			nested = d
		}
		for i := range n.Kids {
			rec(&n.Kids[i], d)
		}
	}
	rec(&spec.Tree, 0)
	if nested >= 2 {
		r.Class("nested conditionals")
	}
	if nested >= 4 {
		r.Class("conditionals nested 4 deep")
	}
	r.NonTrivial(m.f["condtrue"]+m.f["condattr"] > 0 && m.f["condfalse"]+m.f["inactiveattr"] > 0)
	return nil
}

// ---- A05

// Step is one render in a history
type Step struct {
	Ctx   Ctx   `json:"ctx"`
	Write int   `json:"write,omitempty"` // the write (counting from 1) that fails
	Fail  []int `json:"fail,omitempty"`  // callbacks that report an error
	Panic int   `json:"panic,omitempty"` // the callback that panics
	Errs  int   `json:"errs,omitempty"`  // kind of error
}

type HistorySpec struct {
	Tree  N      `json:"tree"`
	Steps []Step `json:"steps"`
	Again int    `json:"again,omitempty"` // how many more times each step is done
	// attributes of a name may be of several kinds: what renders then isn't specified - other than that
	// it is what a fresh template renders
	Mixed bool `json:"mixed,omitempty"`
}

func callbackIDs(n *N) (ids []int) {
	walkN(n, func(n *N) {
		switch n.K {
		case "iter", "yield", "collect", "cust", "custattr":
			ids = append(ids, n.ID)
		}
		if n.C != nil && n.C.ID > 0 {
			ids = append(ids, n.C.ID)
		}
		for _, op := range n.Ops {
			if op.K == "err" {
				ids = append(ids, op.ID)
			}
		}
	})
	walkV(n, func(v *V) {
		if v.K == "efn" {
			ids = append(ids, v.ID)
		}
	})
	return ids
}

func traceIDs(n *N) (ids []int) {
	walkN(n, func(n *N) {
		if n.ID > 0 && n.K != "iterkey" {
			ids = append(ids, n.ID)
		}
	})
	walkV(n, func(v *V) {
		if v.ID > 0 {
			ids = append(ids, v.ID)
		}
	})
	return ids
}

func drawA05(t *rapid.T) *HistorySpec {
	g := newGen(t, opt{})
	g.o = opt{rawNames: g.p(3), self: g.p(3), cust: g.p(5), again: true, depth: 1 + g.i(1, 4), budget: 20, cond: g.p(12), condHeavy: g.p(4), iter: g.p(10), imp: g.p(5), collect: g.p(5), dyn: g.p(13), efn: g.bool(), count: g.bool(), attrHeavy: g.p(6), fns: g.p(4), doc: g.p(3), safeText: g.p(8)}
	g.left = g.o.budget
	g.o.mixed = g.p(3)
	spec := &HistorySpec{Tree: g.tree(), Mixed: g.o.mixed}
	if g.o.condHeavy && g.bool() {
		spec.Tree = g.condNest()
	}
	n := g.i(2, 6)
	ids, tids := callbackIDs(&spec.Tree), traceIDs(&spec.Tree)
	var ctxs []Ctx
	for k := 0; k < n; k++ {
		s := Step{}
		if len(ctxs) > 0 && g.p(5) {
			s.Ctx = pick(g, ctxs)
		} else if g.bool() {
			s.Ctx = g.condCtx()
		} else {
			s.Ctx = g.ctx()
		}
		ctxs = append(ctxs, s.Ctx)
		if g.p(4) {
			s.Errs = g.uni(errKinds)
		}
		switch g.uni(6) {
		case 0:
			s.Write = g.i(1, 30)
		case 1:
			if len(ids) > 0 {
				s.Fail = []int{pick(g, ids)}
			}
		case 2:
			if len(tids) > 0 {
				s.Panic = pick(g, tids)
			}
		}
		spec.Steps = append(spec.Steps, s)
	}
	if g.uni(60) == 0 {
		spec.Again = pick(g, []int{10, 70, 300, 1100})
	}
	return spec
}

type writeCall struct {
	data   string
	failed bool
}

// faultWriter fails at the given writes (counting from 1) - at all from the first one on if sticky
type faultWriter struct {
	at      map[int]error
	sticky  error
	partial int  // how much of what fails is written: nothing, half or all
	rich    bool // used as richWriter
	n       int
	calls   []writeCall
	buf     bytes.Buffer
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.n++
	err := w.at[w.n]
	if w.sticky != nil {
		err = w.sticky
	}
	if err != nil {
		if w.sticky == nil && w.at[0] != nil {
			w.sticky = err
		}
		w.calls = append(w.calls, writeCall{string(p), true})
		k := 0
		if w.partial > 0 {
			k = len(p) * w.partial / 2
			w.buf.Write(p[:k])
		}
		return k, err
	}
	w.calls = append(w.calls, writeCall{string(p), false})
	w.buf.Write(p)
	return len(p), nil
}

// outcome of one render
type outcome struct {
	out      string
	err      string
	panicked string
}

func (e *Env) step(node aitch.Node, s Step) (o outcome, changed error) {
	e.counter, e.trace, e.selfs = 0, nil, nil
	e.fail = map[int]error{}
	for _, id := range s.Fail {
		e.fail[id] = plannedErr(s.Errs, id, fmt.Sprintf("callback %d failed", id))
	}
	e.panicAt = map[int]bool{}
	if s.Panic > 0 {
		e.panicAt[s.Panic] = true
	}
	w := &faultWriter{at: map[int]error{}}
	if s.Write > 0 {
		w.at[s.Write] = plannedErr(s.Errs, 0, "write failed")
	}
	data, cargo := s.Ctx.data(), s.Ctx.cargo()
	before := sketchMap(data) + sketch(cargo)
	isNil := data == nil
	ctx := s.Ctx.context(w, data, cargo)
	parent := ctx.Parent
	func() {
		defer func() {
			if x := recover(); x != nil {
				if id, ok := x.(plannedPanic); ok {
					o.panicked = fmt.Sprint(int(id))
					return
				}
				panic(x)
			}
		}()
		if err := node.Render(ctx); err != nil {
			o.err = err.Error()
		}
	}()
	o.out = w.buf.String()
	if after := sketchMap(data) + sketch(cargo); after != before {
		return o, fmt.Errorf("rendering changed the Data or Cargo\n  before: %s\n  after:  %s", before, after)
	}
	if (ctx.Data == nil) != isNil || !isNil && reflect.ValueOf(ctx.Data).Pointer() != reflect.ValueOf(data).Pointer() || sketch(ctx.Cargo) != sketch(cargo) || ctx.Parent != parent || ctx.Writer != w {
		return o, fmt.Errorf("rendering replaced the Data, Cargo, Parent or Writer of the context")
	}
	return o, nil
}

func checkA05(spec *HistorySpec, r *Rec) error {
	reused := &Env{}
	node := reused.node(spec.Tree)
	reused.root = node
	first := map[int]outcome{}
	faults := 0
	for round := 0; round < 2; round++ {
		for i, s := range spec.Steps {
			got, err := reused.step(node, s)
			if err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			fresh := &Env{}
			fresh.root = fresh.node(spec.Tree)
			want, err := fresh.step(fresh.root, s)
			if err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if got != want {
				return fmt.Errorf("step %d (round %d): the reused template renders differently from a fresh one\n  reused: %+q\n  fresh:  %+q", i, round, got, want)
			}
			for k := 0; k < spec.Again && round == 0 && len(got.out) < 500; k++ {
				again, err := reused.step(node, s)
				if err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				if again != want {
					return fmt.Errorf("step %d, done %d times more, renders differently from a fresh template\n  reused: %+q\n  fresh:  %+q", i, k+1, again, want)
				}
				r.Evals(1)
			}
			if round == 0 {
				first[i] = got
				if spec.Again > 0 {
					r.Class("long history")
				}
				if spec.Mixed {
					r.Class("attributes of several kinds share a name")
				} else if s.Write == 0 && len(s.Fail) == 0 && s.Panic == 0 {
					m := newM(nil)
					m.node(expand(spec.Tree), s.Ctx.model(), true)
					if err := m.compare(got.out); err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
					for _, got := range reused.selfs {
						c, cargo := s.Ctx, V{K: "str", S: inner}
						c.Cargo = &cargo
						m2 := newM(nil)
						m2.node(expand(spec.Tree), c.model(), true)
						if err := m2.compare(got); err != nil {
							return fmt.Errorf("step %d: rendered by one of its callbacks: %w", i, err)
						}
						r.Class("rendered within its own render")
					}
					r.Classes(m.f)
				} else {
					faults++
				}
			} else if got != first[i] {
				return fmt.Errorf("step %d renders differently when repeated\n  first: %+q\n  now:   %+q", i, first[i], got)
			}
			r.Evals(2)
		}
	}
	outs := map[string]bool{}
	for _, o := range first {
		outs[o.out] = true
	}
	r.Sample(clip(first[0].out))
	if faults > 0 {
		r.Class("history with failed renders")
	}
	r.NonTrivial(len(spec.Steps) >= 2 && len(outs) >= 2)
	return nil
}

// ---- A06

// ShareSpec is a set of templates that share nodes, values and argument slices
type ShareSpec struct {
	Slices  [][]V `json:"slices,omitempty"`
	KSlices [][]N `json:"kslices,omitempty"`
	VPool   []V   `json:"vpool,omitempty"`
	Pool    []N   `json:"pool,omitempty"`
	Trees   []N   `json:"trees"`
	Ctxs    []Ctx `json:"ctxs"`
}

// share makes some values and nodes use the shared slices and values
func (g *gen) share(n *N, slices, kslices, vpool int, slens, klens []int) {
	walkN(n, func(n *N) {
		switch n.K {
		case "attr", "dattr", "text", "comment", "frag":
			if slices > 0 && g.p(4) {
				n.SR = 1 + g.uni(slices)
				n.SN = g.i(0, slens[n.SR-1])
				if n.Fn == "" || helperIndex[n.Fn].Kind != "style" {
					n.Vals = nil
				} else {
					n.Vals[0].Vs = n.Vals[0].Vs[:1]
				}
			} else if style := n.Fn != "" && helperIndex[n.Fn].Kind == "style"; !style && g.p(4) {
				var first V
				switch {
				case vpool > 0 && g.bool():
					first = V{K: "vref", I: int64(g.uni(vpool))}
				case len(g.valuePool) > 0:
					first = V{K: "nref", I: int64(pick(g, g.valuePool))}
				default:
					return
				}
				n.Vals = append([]V{first}, n.Vals...)
				if n.K == "dattr" && len(n.Vals) == 1 {
					n.Vals = append(n.Vals, g.scalar())
				}
			} else if !style && g.o.nils {
				n.Vals = g.withNils(n.Vals)
			}
		case "elem", "el", "velem", "vel", "coll", "cond", "when", "iter", "iterkey", "yield", "collect":
			if kslices > 0 && g.p(2) {
				n.SR = 1 + g.uni(kslices)
				n.SN = g.i(0, klens[n.SR-1])
				n.Kids = nil
			}
		}
	})
	g.shareV(n, slices, vpool, slens)
}

func (g *gen) shareV(n *N, slices, vpool int, slens []int) {
	walkN(n, func(n *N) {
		for i := range n.Vals {
			if i == 0 && n.Fn != "" && helperIndex[n.Fn].Kind == "style" {
				continue
			}
			if n.K == "val" && (n.Vals[i].K == "str" || n.Vals[i].K == "bytes") {
				continue // a node would be rendered as itself there
			}
			g.shareVV(&n.Vals[i], slices, vpool, slens)
		}
	})
}

// shareVV shares values nested in values (but not those nested in plain ones)
func (g *gen) shareVV(v *V, slices, vpool int, slens []int) {
	g.shareOne(v, slices, vpool, slens)
	switch v.K {
	case "value", "concat", "text", "comm", "attrv", "ctext", "unit", "var":
		for i := range v.Vs {
			g.shareVV(&v.Vs[i], slices, vpool, slens)
		}
	}
}

func (g *gen) shareOne(v *V, slices, vpool int, slens []int) {
	switch v.K {
	case "concat", "text", "unit":
		if slices > 0 && g.p(6) {
			v.SR = 1 + g.uni(slices)
			v.SN = g.i(0, slens[v.SR-1])
			v.Vs = nil
		}
	case "str", "bytes":
		if vpool > 0 && g.p(4) {
			*v = V{K: "vref", I: int64(g.uni(vpool))}
		} else if len(g.valuePool) > 0 && g.p(2) {
			*v = V{K: "nref", I: int64(pick(g, g.valuePool))}
		}
	}
}

// withNils adds nils, that leave spare capacity wherever the values are held
func (g *gen) withNils(vs []V) []V {
	if g.p(8) {
		for k := g.i(1, 3); k > 0; k-- {
			i := g.uni(len(vs) + 1)
			vs = append(vs[:i:i], append([]V{{K: "nil"}}, vs[i:]...)...)
		}
	}
	return vs
}

// styleAttr draws a css helper
func (g *gen) styleAttr(fns []string) N {
	h := helperIndex[pick(g, fns)]
	vals := append([]V{{K: "bytes", S: Str(h.Name) + ":"}}, g.values(2, 3)...)
	return N{K: "dattr", Fn: h.Pkg + "." + h.Func, Name: "style", Delim: "; ", Vals: []V{{K: "concat", Vs: vals}}}
}

func (g *gen) suffixAttr() N {
	return N{K: pick(g, []string{"data", "aria", "hxon"}), Name: Str(pick(g, []string{"a", "b", "foo", "x-y", "longer-name-than-the-others", "c"})), Vals: g.valueItems(1, 2)}
}

func drawA06(t *rapid.T) *ShareSpec {
	g := newGen(t, opt{})
	cond := g.p(9)
	base := opt{cond: cond, mixed: !cond && g.bool(), iter: g.p(6), dyn: g.p(6), collect: g.p(3), attrHeavy: true, fns: true, simpleNames: true, safeText: g.p(12), noRawBytes: g.bool(), nils: g.p(7)}
	g.o = base
	g.kinds["style"] = "dattr; "
	spec := &ShareSpec{}
	var slens, klens []int
	nv, ns := g.i(0, 3), g.i(0, 2)
	for k := 0; k < nv; k++ {
		spec.VPool = append(spec.VPool, V{K: pick(g, []string{"value", "concat", "concat", "bytes", "text", "text", "comm", "attrv", "ctext"}), S: "vb", Vs: g.values(1, 4)})
		if v := &spec.VPool[k]; v.K == "value" {
			v.Vs = []V{g.value(1)}
		} else if v.K == "bytes" {
			v.Vs = nil
		} else {
			v.Vs = g.withNils(v.Vs)
		}
	}
	for k := 0; k < ns; k++ {
		n := g.i(1, 4)
		var vs []V
		for j := 0; j < n; j++ {
			vs = append(vs, g.value(1))
			if nv > 0 && g.p(3) {
				vs[j] = V{K: "vref", I: int64(g.uni(nv))}
			}
		}
		spec.Slices = append(spec.Slices, vs)
		slens = append(slens, n)
	}
	extra := func(n *N) {
		walkN(n, func(n *N) {
			switch n.K {
			case "elem", "el", "velem", "vel":
				if g.p(3) {
					n.Kids = append(n.Kids, g.suffixAttr())
				}
				if g.p(3) {
					n.Kids = append(n.Kids, g.styleAttr([]string{"css.Color", "css.Width", "css.Margin"}))
				}
			}
		})
	}
	np := g.i(1, 4)
	for k := 0; k < np; k++ {
		g.o.pool, g.o.depth, g.left = k, 2, 6
		var n N
		if g.bool() {
			n = g.attr()
			if g.p(3) {
				n = g.suffixAttr()
			} else if g.p(3) {
				n = g.styleAttr([]string{"css.Color", "css.Width"})
			}
		} else {
			n = g.node(2, true, false)
		}
		extra(&n)
		g.share(&n, ns, 0, nv, slens, nil)
		spec.Pool = append(spec.Pool, n)
		switch n.K {
		case "attr", "dattr", "data", "aria", "hxon", "text", "comment", "frag", "pi":
			g.valuePool = append(g.valuePool, k)
		}
	}
	nk := g.i(0, 2)
	for k := 0; k < nk; k++ {
		g.o.pool, g.left = np, 6
		var ks []N
		n := g.i(1, 4)
		for j := 0; j < n; j++ {
			x := g.node(1, true, false)
			g.share(&x, ns, 0, nv, slens, nil)
			ks = append(ks, x)
		}
		spec.KSlices = append(spec.KSlices, ks)
		klens = append(klens, n)
	}
	nt := g.i(2, 4)
	for k := 0; k < nt; k++ {
		g.o.pool, g.o.depth, g.left = np, 1+g.i(1, 2), 14
		g.left--
		n := g.elem(g.o.depth)
		if g.p(2) {
			n = N{K: "doc", Head: g.kids(1, 3, true, true), Kids: g.kids(1, 3, true, true)}
		}
		extra(&n)
		g.share(&n, ns, nk, nv, slens, klens)
		spec.Trees = append(spec.Trees, n)
	}
	nc := g.i(1, 2)
	for k := 0; k < nc; k++ {
		spec.Ctxs = append(spec.Ctxs, g.condCtx())
	}
	return spec
}

func checkA06(spec *ShareSpec, r *Rec) error {
	e := &Env{guard: true}
	// build the shared slices (with some spare capacity), values and nodes
	for _, v := range spec.VPool {
		e.vpool = append(e.vpool, e.val(v))
	}
	for _, s := range spec.Slices {
		e.slices = append(e.slices, e.vals(s))
	}
	sharedA, sharedN, sharedP := e.anys, e.nodes, e.ptrs
	e.anys, e.nodes, e.ptrs = nil, nil, nil
	hold := func(what string) error {
		if err := e.checkGuards(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		private := *e
		e.anys, e.nodes = sharedA, sharedN
		if err := e.checkGuards(); err != nil {
			return fmt.Errorf("%s: shared %w", what, err)
		}
		e.anys, e.nodes = private.anys, private.nodes
		e.scrambleArgs()
		e.changePtrs()
		return nil
	}
	for i, n := range spec.Pool {
		e.pool = append(e.pool, e.node(n))
		if err := hold(fmt.Sprintf("building shared node %d", i)); err != nil {
			return err
		}
	}
	for _, s := range spec.KSlices {
		e.kslices = append(e.kslices, e.kidsAny(s))
		e.nslices = append(e.nslices, e.kidsNodes(s))
	}
	sharedA, sharedN, sharedP = append(sharedA, e.anys...), append(sharedN, e.nodes...), append(sharedP, e.ptrs...)
	e.anys, e.nodes, e.ptrs = nil, nil, nil
	refs := 0
	want := func(n N, c Ctx) *M {
		m := newM(spec.Pool)
		m.vpool, m.slices, m.kslices = spec.VPool, spec.Slices, spec.KSlices
		m.node(n, c.model(), true)
		return m
	}
	var trees []aitch.Node
	all := func(when string) error {
		for ci, c := range spec.Ctxs {
			for i, n := range e.pool {
				if n == nil {
					continue
				}
				got, _, err := e.render(n, c)
				if err == nil {
					err = want(spec.Pool[i], c).compare(got)
				}
				if err != nil {
					return fmt.Errorf("%s: shared node %d, context %d: %w", when, i, ci, err)
				}
				r.Evals(1)
			}
			for i, n := range trees {
				got, _, err := e.render(n, c)
				if err == nil {
					err = want(spec.Trees[i], c).compare(got)
				}
				if err != nil {
					return fmt.Errorf("%s: template %d, context %d: %w", when, i, ci, err)
				}
				r.Sample(clip(got))
				r.Evals(1)
			}
		}
		return nil
	}
	if err := all("before building any template"); err != nil {
		return err
	}
	for i, n := range spec.Trees {
		trees = append(trees, e.node(n))
		what := fmt.Sprintf("after building template %d", i)
		if err := hold(what); err != nil {
			return err
		}
		if err := all(what); err != nil {
			return err
		}
	}
	e.anys, e.nodes, e.ptrs = sharedA, sharedN, sharedP
	e.scrambleArgs()
	e.changePtrs()
	for i := range spec.Trees {
		walkN(&spec.Trees[i], func(n *N) {
			if n.K == "ref" || n.SR > 0 {
				refs++
			}
		})
		walkV(&spec.Trees[i], func(v *V) {
			if v.K == "vref" || v.K == "nref" || v.SR > 0 {
				refs++
			}
		})
	}
	r.NonTrivial(refs >= 2)
	if refs >= 4 {
		r.Class("much sharing")
	}
	return all("after changing the shared argument slices")
}

// ---- A09

func drawA09(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{rawNames: g.p(2), cust: g.p(5), again: true, depth: 2 + g.i(1, 4), budget: 18, iter: true, deepIter: true, dyn: true, count: g.p(3), cond: g.p(6), collect: g.p(3), imp: g.p(4), safeText: g.bool(), noRawBytes: g.bool()}
	g.o.set = g.p(3)
	g.left = g.o.budget
	spec := &TreeSpec{Ctx: g.ctx()}
	// content that shows the context before and after each iterator
	show := func() N {
		return N{K: "text", Vals: []V{{K: "bytes", S: "["}, {K: "cargo", ID: g.nextID()}, {K: "key", S: g.key()}, {K: "up", S: g.key(), I: int64(g.i(0, 2)), ID: g.nextID()}, {K: "bytes", S: "]"}}}
	}
	n := g.i(1, 3)
	kids := []N{show()}
	for k := 0; k < n; k++ {
		it := g.iterator(g.o.depth)
		it.Kids = append(it.Kids, show())
		if it.K == "iterkey" && g.p(12) && !spec.Ctx.NoData {
			spec.Ctx.Data[string(it.Key)] = g.sliceV(1)
		}
		kids = append(kids, it, show())
	}
	spec.Tree = N{K: "elem", Name: "div", Kids: kids}
	if g.p(4) {
		spec.Tree = N{K: "coll", Kids: kids}
	}
	return spec
}

func checkA09(spec *TreeSpec, r *Rec) error {
	e := &Env{traceOn: true}
	m, _, err := renderCompare(spec, r, e)
	if err != nil {
		return err
	}
	if err := compareTrace(e.trace, m.trace); err != nil {
		return err
	}
	if m.f["mapitem"] > 0 && m.f["item"] > m.f["mapitem"] {
		r.Class("heterogeneous items")
	}
	r.NonTrivial(m.f["item"] >= 2)
	return nil
}

func compareTrace(got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("callback not called: %s (after %d others)", want[i], i)
		case i >= len(want):
			return fmt.Errorf("unexpected callback: %s (after %d others)", got[i], i)
		case got[i] != want[i]:
			return fmt.Errorf("callback %d is %s, should be %s", i, got[i], want[i])
		}
	}
	return nil
}

// ---- A14

func drawA14(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{rawNames: g.p(4), cust: g.p(5), again: true, depth: 3, budget: 22, imp: true, dyn: g.p(6), cond: g.p(4), iter: g.p(3), nils: g.p(6), safeText: g.p(5), fns: g.p(4)}
	g.left = g.o.budget
	spec := &TreeSpec{Ctx: g.ctx()}
	n := N{K: "imp", ID: g.nextID()}
	k := g.n(1, 12)
	nested := g.p(2) // elements nested deeply
	for j := 0; j < k; j++ {
		if nested && g.bool() {
			n.Ops = append(n.Ops, Op{K: "start", S: g.elemName()})
			continue
		}
		n.Ops = append(n.Ops, g.op(3))
	}
	spec.Tree = n
	if g.p(5) {
		spec.Tree = N{K: "elem", Name: "div", Kids: []N{n, {K: "imp", Ops: []Op{{K: "end"}, {K: "endall"}}}}}
	}
	return spec
}

func checkA14(spec *TreeSpec, r *Rec) error {
	m, got, err := renderCompare(spec, r, nil)
	if err != nil {
		return err
	}
	starts, ends := 0, 0
	walkN(&spec.Tree, func(n *N) {
		for _, op := range n.Ops {
			switch op.K {
			case "start":
				starts++
			case "end", "endall":
				ends++
			}
		}
	})
	r.NonTrivial(starts >= 1 && ends >= 1)
	if m.f["endempty"] > 0 {
		r.Class("end without start")
	}
	// the equivalent declarative template (where there is one)
	root := spec.Tree
	if root.K == "imp" {
		if tree, ok := declarative(root.Ops); ok {
			r.Class("declarative equivalent")
			e := &Env{}
			got2, _, err := e.render(e.node(tree), spec.Ctx)
			if err != nil {
				return err
			}
			if got != got2 && m.matches(got2) == false {
				return fmt.Errorf("imperative and declarative output differ\n  imperative:  %q\n  declarative: %q", got, got2)
			}
			r.Evals(1)
		}
	}
	return nil
}

// declarative converts a balanced sequence of imperative calls
func declarative(ops []Op) (N, bool) {
	stack := []N{{K: "coll"}}
	for _, op := range ops {
		top := &stack[len(stack)-1]
		switch op.K {
		case "start":
			var attrs []N
			for _, a := range op.N {
				if _, ok := isAttr(a); ok {
					attrs = append(attrs, a)
				}
			}
			if op.Void {
				top.Kids = append(top.Kids, N{K: "velem", Name: op.S, Kids: attrs})
			} else {
				stack = append(stack, N{K: "elem", Name: op.S, Kids: attrs})
			}
		case "end", "endall":
			for len(stack) > 1 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				p := &stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
				if op.K == "end" {
					break
				}
			}
		case "str":
			top.Kids = append(top.Kids, N{K: "text", Vals: []V{{K: "str", S: op.S}}})
		case "raw":
			top.Kids = append(top.Kids, N{K: "frag", Vals: []V{{K: "bytes", S: op.S}}})
		case "nodes":
			for _, n := range op.N {
				if _, ok := isAttr(n); ok {
					return N{}, false
				}
				if measureConds(&n) {
					return N{}, false // attributes of conditionals and collections would become the element's
				}
				top.Kids = append(top.Kids, n)
			}
		default:
			return N{}, false
		}
	}
	return stack[0], len(stack) == 1
}

func measureConds(n *N) bool { return n.K == "cond" || n.K == "when" || n.K == "coll" || n.K == "ref" }

// ---- A21

func drawA21(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{rawNames: g.p(3), cust: g.p(5), again: true, depth: 1 + g.i(1, 4), budget: 26, cond: g.p(9), iter: g.p(9), imp: g.p(7), collect: g.p(7), doc: true, dyn: g.p(6), nils: true, fns: g.p(5), safeText: g.p(10)}
	g.left = g.o.budget
	return &TreeSpec{Tree: g.tree(), Ctx: g.ctx()}
}

// withoutNils removes every nil node and nil value (from where leaving it out is possible)
func withoutNils(n N) N {
	strip := func(ns []N) []N {
		r := make([]N, 0, len(ns))
		for _, k := range ns {
			if k.K != "nil" && k.K != "collectnil" && k.K != "impnil" {
				r = append(r, withoutNils(k))
			}
		}
		return r
	}
	if head := strip(n.Head); len(head) > 0 { // a head without any contents at all is left out
		n.Head = head
	}
	n.Kids = strip(n.Kids)
	n.Vals = withoutNilValues(n.Vals)
	if len(n.Ops) > 0 {
		ops := append([]Op(nil), n.Ops...)
		for i := range ops {
			ops[i].N = strip(ops[i].N)
		}
		n.Ops = ops
	}
	return n
}

func withoutNilValues(vs []V) []V {
	r := make([]V, 0, len(vs))
	for _, v := range vs {
		if v.K == "nil" {
			continue
		}
		switch v.K {
		case "concat", "text", "unit", "ctext", "comm", "attrv":
			v.Vs = withoutNilValues(v.Vs)
		}
		r = append(r, v)
	}
	return r
}

func checkA21(spec *TreeSpec, r *Rec) error {
	_, got, err := renderCompare(spec, r, nil)
	if err != nil {
		return err
	}
	nils := 0
	walkN(&spec.Tree, func(n *N) {
		if n.K == "nil" {
			nils++
		}
	})
	walkV(&spec.Tree, func(v *V) {
		if v.K == "nil" {
			nils++
		}
	})
	r.NonTrivial(nils > 0)
	tree := withoutNils(expand(spec.Tree))
	e := &Env{}
	got2, _, err := e.render(e.node(tree), spec.Ctx)
	if err != nil {
		return err
	}
	r.Evals(1)
	if got != got2 {
		return fmt.Errorf("leaving out nils changes the output\n  with nils: %q\n  without:   %q", got, got2)
	}
	nm := aitch.NodeMap{"node": e.node(tree), "none": nil}
	if tree.K != "doc" && e.node(tree).Type() != aitch.AttributeNode {
		tmpl, err := aitch.NewTemplate("t", "{{node .}}", nm)
		if err != nil {
			return fmt.Errorf("template with a nil node in its map: %w", err)
		}
		var buf bytes.Buffer
		if err = tmpl.Execute(&buf, spec.Ctx.data(), spec.Ctx.cargo()); err != nil {
			return fmt.Errorf("template with a nil node in its map: %w", err)
		}
		if buf.String() != got {
			return fmt.Errorf("template with a nil node in its map renders %q, not %q", buf.String(), got)
		}
	}
	return nil
}

// ---- A22

func drawA22(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{rawNames: g.p(3), cust: g.p(5), again: true, depth: 1 + g.i(1, 4), budget: 22, cond: g.p(9), iter: g.p(9), imp: g.p(6), collect: g.p(8), doc: g.p(4), dyn: true, count: true, attrHeavy: g.p(8), fns: g.p(4), safeText: true, noRawBytes: true, condHeavy: g.p(3)}
	g.o.set = g.p(4)
	g.left = g.o.budget
	return &TreeSpec{Tree: g.tree(), Ctx: g.condCtx()}
}

func checkA22(spec *TreeSpec, r *Rec) error {
	e := &Env{traceOn: true}
	m, _, err := renderCompare(spec, r, e)
	if err != nil {
		return err
	}
	r.NonTrivial(len(m.trace) >= 2)
	if m.counter >= 2 {
		r.Class("side effects")
	}
	return compareTrace(e.trace, m.trace)
}

func init() {
	register("A02", "random trees of every node kind (rapid), rendered and compared with the reference renderer, and with attributes moved to the front; non-trivial: at least 4 nodes of 3 kinds, 2 levels", 48000, 250000, drawA02, checkA02).fixed = large("attrs", "kids", "values", "deep", "deepattrs", "cond", "collect", "iter", "imp")
	register("A03", "random elements with many attribute declarations (direct, in collections, in conditionals) over a small pool of names, compared with the reference renderer; non-trivial: some name merged or overridden", 72000, 250000, drawA03, checkA03).fixed = large("attrs", "condattrs", "deepattrs", "deepcondattrs")
	register("A04", "random trees of nested and sibling conditionals with random outcomes, output compared with the reference renderer and evaluated conditions with the set of permitted ones; non-trivial: some conditional node active and some inactive", 72000, 250000, drawA04, checkA04).fixed = large("cond", "condattrs", "deepcond", "deepcondattrs")
	register("A05", "random templates with random histories of 2-6 renders (some failing or panicking), run twice, each compared with a fresh template and the reference renderer; non-trivial: at least two different outputs within the history", 15000, 80000, drawA05, checkA05).fixed = largeHistories
	register("A06", "random sets of templates sharing nodes, values and argument slices (with guarded spare capacity, overwritten after use), all re-rendered after each construction; non-trivial: at least two uses of something shared", 12000, 100000, drawA06, checkA06).fixed = largeShared
	register("A09", "random nests of iterators over random items with contents showing Cargo, Data and Parent, output and callback contexts compared with the reference renderer; non-trivial: at least two items rendered", 12000, 250000, drawA09, checkA09).fixed = large("iter", "deepiter")
	register("A14", "random sequences of imperative calls compared with a stack model and, if balanced, with the equivalent declarative template; non-trivial: at least one start and one end", 48000, 250000, drawA14, checkA14).fixed = large("imp", "deep")
	register("A21", "random trees with nils at random positions, compared with the reference renderer and with the same tree without the nils; non-trivial: at least one nil", 45000, 200000, drawA21, checkA21).fixed = largeNils
	register("A22", "random trees with callbacks (also with side effects), sequence of calls and their contexts compared with the reference renderer's; non-trivial: at least two calls", 54000, 200000, drawA22, checkA22).fixed = large("values", "collect", "iter", "deepiter", "cond", "deepcond")
}
