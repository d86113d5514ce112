package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// Env is what building a spec into real nodes (and rendering those) needs to share
type Env struct {
	pool     []aitch.Node // shared nodes (see N.K == "ref")
	vpool    []any        // shared values (see V.K == "vref")
	slices   [][]any      // shared argument slices (see V.SR and N.SR)
	kslices  [][]any      // shared content slices
	nslices  [][]aitch.Node
	traceOn  bool
	trace    []string // callbacks, as called
	condOn   bool
	conds    []string // conditions, as evaluated
	counter  int
	fail     map[int]error // callbacks (by ID) that fail
	onFail   func(error)   // called as a callback fails
	panicAt  map[int]bool  // callbacks (by ID) that panic
	calls    int
	guard    bool // record argument slices
	scramble bool // overwrite argument slices after use
	anys     []anySlice
	nodes    []nodeSlice
	hmaps    []htmx.HeadersMap
	ptrs     []*pstrer // pointers given as values
	// what the header maps held when they were made
	hmapsWere string
	root      aitch.Node          // what "self" callbacks render
	selfs     []string            // and what they got
	onNode    func(N, aitch.Node) // called with every node built
}

// inner is the Cargo when a template is rendered by one of its own callbacks
const inner = "rendered within"

type anySlice struct{ got, want []any }
type nodeSlice struct{ got, want []aitch.Node }

type spare struct{ i int }

var helperIndex = func() map[string]*helper {
	m := map[string]*helper{}
	for i := range helpers {
		m[helpers[i].Pkg+"."+helpers[i].Func] = &helpers[i]
	}
	return m
}()

// ctxSig identifies a context: depth, Cargo and Data
func ctxSig(ctx *context.Context) string {
	if ctx == nil {
		return "nil"
	}
	depth := 0
	for p := parentOf(ctx); p != nil; p = parentOf(p) {
		depth++
	}
	return fmt.Sprintf("%d|%s|%s", depth, sketch(ctx.Cargo), sketchMap(ctx.Data))
}

func (e *Env) log(kind string, id int, ctx *context.Context) {
	if w, ok := ctx.Writer.(interface{ point() }); ok {
		w.point() // where goroutines may be switched
	}
	if e.traceOn {
		e.trace = append(e.trace, fmt.Sprintf("%s#%d@%s", kind, id, ctxSig(ctx)))
	}
	if e.panicAt != nil && e.panicAt[id] {
		panic(plannedPanic(id))
	}
}

// failNow makes a callback fail (if it's one that should) by setting the context's error
func (e *Env) failNow(id int, ctx *context.Context) {
	if err := e.fail[id]; err != nil && ctx.Error == nil {
		e.failed(err)
		ctx.Error = err
	}
}

func (e *Env) failed(err error) {
	if e.onFail != nil {
		e.onFail(err)
	}
}

type plannedPanic int

func (e *Env) valsOf(vs []V, sr, sn int) []any {
	if sr > 0 {
		return e.slices[sr-1][:sn]
	}
	return e.vals(vs)
}

func (e *Env) kidsAnyOf(n N) []any {
	if n.SR > 0 {
		return e.kslices[n.SR-1][:n.SN]
	}
	return e.kidsAny(n.Kids)
}

func (e *Env) kidsNodesOf(n N) []aitch.Node {
	if n.SR > 0 {
		return e.nslices[n.SR-1][:n.SN]
	}
	return e.kidsNodes(n.Kids)
}

// vals builds values into arguments
func (e *Env) vals(vs []V) []any {
	r := make([]any, len(vs), len(vs)+2)
	for i, v := range vs {
		r[i] = e.val(v)
	}
	return e.guardAny(r)
}

func (e *Env) guardAny(r []any) []any {
	if e.guard {
		full := r[:cap(r)]
		for i := len(r); i < cap(r); i++ {
			full[i] = &spare{i}
		}
		e.anys = append(e.anys, anySlice{full, append([]any(nil), full...)})
	}
	return r
}

func (e *Env) guardNodes(r []aitch.Node) []aitch.Node {
	if e.guard {
		full := r[:cap(r)]
		for i := len(r); i < cap(r); i++ {
			full[i] = spareNode
		}
		e.nodes = append(e.nodes, nodeSlice{full, append([]aitch.Node(nil), full...)})
	}
	return r
}

var spareNode = aitch.Text("SPARE")
var scrambledNode = aitch.Text("SCRAMBLED")
var scrambledAttr = aitch.NewAttribute([]byte("scrambled"), "SCRAMBLED")

// checkGuards verifies that no argument slice was modified
func (e *Env) checkGuards() error {
	for _, s := range e.anys {
		for i := range s.got {
			if !sameArg(s.got[i], s.want[i]) {
				return fmt.Errorf("argument slice modified at index %d (of %d): now %s", i, len(s.got), sketch(s.got[i]))
			}
		}
	}
	for _, s := range e.nodes {
		for i := range s.got {
			if s.got[i] != s.want[i] {
				return fmt.Errorf("argument node slice modified at index %d (of %d)", i, len(s.got))
			}
		}
	}
	return nil
}

// scrambleArgs overwrites every argument slice used so far
func (e *Env) scrambleArgs() {
	for _, s := range e.anys {
		for i := range s.got {
			s.got[i] = "SCRAMBLED"
		}
	}
	for _, s := range e.nodes {
		for i := range s.got {
			s.got[i] = scrambledNode
		}
	}
	e.anys, e.nodes = nil, nil
}

// changePtrs changes what pointers given as values point to
func (e *Env) changePtrs() {
	for _, p := range e.ptrs {
		p.s = "CHANGED"
	}
	e.ptrs = nil
}

func sameArg(a, b any) (same bool) {
	defer func() {
		if recover() != nil { // not comparable (functions, maps, slices): same type has to do
			same = fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
		}
	}()
	return a == b || (a != a && b != b)
}

var cssUnits = map[string]func(...any) aitch.Value{
	"px": css.Px, "pt": css.Pt, "pc": css.Pc, "in": css.In, "cm": css.Cm, "mm": css.Mm, "em": css.Em, "rem": css.Rem,
	"%": css.Percent, "vw": css.Vw, "vh": css.Vh, "vmin": css.VMin, "vmax": css.VMax, "ch": css.Ch, "ex": css.Ex,
}

// same makes what a callback returns: the same slice every time, or a new one
func same(id int, s string) func() []byte {
	b := []byte(s)
	return func() []byte {
		if id%2 == 0 {
			return b
		}
		return []byte(s)
	}
}

// val builds a value
func (e *Env) val(v V) any {
	switch v.K {
	case "key":
		return aitch.DynamicValueKey(v.S)
	case "dfn":
		b := same(v.ID, string(v.S))
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			e.log("dfn", v.ID, ctx)
			return b()
		})
	case "rfn":
		b := same(v.ID, string(v.S))
		return func(ctx *context.Context) []byte {
			e.log("rfn", v.ID, ctx)
			return b()
		}
	case "dval":
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			e.log("dval", v.ID, ctx)
			s, _ := context.Get[string](ctx, string(v.S))
			return []byte(escape(s))
		})
	case "cargo":
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			e.log("cargo", v.ID, ctx)
			return []byte(escape(sketch(ctx.Cargo)))
		})
	case "up":
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			e.log("up", v.ID, ctx)
			for i := int64(0); i < v.I && ctx != nil; i++ {
				ctx = parentOf(ctx)
			}
			if ctx == nil {
				return []byte("none")
			}
			return []byte(escape(sketch(ctx.Cargo) + "/" + sketch(ctx.Data[string(v.S)])))
		})
	case "count":
		return func(ctx *context.Context) []byte {
			e.log("count", v.ID, ctx)
			e.counter++
			return []byte(fmt.Sprint(e.counter))
		}
	case "set":
		return func(ctx *context.Context) []byte {
			e.log("set", v.ID, ctx)
			e.counter++
			if v.B {
				ctx.Cargo = e.counter
				return []byte("C")
			}
			for parentOf(ctx) != nil {
				ctx = ctx.Parent
			}
			if ctx.Data != nil {
				ctx.Data["set"] = e.counter
			}
			return []byte("S")
		}
	case "self":
		return func(ctx *context.Context) []byte {
			e.log("self", v.ID, ctx)
			for parentOf(ctx) != nil {
				ctx = ctx.Parent
			}
			if ctx.Cargo != any(inner) && e.root != nil {
				var buf bytes.Buffer
				count := e.counter
				e.counter = 0
				if err := e.root.Render(context.New(&buf, ctx.Data, inner)); err == nil {
					e.selfs = append(e.selfs, buf.String())
				}
				e.counter = count
			}
			return []byte("self")
		}
	case "efn":
		b := same(v.ID, string(v.S))
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			e.log("efn", v.ID, ctx)
			e.failNow(v.ID, ctx)
			return b()
		})
	case "vref":
		return e.vpool[v.I]
	case "nref":
		return e.pool[v.I]
	case "hmap":
		if v.B {
			return htmx.HeadersMap(nil)
		}
		r := htmx.HeadersMap{}
		for k, x := range v.M {
			r[k] = e.val(x)
		}
		e.hmaps = append(e.hmaps, r)
		e.hmapsWere += sketchHeaders([]htmx.HeadersMap{r})
		return r
	case "value":
		return aitch.NewValue(e.val(v.Vs[0]))
	case "concat":
		return aitch.NewConcatValue(e.valsOf(v.Vs, v.SR, v.SN)...)
	case "text":
		return aitch.Text(e.valsOf(v.Vs, v.SR, v.SN)...)
	case "comm":
		return aitch.Comment(e.valsOf(v.Vs, v.SR, v.SN)...)
	case "attrv":
		return aitch.Attribute("ignored", e.valsOf(v.Vs, v.SR, v.SN)...)
	case "ctext":
		nodes := make([]aitch.Node, 0, len(v.Vs)+1)
		for _, x := range v.Vs {
			val := e.val(x)
			if n, ok := val.(aitch.Node); ok && n != nil {
				nodes = append(nodes, n) // (collections in collections, too)
			} else {
				nodes = append(nodes, aitch.Text(val))
			}
		}
		return aitch.Collection(e.guardNodes(nodes)...)
	case "elemv":
		return aitch.Element("ignored", "ignored")
	case "unit":
		return cssUnits[string(v.S)](e.valsOf(v.Vs, v.SR, v.SN)...)
	case "var":
		return htmx.Var(string(v.S), e.val(v.Vs[0]))
	}
	x := v.plain()
	if p, ok := x.(*pstrer); ok && e.guard {
		e.ptrs = append(e.ptrs, p)
	}
	return x
}

func (e *Env) kidsNodes(kids []N) []aitch.Node {
	r := make([]aitch.Node, 0, len(kids)+2)
	for i, k := range kids {
		if k.K == "again" && i > 0 {
			r = append(r, r[i-1])
			continue
		}
		r = append(r, e.node(k))
	}
	return e.guardNodes(r)
}

func (e *Env) kidsAny(kids []N) []any {
	r := make([]any, 0, len(kids)+2)
	for i, k := range kids {
		switch k.K {
		case "again":
			var x any
			if i > 0 {
				x = r[i-1]
			}
			r = append(r, x)
		case "val":
			r = append(r, e.val(k.Vals[0]))
		case "nil":
			r = append(r, nil)
		default:
			r = append(r, e.node(k))
		}
	}
	return e.guardAny(r)
}

var errNoHelper = errors.New("no helper")

// node builds a node
func (e *Env) node(n N) aitch.Node {
	node := e.build(n)
	if e.onNode != nil {
		e.onNode(n, node)
	}
	return node
}

func (e *Env) build(n N) aitch.Node {
	if n.Fn != "" {
		h := helperIndex[n.Fn]
		args := func() []any {
			if n.K == "attr" || n.K == "dattr" || n.K == "battr" {
				if h.Kind == "style" {
					return e.valsOf(n.Vals[0].Vs[1:], n.SR, n.SN)
				}
				return e.valsOf(n.Vals, n.SR, n.SN)
			}
			return e.kidsAnyOf(n)
		}
		switch f := h.fn.(type) {
		case func(...any) aitch.Node:
			return f(args()...)
		case func() aitch.Node:
			return f()
		}
		panic(errNoHelper)
	}
	switch n.K {
	case "nil", "again":
		return nil
	case "ref":
		return e.pool[n.Ref]
	case "elem":
		return aitch.NewElement([]byte(n.Name), e.kidsAnyOf(n)...)
	case "el":
		return aitch.Element(string(n.Name), e.kidsAnyOf(n)...)
	case "velem":
		return aitch.NewVoidElement([]byte(n.Name), e.kidsAnyOf(n)...)
	case "vel":
		return aitch.VoidElement(string(n.Name), e.kidsAnyOf(n)...)
	case "attr":
		if n.Chk {
			return aitch.Attribute(string(n.Name), e.valsOf(n.Vals, n.SR, n.SN)...)
		}
		return aitch.NewAttribute([]byte(n.Name), e.valsOf(n.Vals, n.SR, n.SN)...)
	case "battr":
		if n.Chk {
			return aitch.BooleanAttribute(string(n.Name))
		}
		return aitch.NewBooleanAttribute([]byte(n.Name))
	case "dattr":
		if n.Chk {
			return aitch.DelimitedAttribute(string(n.Name), string(n.Delim), e.valsOf(n.Vals, n.SR, n.SN)...)
		}
		return aitch.NewDelimitedAttribute([]byte(n.Name), []byte(n.Delim), e.valsOf(n.Vals, n.SR, n.SN)...)
	case "data":
		return html.Data(string(n.Name), e.valsOf(n.Vals, n.SR, n.SN)...)
	case "aria":
		return html.Aria(string(n.Name), e.valsOf(n.Vals, n.SR, n.SN)...)
	case "hxon":
		return htmx.On(string(n.Name), e.valsOf(n.Vals, n.SR, n.SN)...)
	case "headers":
		return htmx.Headers(e.vals(n.Vals)...)
	case "headersjs":
		maps := make([]htmx.HeadersMap, len(n.Vals))
		for i, v := range n.Vals {
			maps[i] = e.val(v).(htmx.HeadersMap)
		}
		return htmx.HeadersJS(maps...)
	case "text":
		return aitch.Text(e.valsOf(n.Vals, n.SR, n.SN)...)
	case "val":
		return aitch.Text(e.val(n.Vals[0]))
	case "comment":
		return aitch.Comment(e.valsOf(n.Vals, n.SR, n.SN)...)
	case "pi":
		return aitch.PI(string(n.Name), e.valsOf(n.Vals, n.SR, n.SN)...)
	case "doctype":
		return aitch.DocType()
	case "frag":
		return aitch.Fragment(e.valsOf(n.Vals, n.SR, n.SN)...)
	case "coll":
		return aitch.Collection(e.kidsNodesOf(n)...)
	case "cond":
		return aitch.Conditional(e.cond(n.C), e.kidsNodesOf(n)...)
	case "when":
		return aitch.When(aitch.DynamicValueKey(n.Key), e.kidsNodesOf(n)...)
	case "collect":
		kids := append([]aitch.Node(nil), e.kidsNodesOf(n)...)
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			e.log("collect", n.ID, ctx)
			e.failNow(n.ID, ctx)
			if n.ID%2 == 0 { // the same every time
				return kids
			}
			return append([]aitch.Node(nil), kids...)
		})
	case "iter":
		items := func() []any {
			r := make([]any, len(n.Items))
			for i, x := range n.Items {
				r[i] = x.plain()
			}
			return r
		}
		same := items()
		return aitch.Iterate(func(ctx *context.Context) []any {
			e.log("iter", n.ID, ctx)
			e.failNow(n.ID, ctx)
			if n.ID%2 == 0 { // the same every time
				return same
			}
			return items()
		}, e.kidsNodesOf(n)...)
	case "iterkey":
		return aitch.IterateKey(string(n.Key), e.kidsNodesOf(n)...)
	case "yield":
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			e.log("yield", n.ID, ctx)
			for i, x := range n.Items {
				if n.Form == i+1 {
					e.failNow(n.ID, ctx) // and goes on
				}
				yield(x.plain())
			}
			e.failNow(n.ID, ctx)
		}, e.kidsNodesOf(n)...)
	case "cust":
		return e.custom(n)
	case "custattr":
		return e.customAttr(n)
	case "collectnil":
		return aitch.ContentCollect(nil)
	case "impnil":
		return aitch.Imperative(nil)
	case "imp":
		return e.imperative(n)
	case "doc":
		var lang any
		if len(n.Vals) > 0 {
			lang = e.val(n.Vals[0])
		}
		return html.Document(lang, e.kidsAny(n.Head), e.kidsAnyOf(n))
	}
	panic("harness: unknown node kind " + n.K)
}

// custom is a node that's not one of aitch's own
type custom struct {
	typ  aitch.NodeType
	name string
	fn   func(ctx *context.Context) error
}

func (c *custom) Render(ctx *context.Context) error { return c.fn(ctx) }
func (c *custom) Type() aitch.NodeType              { return c.typ }
func (c *custom) Name() string                      { return c.name }

// customValue is one that is not a pointer (and cannot be compared)
type customValue struct {
	typ  []aitch.NodeType
	name []byte
	fn   func(ctx *context.Context) error
}

func (c customValue) Render(ctx *context.Context) error { return c.fn(ctx) }
func (c customValue) Type() aitch.NodeType              { return c.typ[0] }
func (c customValue) Name() string                      { return string(c.name) }

// customWrap is one that is based on one of aitch's own
type customWrap struct {
	aitch.Node
	fn func(ctx *context.Context) (bool, error)
}

func (c customWrap) Render(ctx *context.Context) error {
	if failed, err := c.fn(ctx); failed {
		return err
	}
	return c.Node.Render(ctx)
}

const customText = "by itself"

var customTypes = []aitch.NodeType{aitch.ElementNode, aitch.TextNode, aitch.CommentNode, aitch.PINode, aitch.DocumentNode, aitch.FragmentNode, aitch.NodeType(100), aitch.NodeType(-1)}

// customised makes a node that isn't one of aitch's own
func (e *Env) customised(n N, typ aitch.NodeType, name string, wrap aitch.Node, rest func(ctx *context.Context) error) aitch.Node {
	head := func(ctx *context.Context) (bool, error) {
		e.log(n.K, n.ID, ctx)
		if err := e.fail[n.ID]; err != nil && ctx.Error == nil {
			e.failed(err)
			if n.Chk {
				ctx.Error = err
				return true, nil
			}
			return true, err // (without setting the context's error)
		}
		return false, nil
	}
	both := func(ctx *context.Context) error {
		if failed, err := head(ctx); failed {
			return err
		}
		return rest(ctx)
	}
	switch n.Form {
	case 1:
		return customValue{[]aitch.NodeType{typ}, []byte(name), both}
	case 2:
		return customWrap{wrap, head}
	}
	return &custom{typ, name, both}
}

func (e *Env) custom(n N) aitch.Node {
	kids := append([]aitch.Node(nil), e.kidsNodesOf(n)...)
	return e.customised(n, customTypes[n.ID%len(customTypes)], "custom", aitch.Collection(kids...), func(ctx *context.Context) error {
		if n.Form == 3 { // writes by itself
			if _, err := io.WriteString(ctx.Writer, customText); err != nil {
				return err
			}
		}
		within := func(ctx *context.Context) error {
			for _, k := range kids {
				if k != nil && k.Type() != aitch.AttributeNode {
					if err := k.Render(ctx); err != nil || ctx.Error != nil {
						return err
					}
				}
			}
			return nil
		}
		switch n.Form {
		case 4:
			return buffered(ctx, within)
		case 5: // with a context of its own
			inner := context.New(ctx.Writer, plainScope(), scopedText)
			inner.Parent = ctx
			if err := within(inner); err != nil {
				return err
			}
			return inner.Error
		}
		return within(ctx)
	})
}

// buffered renders into a buffer, and writes what is in there at once
func buffered(ctx *context.Context, render func(ctx *context.Context) error) error {
	var buf bytes.Buffer
	inner := context.New(&buf, ctx.Data, ctx.Cargo)
	inner.Parent = ctx.Parent
	err := render(inner)
	ctx.Cargo = inner.Cargo
	if err == nil {
		err = inner.Error
	}
	if err == nil {
		ctx.Write(buf.Bytes())
	}
	return err
}

const scopedText = "scoped"

// scope is the Data for the contents of user-defined nodes that render them with a context of their own
func scope() map[string]V {
	data := map[string]V{}
	for i, k := range dataKeys {
		switch i % 3 {
		case 0:
			data[k] = V{K: "str", S: scopedText}
		case 1:
			data[k] = V{K: "bool", B: i%2 == 0}
		}
	}
	return data
}

func plainScope() map[string]any {
	return Ctx{Data: scope()}.data()
}

func (e *Env) customAttr(n N) aitch.Node {
	vals := e.valsOf(n.Vals, n.SR, n.SN)
	text := aitch.Text(vals...)
	return e.customised(n, aitch.AttributeNode, string(n.Name), aitch.NewAttribute([]byte(n.Name), vals...), func(ctx *context.Context) error {
		start := " " + string(n.Name) + `="`
		if n.Form == 3 {
			if _, err := fmt.Fprint(ctx.Writer, start); err != nil {
				return err
			}
		} else {
			ctx.Write([]byte(start))
		}
		render := text.Render
		if n.Form == 4 {
			render = func(ctx *context.Context) error { return buffered(ctx, text.Render) }
		}
		if err := render(ctx); err != nil {
			return err
		}
		ctx.Write([]byte(`"`))
		return ctx.Error
	})
}

func (e *Env) cond(c *Cond) aitch.ConditionalFunc {
	if c.K == "nil" {
		return nil
	}
	return func(ctx *context.Context) bool {
		if e.condOn {
			e.conds = append(e.conds, fmt.Sprintf("%d@%s", c.ID, ctxSig(ctx)))
		}
		e.failNow(c.ID, ctx)
		switch c.K {
		case "true":
			return true
		case "key":
			b, _ := ctx.Data[string(c.S)].(bool)
			return b
		case "has":
			_, ok := ctx.Data[string(c.S)]
			return ok
		case "cargo":
			s, ok := ctx.Cargo.(string)
			return ok && s == string(c.S)
		case "depth":
			return parentOf(ctx) != nil
		}
		return false
	}
}

func (e *Env) imperative(n N) aitch.Node {
	built := make([][]aitch.Node, len(n.Ops))
	for i, op := range n.Ops {
		built[i] = append([]aitch.Node(nil), e.kidsNodes(op.N)...)
	}
	return aitch.Imperative(func(ic aitch.ImperativeContext) error {
		e.log("imp", n.ID, ic.Context())
		for i, op := range n.Ops {
			switch op.K {
			case "start":
				ic.Start([]byte(op.S), op.Void, built[i]...)
			case "end":
				ic.End()
			case "endall":
				ic.EndAll()
			case "str":
				ic.WriteString(string(op.S))
			case "raw":
				ic.WriteRaw([]byte(op.S))
			case "nodes":
				ic.WriteNodes(built[i]...)
			case "ctx":
				ic.WriteString(sketch(ic.Context().Cargo) + sketchMap(ic.Context().Data))
			case "err":
				if op.Void {
					e.failNow(op.ID, ic.Context())
				} else if err := e.fail[op.ID]; err != nil {
					e.failed(err)
					return err
				}
			}
		}
		return nil
	})
}

// render renders a node with a fresh context and returns the output
func (e *Env) render(node aitch.Node, c Ctx) (string, *context.Context, error) {
	var buf bytes.Buffer
	ctx := c.context(&buf, c.data(), c.cargo())
	err := node.Render(ctx)
	return buf.String(), ctx, err
}
