package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
	"pgregory.net/rapid"
)

// ---- A23

type KindSpec struct {
	Tree  N   `json:"tree"`
	Nodes []N `json:"nodes,omitempty"` // rendered by themselves
	Ctx   Ctx `json:"ctx"`
}

func drawA23(t *rapid.T) *KindSpec {
	g := newGen(t, opt{})
	g.o = opt{again: true, depth: 1 + g.i(1, 3), budget: 20, cond: g.p(8), iter: g.p(8), imp: g.p(6), collect: g.p(6), doc: true, dyn: g.p(5), mixed: true, fns: true, nils: g.p(3), attrHeavy: g.p(6)}
	g.left = g.o.budget
	s := &KindSpec{Tree: g.tree(), Ctx: g.ctx()}
	for k := g.i(0, 4); k > 0; k-- {
		g.left = 3
		switch g.uni(4) {
		case 0:
			s.Nodes = append(s.Nodes, helperNode(pick(g, elemHelpers), nil, g.kids(1, 2, true, true)))
		case 1:
			s.Nodes = append(s.Nodes, helperNode(pick(g, attrHelpers), g.valueItems(1, 2), nil))
		case 2:
			s.Nodes = append(s.Nodes, helperNode(pick(g, styleHelpers), g.valueItems(1, 2), nil))
		default:
			s.Nodes = append(s.Nodes, g.suffixAttr())
		}
	}
	return s
}

type kindOf struct {
	typ  aitch.NodeType
	name string
	// what its output starts with
	starts string
}

// documented is the type and name a node should report (ok if it is of one of the documented kinds)
func documented(n N) (k kindOf, ok bool) {
	if name, ok := isAttr(n); ok {
		return kindOf{aitch.AttributeNode, name, " " + name}, true
	}
	name := string(n.Name)
	switch n.K {
	case "elem", "el", "velem", "vel":
		return kindOf{aitch.ElementNode, name, "<" + name}, true
	case "text", "val":
		return kindOf{typ: aitch.TextNode}, true
	case "comment":
		return kindOf{typ: aitch.CommentNode, starts: "<!--"}, true
	case "pi":
		return kindOf{typ: aitch.PINode, starts: "<!" + name}, true
	case "doctype":
		return kindOf{typ: aitch.PINode, starts: "<!DOCTYPE html>"}, true
	case "frag":
		return kindOf{typ: aitch.FragmentNode}, true
	case "doc":
		return kindOf{typ: aitch.DocumentNode, starts: "<!DOCTYPE html>"}, true
	}
	return kindOf{}, false
}

// verifyKind compares what a node reports with what it is
func verifyKind(n N, node aitch.Node) error {
	typ, name := node.Type(), node.Name()
	what := fmt.Sprintf("%s node %s%q", n.K, n.Fn, string(n.Name))
	want, ok := documented(n)
	if !ok {
		// groups and generates others: neither an attribute nor an element itself
		if typ == aitch.AttributeNode || typ == aitch.ElementNode {
			return fmt.Errorf("%s: its Type is that of an element or attribute (%d)", what, typ)
		}
	} else if typ != want.typ {
		return fmt.Errorf("%s: its Type is %d, not %d", what, typ, want.typ)
	}
	if want.typ == aitch.AttributeNode || ok && want.typ == aitch.ElementNode {
		if name != want.name {
			return fmt.Errorf("%s: its Name is %q, not %q", what, name, want.name)
		}
	} else if validName(name) {
		return fmt.Errorf("%s: its Name is %q, as if it was an element or attribute", what, name)
	}
	return nil
}

func checkA23(s *KindSpec, r *Rec) error {
	type built struct {
		n    N
		node aitch.Node
	}
	var all []built
	e := &Env{onNode: func(n N, node aitch.Node) {
		if node != nil {
			all = append(all, built{n, node})
		}
	}}
	root := e.node(s.Tree)
	roots := []aitch.Node{root}
	for _, n := range s.Nodes {
		roots = append(roots, e.node(n))
	}
	verify := func(when string) error {
		for _, b := range all {
			if err := verifyKind(b.n, b.node); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
		}
		return nil
	}
	if err := verify("once built"); err != nil {
		return err
	}
	for _, node := range roots {
		if _, _, err := e.render(node, s.Ctx); err != nil {
			return err
		}
	}
	if err := verify("once rendered"); err != nil {
		return err
	}
	kinds := map[string]bool{}
	for _, b := range all {
		want, ok := documented(b.n)
		kinds[b.n.K] = true
		if !ok {
			continue
		}
		// by itself it is written as what it says it is
		got, _, err := e.render(b.node, s.Ctx)
		if err != nil {
			return err
		}
		rest := strings.TrimPrefix(got, want.starts)
		named := want.typ == aitch.ElementNode || want.typ == aitch.AttributeNode
		if !strings.HasPrefix(got, want.starts) || named && rest != "" && !strings.ContainsAny(rest[:1], " >=") {
			return fmt.Errorf("node of kind %s with Type %d and Name %q is written as %q", b.n.K, b.node.Type(), b.node.Name(), clip(got))
		}
		r.Evals(1)
	}
	// used in another template
	var contents []any
	for _, b := range all {
		contents = append(contents, b.node)
	}
	if _, _, err := e.render(aitch.NewElement([]byte("x"), contents...), s.Ctx); err != nil {
		return err
	}
	if err := verify("once used in another template"); err != nil {
		return err
	}
	for k := range kinds {
		r.Class("kind:" + k)
	}
	r.Sample(fmt.Sprintf("%d nodes of %d kinds", len(all), len(kinds)))
	r.NonTrivial(len(kinds) >= 3)
	return nil
}

// ---- A24

type CustomSpec struct {
	Tree   N     `json:"tree"`
	Ctx    Ctx   `json:"ctx"`
	Marked []N   `json:"marked,omitempty"` // nodes of an html/template
	Fail   []int `json:"fail,omitempty"`
	At     []int `json:"at,omitempty"`   // writes that fail
	Errs   int   `json:"errs,omitempty"` // kind of error
}

// customIDs are the IDs of the user-defined nodes
func customIDs(n *N) (ids []int) {
	walkN(n, func(n *N) {
		if n.K == "cust" || n.K == "custattr" {
			ids = append(ids, n.ID)
		}
	})
	return ids
}

func drawA24(t *rapid.T) *CustomSpec {
	g := newGen(t, opt{})
	g.o = opt{cust: true, custHeavy: true, custForms: true, again: g.p(4), depth: 2 + g.i(1, 4), budget: 32, cond: g.p(10), iter: g.p(9), imp: g.p(9), collect: g.p(9), doc: true, dyn: g.p(6), fns: g.p(5), safeText: g.p(8), nils: g.p(3), attrHeavy: g.p(8), mixed: false}
	if g.p(3) && !g.o.cond { // attributes of all kinds sharing names
		g.o.mixed, g.o.imp = true, false
	}
	g.left = g.o.budget
	s := &CustomSpec{Tree: g.tree(), Ctx: g.condCtx()}
	for k := g.i(0, 3); k > 0; k-- {
		g.left = 6
		n := N{K: "cust", ID: g.nextID(), Kids: g.kids(2, 3, false, false)}
		if g.p(5) {
			n = N{K: "custattr", ID: g.nextID(), Name: Str(pick(g, attrNames)), Vals: g.valueItems(1, 2)}
		}
		g.form(&n)
		s.Marked = append(s.Marked, n)
	}
	ids := customIDs(&s.Tree)
	for i := range s.Marked {
		ids = append(ids, customIDs(&s.Marked[i])...)
	}
	for k := g.i(0, 2); k > 0 && len(ids) > 0; k-- {
		s.Fail = append(s.Fail, pick(g, ids))
	}
	for k := g.i(0, 3); k > 0; k-- {
		s.At = append(s.At, g.i(1, 40))
	}
	if g.p(4) {
		s.Errs = g.uni(errKinds)
	}
	return s
}

func checkA24(s *CustomSpec, r *Rec) error {
	e := &Env{traceOn: true}
	spec := &TreeSpec{Tree: s.Tree, Ctx: s.Ctx}
	m, want, err := renderCompare(spec, r, e)
	if err != nil {
		return err
	}
	if err := compareTrace(e.trace, m.trace); err != nil {
		return err
	}
	evals := 1
	// their errors
	f := faultRender(s.Tree, s.Ctx, s.Fail, s.Errs, &faultWriter{}, nil)
	if err := f.verify(fmt.Sprintf("nodes %v fail", s.Fail), want, f.first); err != nil {
		return err
	}
	if got := f.w.buf.String(); f.first != nil && len(got) != f.at {
		return fmt.Errorf("nodes %v fail: %q was written after the error", s.Fail, got[f.at:])
	} else if f.first == nil && got != want {
		return fmt.Errorf("no node failed but the output differs\n  got:  %q\n  want: %q", got, want)
	}
	if f.first != nil {
		r.Class("error")
	}
	total := f.w.n
	// errors of the writer, while they render
	for _, at := range s.At {
		if total == 0 {
			break
		}
		writeErr := plannedErr(s.Errs, 0, "write failed")
		w := &faultWriter{at: map[int]error{1 + at%total: writeErr}, partial: at % 3, rich: at%4 == 3}
		f := faultRender(s.Tree, s.Ctx, s.Fail, s.Errs, w, nil)
		if err := f.verify(fmt.Sprintf("write %d fails", 1+at%total), want, writeErr); err != nil {
			return err
		}
		evals++
	}
	if len(s.Marked) > 0 {
		r.Class("template")
		if err := checkMarked(s, r); err != nil {
			return err
		}
		evals += 2
	}
	r.Evals(evals)
	r.NonTrivial(m.f["custom node"]+m.f["custom attribute"] >= 2)
	return nil
}

// checkMarked executes an html/template with markers for user-defined nodes
func checkMarked(s *CustomSpec, r *Rec) error {
	var text, want strings.Builder
	m := newM(nil)
	for i, n := range s.Marked {
		before := len(m.out)
		if n.K == "custattr" {
			fmt.Fprintf(&text, "<b{{n%d .}}>", i)
			want.WriteString("<b")
			m.attr(n, string(n.Name), s.Ctx.model())
		} else {
			fmt.Fprintf(&text, "<p>%d{{n%d .}}</p>", i, i)
			fmt.Fprintf(&want, "<p>%d", i)
			m.node(expand(n), s.Ctx.model(), false)
		}
		for _, sg := range m.out[before:] {
			if !sg.opt {
				want.WriteString(sg.s)
			} else {
				return nil // (not comparable as simply as that)
			}
		}
		if n.K == "custattr" {
			want.WriteString(">")
		} else {
			want.WriteString("</p>")
		}
	}
	run := func(fail []int) (got string, first error, at int, err error) {
		e := &Env{fail: map[int]error{}}
		for _, id := range fail {
			e.fail[id] = plannedErr(s.Errs, id, fmt.Sprintf("node %d failed", id))
		}
		var buf bytes.Buffer
		e.onFail = func(err error) {
			if first == nil {
				first, at = err, buf.Len()
			}
		}
		nodes := aitch.NodeMap{}
		for i, n := range s.Marked {
			nodes[fmt.Sprintf("n%d", i)] = e.node(n)
		}
		t, err := aitch.NewTemplate("t", text.String(), nodes)
		if err != nil {
			return "", nil, 0, fmt.Errorf("NewTemplate: %w", err)
		}
		err = t.Execute(&buf, s.Ctx.data(), s.Ctx.cargo())
		return buf.String(), first, at, err
	}
	got, _, _, err := run(nil)
	if err != nil {
		return fmt.Errorf("Execute returned %v", err)
	}
	if got != want.String() {
		return fmt.Errorf("template output differs\n  got:  %q\n  want: %q", got, want.String())
	}
	got, first, at, err := run(s.Fail)
	switch {
	case first == nil && err != nil:
		return fmt.Errorf("Execute returned %v", err)
	case first == nil:
	case !isErr(err, first):
		return fmt.Errorf("Execute returned %v, the first error was %v", err, first)
	case len(got) != at || !strings.HasPrefix(want.String(), got):
		return fmt.Errorf("template: %q was written, %d bytes of that before the error", got, at)
	default:
		r.Class("template error")
	}
	return nil
}

func init() {
	register("A23", "random trees (and random helpers) whose every node is asked for its Type and Name once built, once rendered and once used elsewhere, and rendered by itself to compare; non-trivial: at least three kinds of node", 18000, 150000, drawA23, checkA23)
	register("A24", "random trees with user-defined nodes and attributes (pointers, non-comparable values, wrappers of aitch's own) everywhere, output and calls compared with the reference renderer, nodes and writes made to fail, and as template markers; non-trivial: at least two user-defined nodes rendered", 18000, 150000, drawA24, checkA24).fixed = largeCustom
}
