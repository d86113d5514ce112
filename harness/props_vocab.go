package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-andiamo/aitch/htmx"
	xhtml "golang.org/x/net/html"
	"pgregory.net/rapid"
)

// ---- A18

type VocabSpec struct {
	Nodes     []N   `json:"nodes"`
	Ctx       Ctx   `json:"ctx"`
	Constants bool  `json:"constants,omitempty"`
	Wrap      []int `json:"wrap,omitempty"` // attributes that are in a collection
}

var attrHelpers, elemHelpers, styleHelpers = func() (attrs, elems, styles []string) {
	for _, h := range helpers {
		switch fn := h.Pkg + "." + h.Func; h.Kind {
		case "attr", "bool", "delim":
			attrs = append(attrs, fn)
		case "style":
			styles = append(styles, fn)
		default:
			elems = append(elems, fn)
		}
	}
	return
}()

// helperNode is the use of a helper
func helperNode(fn string, vals []V, kids []N) N {
	h := helperIndex[fn]
	n := N{Fn: fn, Name: Str(h.Name), Delim: Str(h.Delim)}
	switch h.Kind {
	case "attr":
		n.K, n.Vals = "attr", vals
	case "bool":
		n.K = "battr"
	case "delim":
		n.K, n.Vals = "dattr", vals
	case "style":
		n.K, n.Name, n.Delim = "dattr", "style", "; "
		n.Vals = []V{{K: "concat", Vs: append([]V{{K: "bytes", S: Str(h.Name) + ":"}}, vals...)}}
	case "void":
		n.K, n.Kids = "velem", kids
	default:
		n.K, n.Kids = "elem", kids
	}
	return n
}

func drawA18(t *rapid.T) *VocabSpec {
	g := newGen(t, opt{})
	g.o = opt{depth: 1, budget: 8, dyn: g.p(5), mixed: true, nils: g.p(3), fns: true}
	s := &VocabSpec{Ctx: g.ctx()}
	last := ""
	for k := g.i(1, 6); k > 0; k-- {
		g.left = g.o.budget
		switch g.uni(8) {
		case 0, 1, 2:
			s.Nodes = append(s.Nodes, helperNode(pick(g, elemHelpers), nil, g.kids(1, 4, true, true)))
		case 3:
			s.Nodes = append(s.Nodes, N{K: pick(g, []string{"data", "aria", "hxon"}), Name: g.suffix(), Vals: g.valueItems(1, 2)})
		default:
			if last == "" || g.p(5) {
				last = pick(g, attrHelpers)
			}
			if g.p(2) { // the same name, from wherever
				h := helperIndex[last]
				s.Nodes = append(s.Nodes, N{K: "attr", Name: Str(h.Name), Vals: g.valueItems(1, 2)})
				break
			}
			s.Nodes = append(s.Nodes, helperNode(last, g.valueItems(1, 3), nil))
			if g.p(4) {
				s.Wrap = append(s.Wrap, len(s.Nodes)-1)
			}
		}
	}
	return s
}

func fixedA18() (r []any) {
	vals := []V{{K: "str", S: "a&b"}, {K: "nil"}, {K: "int", I: 1}}
	for _, h := range helpers {
		fn := h.Pkg + "." + h.Func
		kids := []N{{K: "val", Vals: []V{{K: "str", S: "<x>"}}}, {K: "attr", Name: "a", Vals: vals}, {K: "elem", Name: "b"}}
		n := helperNode(fn, vals, kids)
		r = append(r, &VocabSpec{Nodes: []N{n}}, &VocabSpec{Nodes: []N{n, helperNode(fn, vals[2:], nil), helperNode(fn, nil, nil)}})
	}
	suffixes := append([]string(nil), suffixPool...)
	for _, h := range helpers {
		suffixes = append(suffixes, h.Name, h.Func)
	}
	for _, k := range []string{"data", "aria", "hxon"} {
		for i, s := range suffixes {
			n := N{K: k, Name: Str(s), Vals: vals}
			r = append(r, &VocabSpec{Nodes: []N{n}}, &VocabSpec{Nodes: []N{n, {K: k, Name: Str(suffixes[(i+1)%len(suffixes)]), Vals: vals[2:]}, {K: "attr", Name: Str(s)}}})
		}
	}
	return append(r, &VocabSpec{Constants: true})
}

func (g *gen) suffix() Str {
	if g.p(5) {
		return Str(pick(g, suffixPool))
	}
	return Str(rapid.StringMatching(`[a-zA-Z0-9._:-]{0,6}`).Draw(g.t, "suffix"))
}

// suffixPool are names such as might be given to html.Data, html.Aria and htmx.On
var suffixPool = strings.Fields(`userId user-id UserID USER_ID user_id user.id user:id id x X x-y x--y -x x- --x data-x data- data aria-x aria-label aria- on onclick click
	htmx:before-request htmx:xhr:loadstart htmx:beforeRequest :before-request ::before-request before-request beforeRequest --before-request hx-on:click hx-on hx-x hx- keyup[key=='Enter'] a.b.c 1 0 1x`)

// generic is a tree without helper functions
func generic(n N) N {
	n.Fn = ""
	for i := range n.Kids {
		n.Kids[i] = generic(n.Kids[i])
	}
	switch n.K {
	case "data", "aria", "hxon":
		name, _ := isAttr(n)
		n.K, n.Name = "attr", Str(name)
	}
	return n
}

func checkA18(s *VocabSpec, r *Rec) error {
	if s.Constants {
		for _, c := range constants {
			if c.Got != c.Want {
				return fmt.Errorf("constant %s is %q, not %q", c.Name, c.Got, c.Want)
			}
		}
		r.Class("constants")
		return nil
	}
	wrapped := map[int]bool{}
	for _, i := range s.Wrap {
		wrapped[i] = true
	}
	root := N{K: "elem", Name: "main"}
	for i, n := range s.Nodes {
		if wrapped[i] {
			n = N{K: "coll", Kids: []N{n}}
		}
		root.Kids = append(root.Kids, n)
	}
	// every node by itself
	trees := append([]N{root}, s.Nodes...)
	for _, n := range trees {
		spec := &TreeSpec{Tree: n, Ctx: s.Ctx}
		_, got, err := renderCompare(spec, r, nil)
		if err != nil {
			return fmt.Errorf("%s: %w", n.Fn, err)
		}
		plain := copySpec(spec)
		e := &Env{}
		got2, _, err := e.render(e.node(generic(plain.Tree)), s.Ctx)
		if err != nil {
			return err
		}
		if got != got2 {
			return fmt.Errorf("%s: the helper and the generic constructor differ\n  helper:  %q\n  generic: %q", n.Fn, got, got2)
		}
		if n.Fn != "" {
			r.Class("pkg:" + strings.SplitN(n.Fn, ".", 2)[0])
			if h := helperIndex[n.Fn]; h.Kind != "style" {
				if name := e.node(n).Name(); name != h.Name {
					return fmt.Errorf("%s: the node's name is %q", n.Fn, name)
				}
			}
		} else if name, ok := isAttr(n); ok {
			if got := e.node(n).Name(); got != name {
				return fmt.Errorf("%s %q: the node's name is %q", n.K, n.Name, got)
			}
		}
		r.Sample(clip(got))
	}
	r.Evals(2*len(trees) - 1)
	r.NonTrivial(len(s.Nodes) > 0)
	return nil
}

// ---- A19

func drawA19(t *rapid.T) *TreeSpec {
	g := newGen(t, opt{})
	g.o = opt{depth: 1, budget: 12, dyn: g.p(7), safeText: true, noRawBytes: true, nils: g.p(3), simpleNames: true}
	g.kinds["style"] = "dattr; "
	var decls func(depth, max int) []N
	cond := g.p(8)
	decls = func(depth, max int) (r []N) {
		for k := g.n(1, max); k > 0; k-- {
			switch g.uni(10) {
			case 0, 1, 2, 3, 4:
				r = append(r, helperNode(pick(g, styleHelpers), g.values(2, 3), nil))
			case 5:
				n := N{K: "dattr", Fn: pick(g, []string{"html.Style", "svg.Style", ""}), Name: "style", Delim: "; "}
				for j := g.i(0, 2); j > 0; j-- {
					n.Vals = append(n.Vals, V{K: "str", S: Str(pick(g, []string{"left:1", "--x:y", "color:red", ""}))})
				}
				r = append(r, n)
			case 6:
				r = append(r, g.attr())
			default:
				if depth == 0 {
					continue
				}
				if !cond || g.bool() {
					r = append(r, N{K: "coll", Kids: decls(depth-1, 3)})
				} else {
					n := g.conditional(0, false)
					n.Kids = decls(depth-1, 3)
					r = append(r, n)
				}
			}
		}
		return r
	}
	n := N{K: pick(g, []string{"elem", "el", "velem"}), Name: "div", Kids: decls(2, 6)}
	if g.p(4) {
		n.Kids = append(n.Kids, N{K: "elem", Name: "p", Kids: decls(1, 3)})
	}
	return &TreeSpec{Tree: n, Ctx: g.condCtx()}
}

func checkA19(spec *TreeSpec, r *Rec) error {
	_, got, err := renderCompare(spec, r, nil)
	if err != nil {
		return err
	}
	// what is declared
	m := newM(nil)
	c := spec.Ctx.model()
	var want []string
	conds := 0
	add := func(n N) {
		for _, f := range m.flattenAll(n.Vals) {
			if s := strings.TrimSpace(xhtml.UnescapeString(f(c))); s != "" {
				want = append(want, s)
			}
		}
	}
	decls := m.declared(spec.Tree.Kids, nil)
	for pass := 0; pass < 2; pass++ {
		for _, d := range decls {
			if d.name != "style" || (len(d.conds) > 0) != (pass == 1) {
				continue
			}
			active := true
			for _, cn := range d.conds {
				active = active && m.holds(cn, c)
			}
			if active {
				add(d.n)
				conds += len(d.conds)
			}
		}
	}
	// what an HTML and a CSS reader see
	z := xhtml.NewTokenizer(strings.NewReader(got))
	z.Next()
	styles := 0
	var pairs []string
	_, more := z.TagName()
	for more {
		var k, v []byte
		k, v, more = z.TagAttr()
		if string(k) == "style" {
			styles++
			for _, p := range strings.Split(string(v), ";") {
				if p = strings.TrimSpace(p); p != "" {
					pairs = append(pairs, p)
				}
			}
		}
	}
	if styles > 1 {
		return fmt.Errorf("%d style attributes in %q", styles, got)
	}
	if fmt.Sprint(pairs) != fmt.Sprint(want) || len(pairs) != len(want) {
		return fmt.Errorf("style declarations of %q are %q, should be %q", got, pairs, want)
	}
	if conds > 0 {
		r.Class("conditional styles")
	}
	walkN(&spec.Tree, func(n *N) {
		if n.Fn != "" {
			r.Class("helpers used")
		}
	})
	r.NonTrivial(len(want) >= 2)
	return nil
}

func fixedA19() (r []any) {
	for _, fn := range styleHelpers {
		one := helperNode(fn, []V{{K: "unit", S: "px", Vs: []V{{K: "int", I: 3}}}, {K: "str", S: " x"}}, nil)
		r = append(r, &TreeSpec{Tree: N{K: "elem", Name: "p", Kids: []N{one}}}, &TreeSpec{Tree: N{K: "elem", Name: "p", Kids: []N{one, {K: "dattr", Fn: "html.Style", Name: "style", Delim: "; ", Vals: []V{{K: "str", S: "a:b"}}}, helperNode(fn, nil, nil)}}})
	}
	for _, u := range unitNames {
		r = append(r, &TreeSpec{Tree: N{K: "elem", Name: "p", Kids: []N{helperNode("css.Width", []V{{K: "unit", S: Str(u), Vs: []V{{K: "int", I: 1}, {K: "f64", U: 0x3fe0000000000000}}}}, nil)}}})
	}
	return r
}

// ---- A20

type HeaderSpec struct {
	Tree N   `json:"tree"`
	Ctx  Ctx `json:"ctx"`
	Mix  []V `json:"mix,omitempty"` // values that cannot be mixed
}

var headerNames = []string{"X-A", "x-a", "B", "", "Z9", "日", "a b", `q"`, "it's", "&amp;", "<b>", "X-B", "X", "x\x00y", "-"}

func (g *gen) headerMap() V {
	v := V{K: "hmap", M: map[string]V{}}
	if g.p(1) {
		return V{K: "hmap", B: true}
	}
	for k := g.n(0, 4); k > 0; k-- {
		name := pick(g, headerNames)
		if g.p(3) {
			name = fmt.Sprintf("h%d", g.uni(40))
		}
		v.M[name] = g.value(1)
	}
	return v
}

func drawA20(t *rapid.T) *HeaderSpec {
	g := newGen(t, opt{})
	g.o = opt{depth: 1, budget: 10, dyn: g.p(8), nils: g.p(4), noRawBytes: true}
	s := &HeaderSpec{Ctx: g.condCtx()}
	one := func() N {
		switch g.uni(8) {
		case 0, 1, 2:
			n := N{K: "headers"}
			for k := g.n(1, 3); k > 0; k-- {
				n.Vals = append(n.Vals, g.headerMap())
			}
			return n
		case 3:
			n := N{K: "headersjs"}
			for k := g.n(0, 3); k > 0; k-- {
				n.Vals = append(n.Vals, g.headerMap())
			}
			return n
		case 4:
			n := N{K: "headers", Vals: g.values(1, 3)}
			return n
		case 5:
			vals := []V{}
			for k := g.i(0, 3); k > 0; k-- {
				vals = append(vals, V{K: "var", S: Str(pick(g, []string{"a", "b", "x-y"})), Vs: []V{g.value(1)}})
			}
			return helperNode("htmx.Vars", vals, nil)
		}
		return helperNode(pick(g, []string{"htmx.Trigger", "htmx.Params", "htmx.Vars", "htmx.Inherit", "htmx.Disinherit", "htmx.Vals"}), g.values(1, 3), nil)
	}
	n := N{K: "elem", Name: "div"}
	for k := g.i(1, 5); k > 0; k-- {
		x := one()
		switch g.uni(6) {
		case 0:
			x = N{K: "coll", Kids: []N{x, one()}}
		case 1:
			c := g.conditional(0, false)
			c.Kids = []N{x}
			x = c
		}
		n.Kids = append(n.Kids, x)
	}
	s.Tree = n
	if g.p(5) {
		s.Mix = append(s.Mix, g.headerMap())
		v := g.scalar()
		at := g.uni(2)
		s.Mix = append(s.Mix[:at], append([]V{v}, s.Mix[at:]...)...)
		for k := g.i(0, 2); k > 0; k-- {
			if g.bool() {
				s.Mix = append(s.Mix, g.headerMap())
			} else {
				s.Mix = append(s.Mix, g.scalar())
			}
		}
	}
	return s
}

func sketchHeaders(maps []htmx.HeadersMap) string {
	var sb strings.Builder
	for _, m := range maps {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&sb, "%q:%T ", k, m[k])
			if s, ok := m[k].(string); ok {
				fmt.Fprintf(&sb, "%q ", s)
			}
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

func checkA20(s *HeaderSpec, r *Rec) error {
	if len(s.Mix) > 0 {
		panicked := false
		func() {
			e := &Env{}
			vals := e.vals(s.Mix)
			defer func() { panicked = recover() != nil }()
			_ = htmx.Headers(vals...)
		}()
		if !panicked {
			return fmt.Errorf("header maps mixed with other values are accepted: %s", sketch(s.Mix))
		}
		r.Class("mixed")
	}
	c := s.Ctx.model()
	m := newM(nil)
	m.node(s.Tree, c, true)
	var last string
	for k := 0; k < 3; k++ {
		e := &Env{}
		node := e.node(s.Tree)
		before := e.hmapsWere
		for j := 0; j < 2; j++ {
			got, _, err := e.render(node, s.Ctx)
			if err != nil {
				return err
			}
			if err := m.compare(got); err != nil {
				return err
			}
			last = got
		}
		if after := sketchHeaders(e.hmaps); after != before {
			return fmt.Errorf("header maps modified\n  before: %s\n  after:  %s", before, after)
		}
		for _, hm := range e.hmaps {
			for k := range hm {
				hm[k] = "SCRAMBLED"
			}
			hm["SCRAMBLED"] = 1
		}
		got, _, err := e.render(node, s.Ctx)
		if err != nil {
			return err
		}
		if err := m.compare(got); err != nil {
			return fmt.Errorf("after the maps were changed: %w", err)
		}
		r.Evals(3)
	}
	// what an HTML reader sees: the names and values themselves
	z := xhtml.NewTokenizer(strings.NewReader(last))
	z.Next()
	_, more := z.TagName()
	for more {
		var k, v []byte
		k, v, more = z.TagAttr()
		if string(k) != "hx-headers" {
			continue
		}
		var use N
		for pass := 0; pass < 2; pass++ {
			for _, d := range m.declared(s.Tree.Kids, nil) {
				if d.name == "hx-headers" && (len(d.conds) > 0) == (pass == 1) {
					active := true
					for _, cn := range d.conds {
						active = active && m.holds(cn, c)
					}
					if active {
						use = d.n
					}
				}
			}
		}
		want := ""
		for _, f := range m.flattenAll(use.Vals) {
			want += f(c)
		}
		if want = newlines.Replace(xhtml.UnescapeString(want)); want != string(v) {
			return fmt.Errorf("hx-headers of %q decodes to %q, should be %q", last, v, want)
		}
		r.Class("hx-headers")
		if strings.Count(want, "': ") >= 2 {
			r.Class("several headers")
		}
	}
	r.Classes(m.f)
	r.Sample(clip(last))
	r.NonTrivial(strings.Contains(last, `hx-`))
	return nil
}

func init() {
	p := register("A18", "every helper once and repeatedly (fixed cases), then random helpers with random contents and repetitions, compared with the reference renderer, with the generic constructors, and with the documented constants; non-trivial: at least one helper", 18000, 200000, drawA18, checkA18)
	p.fixed = fixedA18
	p = register("A19", "every css helper and unit (fixed cases), then random elements with css helpers, style attributes, collections and conditionals, compared with the reference renderer and read back as property/value pairs; non-trivial: at least two declarations", 36000, 250000, drawA19, checkA19)
	p.fixed = func() []any { return append(fixedA19(), largeStyles()...) }
	register("A20", "random elements with header maps (random names and values, merged, static and dynamic), vars, triggers etc., built three times, rendered before and after the maps are changed, compared with the reference renderer and decoded; non-trivial: some htmx attribute rendered", 22500, 150000, drawA20, checkA20).fixed = fixedA20
}
