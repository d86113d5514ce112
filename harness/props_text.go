package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	xhtml "golang.org/x/net/html"
	"pgregory.net/rapid"
)

// ---- A01

type EscSpec struct {
	Tree N    `json:"tree"`
	Ctx  Ctx  `json:"ctx"`
	Tmpl bool `json:"tmpl,omitempty"` // rendered through html/template
}

var rawElems = []Str{"script", "style", "title", "textarea", "iframe", "noscript", "xmp", "noembed", "svg", "math", "select", "table", "TITLE", "Script"}

func drawA01(t *rapid.T) *EscSpec {
	g := newGen(t, opt{})
	g.o = opt{noByteText: true, depth: 1 + g.i(1, 4), budget: 18, cond: g.p(7), iter: g.p(8), imp: g.p(6), collect: g.p(4), doc: true, dyn: g.p(10), attrHeavy: g.p(8), fns: true, noRawBytes: true, lowerAttrNames: true}
	g.kinds["style"] = "dattr; "
	g.left = g.o.budget
	spec := &EscSpec{Tree: g.tree(), Ctx: g.ctx(), Tmpl: g.p(2)}
	raw := g.p(6)
	walkN(&spec.Tree, func(n *N) {
		if n.C != nil && n.C.K == "cargo" {
			n.C.K = "true"
		}
		if raw && (n.K == "elem" || n.K == "el") && n.Fn == "" && g.p(5) {
			n.Name = pick(g, rawElems)
		}
		switch n.K {
		case "elem", "el", "velem", "vel":
			if g.p(3) {
				n.Kids = append(n.Kids, g.suffixAttr())
			}
			if g.p(3) {
				n.Kids = append(n.Kids, g.styleAttr([]string{"css.Color", "css.Width", "css.FontFamily"}))
			}
		}
		for i := range n.Ops {
			if n.Ops[i].K == "ctx" {
				n.Ops[i] = Op{K: "str", S: g.text()}
			}
			if raw && n.Ops[i].K == "start" && g.p(5) {
				n.Ops[i].S = pick(g, rawElems)
			}
		}
	})
	walkV(&spec.Tree, func(v *V) {
		switch v.K {
		case "dfn", "rfn", "dval", "cargo", "up", "count", "set":
			*v = V{K: "key", S: g.key()}
		}
	})
	return spec
}

// forText visits every text that a spec contains
func forText(spec *EscSpec, f func(s *Str)) {
	vv := func(v *V) {
		switch v.K {
		case "str", "stringer", "pstringer", "var":
			f(&v.S)
		}
	}
	walkV(&spec.Tree, vv)
	walkN(&spec.Tree, func(n *N) {
		for i := range n.Ops {
			if n.Ops[i].K == "str" {
				f(&n.Ops[i].S)
			}
		}
	})
	root := V{K: "map", M: spec.Ctx.Data}
	walkVV(&root, vv)
	if spec.Ctx.Cargo != nil {
		walkVV(spec.Ctx.Cargo, vv)
	}
}

func copySpec[T any](spec *T) *T {
	js, err := json.Marshal(spec)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r := new(T)
	if err = json.Unmarshal(js, r); err != nil {
		panic("harness: " + err.Error())
	}
	return r
}

// tok is a token, adjacent text merged
type tok struct {
	Type  string
	Name  string
	Text  string
	Attrs [][2]string
}

var rawText = map[string]bool{"script": true, "style": true, "iframe": true, "noembed": true, "noframes": true, "noscript": true, "xmp": true, "plaintext": true}

func tokens(out string) (r []tok) {
	z := xhtml.NewTokenizer(strings.NewReader(out))
	in := "" // raw text element we're in
	for {
		tt := z.Next()
		switch tt {
		case xhtml.ErrorToken:
			return r
		case xhtml.TextToken:
			raw := string(z.Raw())
			s := string(z.Text())
			if in != "" {
				s = xhtml.UnescapeString(raw)
			}
			if n := len(r); n > 0 && r[n-1].Type == "text" {
				r[n-1].Text += s
			} else {
				r = append(r, tok{Type: "text", Text: s})
			}
		case xhtml.CommentToken:
			r = append(r, tok{Type: "comment", Text: string(z.Text())})
		case xhtml.DoctypeToken:
			r = append(r, tok{Type: "doctype", Text: string(z.Text())})
		case xhtml.EndTagToken:
			name, _ := z.TagName()
			r = append(r, tok{Type: "end", Name: string(name)})
			in = ""
		default:
			t := tok{Type: "start"}
			if tt == xhtml.SelfClosingTagToken {
				t.Type = "selfclosing"
			}
			name, more := z.TagName()
			t.Name = string(name)
			for more {
				var k, v []byte
				k, v, more = z.TagAttr()
				t.Attrs = append(t.Attrs, [2]string{string(k), string(v)})
			}
			r = append(r, t)
			if in = ""; rawText[t.Name] {
				in = t.Name
			}
		}
	}
}

func (t tok) String() string {
	switch t.Type {
	case "start", "selfclosing":
		return fmt.Sprintf("<%s %q>", t.Name, t.Attrs)
	case "end":
		return "</" + t.Name + ">"
	}
	return fmt.Sprintf("%s %q", t.Type, t.Text)
}

var newlines = strings.NewReplacer("\r\n", "\n", "\r", "\n")

func trimHTML(s string) string { return strings.Trim(newlines.Replace(s), " \t\n\f") }

var placeholderRx = regexp.MustCompile(`qx(\d+)xq`)

func renderEsc(spec *EscSpec) (string, error) {
	e := &Env{}
	node := e.node(spec.Tree)
	if spec.Tmpl && node.Type() != aitch.AttributeNode {
		tmpl, err := aitch.NewTemplate("t", "<main>{{node .}}</main>", aitch.NodeMap{"node": node})
		if err != nil {
			return "", err
		}
		var buf bytes.Buffer
		err = tmpl.Execute(&buf, spec.Ctx.data(), spec.Ctx.cargo())
		return buf.String(), err
	}
	got, _, err := e.render(node, spec.Ctx)
	if node.Type() == aitch.AttributeNode {
		got = "<x" + got + ">"
	}
	return got, err
}

func checkA01(spec *EscSpec, r *Rec) error {
	got, err := renderEsc(spec)
	if err != nil {
		return err
	}
	// the same template with a harmless, unique text in place of each
	plain := copySpec(spec)
	var originals []string
	significant := false
	forText(plain, func(s *Str) {
		text := strings.ReplaceAll(string(*s), "\x00", "")
		originals = append(originals, text)
		if *s = ""; text != "" {
			*s = Str(fmt.Sprintf("qx%dxq", len(originals)-1))
		}
	})
	harmless, err := renderEsc(plain)
	if err != nil {
		return err
	}
	r.Evals(1)
	restore := func(s string) string {
		return newlines.Replace(placeholderRx.ReplaceAllStringFunc(s, func(ph string) string {
			k, _ := strconv.Atoi(ph[2 : len(ph)-2])
			if k < len(originals) {
				if strings.ContainsAny(originals[k], "<>&\"'\r") {
					significant = true
				}
				return originals[k]
			}
			return ph
		}))
	}
	a, b := tokens(got), tokens(harmless)
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i].Type != b[i].Type || a[i].Name != b[i].Name || len(a[i].Attrs) != len(b[i].Attrs) {
			return fmt.Errorf("text changed the markup: token %d\n  output: %q\n  with harmless text: %q", i, clip(got), clip(harmless))
		}
		if want := restore(b[i].Text); newlines.Replace(a[i].Text) != want && (a[i].Type != "doctype" || trimHTML(a[i].Text) != trimHTML(want)) {
			return fmt.Errorf("text of token %d does not decode to the original\n  output: %q\n  decoded: %q\n  original: %q", i, clip(got), a[i].Text, want)
		}
		for j := range a[i].Attrs {
			if a[i].Attrs[j][0] != b[i].Attrs[j][0] {
				return fmt.Errorf("text changed the attributes of token %d\n  output: %q\n  with harmless text: %q", i, clip(got), clip(harmless))
			}
			if want := restore(b[i].Attrs[j][1]); newlines.Replace(a[i].Attrs[j][1]) != want {
				return fmt.Errorf("attribute %q of token %d does not decode to the original\n  output: %q\n  decoded: %q\n  original: %q", a[i].Attrs[j][0], i, clip(got), a[i].Attrs[j][1], want)
			}
		}
		r.Class("token:" + a[i].Type)
	}
	walkV(&spec.Tree, func(v *V) { r.Class("value:" + v.K) })
	if spec.Tmpl {
		r.Class("html/template")
	}
	r.NonTrivial(significant)
	r.Sample(clip(got))
	return nil
}

// ---- A10

// ValueSpec is one value, and the routes it takes to the output
type ValueSpec struct {
	V      V     `json:"v"`
	Routes []int `json:"routes"`
}

const routes = 32

func drawA10(t *rapid.T) *ValueSpec {
	g := newGen(t, opt{depth: 1})
	spec := &ValueSpec{}
	switch g.uni(9) {
	case 0:
		spec.V = V{K: "bool", B: g.bool()}
	case 8:
		spec.V = V{K: "nbsp", I: int64(g.n(-2, 6)), B: g.p(3)}
	case 1:
		spec.V = V{K: "bytes", S: g.text()}
	case 2:
		spec.V = V{K: pick(g, []string{"nil", "named", "struct", "err", "cplx", "list", "map", "pmap", "nmap", "strs", "nstrs", "arr", "pslice", "strers", "ints", "mss", "namedint", "ptrint", "nilptr", "rune-slice", "chan", "time", "uintptr"}), S: g.text(), I: int64(g.uni(nameds))}
	case 3:
		spec.V = V{K: pick(g, []string{"str", "stringer", "pstringer"}), S: g.text(), I: int64(g.uni(stringers))}
	default:
		spec.V = g.num(pick(g, numKinds))
	}
	if g.p(3) {
		spec.V = V{K: "fany", Vs: []V{spec.V}}
	}
	n := g.i(2, 6)
	for k := 0; k < n; k++ {
		spec.Routes = append(spec.Routes, g.uni(routes))
	}
	return spec
}

type namedInt int

func plainMore(v V) any {
	switch v.K {
	case "namedint":
		return namedInt(7)
	case "ptrint":
		n := 7
		return &n
	case "nilptr":
		return (*int)(nil)
	case "rune-slice":
		return []rune("abc")
	case "chan":
		return make(chan int)
	case "uintptr":
		return uintptr(8)
	case "time":
		return [2]int{1, 2}
	case "nbsp":
		spoil := func(b []byte) {
			for i := range b {
				b[i] = '!'
			}
		}
		if v.B {
			spoil(aitch.Nbsp()) // what has been returned is the caller's
			return aitch.Nbsp()
		}
		spoil(aitch.Nbsps(int(v.I)))
		return aitch.Nbsps(int(v.I))
	case "fany":
		x := plainMore(v.Vs[0])
		return func() any { return x }
	}
	return v.plain()
}

// viaTemplate is rendered by executing a template
type viaTemplate struct {
	aitch.Node
	t *aitch.Template
}

func (n viaTemplate) Render(ctx *context.Context) error {
	return n.t.Execute(ctx.Writer, ctx.Data, ctx.Cargo)
}

// route renders a value by one of the ways there are
func route(k int, v V) (string, error) {
	x := plainMore(v)
	var buf bytes.Buffer
	ctx := context.New(&buf, nil, nil)
	var node aitch.Node
	strip := [2]string{}
	tag := func(pre, post string) { strip = [2]string{pre, post} }
	switch k {
	case 0:
		node = aitch.Text(x)
	case 1:
		node = aitch.Element("p", x)
		tag("<p>", "</p>")
	case 2:
		node = aitch.Text(aitch.NewValue(x))
	case 3:
		node = aitch.Text(aitch.NewConcatValue(x))
	case 4:
		node = aitch.Text(aitch.DynamicValueKey("k"))
		ctx.Data = map[string]any{"k": x}
	case 5:
		node = aitch.Text(aitch.DynamicValueKey("."))
		ctx.Cargo = x
	case 6:
		node = aitch.Text(func() any { return x })
	case 7:
		node = aitch.Attribute("a", x)
		tag(` a="`, `"`)
	case 8:
		node = aitch.DelimitedAttribute("a", "", x)
		tag(` a="`, `"`)
	case 9:
		node = aitch.Comment(x)
		tag("<!--", "-->")
	case 10:
		node = aitch.PI("x", x)
		tag("<!x ", ">\n")
	case 11:
		node = aitch.Fragment(x)
	case 12:
		node = html.Div(aitch.Collection(aitch.Text(x)))
		tag("<div>", "</div>")
	case 13:
		node = aitch.Iterate(func(*context.Context) []any { return []any{x} }, aitch.Text(aitch.DynamicValueKey(".")))
	case 14:
		node = aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(map[string]any{"k": x}) }, aitch.Text(aitch.DynamicValueKey("k")))
	case 15:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("p"), true, aitch.Attribute("a", x))
			return nil
		})
		tag(`<p a="`, `">`)
	case 16:
		node = html.Style(aitch.NewConcatValue(aitch.NewValue(x)))
		tag(` style="`, `"`)
	case 17:
		node = aitch.Text(aitch.NewConcatValue(nil, aitch.NewConcatValue(x), nil))
	case 18:
		node = aitch.ContentCollect(func(*context.Context) []aitch.Node { return []aitch.Node{aitch.Text(x)} })
	case 19:
		node = aitch.Conditional(func(*context.Context) bool { return true }, aitch.Text(aitch.Text(x)))
	case 20:
		node = aitch.Text(aitch.Collection(aitch.Collection(aitch.Text(x)), nil, aitch.Collection()))
	case 21:
		node = aitch.IterateKey("k", aitch.Text(aitch.DynamicValueKey(".")))
		ctx.Data = map[string]any{"k": []any{x}}
	case 22:
		t, err := aitch.NewTemplate("t", "<p>{{m .}}</p>", aitch.NodeMap{"m": aitch.Text(x)})
		if err != nil {
			return "", err
		}
		node = viaTemplate{aitch.Text(), t}
		tag("<p>", "</p>")
	case 23:
		node = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.WriteNodes(nil, aitch.Text(x))
			return nil
		})
	case 24:
		node = css.Color(x)
		tag(` style="color:`, `"`)
	case 25:
		node = aitch.Text(css.Px(x))
		tag("", "px")
	case 26:
		node = html.Document(nil, nil, []any{x})
		tag("<!DOCTYPE html>\n<html><body>", "</body></html>")
	case 27:
		node = htmx.Headers(htmx.HeadersMap{"a": x})
		tag(` hx-headers="{'a': `, `}"`)
	case 28:
		node = aitch.VoidElement("br", aitch.Conditional(func(*context.Context) bool { return true }, aitch.Attribute("a", x)))
		tag(`<br a="`, `">`)
	case 29:
		node = aitch.VoidElement("br", aitch.DelimitedAttribute("a", ""), aitch.Collection(aitch.DelimitedAttribute("a", "", x)))
		tag(`<br a="`, `">`)
	case 30:
		node = aitch.Text(aitch.NewValue(aitch.NewValue(aitch.Comment(x))))
	case 31:
		node = aitch.Text(htmx.Var("v", func() any { return func() any { return x } }))
		tag("v: ", "")
	}
	err := node.Render(ctx)
	got := buf.String()
	if !strings.HasPrefix(got, strip[0]) || !strings.HasSuffix(got[len(strip[0]):], strip[1]) {
		return got, fmt.Errorf("route %d writes %q", k, got)
	}
	got = got[len(strip[0]) : len(got)-len(strip[1])]
	if k == 16 || k == 24 { // a trailing delimiter is permitted
		got = strings.TrimSuffix(got, "; ")
		if e, ok := eff(v); ok && strings.HasSuffix(e, "; ") {
			got += "; "
		}
	}
	return got, err
}

func eff(v V) (string, bool) {
	if v.K == "fany" {
		return eff(v.Vs[0])
	}
	if v.K == "bytes" || v.K == "str" || v.K == "stringer" || v.K == "pstringer" {
		return bytesOf(v), true
	}
	return "", false
}

func checkA10(spec *ValueSpec, r *Rec) error {
	v := spec.V
	for v.K == "fany" {
		v = v.Vs[0]
	}
	r.Class("value:" + v.K)
	first := ""
	for i, k := range spec.Routes {
		got, err := route(k, spec.V)
		if err != nil {
			return err
		}
		if i == 0 {
			first = got
		} else if got != first {
			return fmt.Errorf("route %d writes %q, route %d writes %q", spec.Routes[0], first, k, got)
		}
		r.Class(fmt.Sprintf("route:%d", k))
	}
	r.Evals(len(spec.Routes) - 1)
	r.Sample(first)
	r.NonTrivial(len(spec.Routes) >= 2)
	bad := func(what string) error {
		return fmt.Errorf("%s: %s is written as %q", what, sketch(plainMore(v)), first)
	}
	switch v.K {
	case "bool":
		if want := map[bool]string{true: "true", false: "false"}[v.B]; first != want {
			return bad("bool")
		}
	case "int", "int8", "int16", "int32", "int64":
		n, err := strconv.ParseInt(first, 10, 64)
		if err != nil || n != v.I || first != fmt.Sprint(v.I) {
			return bad("integer")
		}
	case "uint", "uint8", "uint16", "uint32", "uint64":
		n, err := strconv.ParseUint(first, 10, 64)
		if err != nil || n != v.U || first != fmt.Sprint(v.U) {
			return bad("integer")
		}
	case "f32":
		return floatForm(first, float64(math.Float32frombits(uint32(v.U))), 32, bad)
	case "f64":
		return floatForm(first, math.Float64frombits(v.U), 64, bad)
	case "nbsp":
		n := int(v.I)
		if v.B {
			n = 1
		}
		if first != strings.Repeat("&nbsp;", max(n, 0)) {
			return bad(fmt.Sprintf("%d non-breaking spaces", n))
		}
	case "bytes":
		if first != string(v.S) {
			return bad("bytes")
		}
	case "str", "stringer", "pstringer":
		if xhtml.UnescapeString(first) != strings.ReplaceAll(string(v.S), "\x00", "") {
			return bad("text")
		}
	default:
		if first != "" {
			return bad("unsupported")
		}
	}
	return nil
}

// floatForm verifies that text is the shortest form of a float
func floatForm(text string, want float64, bits int, bad func(string) error) error {
	got, err := strconv.ParseFloat(text, bits)
	if err != nil {
		return bad("float")
	}
	if want != want {
		if got == got || text != "NaN" {
			return bad("NaN")
		}
		return nil
	}
	if got != want || math.Signbit(got) != math.Signbit(want) {
		return bad("float")
	}
	if math.IsInf(want, 0) || want == 0 {
		return nil
	}
	// no shorter form reads back the same
	if n := significantDigits(text); n > 1 {
		for k := 1; k < n; k++ {
			if f, _ := strconv.ParseFloat(strconv.FormatFloat(want, 'e', k-1, 64), bits); f == want {
				return bad(fmt.Sprintf("float (%d digits are enough)", k))
			}
		}
	}
	return nil
}

func significantDigits(s string) int {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		s = s[:i]
	}
	s = strings.TrimLeft(strings.ReplaceAll(strings.TrimLeft(s, "+-"), ".", ""), "0")
	return len(strings.TrimRight(s, "0"))
}

func init() {
	register("A01", "random trees with markup-significant text at every kind of place, tokenised by golang.org/x/net/html and compared with the same tree holding harmless texts; non-trivial: some text written contains a significant character", 36000, 200000, drawA01, checkA01).fixed = fixedA01
	register("A10", "random values of every supported type (and unsupported ones) by random pairs of 32 routes to the output, read back with strconv and compared between routes; non-trivial: at least two routes", 675000, 500000, drawA10, checkA10).fixed = fixedA10
}
