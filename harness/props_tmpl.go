package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/go-andiamo/aitch"
	"pgregory.net/rapid"
)

// ---- A12

type NameUse struct {
	Ctor string `json:"ctor"`
	Name Str    `json:"name"`
}

type NameSpec struct {
	Uses  []NameUse `json:"uses"`
	Panic bool      `json:"panic,omitempty"`
}

var oddChars = []string{"\n", "\r", "\t", " ", "\x00", "\x0b", "\x0c", "é", "\u212a", "\u017f", "\uff21", "٣", "\u200d", "ª", "/", ">", "<", "=", `"`, "'", "&", "\x7f", "\xff", "\xc3", "+", "@", "[", "`", "{", "^", "\\", "|", "~", ",", ";", "*", "(", "!", "#", "$", "%", "?", "\u00ad", "日", "]", "}", ")", "İ"}
var okChars = []string{".", "_", "-", ":", "0", "9", "a", "z", "A", "Z", "m"}

func drawA12(t *rapid.T) *NameSpec {
	g := newGen(t, opt{})
	s := &NameSpec{Panic: g.p(5)}
	for k := g.i(1, 6); k > 0; k-- {
		name := ""
		switch g.uni(8) {
		case 0:
			name = rapid.String().Draw(t, "name")
		case 1:
			name = string(rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "name"))
		case 2, 3:
			base := "area base br col embed hr img input link meta param source track wbr"
			name = pick(g, strings.Fields(base))
			b := []byte(name)
			for i := range b {
				if g.p(5) {
					b[i] -= 32
				}
			}
			name = string(b)
		default:
			name = rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9._:-]{0,8}`).Draw(t, "name")
		}
		if g.p(1) {
			name += strings.Repeat("x", g.i(1, 300))
			if g.p(2) {
				name = strings.Repeat(name, g.i(1, 300))
			}
		}
		if g.p(7) {
			c := pick(g, oddChars)
			switch g.uni(5) {
			case 0:
				c = pick(g, okChars)
			case 1:
				c = string([]byte{byte(g.uni(256))})
			}
			at := g.i(0, len(name))
			switch g.uni(4) {
			case 0:
				at = len(name)
			case 1:
				at = 0
			}
			name = name[:at] + c + name[at:]
		}
		s.Uses = append(s.Uses, NameUse{pick(g, []string{"Element", "VoidElement", "Attribute", "BooleanAttribute", "DelimitedAttribute"}), Str(name)})
	}
	return s
}

func validName(name string) bool {
	for i := 0; i < len(name); i++ {
		c := name[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if i == 0 && !letter {
			return false
		}
		if !letter && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' && c != ':' {
			return false
		}
	}
	return name != ""
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func checkA12(s *NameSpec, r *Rec) error {
	aitch.PanicOnInvalidName = s.Panic
	defer func() { aitch.PanicOnInvalidName = false }()
	nonTrivial := false
	for _, u := range s.Uses {
		name := string(u.Name)
		var node aitch.Node
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			switch u.Ctor {
			case "Element":
				node = aitch.Element(name, aitch.NewAttribute([]byte("a"), 1), "x")
			case "VoidElement":
				node = aitch.VoidElement(name, aitch.NewAttribute([]byte("a"), 1), "x")
			case "Attribute":
				node = aitch.Attribute(name, "x")
			case "BooleanAttribute":
				node = aitch.BooleanAttribute(name)
			case "DelimitedAttribute":
				node = aitch.DelimitedAttribute(name, ";", "x", "y")
			}
		}()
		valid := validName(name)
		what := fmt.Sprintf("%s(%q), PanicOnInvalidName %v", u.Ctor, name, s.Panic)
		if panicked != (s.Panic && !valid) {
			return fmt.Errorf("%s: panics: %v, the name is valid: %v", what, panicked, valid)
		}
		if (node != nil) != valid {
			return fmt.Errorf("%s: accepted: %v, the name is valid: %v", what, node != nil, valid)
		}
		r.Class(u.Ctor)
		want := "<div"
		if !valid {
			r.Class("invalid")
			nonTrivial = nonTrivial || len(name) > 1
		} else {
			if node.Name() != name {
				return fmt.Errorf("%s: the node's name is %q", what, node.Name())
			}
			void := u.Ctor == "VoidElement" || u.Ctor == "Element" && modelVoid[lowerASCII(name)]
			switch u.Ctor {
			case "Element", "VoidElement":
				if want += "><" + name + ` a="1">`; !void {
					want += "x</" + name + ">"
				} else if u.Ctor == "Element" {
					r.Class("void by name")
				}
			case "Attribute":
				want += " " + name + `="x">`
			case "BooleanAttribute":
				want += " " + name + ">"
			case "DelimitedAttribute":
				want += " " + name + `="x;y">`
			}
			nonTrivial = nonTrivial || len(name) > 1
		}
		if !strings.HasSuffix(want, ">") {
			want += ">"
		}
		want += "</div>"
		e := &Env{}
		got, _, err := e.render(aitch.NewElement([]byte("div"), node), Ctx{})
		if err != nil {
			return err
		}
		if got != want && !(u.Ctor == "DelimitedAttribute" && got == strings.Replace(want, `y"`, `y;"`, 1)) {
			return fmt.Errorf("%s renders %q, not %q", what, got, want)
		}
		r.Sample(clip(got))
	}
	r.Evals(len(s.Uses) - 1)
	r.NonTrivial(nonTrivial)
	return nil
}

// ---- A13

// Piece is part of a template's text: text data node (with $) attr (in a tag) inattr range if with sub
type Piece struct {
	K    string  `json:"k"`
	S    Str     `json:"s,omitempty"`
	I    int     `json:"i,omitempty"`
	Form int     `json:"form,omitempty"` // how the marker is given the context
	Kids []Piece `json:"kids,omitempty"`
	Else []Piece `json:"else,omitempty"`
}

type TmplSpec struct {
	Nodes  []N     `json:"nodes"`
	Pieces []Piece `json:"pieces"`
	Sub    []Piece `json:"sub,omitempty"`
	Ctxs   []Ctx   `json:"ctxs"`
	Fail   []int   `json:"fail,omitempty"`
	Errs   int     `json:"errs,omitempty"` // kind of error
	Broken string  `json:"broken,omitempty"`
	Names  bool    `json:"names,omitempty"`  // markers have all sorts of names
	Shift  int     `json:"shift,omitempty"`  // (starting with this one)
	Others []int   `json:"others,omitempty"` // other templates there are: 0 same text, other nodes; 1 more text; 2 no nodes; 3 other name
}

var tmplTexts = []string{"<p>hello</p>", "text & more ", "<div class='x'>", "</div>", " ", "<br>", "a\nb", "<ul><li>", "</li></ul>", "é日本", "}}", "<h1 title=\"t\">T</h1>"}
var brokenTexts = []string{"{{nope .}}", "{{nope}}", "{{n0 .", "{{end}}", "{{if}}{{end}}", "{{range .Data.list}}", "{{.Data.}}", "{{else}}", "{{template}}", "{{n0 . | nope}}", "{{\"}}", "{{define \"x\"}}"}

func (g *gen) pieces(depth, max, nodes int, sub bool) (r []Piece) {
	for k := g.n(1, max); k > 0; k-- {
		x := g.uni(10)
		if x == 2 && depth < 0 {
			x = 9
		}
		switch x {
		case 0, 1:
			r = append(r, Piece{K: "text", S: Str(pick(g, tmplTexts))})
		case 2:
			r = append(r, Piece{K: "data", S: Str(pick(g, []string{"sv", "sn"}))})
		case 3:
			r = append(r, Piece{K: "attr", I: g.uni(nodes), Form: g.uni(3)})
		case 4:
			r = append(r, Piece{K: "inattr", I: g.uni(nodes), Form: g.uni(3)})
		case 5, 6:
			if depth > 0 {
				p := Piece{K: pick(g, []string{"range", "if", "ifnot", "with", "rangeempty"}), Kids: g.pieces(depth-1, 3, nodes, sub)}
				if g.p(4) {
					p.Else = g.pieces(depth-1, 2, nodes, sub)
				}
				r = append(r, p)
				continue
			}
			fallthrough
		case 7:
			if sub {
				r = append(r, Piece{K: "sub"})
				continue
			}
			fallthrough
		default:
			r = append(r, Piece{K: "node", I: g.uni(nodes), Form: g.uni(3)})
		}
	}
	return r
}

func drawA13(t *rapid.T) *TmplSpec {
	g := newGen(t, opt{})
	g.o = opt{cust: g.p(4), custForms: true, depth: 2, budget: 10, cond: g.p(7), iter: g.p(7), imp: g.p(5), collect: g.p(5), doc: true, dyn: g.p(12), efn: g.p(6), nils: g.p(3), fns: g.p(5), safeText: g.p(5)}
	s := &TmplSpec{}
	if s.Names = g.p(3); s.Names {
		s.Shift = g.uni(len(markerNames))
	}
	k := g.i(1, 3)
	if g.p(1) {
		k += g.uni(12)
	}
	for ; k > 0; k-- {
		g.left = g.o.budget
		switch g.uni(6) {
		case 0, 1:
			s.Nodes = append(s.Nodes, g.attr())
		case 2:
			s.Nodes = append(s.Nodes, N{K: "text", Vals: g.valueItems(2, 3)})
		default:
			s.Nodes = append(s.Nodes, g.tree())
		}
	}
	bare := g.p(4) // nothing but text and markers, so any data will do
	depth := 2
	if bare {
		depth = -1
	}
	s.Pieces = g.pieces(depth, 5, len(s.Nodes), g.p(6))
	s.Sub = g.pieces(depth-1, 2, len(s.Nodes), false)
	for k := g.i(1, 3); k > 0; k-- {
		c := g.ctx()
		if bare {
			if g.p(5) {
				c = Ctx{NoData: true}
			}
			s.Ctxs = append(s.Ctxs, c)
			continue
		}
		if c.Data == nil {
			c = Ctx{Data: map[string]V{}, Cargo: c.Cargo}
		}
		c.Data["sv"] = V{K: "str", S: Str(pick(g, []string{"safe", "x y", ""}))}
		c.Data["sn"] = V{K: "int", I: int64(g.i(0, 9))}
		l := V{K: "list"}
		for j := g.i(0, 3); j > 0; j-- {
			l.Vs = append(l.Vs, V{K: "int", I: int64(j)})
		}
		c.Data["list"] = l
		c.Data["yes"] = V{K: "bool", B: g.bool()}
		s.Ctxs = append(s.Ctxs, c)
	}
	var ids []int
	for i := range s.Nodes {
		ids = append(ids, callbackIDs(&s.Nodes[i])...)
	}
	if len(ids) > 0 && g.p(8) {
		s.Fail = []int{pick(g, ids)}
	}
	if g.p(4) {
		s.Errs = g.uni(errKinds)
	}
	if g.p(3) {
		s.Broken = pick(g, brokenTexts)
	}
	for k := g.i(0, 3); k > 0; k-- {
		s.Others = append(s.Others, g.uni(4))
	}
	return s
}

// usable reports whether a node can be used at a place in a template
func (s *TmplSpec) usable(p Piece) bool {
	_, attr := isAttr(s.Nodes[p.I])
	switch p.K {
	case "attr":
		return attr
	case "inattr":
		return s.Nodes[p.I].K == "text"
	}
	return !attr
}

var markerNames = []string{"title", "n", "N", "Title", "node_a", "_x", "é", "n1", "n10", "titles", "日本", "aVeryLongNameForAMarkerThatStandsForSomethingOrOther", "x", "X", "x1",
	"len", "print", "index", "js", "slice", "eq", "printf", "call", "ge", "println", "p", "div", "script", "Context", "Data"}

func (s *TmplSpec) name(i int) string {
	if s.Names && i < len(markerNames) {
		return markerNames[(i+s.Shift)%len(markerNames)]
	}
	return fmt.Sprintf("n%d", 100*i)
}

// marker is the action for a node; dot tells whether dot is the context
func (s *TmplSpec) marker(p Piece, dot bool) string {
	switch {
	case p.Form == 1 && dot:
		return "{{" + s.name(p.I) + " .}}"
	case p.Form == 2:
		return "{{ $ | " + s.name(p.I) + " }}"
	}
	return "{{" + s.name(p.I) + " $}}"
}

func (s *TmplSpec) text(ps []Piece, dot bool, sb *strings.Builder) {
	for _, p := range ps {
		switch p.K {
		case "text":
			sb.WriteString(string(p.S))
		case "data":
			sb.WriteString("{{$.Data." + string(p.S) + "}}")
		case "node":
			if s.usable(p) {
				sb.WriteString(s.marker(p, dot))
			}
		case "attr":
			if s.usable(p) {
				sb.WriteString("<i" + s.marker(p, dot) + ">")
			}
		case "inattr":
			if s.usable(p) {
				sb.WriteString(`<i title="` + s.marker(p, dot) + `" x>`)
			}
		case "sub":
			sb.WriteString(`{{template "sub" $}}`)
		default:
			sb.WriteString(map[string]string{"range": "{{range $.Data.list}}", "if": "{{if $.Data.yes}}", "ifnot": "{{if not $.Data.yes}}", "with": "{{with $.Data.sv}}", "rangeempty": "{{range $i, $x := $.Data.none}}"}[p.K])
			s.text(p.Kids, dot && (p.K == "if" || p.K == "ifnot"), sb)
			if p.Else != nil {
				sb.WriteString("{{else}}")
				s.text(p.Else, dot, sb)
			}
			sb.WriteString("{{end}}")
		}
	}
}

func (s *TmplSpec) model(m *M, ps []Piece, c Ctx) {
	times := func(n int, p Piece) {
		for k := 0; k < n; k++ {
			s.model(m, p.Kids, c)
		}
		if n == 0 {
			s.model(m, p.Else, c)
		}
	}
	one := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	for _, p := range ps {
		switch p.K {
		case "text":
			m.w(string(p.S))
		case "data":
			m.w(bytesOf(c.Data[string(p.S)]))
		case "node":
			if s.usable(p) {
				m.f["markers"]++
				m.node(s.Nodes[p.I], c.model(), true)
			}
		case "attr":
			if s.usable(p) {
				m.f["markers"]++
				m.f["attribute marker"]++
				m.w("<i")
				m.node(s.Nodes[p.I], c.model(), true)
				m.w(">")
			}
		case "inattr":
			if s.usable(p) {
				m.f["markers"]++
				m.w(`<i title="`)
				m.node(s.Nodes[p.I], c.model(), true)
				m.w(`" x>`)
			}
		case "sub":
			s.model(m, s.Sub, c)
		case "range":
			times(len(c.Data["list"].Vs), p)
		case "rangeempty":
			times(0, p)
		case "if":
			times(one(c.Data["yes"].B), p)
		case "ifnot":
			times(one(!c.Data["yes"].B), p)
		case "with":
			times(one(c.Data["sv"].S != ""), p)
		}
	}
}

func (s *TmplSpec) build(e *Env) (string, aitch.NodeMap) {
	nm := aitch.NodeMap{}
	for i, n := range s.Nodes {
		nm[s.name(i)] = e.node(n)
	}
	var sb strings.Builder
	s.text(s.Pieces, true, &sb)
	sb.WriteString(`{{define "sub"}}`)
	s.text(s.Sub, true, &sb)
	sb.WriteString(`{{end}}`)
	return sb.String(), nm
}

func checkA13(s *TmplSpec, r *Rec) error {
	e := &Env{}
	text, nm := s.build(e)
	if s.Broken != "" {
		r.Class("rejected template")
		tmpl, err := aitch.NewTemplate("t", text+s.Broken, nm)
		if err == nil {
			return fmt.Errorf("template %q is accepted", text+s.Broken)
		}
		if tmpl != nil {
			return fmt.Errorf("template %q is returned along with the error %v", text+s.Broken, err)
		}
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			aitch.MustNewTemplate("t", text+s.Broken, nm)
		}()
		if !panicked {
			return fmt.Errorf("MustNewTemplate accepts %q", text+s.Broken)
		}
	}
	others := func(when string) error {
		for _, k := range s.Others {
			var err error
			var other *aitch.Template
			scrambled := aitch.NodeMap{}
			for key, n := range nm {
				if n != nil && n.Type() == aitch.AttributeNode {
					scrambled[key] = scrambledAttr
				} else if n != nil {
					scrambled[key] = scrambledNode
				}
			}
			switch k {
			case 0:
				other, err = aitch.NewTemplate("t", text, scrambled)
			case 1:
				other, err = aitch.NewTemplate("t", text+"more", nm)
			case 2:
				other, err = aitch.NewTemplate("t", "{{define \"sub\"}}nothing{{end}}", nil)
			case 3:
				other, err = aitch.NewTemplate("u", text, scrambled)
			}
			if err != nil {
				return fmt.Errorf("another template (%d), made %s that of %q, is rejected: %w", k, when, text, err)
			}
			if len(s.Ctxs) > 0 {
				if err := other.Execute(&bytes.Buffer{}, s.Ctxs[0].data(), nil); err != nil {
					return fmt.Errorf("another template (%d), made %s that of %q, fails: %w", k, when, text, err)
				}
			}
			r.Class("other template")
		}
		return nil
	}
	if err := others("before"); err != nil {
		return err
	}
	tmpl, err := aitch.NewTemplate("t", text, nm)
	if err != nil {
		return fmt.Errorf("template %q is rejected: %w", text, err)
	}
	if err := others("after"); err != nil {
		return err
	}
	for k := range nm {
		nm[k] = scrambledNode
	}
	markers := 0
	for round := 0; round < 2; round++ {
		for i, c := range s.Ctxs {
			m := newM(nil)
			s.model(m, s.Pieces, c)
			var buf bytes.Buffer
			if err := tmpl.Execute(&buf, c.data(), c.cargo()); err != nil {
				return fmt.Errorf("template %q, execution %d: %w", text, i, err)
			}
			if err := m.compare(buf.String()); err != nil {
				return fmt.Errorf("template %q, execution %d: %w", text, i, err)
			}
			markers += m.f["markers"]
			r.Classes(m.f)
			r.Sample(clip(buf.String()))
			r.Evals(1)
			if round > 0 {
				continue
			}
			// failing writes and callbacks
			n := 1 << 20
			writeErr := plannedErr(s.Errs, 0, "write failed")
			for at := 0; at <= n && at < 80; at++ {
				w := &faultWriter{at: map[int]error{}}
				if at > 0 {
					w.at[at] = writeErr
				}
				if at%2 == 1 {
					w.at[0] = writeErr
				}
				e.fail = map[int]error{}
				var first error
				written := 0
				for _, id := range s.Fail {
					e.fail[id] = plannedErr(s.Errs, id, fmt.Sprintf("callback %d failed", id))
				}
				e.onFail = func(err error) {
					if first == nil && len(w.calls) == w.okCalls() {
						first, written = err, w.buf.Len()
					}
				}
				var wr io.Writer = w
				if at%4 > 1 {
					wr = richWriter{w}
				}
				err := tmpl.Execute(wr, c.data(), c.cargo())
				e.fail, e.onFail = nil, nil
				r.Evals(1)
				if at == 0 {
					n = w.n
				}
				what := fmt.Sprintf("template %q, execution %d, write %d of %d fails, callbacks %v fail", text, i, at, n, s.Fail)
				if at > 0 && w.n >= at && first == nil {
					first, written = writeErr, w.buf.Len()
				}
				if (first == nil) != (err == nil) || first != nil && !isErr(err, first) {
					return fmt.Errorf("%s: Execute returned %v, the first error was %v", what, err, first)
				}
				if first != nil && w.buf.Len() != written {
					return fmt.Errorf("%s: written after the error: %q", what, w.buf.String()[written:])
				}
				if !strings.HasPrefix(buf.String(), w.buf.String()) {
					return fmt.Errorf("%s: wrote %q, which is not the beginning of %q", what, w.buf.String(), buf.String())
				}
				for j, call := range w.calls {
					if call.failed && j < len(w.calls)-1 {
						return fmt.Errorf("%s: write of %q after the failed one", what, w.calls[j+1].data)
					}
				}
				if first != nil && !sameErr(first, writeErr) {
					r.Class("callback error")
				}
			}
		}
	}
	r.NonTrivial(markers >= 2)
	return nil
}

func init() {
	register("A12", "random names (valid, nearly valid, arbitrary bytes, void element names in any case) given to the five checked constructors, with and without PanicOnInvalidName, compared with a hand-written scanner; non-trivial: some name of more than one byte", 180000, 400000, drawA12, checkA12).fixed = fixedA12
	register("A13", "random html/template texts with content and attribute markers inside range, if, with and sub-templates, executed repeatedly with random data and compared with the reference renderer, with every write failing and callbacks failing, and texts that do not parse; non-trivial: at least 2 markers rendered", 9000, 40000, drawA13, checkA13).fixed = largeTemplates
}
