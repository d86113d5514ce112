package main

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// opt selects what the tree generator may produce
type opt struct {
	depth, budget  int
	dyn            bool // dynamic values
	cond           bool // conditionals
	iter           bool // iterators
	imp            bool // imperative nodes
	collect        bool // content collectors
	doc            bool // documents (at top level)
	nils           bool // nil nodes and values
	count          bool // callbacks with side effects
	set            bool // callbacks that change the Data or Cargo
	efn            bool // callbacks that can be made to fail
	pool           int  // number of shared nodes
	mixed          bool // any kinds of attribute sharing a name, on elements without conditional attributes
	attrHeavy      bool
	condHeavy      bool
	fns            bool // helper functions
	noVals         bool // no bare values
	simpleNames    bool
	rawNames       bool // elements whose text browsers treat in their own ways
	safeText       bool // text without markup significance
	deepIter       bool
	noRawBytes     bool // bytes and callbacks write nothing of markup significance
	lowerAttrNames bool
	cust           bool // nodes that are not aitch's own
	custHeavy      bool // many of these
	custForms      bool // of several types
	self           bool // callbacks that render the whole template again
	noByteText     bool // no Stringers that are byte slices
	again          bool // the same node more than once in a row
}

type gen struct {
	t     *rapid.T
	o     opt
	left  int
	id    int
	kinds map[string]string // attribute name -> kind, so that a name is always of one kind
	iterD int
	// attributes are named n0, n1 ...
	manyNames int
	// shared nodes that can be used for their values
	valuePool []int
}

func newGen(t *rapid.T, o opt) *gen {
	return &gen{t: t, o: o, left: o.budget, kinds: map[string]string{}}
}

// i draws an int within a small range (inclusive)
func (g *gen) i(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, "i") }

// n draws how many of something there are (occasionally many)
func (g *gen) n(lo, hi int) int {
	if g.p(1) && g.bool() {
		return hi + g.uni(hi*6+6)
	}
	return g.i(lo, hi)
}

func (g *gen) bool() bool { return rapid.Bool().Draw(g.t, "b") }

// p is true with probability n/16
func (g *gen) p(n int) bool {
	return g.uni(16) >= 16-n
}

// uni draws uniformly below n (rapid's ranges are biased)
func (g *gen) uni(n int) int {
	if n <= 1 {
		return 0
	}
	bits, v := 1, 0
	for 1<<bits < n*4 && 1<<bits != n {
		bits++
	}
	for k := 0; k < bits; k++ {
		v <<= 1
		if g.bool() {
			v |= 1
		}
	}
	return v % n
}

func pick[T any](g *gen, s []T) T { return s[g.uni(len(s))] }

func (g *gen) nextID() int { g.id++; return g.id }

var frags = []string{`"`, `'`, `<`, `>`, `&`, "\x00", "-->", "--!>", "--", "-", "]]>", "</script>", "</title>", "<b>", "<!--", "&amp;", "&lt", "&#34;", "&quot;", "\r\n", "\r", "\n",
	" ", "a", "b", "Z9", "é", "日本", "\xff", "\xed\xa0\x80", "javascript:", "`", "=", "/", "/>", ";", ":", "{{", "}}", "x y", "\u2028", "\ufeff", "<\x00", "\x00>", "&\x00lt;", "onerror=", `" onload="`, "\t", "\\", "%s", "🙂",
	"&hellip;", "&nbsp;", "&#160;", "&#x27;", "{{.}}", "${x}", "<?", "?>", "http://a/?b=1&c=2", "null", "\u00a0", "\u200b", "\u0085", "\x0b", "\x0c", "\x1b", "\x7f"}

func (g *gen) text() Str {
	if g.o.safeText {
		return Str(pick(g, []string{"", "a", "b", "foo", "x y", "Z9", "é"}))
	}
	switch g.uni(8) {
	case 0:
		return Str(rapid.String().Draw(g.t, "s"))
	case 1:
		return Str(pick(g, []string{"", "a", "b", "foo"}))
	case 2, 3:
		return Str(pick(g, []string{"foo", "bar", "1", "x"}))
	}
	n := g.n(1, 4)
	var sb strings.Builder
	for k := 0; k < n; k++ {
		if g.p(1) {
			sb.WriteString("&" + pick(g, entityNames))
			continue
		}
		sb.WriteString(pick(g, frags))
	}
	if g.p(1) && g.p(4) {
		return Str(strings.Repeat(sb.String(), g.times()))
	}
	if g.p(1) && g.p(4) { // long and harmless, up to somewhere
		n := pick(g, []int{7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 65535})
		if n > 5000 && !g.p(4) {
			n /= 64
		}
		sb.WriteString(strings.Repeat("x", g.i(0, 3)))
		return Str(strings.Repeat(pick(g, []string{"x", "x", "x y ", "é"}), n/2) + strings.Repeat("y", n-n/2+g.i(0, 2)) + sb.String())
	}
	return Str(sb.String())
}

// times draws how often something is repeated so that it gets long
func (g *gen) times() int {
	return pick(g, []int{9, 17, 33, 65, 129, 300, 600, 1100}) + g.i(0, 3)
}

// long makes a name long (rarely)
func (g *gen) long(name string) string {
	if g.p(1) && g.p(4) {
		return strings.Repeat(name, g.times())
	}
	return name
}

// rawText is for bytes (which are written as they are)
func (g *gen) rawText() Str {
	if g.o.noRawBytes || g.o.safeText {
		return Str(pick(g, []string{"", "raw", "r w"}))
	}
	return g.text()
}

var dataKeys = []string{"a", "b", "c", "d", "k-1", "", "!x", ".a", "AA", "aa", "a.b", " a", "."}

func (g *gen) key() Str { return Str(pick(g, dataKeys)) }

var f64Pool = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, 1e21, 1e20, 1e-7, 123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 16777217, math.MaxFloat32, math.Pi}

var numKinds = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "f32", "f64"}

func (g *gen) num(k string) V {
	switch k {
	case "int", "int64":
		return V{K: k, I: rapid.Int64().Draw(g.t, "n")}
	case "int8":
		return V{K: k, I: int64(rapid.Int8().Draw(g.t, "n"))}
	case "int16":
		return V{K: k, I: int64(rapid.Int16().Draw(g.t, "n"))}
	case "int32":
		return V{K: k, I: int64(rapid.Int32().Draw(g.t, "n"))}
	case "uint", "uint64":
		return V{K: k, U: rapid.Uint64().Draw(g.t, "n")}
	case "uint8":
		return V{K: k, U: uint64(rapid.Uint8().Draw(g.t, "n"))}
	case "uint16":
		return V{K: k, U: uint64(rapid.Uint16().Draw(g.t, "n"))}
	case "uint32":
		return V{K: k, U: uint64(rapid.Uint32().Draw(g.t, "n"))}
	case "f32":
		switch g.uni(3) {
		case 0:
			return V{K: k, U: uint64(math.Float32bits(float32(pick(g, f64Pool))))}
		case 1:
			return V{K: k, U: uint64(rapid.Uint32().Draw(g.t, "bits"))}
		}
		return V{K: k, U: uint64(math.Float32bits(rapid.Float32().Draw(g.t, "n")))}
	}
	switch g.uni(3) {
	case 0:
		return V{K: "f64", U: math.Float64bits(pick(g, f64Pool))}
	case 1:
		return V{K: "f64", U: rapid.Uint64().Draw(g.t, "bits")}
	}
	return V{K: "f64", U: math.Float64bits(rapid.Float64().Draw(g.t, "n"))}
}

// scalar draws a plain value that is written as text
// stringer draws a Stringer of some type
func (g *gen) stringer() V {
	v := V{K: "stringer", S: g.text()}
	if g.p(6) {
		v.I = int64(g.uni(stringers))
		if v.I == 2 && g.o.noByteText {
			v.I = 0
		}
	}
	return v
}

// unsupported draws a value of one of these kinds
func (g *gen) unsupported(kinds ...string) V {
	v := V{K: pick(g, kinds), S: g.text()}
	if v.K == "named" {
		v.I = int64(g.uni(nameds))
	}
	return v
}

func (g *gen) scalar() V {
	switch g.uni(12) {
	case 0, 1, 2, 3:
		return V{K: "str", S: g.text()}
	case 4:
		return g.stringer()
	case 5:
		return V{K: "pstringer", S: g.text()}
	case 6:
		return V{K: "bytes", S: g.rawText()}
	case 7:
		return V{K: "bool", B: g.bool()}
	case 8:
		return V{K: "int", I: int64(g.i(-5, 100))}
	case 9:
		return g.num(pick(g, numKinds))
	case 10:
		return V{K: "fany", Vs: []V{g.scalar()}}
	}
	return V{K: "str", S: Str(pick(g, []string{"a", "b", "foo"}))}
}

// plainV draws any plain value
func (g *gen) plainV() V {
	switch g.uni(16) {
	case 0:
		return V{K: "nil"}
	case 1:
		return g.unsupported("named", "struct", "err", "cplx")
	case 2:
		return g.sliceV(1)
	case 3:
		return g.mapV(1)
	case 4, 5:
		return V{K: "bool", B: g.bool()}
	}
	return g.scalar()
}

func (g *gen) mapV(depth int) V {
	if g.p(1) {
		return V{K: "map", B: true}
	}
	n := g.i(0, 3)
	m := map[string]V{}
	for k := 0; k < n; k++ {
		key := string(g.key())
		switch {
		case depth > 0 && g.p(5):
			m[key] = g.sliceV(depth - 1)
		case g.p(5):
			m[key] = V{K: "bool", B: g.bool()}
		default:
			m[key] = g.scalar()
		}
	}
	return V{K: "map", M: m}
}

func (g *gen) sliceV(depth int) V {
	n := g.n(0, 4)
	k := pick(g, []string{"list", "list", "list", "strs", "nstrs", "arr", "pslice", "strers", "ints", "bools", "f64s", "maps", "bytes", "mss", "ptrs", "ifcs", "structs", "msss", "fanys", "lists", "nlist", "u64s"})
	switch k {
	case "bytes":
		return V{K: k, S: g.rawText()}
	case "mss":
		return V{K: k, M: map[string]V{string(g.key()): {K: "str", S: g.text()}}}
	}
	v := V{K: k}
	for j := 0; j < n; j++ {
		switch k {
		case "list":
			v.Vs = append(v.Vs, g.item(depth))
		case "strs", "nstrs", "arr", "pslice", "strers":
			v.Vs = append(v.Vs, V{K: "str", S: g.text()})
		case "ints":
			v.Vs = append(v.Vs, V{K: "int", I: int64(g.i(-3, 9))})
		case "bools":
			v.Vs = append(v.Vs, V{K: "bool", B: g.bool()})
		case "f64s":
			v.Vs = append(v.Vs, V{K: "f64", U: math.Float64bits(float64(g.i(-3, 9)) / 2)})
		case "maps":
			v.Vs = append(v.Vs, g.mapV(depth))
		case "ptrs":
			v.Vs = append(v.Vs, V{K: "pstr", S: g.text(), B: g.p(5)})
		case "ifcs":
			if g.p(5) {
				v.Vs = append(v.Vs, V{K: "nil"})
			} else {
				v.Vs = append(v.Vs, g.stringer())
			}
		case "fanys":
			v.Vs = append(v.Vs, V{K: "fany", Vs: []V{g.scalar()}})
		case "lists":
			v.Vs = append(v.Vs, V{K: "list", Vs: []V{g.scalar()}})
		case "nlist":
			v.Vs = append(v.Vs, g.item(depth))
		case "u64s":
			v.Vs = append(v.Vs, g.num("uint64"))
		case "structs":
			v.Vs = append(v.Vs, V{K: "struct", S: g.text()})
		case "msss":
			v.Vs = append(v.Vs, V{K: "mss", M: map[string]V{string(g.key()): {K: "str", S: g.text()}}})
		}
	}
	return v
}

// item draws an item to iterate over
func (g *gen) item(depth int) V {
	switch g.uni(8) {
	case 0:
		return V{K: "nil"}
	case 1, 2, 3:
		v := g.mapV(depth)
		if g.p(6) {
			v.K = pick(g, []string{"pmap", "nmap"}) // (no map[string]any)
		}
		return v
	case 4:
		if depth > 0 {
			return g.sliceV(depth - 1)
		}
	case 5:
		if g.p(3) {
			return V{K: "pstr", S: g.text(), B: g.bool()}
		}
		return g.unsupported("named", "struct", "mss", "err")
	}
	return g.scalar()
}

func (g *gen) ctx() Ctx {
	var c Ctx
	if g.p(1) {
		c.NoData = true
	} else {
		c.Data = map[string]V{}
		n := g.i(0, len(dataKeys))
		first := 0
		if g.p(4) {
			first = g.uni(len(dataKeys))
		}
		for k := first; k < first+n; k++ {
			c.Data[dataKeys[k%len(dataKeys)]] = g.dataV()
		}
	}
	if g.p(12) {
		v := g.item(1)
		c.Cargo = &v
	}
	c.Under = g.p(2)
	return c
}

func (g *gen) dataV() V {
	switch g.uni(8) {
	case 0, 1:
		return V{K: "bool", B: g.bool()}
	case 2:
		return g.sliceV(1)
	case 3:
		return g.plainV()
	}
	return g.scalar()
}

var unitNames = []string{"px", "pt", "pc", "in", "cm", "mm", "em", "rem", "%", "vw", "vh", "vmin", "vmax", "ch", "ex"}

// value draws content or an attribute value
func (g *gen) value(depth int) V {
	if g.o.nils && g.p(2) {
		return V{K: "nil"}
	}
	if depth > 0 && g.p(3) {
		switch g.uni(8) {
		case 0, 1:
			return V{K: "value", Vs: []V{g.value(depth - 1)}}
		case 2, 3, 4:
			return V{K: "concat", Vs: g.values(depth-1, 3)}
		case 5:
			return V{K: "text", Vs: g.values(depth-1, 2)}
		case 6:
			return V{K: "unit", S: Str(pick(g, unitNames)), Vs: g.values(depth-1, 2)}
		case 7:
			return V{K: "var", S: g.text(), Vs: []V{g.value(depth - 1)}}
		}
	}
	if g.o.dyn && g.p(6) {
		return g.dynamic()
	}
	return g.scalar()
}

func (g *gen) dynamic() V {
	id := g.nextID()
	if g.o.efn && g.p(5) {
		return V{K: "efn", S: "efn" + Str(rune('a'+id%26)), ID: id}
	}
	if g.o.self && g.p(3) {
		return V{K: "self", ID: id}
	}
	if g.o.count && g.p(4) {
		return V{K: "count", ID: id}
	}
	if g.o.set {
		switch g.uni(12) {
		case 0, 1:
			return V{K: "set", ID: id}
		case 2: // (what conditions see then isn't specified)
			return V{K: "set", ID: id, B: !g.o.cond}
		case 3, 4:
			return V{K: "key", S: "set"}
		case 5:
			return V{K: pick(g, []string{"dval", "up"}), S: "set", ID: id, I: int64(g.i(0, 1))}
		}
	}
	switch g.uni(8) {
	case 0, 1, 2:
		return V{K: "key", S: g.key()}
	case 3:
		return V{K: "key", S: "."}
	case 4:
		return V{K: "dval", S: g.key(), ID: id}
	case 5:
		return V{K: "cargo", ID: id}
	case 6:
		return V{K: "up", S: g.key(), I: int64(g.i(0, 3)), ID: id}
	}
	return V{K: pick(g, []string{"dfn", "rfn"}), S: g.rawText(), ID: id}
}

// valueItem draws what can be passed to attributes, text, etc. (which includes nodes used for their values)
func (g *gen) valueItem(depth int) V {
	if g.p(1) {
		switch g.uni(4) {
		case 0:
			return V{K: "elemv"}
		case 1:
			return V{K: pick(g, []string{"comm", "attrv"}), Vs: g.values(depth-1, 2)}
		case 2:
			return V{K: "ctext", Vs: g.values(depth-1, 2)}
		case 3:
			return g.unsupported("named", "struct", "err", "cplx", "list", "map")
		}
	}
	return g.value(depth)
}

func (g *gen) values(depth, max int) []V {
	n := g.n(0, max)
	if n == 0 && g.bool() {
		n = 1
	}
	r := make([]V, 0, n)
	for k := 0; k < n; k++ {
		r = append(r, g.value(depth))
	}
	return r
}

func (g *gen) valueItems(depth, max int) []V {
	n := g.n(0, max)
	if n == 0 && g.p(11) {
		n = 1
	}
	r := make([]V, 0, n)
	for k := 0; k < n; k++ {
		r = append(r, g.valueItem(depth))
	}
	return r
}

var elemNames = []string{"div", "p", "span", "ul", "li", "table", "x-y", "a", "H1", "section", "svg:g"}
var voidNames = []string{"br", "img", "input", "hr", "META", "wbr", "Link", "area", "base", "col", "embed", "link", "meta", "param", "source", "track", "BR", "wBr"}
var attrNames = []string{"id", "class", "style", "title", "data-x", "hidden", "x"}
var delims = []string{" ", "; ", ", ", "", "|", " "}

func (g *gen) elemName() Str {
	if !g.o.simpleNames && g.p(2) {
		return Str(g.long(rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9._:-]{0,6}`).Draw(g.t, "name")))
	}
	if g.o.rawNames && g.p(2) {
		return pick(g, rawElems)
	}
	return Str(pick(g, elemNames))
}

// attr draws an attribute
func (g *gen) attr() N {
	if g.o.fns && g.p(4) {
		return g.fnAttr()
	}
	name := pick(g, attrNames)
	if g.manyNames > 0 {
		name = "n" + strconv.Itoa(g.uni(g.manyNames))
	}
	if !g.o.simpleNames && g.p(1) {
		name = g.long(rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9._:-]{0,6}`).Draw(g.t, "name"))
		if g.o.lowerAttrNames {
			name = strings.ToLower(name)
		}
	}
	kind := g.kinds[name]
	if kind == "" || (g.o.mixed && g.p(4)) {
		k2 := pick(g, []string{"attr", "attr", "battr", "dattr", "dattr"})
		if k2 == "dattr" {
			k2 += pick(g, delims)
		}
		if kind == "" {
			g.kinds[name] = k2
		}
		kind = k2
	}
	if (kind == "attr" || kind == "battr") && g.p(3) { // these two can be mixed: the last wins
		kind = pick(g, []string{"attr", "battr"})
	}
	n := N{Name: Str(name), Chk: g.bool()}
	switch {
	case kind == "attr" && g.o.cust && (g.p(2) || g.o.custHeavy && g.p(5)):
		n.K, n.ID = "custattr", g.nextID()
		g.form(&n)
		n.Vals = g.valueItems(2, 3)
	case kind == "attr":
		n.K = "attr"
		n.Vals = g.valueItems(2, 3)
	case kind == "battr":
		n.K = "battr"
	default:
		n.K = "dattr"
		n.Delim = Str(kind[len("dattr"):])
		n.Vals = g.valueItems(2, 3)
	}
	return n
}

// manyAttrs draws many attributes (some of them of the same name)
func (g *gen) manyAttrs() (r []N) {
	g.manyNames = g.i(8, 40)
	for k := g.i(8, 60); k > 0; k-- {
		a := g.attr()
		if len(a.Vals) > 2 {
			a.Vals = a.Vals[:2]
		}
		r = append(r, a)
	}
	g.manyNames = 0
	return r
}

var fnAttrs = []string{"html.Class", "html.Style", "html.Id", "html.Href", "html.Disabled", "html.Title", "svg.Fill", "svg.Class", "svg.Style", "htmx.Trigger", "htmx.Get", "htmx.Vars"}

func (g *gen) fnAttr() N {
	h := helperIndex[pick(g, fnAttrs)]
	n := N{Fn: h.Pkg + "." + h.Func, Name: Str(h.Name), Delim: Str(h.Delim)}
	kind := ""
	switch h.Kind {
	case "attr":
		n.K, kind = "attr", "attr"
		n.Vals = g.valueItems(2, 3)
	case "bool":
		n.K, kind = "battr", "battr"
	case "delim":
		n.K, kind = "dattr", "dattr"+h.Delim
		n.Vals = g.valueItems(2, 3)
	}
	if have := g.kinds[h.Name]; have == "" {
		g.kinds[h.Name] = kind
	} else if have != kind && !g.o.mixed {
		return N{K: "text"}
	}
	return n
}

// kids draws the contents of something
func (g *gen) kids(depth, max int, attrs, vals bool) []N {
	r := g.kidsOnce(depth, max, attrs, vals)
	if g.o.again && len(r) > 0 && g.p(1) {
		at := g.uni(len(r))
		n := g.i(1, 3)
		if g.p(3) {
			n += g.uni(40)
		}
		tail := append([]N(nil), r[at+1:]...)
		r = r[:at+1]
		for k := 0; k < n; k++ {
			r = append(r, N{K: "again"})
		}
		r = append(r, tail...)
	}
	return r
}

func (g *gen) kidsOnce(depth, max int, attrs, vals bool) []N {
	n := g.n(0, max)
	if n > max && g.left > 0 { // many, but small
		r := make([]N, 0, n)
		for k := 0; k < n; k++ {
			r = append(r, g.node(0, attrs, vals))
		}
		return r
	}
	r := make([]N, 0, n)
	for k := 0; k < n && g.left > 0; k++ {
		r = append(r, g.node(depth, attrs, vals))
	}
	return r
}

var fnElems = []string{"html.Div", "html.P", "html.Br", "html.Span", "svg.Circle", "html.Img", "html.Li", "svg.Svg", "svg.G"}

// node draws a node; attrs: attributes may be among the nodes; vals: so may bare values
func (g *gen) node(depth int, attrs, vals bool) N {
	g.left--
	if g.o.nils && g.p(3) {
		return N{K: "nil"}
	}
	if g.o.pool > 0 && g.p(5) {
		return N{K: "ref", Ref: g.uni(g.o.pool)}
	}
	an := 3
	if g.o.attrHeavy {
		an = 8
	}
	if attrs && g.p(an) || !attrs && g.p(1) {
		return g.attr()
	}
	if depth <= 0 {
		return g.leaf(vals)
	}
	type choice struct {
		w int
		k string
	}
	cs := []choice{{5, "elem"}, {2, "coll"}, {3, "leaf"}}
	if g.o.cond {
		w := 2
		if g.o.condHeavy {
			w = 8
		}
		cs = append(cs, choice{w, "cond"})
	}
	if g.o.iter {
		w := 2
		if g.o.deepIter {
			w = 6
		}
		cs = append(cs, choice{w, "iter"})
	}
	if g.o.collect {
		cs = append(cs, choice{1, "collect"})
	}
	if g.o.cust {
		w := 1
		if g.o.custHeavy {
			w = 8
		}
		cs = append(cs, choice{w, "cust"})
	}
	if g.o.imp {
		cs = append(cs, choice{1, "imp"})
	}
	total := 0
	for _, c := range cs {
		total += c.w
	}
	x := g.uni(total)
	k := ""
	for _, c := range cs {
		if x < c.w {
			k = c.k
			break
		}
		x -= c.w
	}
	switch k {
	case "elem":
		return g.elem(depth)
	case "coll":
		if g.o.doc && g.p(2) {
			return g.document(depth)
		}
		return N{K: "coll", Kids: g.kids(depth-1, 4, attrs, false)}
	case "cond":
		return g.conditional(depth, attrs)
	case "iter":
		return g.iterator(depth)
	case "collect":
		return N{K: "collect", ID: g.nextID(), Kids: g.kids(depth-1, 3, false, false)}
	case "cust":
		n := N{K: "cust", ID: g.nextID(), Kids: g.kids(depth-1, 3, false, false)}
		g.form(&n)
		return n
	case "imp":
		return g.imp(depth)
	}
	return g.leaf(vals)
}

// form draws what type of user-defined node a node is of, and how it reports errors
func (g *gen) form(n *N) {
	n.Chk = g.bool()
	if g.o.custForms {
		n.Form = g.uni(6)
	}
}

func (g *gen) elem(depth int) N {
	if g.p(3) {
		if g.o.fns && g.bool() {
			return N{K: "velem", Fn: "html.Br", Name: "br", Kids: g.kids(depth-1, 4, true, true)}
		}
		return N{K: pick(g, []string{"velem", "vel", "el"}), Name: Str(pick(g, voidNames)), Kids: g.kids(depth-1, 4, true, true)}
	}
	if g.o.fns && g.p(4) {
		h := helperIndex[pick(g, fnElems)]
		k := "elem"
		if h.Kind == "void" {
			k = "velem"
		}
		return N{K: k, Fn: h.Pkg + "." + h.Func, Name: Str(h.Name), Kids: g.kids(depth-1, 5, true, !g.o.noVals)}
	}
	return N{K: pick(g, []string{"elem", "el"}), Name: g.elemName(), Kids: g.kids(depth-1, 5, true, !g.o.noVals)}
}

func (g *gen) conditional(depth int, attrs bool) N {
	kids := g.kids(depth-1, 4, attrs, false)
	if g.p(6) {
		key := g.key()
		if g.bool() {
			key = "!" + key
		}
		return N{K: "when", Key: key, Kids: kids}
	}
	c := &Cond{ID: g.nextID()}
	switch g.uni(8) {
	case 0:
		c.K = "true"
	case 1:
		c.K = "false"
	case 2, 3:
		c.K, c.S = "key", g.key()
	case 4, 5:
		c.K, c.S = "has", g.key()
	case 6:
		c.K = pick(g, []string{"nil", "depth"})
	case 7:
		c.K, c.S = "cargo", Str(pick(g, []string{"a", "b", "foo", ""}))
	}
	return N{K: "cond", C: c, Kids: kids}
}

// condNest draws an element with conditionals nested and next to one another
func (g *gen) condNest() N {
	k := pick(g, []string{"elem", "elem", "el", "velem"})
	n := N{K: k, Name: "p"}
	if k == "velem" {
		n.Name = "br"
	}
	n.Kids = g.condKids(g.i(2, 6), true)
	if g.p(8) {
		n.Kids = append(n.Kids, g.attr())
	}
	if g.p(8) {
		n.Kids = append([]N{g.attr()}, n.Kids...)
	}
	return n
}

func (g *gen) condKids(depth int, top bool) (r []N) {
	m := 1
	for m < 4 && g.bool() {
		m++
	}
	for k := 0; k < m; k++ {
		x := g.uni(16)
		switch {
		case depth > 0 && x < 9 && g.left > -40:
			g.left--
			c := g.condition()
			if g.p(3) {
				key := g.key()
				if g.bool() {
					key = "!" + key
				}
				r = append(r, N{K: "when", Key: key, Kids: g.condKids(depth-1, false)})
			} else {
				r = append(r, N{K: "cond", C: c, Kids: g.condKids(depth-1, false)})
			}
		case depth > 0 && x < 10:
			r = append(r, N{K: "coll", Kids: g.condKids(depth-1, false)})
		case depth > 0 && x < 11:
			r = append(r, N{K: "elem", Name: "b", Kids: g.condKids(depth-1, true)})
		case x < 14:
			r = append(r, g.attr())
		default:
			r = append(r, N{K: "text", Vals: []V{{K: "int", I: int64(g.nextID())}}})
		}
	}
	return r
}

// condition draws one that's more often true than not
func (g *gen) condition() *Cond {
	c := &Cond{ID: g.nextID()}
	switch g.uni(12) {
	case 0, 1, 2, 3, 4:
		c.K = "true"
	case 5:
		c.K = "false"
	case 6, 7:
		c.K, c.S = "key", g.key()
	case 8, 9:
		c.K, c.S = "has", g.key()
	case 10:
		c.K = pick(g, []string{"nil", "depth"})
	case 11:
		c.K, c.S = "cargo", Str(pick(g, []string{"a", "b", "foo", ""}))
	}
	return c
}

func (g *gen) iterator(depth int) N {
	k := pick(g, []string{"iter", "iterkey", "yield"})
	n := N{K: k, ID: g.nextID()}
	if k == "iterkey" {
		n.Key = g.key()
	} else {
		m := g.i(0, 4)
		if g.iterD == 0 {
			m = g.n(0, 4)
		}
		for j := 0; j < m; j++ {
			n.Items = append(n.Items, g.item(1))
		}
		if k == "yield" && g.o.efn && g.bool() {
			n.Form = g.i(1, len(n.Items)+1)
		}
	}
	g.iterD++
	n.Kids = g.kids(depth-1, 3, false, false)
	g.iterD--
	return n
}

func (g *gen) imp(depth int) N {
	n := N{K: "imp", ID: g.nextID()}
	m := g.n(0, 7)
	for j := 0; j < m; j++ {
		n.Ops = append(n.Ops, g.op(depth))
	}
	return n
}

func (g *gen) op(depth int) Op {
	switch g.uni(10) {
	case 0, 1, 2:
		op := Op{K: "start", S: g.elemName(), Void: g.p(4)}
		if g.p(3) {
			op.S = Str(pick(g, voidNames))
		}
		k := g.i(0, 3)
		if g.p(3) {
			k = g.i(4, 9)
		}
		for j := 0; j < k; j++ {
			g.left--
			if g.p(14) {
				op.N = append(op.N, g.attr())
			} else if g.o.nils {
				op.N = append(op.N, N{K: "nil"})
			} else {
				op.N = append(op.N, N{K: "elem", Name: "ignored"})
			}
		}
		return op
	case 3, 4:
		return Op{K: "end"}
	case 5:
		return Op{K: "endall"}
	case 6:
		return Op{K: "str", S: g.text()}
	case 7:
		return Op{K: "raw", S: g.rawText()}
	case 8:
		return Op{K: "nodes", N: g.kids(depth-1, 2, false, false)}
	}
	if g.o.efn && g.bool() {
		return Op{K: "err", ID: g.nextID(), Void: g.p(6)}
	}
	if g.o.dyn {
		return Op{K: "ctx"}
	}
	return Op{K: "end"}
}

func (g *gen) leaf(vals bool) N {
	if vals && g.p(7) {
		v := g.value(2)
		if v.K == "nil" {
			return N{K: "nil"}
		}
		return N{K: "val", Vals: []V{v}}
	}
	switch g.uni(8) {
	case 0:
		return N{K: "comment", Vals: g.valueItems(2, 2)}
	case 1:
		if g.bool() {
			return N{K: "doctype"}
		}
		return N{K: "pi", Name: Str(pick(g, []string{"DOCTYPE", "x", "ELEMENT"})), Vals: g.valueItems(1, 2)}
	case 2:
		return N{K: "frag", Vals: g.valueItems(2, 3)}
	case 3:
		if g.o.nils && g.bool() {
			return N{K: pick(g, []string{"collectnil", "impnil"})}
		}
		return N{K: "elem", Name: g.elemName()}
	}
	return N{K: "text", Vals: g.valueItems(2, 3)}
}

// tree draws a whole template
func (g *gen) document(depth int) N {
	n := N{K: "doc", Head: g.kids(depth-2, 3, true, true), Kids: g.kids(depth-1, 5, true, true)}
	if g.bool() {
		n.Vals = []V{g.value(1)}
	}
	return n
}

func (g *gen) tree() N {
	if g.o.doc && g.p(2) {
		return g.document(g.o.depth)
	}
	var n N
	if g.p(10) {
		g.left--
		n = g.elem(g.o.depth)
	} else {
		n = g.node(g.o.depth, true, false)
	}
	n = g.deep(n)
	if n.K == "nil" || n.K == "ref" || n.K == "cust" || n.K == "custattr" {
		return N{K: "coll", Kids: []N{n}}
	}
	return n
}

// deep puts a node (rarely) deep within others
func (g *gen) deep(n N) N {
	if !(g.p(1) && g.p(6)) {
		return n
	}
	kinds := []string{"elem", "elem", "coll"}
	if g.o.cond {
		kinds = append(kinds, "cond", "cond")
	}
	if g.o.iter {
		kinds = append(kinds, "iter", "yield")
	}
	if g.o.collect {
		kinds = append(kinds, "collect")
	}
	if g.o.cust {
		kinds = append(kinds, "cust")
	}
	if g.o.imp {
		kinds = append(kinds, "imp")
	}
	if g.bool() { // few kinds
		kinds = []string{pick(g, kinds), pick(g, kinds)}
	}
	depth := pick(g, []int{4, 8, 16, 32, 64}) + g.i(0, 8)
	for k := 0; k < depth; k++ {
		in := []N{n}
		kind := pick(g, kinds)
		if g.p(2) && kind != "imp" {
			x := N{K: "text", Vals: []V{{K: "int", I: int64(k)}}}
			if (kind == "elem" || kind == "coll" || kind == "cond") && g.bool() {
				x = g.attr()
			}
			if g.bool() {
				in = append(in, x)
			} else {
				in = []N{x, n}
			}
		}
		w := N{K: kind, Kids: in}
		switch kind {
		case "elem":
			w.K, w.Name = pick(g, []string{"elem", "el"}), Str(pick(g, elemNames))
		case "cond":
			w.C = g.condition()
			if !g.p(1) {
				w.C.K = "true"
			}
		case "iter", "yield":
			w.ID, w.Items = g.nextID(), []V{g.item(0)}
		case "collect":
			w.ID = g.nextID()
		case "cust":
			w.ID = g.nextID()
			g.form(&w)
		case "imp":
			w.ID, w.Kids, w.Ops = g.nextID(), nil, []Op{{K: "nodes", N: in}}
		}
		n = w
	}
	return n
}
