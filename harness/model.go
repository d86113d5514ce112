package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// The reference renderer: what a spec should render to. It shares no code with aitch.

func escape(s string) string {
	return strings.NewReplacer("\x00", "", `"`, "&quot;", "'", "&apos;", "&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// mctx is the model of a rendering context
type mctx struct {
	data   map[string]V
	cargo  *V
	parent *mctx
}

func (c Ctx) model() *mctx {
	m := &mctx{data: make(map[string]V, len(c.Data)), cargo: c.Cargo}
	for k, v := range c.Data { // (callbacks may set it)
		m.data[k] = v
	}
	if c.NoData {
		m.data = nil
	}
	return m
}

func (m *mctx) cargoPlain() any {
	if m.cargo == nil {
		return nil
	}
	return m.cargo.plain()
}

func (m *mctx) dataPlain() map[string]any {
	return Ctx{Data: m.data}.data()
}

func (m *mctx) sig() string {
	depth := 0
	for p := m.parent; p != nil; p = p.parent {
		depth++
	}
	return fmt.Sprintf("%d|%s|%s", depth, sketch(m.cargoPlain()), sketchMap(m.dataPlain()))
}

// seg is a piece of expected output (optional ones may or may not be there)
type seg struct {
	s   string
	opt bool
}

type M struct {
	pool    []N
	vpool   []V
	slices  [][]V
	kslices [][]N
	out     []seg
	fail    map[int]error
	err     error // the first error
	trace   []string
	traceOn bool
	counter int
	conds   map[int]map[string][]bool // condition id -> context signature -> may it be evaluated there?
	// flags of what has been exercised
	f map[string]int
}

func newM(pool []N) *M { return &M{pool: pool, f: map[string]int{}} }

func (m *M) w(s string) {
	if m.err == nil {
		m.out = append(m.out, seg{s: s})
	}
}

func (m *M) wOpt(s string) {
	if m.err == nil && s != "" {
		m.out = append(m.out, seg{s: s, opt: true})
	}
}

func (m *M) log(kind string, id int, c *mctx) {
	if m.err == nil {
		if m.traceOn {
			m.trace = append(m.trace, fmt.Sprintf("%s#%d@%s", kind, id, c.sig()))
		}
	}
}

func (m *M) failAt(id int) {
	if m.err == nil && m.fail != nil {
		if e := m.fail[id]; e != nil {
			m.err = e
		}
	}
}

// text is the expected output with optional pieces left out
func (m *M) text() string {
	var sb strings.Builder
	for _, s := range m.out {
		if !s.opt {
			sb.WriteString(s.s)
		}
	}
	return sb.String()
}

// matches compares actual output with the expected segments
func (m *M) matches(got string) bool {
	pos := map[int]bool{0: true}
	for _, s := range m.out {
		next := make(map[int]bool, len(pos))
		for p := range pos {
			if s.opt {
				next[p] = true
			}
			if strings.HasPrefix(got[p:], s.s) {
				next[p+len(s.s)] = true
			}
		}
		if len(next) == 0 {
			return false
		}
		pos = next
	}
	return pos[len(got)]
}

func (m *M) compare(got string) error {
	if m.matches(got) {
		return nil
	}
	return fmt.Errorf("output differs\n  got:  %q\n  want: %q", got, m.text())
}

// bytesOf is the text of a plain value
func bytesOf(v V) string {
	switch v.K {
	case "str", "stringer", "pstringer":
		return escape(string(v.S))
	case "bytes":
		return string(v.S)
	case "bool":
		if v.B {
			return "true"
		}
		return "false"
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
		return fmt.Sprintf("%d", v.plain())
	case "f32":
		return strconv.FormatFloat(float64(math.Float32frombits(uint32(v.U))), 'g', -1, 32)
	case "f64":
		return strconv.FormatFloat(math.Float64frombits(v.U), 'g', -1, 64)
	case "fany":
		return bytesOf(v.Vs[0])
	}
	return ""
}

type mval func(c *mctx) string

func constVal(s string) mval { return func(*mctx) string { return s } }

// flatten is the list of values that a content item stands for
func (m *M) flatten(v V) []mval {
	switch v.K {
	case "nil", "elemv":
		return nil
	case "key":
		return []mval{func(c *mctx) string {
			if v.S == "." {
				if c.cargo == nil {
					return ""
				}
				return bytesOf(*c.cargo)
			}
			if x, ok := c.data[string(v.S)]; ok {
				return bytesOf(x)
			}
			return ""
		}}
	case "dfn", "rfn":
		return []mval{func(c *mctx) string { m.log(v.K, v.ID, c); return string(v.S) }}
	case "dval":
		return []mval{func(c *mctx) string {
			m.log(v.K, v.ID, c)
			if x, ok := c.data[string(v.S)]; ok && x.K == "str" {
				return escape(string(x.S))
			}
			if c.cargo != nil && (c.cargo.K == "map" || c.cargo.K == "pmap" || c.cargo.K == "nmap" || c.cargo.K == "mss") {
				if x, ok := c.cargo.M[string(v.S)]; ok && (x.K == "str" || c.cargo.K == "mss") {
					return escape(string(x.S))
				}
			}
			if c.cargo != nil && c.cargo.K == "struct" && v.S == "A" {
				return escape(string(c.cargo.S))
			}
			return ""
		}}
	case "cargo":
		return []mval{func(c *mctx) string { m.log(v.K, v.ID, c); return escape(sketch(c.cargoPlain())) }}
	case "up":
		return []mval{func(c *mctx) string {
			m.log(v.K, v.ID, c)
			for i := int64(0); i < v.I && c != nil; i++ {
				c = c.parent
			}
			if c == nil {
				return "none"
			}
			return escape(sketch(c.cargoPlain()) + "/" + sketch(c.dataPlain()[string(v.S)]))
		}}
	case "count":
		return []mval{func(c *mctx) string {
			m.log(v.K, v.ID, c)
			if m.err == nil {
				m.counter++
			}
			return fmt.Sprint(m.counter)
		}}
	case "set":
		return []mval{func(c *mctx) string {
			m.log(v.K, v.ID, c)
			if m.err != nil {
				return ""
			}
			m.counter++
			x := V{K: "int", I: int64(m.counter)}
			if v.B {
				c.cargo = &x
				return "C"
			}
			for c.parent != nil {
				c = c.parent
			}
			if c.data != nil {
				c.data["set"] = x
				m.f["data set"]++
			}
			return "S"
		}}
	case "self":
		return []mval{func(c *mctx) string { m.log(v.K, v.ID, c); return "self" }}
	case "efn":
		return []mval{func(c *mctx) string {
			m.log(v.K, v.ID, c)
			if m.failAt(v.ID); m.err != nil {
				return ""
			}
			return string(v.S)
		}}
	case "vref":
		return m.flatten(m.vpool[v.I])
	case "nref":
		return m.flattenNode(m.pool[v.I])
	case "value", "concat":
		return []mval{m.join(m.flattenAll(m.vs(v)))}
	case "text", "comm", "attrv", "ctext":
		return m.flattenAll(m.vs(v))
	case "unit":
		return []mval{m.join(append(m.flattenAll(m.vs(v)), constVal(string(v.S))))}
	case "var":
		return []mval{m.join(append([]mval{constVal(escape(string(v.S))), constVal(": ")}, m.flatten(v.Vs[0])...))}
	}
	return []mval{constVal(bytesOf(v))}
}

// flattenNode is the list of values that a node stands for when it's used as a value
func (m *M) flattenNode(n N) (r []mval) {
	n = m.deref(n)
	switch n.K {
	case "attr", "dattr", "data", "aria", "hxon", "text", "val", "comment", "frag", "pi":
		return m.flattenAll(n.Vals)
	case "doctype":
		return []mval{constVal("html")}
	case "coll":
		for _, k := range n.Kids {
			r = append(r, m.flattenNode(k)...)
		}
	}
	return r
}

func (m *M) join(vs []mval) mval {
	return func(c *mctx) string {
		s := ""
		for _, v := range vs {
			if m.err != nil {
				break
			}
			s += v(c)
		}
		return s
	}
}

func (m *M) flattenAll(vs []V) (r []mval) {
	for _, v := range vs {
		r = append(r, m.flatten(v)...)
	}
	return r
}

func (m *M) values(vs []V, c *mctx) {
	for _, f := range m.flattenAll(vs) {
		if m.err != nil {
			return
		}
		m.raw(f(c), false)
	}
}

// deref resolves shared nodes and shared argument slices
func (m *M) deref(n N) N {
	for n.K == "ref" {
		n = m.pool[n.Ref]
	}
	if n.K == "headers" || n.K == "headersjs" {
		n = headersAttr(n)
	}
	if n.SR > 0 {
		switch n.K {
		case "attr", "dattr", "text", "comment", "frag", "pi":
			if helperIndex[n.Fn] != nil && helperIndex[n.Fn].Kind == "style" {
				n.Vals = []V{{K: "concat", Vs: append([]V{n.Vals[0].Vs[0]}, m.slices[n.SR-1][:n.SN]...)}}
			} else {
				n.Vals = m.slices[n.SR-1][:n.SN]
			}
		default:
			n.Kids = m.kslices[n.SR-1][:n.SN]
		}
		n.SR = 0
	}
	return n
}

// headersAttr is the plain attribute that headers stand for
func headersAttr(n N) N {
	r := N{K: "attr", Name: "hx-headers"}
	if n.K == "headers" && (len(n.Vals) == 0 || n.Vals[0].K != "hmap") {
		r.Vals = n.Vals
		return r
	}
	merged := map[string]V{}
	for _, v := range n.Vals {
		for k, x := range v.M {
			merged[k] = x
		}
	}
	keys := make([]string, 0, len(merged))
	for k := range merged {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	open, sep := "{", "'"
	if n.K == "headersjs" {
		open = "js:{"
	}
	all := []V{{K: "bytes", S: Str(open)}}
	for _, k := range keys {
		all = append(all, V{K: "bytes", S: Str(sep)}, V{K: "str", S: Str(k)}, V{K: "bytes", S: "': "}, merged[k])
		sep = ", '"
	}
	r.Vals = []V{{K: "concat", Vs: append(all, V{K: "bytes", S: "}"})}}
	return r
}

func (m *M) vs(v V) []V {
	if v.SR > 0 {
		return m.slices[v.SR-1][:v.SN]
	}
	return v.Vs
}

var modelVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true,
	"input": true, "link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

// isAttr reports the attribute name of an attribute node
func isAttr(n N) (name string, ok bool) {
	switch n.K {
	case "attr", "battr", "dattr", "custattr":
		return string(n.Name), true
	case "data":
		return "data-" + string(n.Name), true
	case "aria":
		return "aria-" + string(n.Name), true
	case "hxon":
		return "hx-on:" + string(n.Name), true
	}
	return "", false
}

func (m *M) evalCond(cond *Cond, c *mctx) bool {
	m.failAt(cond.ID)
	switch cond.K {
	case "true", "nil":
		return true
	case "key":
		x, ok := c.data[string(cond.S)]
		return ok && x.K == "bool" && x.B
	case "has":
		_, ok := c.data[string(cond.S)]
		return ok
	case "cargo":
		return c.cargo != nil && c.cargo.K == "str" && c.cargo.S == cond.S
	case "depth":
		return c.parent != nil
	}
	return false
}

func evalWhen(key string, c *mctx) bool {
	neg := strings.HasPrefix(key, "!")
	if neg {
		key = key[1:]
	}
	x, ok := c.data[key]
	res := ok && !(x.K == "bool" && !x.B)
	return res != neg
}

func (m *M) holds(n N, c *mctx) bool {
	if n.K == "when" {
		return evalWhen(string(n.Key), c)
	}
	return m.evalCond(n.C, c)
}

func (m *M) static(n N) bool { return n.K == "cond" && n.C.K == "nil" }

// attrDecl is an attribute declared among the contents of an element
type attrDecl struct {
	n     N
	name  string
	conds []N // the conditionals enclosing it
}

func (m *M) declared(kids []N, conds []N) (r []attrDecl) {
	for _, k := range kids {
		k = m.deref(k)
		if name, ok := isAttr(k); ok {
			r = append(r, attrDecl{k, name, conds})
			continue
		}
		switch {
		case k.K == "coll" || m.static(k):
			r = append(r, m.declared(k.Kids, conds)...)
		case k.K == "cond" || k.K == "when":
			r = append(r, m.declared(k.Kids, append(append([]N(nil), conds...), k))...)
		}
	}
	return r
}

// attrs renders the attributes of an element
func (m *M) attrs(kids []N, c *mctx) {
	decls := m.declared(kids, nil)
	type final struct {
		name  string
		decls []N // more than one only if delimited
	}
	var finals []*final
	index := map[string]*final{}
	add := func(n N, name string) {
		f, ok := index[name]
		if !ok {
			f = &final{name: name}
			index[name] = f
			finals = append(finals, f)
		}
		if ok && len(f.decls) > 0 && f.decls[0].K == "dattr" && n.K == "dattr" {
			f.decls = append(f.decls, n)
			m.f["merged"]++
		} else {
			if ok {
				m.f["lastwins"]++
			}
			f.decls = []N{n}
		}
	}
	for _, d := range decls {
		if len(d.conds) == 0 {
			add(d.n, d.name)
		}
	}
	for _, d := range decls {
		if len(d.conds) > 0 {
			active := true
			for _, cn := range d.conds {
				if !m.holds(cn, c) {
					active = false
					break
				}
			}
			if active {
				m.f["condattr"]++
				add(d.n, d.name)
			} else {
				m.f["inactiveattr"]++
			}
		}
	}
	for _, f := range finals {
		if f.decls[0].K == "dattr" {
			var vals []V
			for _, d := range f.decls {
				vals = append(vals, d.Vals...)
			}
			m.delimited(f.name, string(f.decls[0].Delim), vals, c)
		} else {
			m.attr(f.decls[0], f.name, c)
		}
	}
}

// raw writes what was produced before any error that has just happened
func (m *M) raw(s string, opt bool) {
	if s != "" {
		m.out = append(m.out, seg{s, opt})
	}
}

func (m *M) delimited(name, delim string, vals []V, c *mctx) {
	m.w(" " + name + `="`)
	had := false
	for _, f := range m.flattenAll(vals) {
		if m.err != nil {
			return
		}
		s := f(c)
		if s == "" {
			if had && m.err != nil {
				m.raw(delim, true)
			}
			continue
		}
		if had {
			m.raw(delim, false)
		}
		had = true
		m.raw(s, false)
	}
	if had {
		m.wOpt(delim)
	}
	m.w(`"`)
}

func (m *M) attr(n N, name string, c *mctx) {
	if n.K == "battr" {
		m.w(" " + name)
		return
	}
	if n.K == "dattr" {
		m.delimited(name, string(n.Delim), n.Vals, c)
		return
	}
	if n.K == "custattr" {
		m.f["custom attribute"]++
		m.log("custattr", n.ID, c)
		m.failAt(n.ID)
	}
	m.w(" " + name + `="`)
	m.values(n.Vals, c)
	m.w(`"`)
}

// node renders a node (attributes only if top)
func (m *M) node(n N, c *mctx, top bool) {
	n = m.deref(n)
	if name, ok := isAttr(n); ok {
		if top {
			m.attr(n, name, c)
		}
		return
	}
	if m.err != nil {
		return
	}
	switch n.K {
	case "nil", "collectnil", "impnil":
	case "elem", "el":
		name := string(n.Name)
		m.w("<" + name)
		m.attrs(n.Kids, c)
		m.w(">")
		if n.K == "el" && modelVoid[strings.ToLower(name)] {
			m.f["void"]++
			return
		}
		m.nodes(n.Kids, c)
		m.w("</" + name + ">")
	case "velem", "vel":
		m.f["void"]++
		m.w("<" + string(n.Name))
		m.attrs(n.Kids, c)
		m.w(">")
	case "text", "frag", "val":
		m.values(n.Vals, c)
	case "comment":
		m.w("<!--")
		m.values(n.Vals, c)
		m.w("-->")
	case "pi":
		m.w("<!" + string(n.Name) + " ")
		m.values(n.Vals, c)
		m.w(">\n")
	case "doctype":
		m.w("<!DOCTYPE html>\n")
	case "coll":
		m.nodes(n.Kids, c)
	case "cond", "when":
		if m.holds(n, c) {
			m.f["condtrue"]++
			m.nodes(n.Kids, c)
		} else {
			m.f["condfalse"]++
		}
	case "cust":
		m.f["custom node"]++
		m.log("cust", n.ID, c)
		m.failAt(n.ID)
		if n.Form == 3 {
			m.w(customText)
		}
		if n.Form == 5 {
			c = &mctx{data: scope(), cargo: &V{K: "str", S: scopedText}, parent: c}
		}
		m.nodes(n.Kids, c)
	case "collect":
		m.log("collect", n.ID, c)
		m.failAt(n.ID)
		m.nodes(n.Kids, c)
	case "iter", "yield":
		m.log(n.K, n.ID, c)
		if n.K == "iter" {
			m.failAt(n.ID)
		}
		m.items(n.Items, n.Kids, c)
		if n.K == "yield" {
			m.failAt(n.ID)
		}
	case "iterkey":
		if x, ok := c.data[string(n.Key)]; ok {
			m.items(sliceItems(x), n.Kids, c)
		}
	case "imp":
		m.imp(n, c)
	case "doc":
		m.w("<!DOCTYPE html>\n")
		m.w("<html")
		if len(n.Vals) > 0 && n.Vals[0].K != "nil" {
			m.w(` lang="`)
			m.values(n.Vals, c)
			m.w(`"`)
		}
		m.w(">")
		if len(n.Head) > 0 {
			m.node(N{K: "elem", Name: "head", Kids: n.Head}, c, false)
		}
		m.node(N{K: "elem", Name: "body", Kids: n.Kids}, c, false)
		m.w("</html>")
	default:
		panic("harness: model: unknown node kind " + n.K)
	}
}

func (m *M) nodes(kids []N, c *mctx) {
	for _, k := range kids {
		m.node(k, c, false)
	}
}

// sliceItems are the items of a value that is a slice
func sliceItems(x V) []V {
	switch x.K {
	case "list", "maps", "ptrs", "ifcs", "structs", "msss", "fanys", "lists", "nlist", "u64s":
		return x.Vs
	case "strs", "nstrs":
		return retype(x.Vs, "str")
	case "strers":
		return retype(x.Vs, "stringer")
	case "ints":
		return retype(x.Vs, "int")
	case "bools":
		return retype(x.Vs, "bool")
	case "f64s":
		return retype(x.Vs, "f64")
	case "bytes":
		return byteItems(x.S)
	case "stringer":
		switch x.I {
		case 2:
			return byteItems(x.S)
		case 8:
			return []V{{K: "str", S: x.S}}
		}
	case "named":
		switch x.I {
		case 2:
			var r []V
			for _, f := range strings.Fields(string(x.S)) {
				r = append(r, V{K: "str", S: Str(f)})
			}
			return r
		case 6:
			return byteItems(x.S)
		case 7:
			var r []V
			for _, c := range []rune(x.S) {
				r = append(r, V{K: "int32", I: int64(c)})
			}
			return r
		case 18:
			return []V{{K: "bytes", S: x.S}}
		}
	}
	return nil
}

func byteItems(s Str) (r []V) {
	for i := 0; i < len(s); i++ {
		r = append(r, V{K: "uint8", U: uint64(s[i])})
	}
	return r
}

func retype(vs []V, k string) []V {
	r := make([]V, len(vs))
	for i, v := range vs {
		r[i] = v
		r[i].K = k
	}
	return r
}

func (m *M) items(items []V, kids []N, c *mctx) {
	for i := range items {
		if m.err != nil {
			return
		}
		ic := &mctx{data: c.data, cargo: &items[i], parent: c}
		if items[i].K == "map" {
			ic.data = items[i].M
			m.f["mapitem"]++
		}
		m.f["item"]++
		m.nodes(kids, ic)
	}
}

// imp renders imperative calls
func (m *M) imp(n N, c *mctx) {
	m.log("imp", n.ID, c)
	var open []string
	for _, op := range n.Ops {
		switch op.K {
		case "start":
			m.w("<" + string(op.S))
			m.impAttrs(op.N, c)
			m.w(">")
			if !op.Void {
				open = append(open, string(op.S))
			}
		case "end":
			if len(open) > 0 {
				m.w("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			} else {
				m.f["endempty"]++
			}
		case "endall":
			for len(open) > 0 {
				m.w("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			}
		case "str":
			m.w(escape(string(op.S)))
		case "raw":
			m.w(string(op.S))
		case "nodes":
			m.nodes(op.N, c)
		case "ctx":
			m.w(escape(sketch(c.cargoPlain()) + sketchMap(c.dataPlain())))
		case "err":
			if e := m.fail[op.ID]; e != nil {
				if m.err == nil {
					m.err = e
				}
				return
			}
		}
	}
}

func (m *M) impAttrs(nodes []N, c *mctx) {
	var names []string
	decls := map[string][]N{}
	for _, k := range nodes {
		k = m.deref(k)
		name, ok := isAttr(k)
		if !ok {
			continue
		}
		d, seen := decls[name]
		if !seen {
			names = append(names, name)
		}
		if seen && k.K == "dattr" && d[0].K == "dattr" {
			decls[name] = append(d, k)
			m.f["merged"]++
		} else {
			if seen {
				m.f["lastwins"]++
			}
			decls[name] = []N{k}
		}
	}
	for _, name := range names {
		d := decls[name]
		if d[0].K != "dattr" {
			m.attr(d[0], name, c)
			continue
		}
		// delimiters around empty values are unspecified
		delim := string(d[0].Delim)
		var vals []V
		for _, x := range d {
			vals = append(vals, x.Vals...)
		}
		m.w(" " + name + `="`)
		had := false
		for _, f := range m.flattenAll(vals) {
			if m.err != nil {
				return
			}
			s := f(c)
			if s == "" {
				m.raw(delim, true)
				continue
			}
			if had {
				m.raw(delim, false)
			}
			had = true
			m.raw(s, false)
		}
		m.w(`"`)
	}
}
