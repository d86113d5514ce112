package main

import (
	"strconv"
	"strings"
)

// Large templates: every dimension a template has (attributes, values, contents, items, depth ...) at sizes that random
// templates rarely have. They are fixed cases of the properties they fit.

func num(k int) V { return V{K: "int", I: int64(k)} }

func str(s string) V { return V{K: "str", S: Str(s)} }

func textN(vs ...V) N { return N{K: "text", Vals: vs} }

func nums(n int) (r []V) {
	for k := 0; k < n; k++ {
		r = append(r, num(k))
	}
	return r
}

func nodesN(n int, f func(k int) N) (r []N) {
	for k := 0; k < n; k++ {
		r = append(r, f(k))
	}
	return r
}

func valuesN(n int, f func(k int) V) (r []V) {
	for k := 0; k < n; k++ {
		r = append(r, f(k))
	}
	return r
}

// nest wraps a node in others
func nest(n N, depth int, wrap func(k int, in N) N) N {
	for k := 0; k < depth; k++ {
		n = wrap(k, n)
	}
	return n
}

type largeCase struct {
	kind string // what is large
	spec TreeSpec
}

func largeCases() (r []largeCase) {
	id := 0
	next := func() int { id++; return id }
	dyn := func(what string, s string) V { return V{K: what, S: Str(s), ID: next()} }
	data := map[string]V{}
	for k := 0; k < 150; k++ {
		data["k"+strconv.Itoa(k)] = str("<" + strconv.Itoa(k) + ">")
	}
	data["foo"] = V{K: "bool", B: true}
	ctx := Ctx{Data: data, Cargo: &V{K: "str", S: "a"}}
	small := Ctx{Data: map[string]V{"k1": str("<1>"), "k30": num(30)}, Cargo: &V{K: "str", S: "a"}} // shown by callbacks
	add := func(kind string, tree N) {
		c := ctx
		if kind == "iter" || kind == "deepiter" {
			c = small
		}
		r = append(r, largeCase{kind, TreeSpec{Tree: tree, Ctx: c}})
	}
	div := func(kids ...N) N { return N{K: "elem", Name: "div", Kids: kids} }
	attr := func(k int) N {
		return N{K: "attr", Name: Str("n" + strconv.Itoa(k)), Vals: []V{num(k), dyn("key", "k"+strconv.Itoa(k%170))}}
	}
	dattr := func(k int) N { return N{K: "dattr", Name: "class", Delim: " ", Vals: []V{num(k)}} }
	when := func(on bool, kids ...N) N {
		c := &Cond{K: "true", ID: next()}
		if !on {
			c.K = "false"
		}
		return N{K: "cond", C: c, Kids: kids}
	}
	leaf := func(k int) N {
		switch k % 7 {
		case 0:
			return N{K: "elem", Name: "b", Kids: []N{textN(num(k))}}
		case 1:
			return N{K: "comment", Vals: []V{num(k)}}
		case 2:
			return N{K: "velem", Name: "br", Kids: []N{attr(k)}}
		case 3:
			return N{K: "frag", Vals: []V{str("<"), num(k)}}
		case 4:
			return when(k%2 == 0, textN(num(k)))
		case 5:
			return textN(dyn("dfn", "k"+strconv.Itoa(k%150)), num(k))
		}
		return N{K: "coll", Kids: []N{textN(num(k), str("&"))}}
	}
	show := func() N {
		return textN(V{K: "bytes", S: "["}, dyn("cargo", ""), V{K: "up", S: "k1", I: 1, ID: next()}, V{K: "bytes", S: "]"})
	}
	for _, n := range []int{130, 700} {
		add("attrs", div(append(nodesN(n, attr), textN(num(n)))...))
		add("attrs", N{K: "velem", Name: "img", Kids: nodesN(n, func(k int) N {
			if k%5 == 4 {
				return N{K: "battr", Name: Str("b" + strconv.Itoa(k))}
			}
			return attr(k)
		})})
		// long names that differ late, or early, or nearly do
		add("attrs", div(nodesN(n, func(k int) N {
			a, x := attr(k), strings.Repeat("x", 10+k*3)
			a.Name = Str([]string{"n-" + x + strconv.Itoa(k%7), "n-" + strconv.Itoa(k%7) + x, "n-" + x[1:] + "--"}[k%3])
			return a
		})...))
		// the same names, many times
		add("attrs", div(nodesN(n, func(k int) N { return attr(k % 9) })...))
		add("attrs", div(nodesN(n, func(k int) N { return dattr(k) })...))
		add("attrs", div(N{K: "dattr", Name: "class", Delim: " ", Vals: nums(n)}, N{K: "attr", Name: "title", Vals: nums(n)}))
		add("attrs", div(nodesN(n, func(k int) N {
			return N{K: "dattr", Name: Str("d" + strconv.Itoa(k%90)), Delim: ",", Vals: []V{num(k), num(-k)}}
		})...))
		// attributes of conditionals
		add("condattrs", div(nodesN(n, func(k int) N { return when(k%3 != 0, attr(k%300)) })...))
		add("condattrs", div(when(true, nodesN(n, func(k int) N { return attr(k) })...), textN(str("x"))))
		add("condattrs", div(nodesN(n, func(k int) N { return when(k%3 != 0, dattr(k)) })...))
		add("condattrs", div(attr(1), attr(2), when(true, append(nodesN(n, leaf), attr(1))...), when(false, attr(2))))
		// at different depths
		mixed := func(conds func(k int) bool, f func(k int) N) []N {
			return nodesN(n, func(k int) N {
				return nest(f(k), k*7%4, func(d int, in N) N { return when(conds(k+d), in) })
			})
		}
		some, all := func(k int) bool { return k%9 != 0 }, func(int) bool { return true }
		for _, conds := range []func(int) bool{some, all} {
			add("condattrs", div(mixed(conds, dattr)...))
			add("condattrs", div(mixed(conds, func(k int) N { return attr(k % 50) })...))
			add("condattrs", N{K: "velem", Name: "img", Kids: mixed(conds, dattr)})
			add("condattrs", N{K: "velem", Name: "img", Kids: mixed(conds, func(k int) N { return attr(k % 50) })})
			add("condattrs", N{K: "velem", Name: "img", Kids: []N{{K: "coll", Kids: mixed(conds, attr)}, attr(3), when(true, attr(1), attr(3))}})
		}
		// attributes in collections
		add("attrs", div(N{K: "coll", Kids: nodesN(n, func(k int) N { return N{K: "coll", Kids: []N{attr(k)}} })}))
	}
	for _, n := range []int{90, 1100, 5000} {
		add("kids", div(nodesN(n, leaf)...))
		add("kids", N{K: "coll", Kids: nodesN(n, leaf)})
		add("kids", div(append(nodesN(n, leaf), attr(1))...))
		add("cond", div(when(true, nodesN(n, leaf)...), when(false, nodesN(n/9, leaf)...)))
		add("cond", div(nodesN(n, func(k int) N { return when(k%3 != 1, leaf(k)) })...))
		add("collect", div(N{K: "collect", ID: next(), Kids: nodesN(n, leaf)}))
		add("values", div(textN(nums(n)...)))
		add("values", div(textN(valuesN(n, func(k int) V {
			switch k % 6 {
			case 0:
				return dyn("dfn", "k"+strconv.Itoa(k%160))
			case 1:
				return dyn("key", "k"+strconv.Itoa(k%160))
			case 2:
				return V{K: "concat", Vs: nums(k % 9)}
			case 3:
				return V{K: "bytes", S: "&"}
			case 4:
				return str("<&>\"'")
			}
			return num(k)
		})...)))
		add("values", div(textN(V{K: "concat", Vs: nums(n)}), N{K: "comment", Vals: nums(n)}, N{K: "frag", Vals: nums(n)}, N{K: "pi", Name: "x", Vals: nums(n)}))
		add("iter", div(N{K: "iter", ID: next(), Items: nums(n), Kids: []N{show()}}, show()))
		add("iter", div(N{K: "yield", ID: next(), Items: nums(n), Kids: []N{show()}}, show()))
		add("iter", div(N{K: "iter", ID: next(), Items: nums(3), Kids: append(nodesN(n, leaf), show())}))
		add("imp", N{K: "imp", ID: next(), Ops: func() (ops []Op) {
			for k := 0; k < n; k++ {
				ops = append(ops, Op{K: "start", S: "p", N: []N{attr(k)}}, Op{K: "str", S: Str(strconv.Itoa(k))}, Op{K: "end"})
			}
			return ops
		}()})
		add("imp", N{K: "imp", ID: next(), Ops: []Op{{K: "nodes", N: nodesN(n, leaf)}}})
		for _, list := range []V{
			{K: "strs", Vs: valuesN(n, func(k int) V { return str(strconv.Itoa(k)) })}, {K: "ints", Vs: nums(n)}, {K: "list", Vs: nums(n)},
		} {
			add("iter", div(N{K: "iterkey", Key: "l", Kids: []N{textN(V{K: "key", S: "k1"}), {K: "elem", Name: "i"}}}, show()))
			r[len(r)-1].spec.Ctx = Ctx{Data: map[string]V{"l": list, "k1": str("one")}}
		}
		if n > 1000 {
			n = 300 // callbacks show the list
		}
		for _, list := range []V{
			{K: "list", Vs: nums(n)}, {K: "strs", Vs: valuesN(n, func(k int) V { return str("<" + strconv.Itoa(k)) })}, {K: "ints", Vs: nums(n)},
			{K: "maps", Vs: valuesN(n, func(k int) V { return V{K: "map", M: map[string]V{"k1": num(k)}} })},
			{K: "list", Vs: valuesN(n, func(k int) V {
				if k%2 == 0 {
					return num(k)
				}
				return V{K: "map", M: map[string]V{"k1": num(k), "k2": num(-k)}}
			})},
		} {
			add("iter", div(N{K: "iterkey", Key: "l", ID: next(), Kids: []N{textN(dyn("cargo", ""), dyn("key", "k1"), dyn("key", "k3"))}}, show()))
			c := Ctx{Data: map[string]V{"l": list, "k1": str("one"), "k3": str("three")}}
			r[len(r)-1].spec.Ctx = c
		}
	}
	add("imp", N{K: "imp", ID: next(), Ops: []Op{{K: "start", S: "p", N: nodesN(300, attr)}, {K: "str", S: "x"}, {K: "end"}, {K: "start", S: "br", Void: true, N: nodesN(300, func(k int) N { return attr(k % 30) })}}})
	add("imp", N{K: "imp", ID: next(), Ops: []Op{{K: "start", S: "p", N: nodesN(300, func(k int) N {
		return N{K: "dattr", Name: "class", Delim: " ", Vals: []V{num(k), num(-k)}}
	})}, {K: "end"}}})
	for _, n := range []int{40, 130, 600} {
		// depth
		add("deep", nest(textN(str("x")), n, func(k int, in N) N { return div(attr(k), in, textN(num(k))) }))
		add("deep", nest(textN(str("x")), n, func(k int, in N) N { return N{K: "coll", Kids: []N{in, leaf(k)}} }))
		add("deepattrs", div(nest(attr(0), n, func(k int, in N) N { return N{K: "coll", Kids: []N{in, attr(k)}} })))
		add("deepcond", div(nest(textN(str("x")), n, func(k int, in N) N { return when(true, textN(num(k)), in) })))
		add("deepcond", div(nest(textN(str("x")), n, func(k int, in N) N { return div(when(k != n/3, textN(num(k)), in)) })))
		add("deep", nest(textN(str("x")), n, func(k int, in N) N { return N{K: "collect", ID: next(), Kids: []N{in, textN(num(k))}} }))
		add("deep", N{K: "imp", ID: next(), Ops: func() (ops []Op) {
			for k := 0; k < n; k++ {
				ops = append(ops, Op{K: "start", S: Str("p" + strconv.Itoa(k)), N: []N{attr(k)}})
			}
			for k := 0; k < n-3; k++ {
				ops = append(ops, Op{K: "str", S: Str(strconv.Itoa(k))}, Op{K: "end"})
			}
			return append(ops, Op{K: "endall"}, Op{K: "end"})
		}()})
		add("deep", nest(textN(str("x")), n, func(k int, in N) N {
			return N{K: "imp", ID: next(), Ops: []Op{{K: "start", S: "p"}, {K: "nodes", N: []N{in}}, {K: "end"}}}
		}))
	}
	for _, n := range []int{12, 40, 100} {
		add("deepcondattrs", div(nest(attr(0), n, func(k int, in N) N { return when(true, in, attr(k)) })))
		add("deepcondattrs", div(attr(1), nest(attr(0), n, func(k int, in N) N { return when(k != n/2, in, attr(k)) })))
		add("deepcondattrs", div(nest(textN(str("x")), n, func(k int, in N) N { return when(true, N{K: "coll", Kids: []N{in, attr(k), when(false, attr(k+1))}}) })))
		add("deepiter", div(nest(show(), n, func(k int, in N) N {
			return N{K: []string{"iter", "yield"}[k%2], ID: next(), Items: []V{num(k)}, Kids: []N{in, show()}}
		}), show()))
		// each level's data hides that of the one above
		add("deepiter", div(nest(show(), n, func(k int, in N) N {
			return N{K: "iter", ID: next(), Items: []V{{K: "map", M: map[string]V{"k1": num(k), "k" + strconv.Itoa(k+20): num(-k)}}}, Kids: []N{in, textN(dyn("key", "k1"), dyn("key", "k30"), V{K: "up", S: "k1", I: 3, ID: next()})}}
		}), show()))
	}
	// elements whose text browsers treat in their own ways
	for _, name := range append([]Str{"pre", "code", "template", "option", "plaintext", "noframes", "html", "body", "head", "br", "IMG"}, rawElems...) {
		text := str("a & b</" + string(name) + "><b>\"'")
		in := []Op{{K: "str", S: text.S}, {K: "nodes", N: []N{textN(text), {K: "comment", Vals: []V{text}}}}, {K: "raw", S: "<i>"}}
		add("imp", N{K: "imp", ID: next(), Ops: append(append([]Op{{K: "start", S: name, N: []N{attr(1)}}}, in...), Op{K: "end"}, Op{K: "str", S: text.S})})
		add("imp", N{K: "imp", ID: next(), Ops: append(append([]Op{{K: "start", S: "p"}, {K: "start", S: name}, {K: "start", S: "b"}, {K: "end"}}, in...), Op{K: "endall"})})
		for _, kind := range []string{"elem", "el"} {
			if kind == "elem" && (name == "br" || name == "IMG") {
				continue
			}
			add("kids", N{K: kind, Name: name, Kids: []N{textN(text)}})
			add("kids", N{K: kind, Name: name, Kids: []N{{K: "val", Vals: []V{text}}}})
			add("kids", N{K: kind, Name: name, Kids: []N{textN(text, num(1)), div(textN(text)), {K: "comment", Vals: []V{text}}, attr(1), {K: "dattr", Name: "class", Delim: " ", Vals: []V{text}}}})
		}
	}
	// exact sizes
	for n := 0; n <= 70; n++ {
		add("attrs", div(append(nodesN(n, attr), dattr(n), dattr(n+1))...))
		add("attrs", N{K: "velem", Name: "img", Kids: append(nodesN(n, dattr), attr(n), attr(n))})
		add("attrs", div(N{K: "dattr", Name: "class", Delim: " ", Vals: nums(n)}, N{K: "attr", Name: "title", Vals: nums(n)}))
		add("condattrs", div(nodesN(n, func(k int) N { return when(k%5 != 0, attr(k)) })...))
		add("condattrs", div(append(nodesN(n, func(k int) N { return when(k%5 != 0, dattr(k)) }), attr(n))...))
		add("kids", div(nodesN(n, leaf)...))
		add("kids", N{K: "coll", Kids: nodesN(n, leaf)})
		add("cond", div(when(true, nodesN(n, leaf)...), when(false, nodesN(n, leaf)...)))
		add("collect", div(N{K: "collect", ID: next(), Kids: nodesN(n, leaf)}))
		add("values", div(textN(append(nums(n), V{K: "concat", Vs: nums(n)}, dyn("key", "k1"))...)))
		add("iter", div(N{K: []string{"iter", "yield"}[n%2], ID: next(), Items: nums(n), Kids: []N{show()}}, show()))
		add("iter", div(N{K: []string{"yield", "iter"}[n%2], ID: next(), Items: nums(2), Kids: append(nodesN(n, leaf), show())}, show()))
		add("iter", div(N{K: "iterkey", Key: "l", Kids: []N{textN(V{K: "key", S: "."})}}))
		r[len(r)-1].spec.Ctx = Ctx{Data: map[string]V{"l": {K: "ints", Vs: nums(n)}}}
		add("imp", N{K: "imp", ID: next(), Ops: []Op{{K: "start", S: "p", N: nodesN(n, attr)}, {K: "nodes", N: nodesN(n, leaf)}, {K: "end"}}})
		add("imp", N{K: "imp", ID: next(), Ops: func() (ops []Op) {
			for k := 0; k < n; k++ {
				ops = append(ops, Op{K: "start", S: Str("p" + strconv.Itoa(k)), N: []N{attr(k)}})
			}
			return append(ops, Op{K: "end"}, Op{K: "str", S: "x"}, Op{K: "endall"}, Op{K: "end"})
		}()})
		add("deep", nest(textN(str("x")), n, func(k int, in N) N { return div(attr(k), in, textN(num(k))) }))
		add("deepcond", div(nest(textN(str("x")), n, func(k int, in N) N { return when(true, in, textN(num(k))) })))
		add("deepcondattrs", div(nest(attr(0), n%35, func(k int, in N) N { return when(k != n/2, in, attr(k)) })))
		if n < 40 {
			add("deepiter", div(nest(show(), n, func(k int, in N) N {
				return N{K: []string{"iter", "yield"}[k%2], ID: next(), Items: []V{num(k)}, Kids: []N{in}}
			}), show()))
		}
	}
	// many of each at once
	add("kids", nest(textN(str("x")), 5, func(k int, in N) N {
		return div(append(nodesN(60, attr), append(nodesN(60, leaf), in, N{K: "iter", ID: next(), Items: nums(60), Kids: nodesN(8, leaf)})...)...)
	}))
	return r
}

// large makes fixed cases of those large templates that are of one of the kinds
func large(kinds ...string) func() []any {
	return func() (r []any) {
		for _, c := range largeCases() {
			for _, k := range kinds {
				if c.kind == k {
					spec := c.spec
					r = append(r, &spec)
				}
			}
		}
		return r
	}
}

// remade makes fixed cases of large templates of other forms
func remade(size int, f func(c largeCase) any, kinds ...string) func() []any {
	return func() (r []any) {
		for _, c := range largeCases() {
			n := 0
			walkN(&c.spec.Tree, func(x *N) { n += 1 + len(x.Vals) + len(x.Items) + len(x.Ops) })
			if n > size {
				continue
			}
			fits := len(kinds) == 0
			for _, k := range kinds {
				fits = fits || c.kind == k
			}
			if fits {
				if x := f(c); x != nil {
					r = append(r, x)
				}
			}
		}
		return r
	}
}

// largeHistories renders large templates with different data, with an error in between
func largeHistories() []any {
	return remade(3000, func(c largeCase) any {
		other := Ctx{Data: map[string]V{"k1": str("other"), "k30": num(-1), "l": {K: "list", Vs: nums(7)}}}
		return &HistorySpec{Tree: c.spec.Tree, Steps: []Step{{Ctx: c.spec.Ctx}, {Ctx: other}, {Ctx: c.spec.Ctx, Write: 40}, {Ctx: Ctx{NoData: true}}, {Ctx: c.spec.Ctx}}}
	})()
}

// largeFaults has a late callback fail in large templates
func largeFaults() []any {
	return remade(1000, func(c largeCase) any {
		s := &FaultSpec{Tree: c.spec.Tree, Ctx: c.spec.Ctx}
		if ids := callbackIDs(&s.Tree); len(ids) > 0 {
			s.Fail = ids[len(ids)-1:]
		}
		return s
	})()
}

// largeStatic are those large templates without anything dynamic
func largeStatic() []any {
	return remade(1<<30, func(c largeCase) any {
		static := true
		walkN(&c.spec.Tree, func(n *N) {
			switch n.K {
			case "elem", "el", "velem", "vel", "coll", "text", "comment", "frag", "pi", "nil", "attr", "dattr", "battr":
				keep := n.Vals[:0:0]
				for _, v := range n.Vals {
					if v.K == "int" || v.K == "str" || v.K == "bytes" {
						keep = append(keep, v)
					}
				}
				n.Vals = keep
			default:
				static = false
			}
		})
		if !static {
			return nil
		}
		spec := c.spec
		spec.Ctx = Ctx{}
		return &spec
	})()
}

// largeNils have many nils among the contents and values
func largeNils() []any {
	return remade(3000, func(c largeCase) any {
		spec := c.spec
		k := 0
		with := func(ns []N) (r []N) {
			for _, n := range ns {
				if k++; k%2 == 0 || len(ns) == 1 {
					r = append(r, N{K: "nil"})
				}
				r = append(r, n)
			}
			return r
		}
		walkN(&spec.Tree, func(n *N) {
			switch n.K {
			case "elem", "coll", "cond", "velem", "iter", "iterkey", "yield", "collect":
				n.Kids = with(n.Kids)
			case "text", "comment", "frag", "attr":
				var vs []V
				for _, v := range n.Vals {
					vs = append(vs, V{K: "nil"}, v)
				}
				n.Vals = vs
			}
			for i := range n.Ops {
				n.Ops[i].N = with(n.Ops[i].N)
			}
		})
		return &spec
	})()
}

// largeCustom have user-defined nodes and attributes in many places
func largeCustom() []any {
	return remade(1500, func(c largeCase) any {
		s := &CustomSpec{Tree: c.spec.Tree, Ctx: c.spec.Ctx, At: []int{1, 7, 39}}
		id := 100000
		walkN(&s.Tree, func(n *N) {
			if id++; id%2 == 0 {
				return
			}
			switch n.K {
			case "attr":
				n.K, n.ID, n.Form = "custattr", id, id/2%4
			case "elem":
				if n.Name == "b" {
					n.K, n.ID, n.Form = "cust", id, id/2%4
				}
			}
		})
		if ids := customIDs(&s.Tree); len(ids) > 0 {
			s.Fail = ids[len(ids)-1:]
			return s
		}
		return nil
	})()
}

// largeShared share long argument slices, and nodes many times
func largeShared() (r []any) {
	ctx := []Ctx{{Data: map[string]V{"foo": {K: "bool", B: true}, "k1": str("<1>")}}}
	for _, n := range []int{20, 150} {
		pool := []N{{K: "attr", Name: "title", Vals: nums(n)}, {K: "dattr", Name: "class", Delim: " ", Vals: nums(n)}, textN(nums(n)...), {K: "elem", Name: "b", Kids: nodesN(n, func(k int) N { return textN(num(k)) })}}
		kids := nodesN(n, func(k int) N {
			if k%3 == 0 {
				return N{K: "ref", Ref: k / 3 % 4}
			}
			return N{K: "elem", Name: "i", Kids: []N{{K: "ref", Ref: k % 4}, textN(num(k))}}
		})
		slice := valuesN(n, func(k int) V {
			if k%4 == 3 {
				return V{K: "vref", I: int64(k / 4 % 2)}
			}
			return num(k)
		})
		spec := &ShareSpec{VPool: []V{{K: "concat", Vs: nums(n)}, {K: "text", Vs: nums(n)}}, Slices: [][]V{slice}, KSlices: [][]N{kids}, Pool: pool, Ctxs: ctx}
		spec.Trees = []N{
			{K: "elem", Name: "p", SR: 1, SN: n},
			{K: "el", Name: "p", SR: 1, SN: n / 2},
			{K: "elem", Name: "p", Kids: []N{{K: "coll", SR: 1, SN: n - 1}, {K: "ref", Ref: 0}}},
			{K: "elem", Name: "p", Kids: []N{{K: "text", SR: 1, SN: n}, {K: "attr", Name: "id", SR: 1, SN: n / 2}, {K: "dattr", Name: "class", Delim: " ", SR: 1, SN: n}, {K: "comment", SR: 1, SN: n}, {K: "ref", Ref: 1}}},
			{K: "elem", Name: "p", Kids: nodesN(n, func(k int) N { return N{K: "ref", Ref: k % 4} })},
			{K: "doc", Head: []N{{K: "ref", Ref: 2}}, Kids: nodesN(n, func(k int) N { return N{K: "elem", Name: "p", Kids: []N{{K: "ref", Ref: k % 4}}} })},
		}
		if n > 100 {
			spec.Trees = append(spec.Trees, N{K: "collect", ID: 1, SR: 1, SN: n}, N{K: "iter", ID: 2, Items: nums(3), SR: 1, SN: n})
		}
		r = append(r, spec)
	}
	return r
}

// largeStyles have many declarations
func largeStyles() (r []any) {
	p := func(kids ...N) { r = append(r, &TreeSpec{Tree: N{K: "elem", Name: "p", Kids: kids}}) }
	for _, n := range []int{40, 200, 900} {
		one := func(k int) N {
			return helperNode(styleHelpers[k*7%len(styleHelpers)], []V{{K: "unit", S: "px", Vs: []V{num(k)}}, str(" x")}, nil)
		}
		cond := func(kids ...N) N { return N{K: "cond", C: &Cond{K: "true", ID: 1}, Kids: kids} }
		p(nodesN(n, one)...)
		p(N{K: "coll", Kids: nodesN(n, one)}, one(3))
		p(cond(nodesN(n, one)...))
		p(nodesN(n, func(k int) N { return cond(one(k)) })...)
		p(nest(one(0), n/10, func(k int, in N) N { return N{K: "coll", Kids: []N{in, one(k)}} }))
		p(helperNode("css.Width", nums(n), nil))
		p(helperNode("css.Width", []V{{K: "unit", S: "px", Vs: nums(n)}}, nil))
	}
	return r
}

// largeHeaders have many headers and vars
func largeHeaders() (r []any) {
	add := func(kids ...N) { r = append(r, &HeaderSpec{Tree: N{K: "elem", Name: "p", Kids: kids}}) }
	for _, n := range []int{20, 100, 400} {
		hmap := func(from int) V {
			v := V{K: "hmap", M: map[string]V{}}
			for k := from; k < from+n; k++ {
				v.M["h"+strconv.Itoa(k*7919%10007)] = num(k)
			}
			return v
		}
		add(N{K: "headers", Vals: []V{hmap(0)}})
		add(N{K: "headers", Vals: []V{hmap(0), hmap(n / 2), hmap(5 * n)}}, N{K: "headersjs", Vals: []V{hmap(1)}})
		add(N{K: "headers", Vals: valuesN(n, func(k int) V { return V{K: "hmap", M: map[string]V{"h" + strconv.Itoa(k*7919%10007): num(k)}} })})
		add(helperNode("htmx.Vars", valuesN(n, func(k int) V { return V{K: "var", S: Str("v" + strconv.Itoa(k)), Vs: []V{num(k)}} }), nil))
		add(helperNode("htmx.Trigger", nums(n), nil), helperNode("htmx.Trigger", nums(n), nil))
	}
	return r
}

// largeTemplates have many markers, nodes and texts
func largeTemplates() (r []any) {
	ctx := Ctx{Data: map[string]V{"sv": str("safe"), "sn": num(3), "list": {K: "list", Vs: nums(4)}, "yes": {K: "bool", B: true}}}
	for _, n := range []int{30, 150} {
		nodes := nodesN(n, func(k int) N {
			switch k % 3 {
			case 0:
				return N{K: "attr", Name: Str("n" + strconv.Itoa(k)), Vals: []V{num(k)}}
			case 1:
				return N{K: "elem", Name: "b", Kids: []N{textN(num(k), V{K: "key", S: "sn"})}}
			}
			return textN(num(k), str("<"))
		})
		var ps []Piece
		for k := 0; k < n; k++ {
			ps = append(ps, Piece{K: "text", S: Str(tmplTexts[k%6])}, Piece{K: []string{"attr", "node", "inattr"}[k%3], I: k, Form: k / 3 % 3})
			if k%40 == 20 {
				deep := []Piece{{K: "node", I: 1}}
				for j := 0; j < 12; j++ {
					deep = []Piece{{K: []string{"if", "with"}[j%2], Kids: append(deep, Piece{K: "node", I: 1 + 3*(k/4), Form: 2})}}
				}
				ps = append(ps, deep...)
			}
		}
		list := make([]V, n)
		copy(list, nums(n))
		long := Ctx{Data: map[string]V{"sv": str("safe"), "sn": num(3), "list": {K: "list", Vs: list}, "yes": {K: "bool"}}, Cargo: &V{K: "str", S: "a"}}
		s := &TmplSpec{Nodes: nodes, Pieces: ps, Sub: []Piece{{K: "node", I: 1}}, Ctxs: []Ctx{ctx, {Data: ctx.Data, Cargo: &V{K: "str", S: "a"}}}}
		s.Pieces = append(s.Pieces, Piece{K: "sub"})
		r = append(r, s, &TmplSpec{Nodes: nodes[:4], Pieces: []Piece{{K: "range", Kids: []Piece{{K: "node", I: 1, Form: 0}, {K: "node", I: 2, Form: 2}, {K: "attr", I: 0}}}}, Ctxs: []Ctx{long, ctx}})
	}
	return r
}
