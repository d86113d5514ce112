package main

import (
	"fmt"
	"sync"

	"github.com/go-andiamo/aitch/context"
	"pgregory.net/rapid"
)

// ---- A11

type LookupSpec struct {
	NoCtx  bool         `json:"noctx,omitempty"`
	NoData bool         `json:"nodata,omitempty"`
	Data   map[string]V `json:"data,omitempty"`
	Cargo  string       `json:"cargo"`
	Vals   []V          `json:"vals"`
	Keys   []Str        `json:"keys"`
	Types  []string     `json:"types"`
	Extra  int          `json:"extra,omitempty"` // further entries in Data (even ones) and in maps that are the Cargo (all)
	Under  bool         `json:"under,omitempty"` // the context has a Parent
}

type fixNested struct {
	A string
	n int
}

type Emb struct {
	E   string
	Amb string
	A   string // hidden by the outer A
	in  string
}

type EmbP struct {
	F   any
	Amb string
	Dp  *Deep
	*Deep
}

type Deep struct {
	G string
}

type emb struct {
	H string
	h string
}

type embp struct {
	J int
}

type fixture struct {
	A   string `json:"a" aitch:"s" xml:"b"`
	B   int    `json:"b,omitempty"`
	c   string
	Any any
	Err error
	S   fmt.Stringer
	N   fixNested
	P   *string
	D   map[string]any
	Emb
	*EmbP
	emb
	*embp
}

func (fixture) Meth() string { return "method" }
func (Emb) Prom() string     { return "promoted method" }

// fields at several levels
type (
	levels struct {
		lv2
		A string
	}
	lv2 struct {
		*lv3
		B int
	}
	lv3 struct {
		lv4
		G string
		J int
	}
	lv4 struct {
		lv5
		Any any
		P   *string
		G   int // hidden
	}
	lv5 struct {
		H string
		D map[string]any
		A int // hidden
	}
)

type onlyEmb struct{ *EmbP }

type mapType map[string]any
type ifaceMap map[any]any

var cargoKinds = []string{"nil", "map", "pmap", "ppmap", "nilmap", "nilpmap", "mapType", "named", "mss", "msi", "mints", "anykey", "struct", "pstruct", "ppstruct", "nilpstruct", "nilppstruct", "structnil", "pstructnil", "onlyemb", "onlyembnil", "levels", "plevels",
	"string", "int", "func", "chan", "list", "array", "err", "stringer", "bytes", "nilfunc", "nilerr", "pstring", "ifacep", "mapfixture"}

var typedNilErr *someErr

// cargo builds a Cargo and describes, independently of reflection, what can be found in it
func (s *LookupSpec) cargo() (cargo any, find map[string]any) {
	v := func(i int) any { return s.Vals[i%len(s.Vals)].plain() }
	str := func(i int) string { return string(s.Vals[i%len(s.Vals)].S) }
	k := func(i int) string { return string(s.Keys[i%len(s.Keys)]) }
	m := map[string]any{}
	for i := range s.Vals {
		m[k(i)] = v(i)
	}
	for i := range s.Extra {
		m[extraKey(i)] = fmt.Sprint("cargo ", i)
	}
	p := str(0)
	st := fixture{A: str(0), B: len(s.Vals), c: str(1), Any: v(0), Err: &someErr{"e"}, S: strer(str(1)), N: fixNested{str(0), 1}, P: &p, D: m, Emb: Emb{E: str(2), Amb: "1", A: "hidden"}, EmbP: &EmbP{F: v(1), Amb: "2", Deep: &Deep{"g"}}, emb: emb{H: "h", h: "x"}, embp: &embp{9}}
	full := map[string]any{"A": st.A, "B": st.B, "Any": st.Any, "Err": st.Err, "S": st.S, "N": st.N, "P": st.P, "D": m, "Emb": st.Emb, "E": st.Emb.E, "EmbP": st.EmbP, "F": st.EmbP.F, "Dp": (*Deep)(nil), "Deep": st.EmbP.Deep, "G": "g", "H": "h", "J": 9}
	stNil := fixture{A: str(0)}
	empty := map[string]any{"A": stNil.A, "B": 0, "Any": nil, "Err": nil, "S": nil, "N": fixNested{}, "P": (*string)(nil), "D": map[string]any(nil), "Emb": Emb{}, "E": "", "EmbP": (*EmbP)(nil), "H": ""}
	switch s.Cargo {
	case "map":
		return m, m
	case "mapType":
		return mapType(m), m
	case "pmap":
		return &m, m
	case "ppmap":
		pm := &m
		return &pm, nil
	case "nilmap":
		return map[string]any(nil), nil
	case "nilpmap":
		return (*map[string]any)(nil), nil
	case "named":
		r := map[named]any{}
		for key, x := range m {
			r[named(key)] = x
		}
		return r, m
	case "mss":
		r, f := map[string]string{}, map[string]any{}
		for i := range s.Vals {
			r[k(i)], f[k(i)] = str(i), str(i)
		}
		for i := range s.Extra {
			r[extraKey(i)], f[extraKey(i)] = "e", "e"
		}
		return r, f
	case "msi":
		r, f := map[named]int{}, map[string]any{}
		for i := range s.Vals {
			r[named(k(i))], f[k(i)] = i, i
		}
		for i := range s.Extra {
			r[named(extraKey(i))], f[extraKey(i)] = i, i
		}
		return r, f
	case "mapfixture":
		r, f := map[string]fixture{k(0): st}, map[string]any{k(0): st}
		for i := range s.Extra {
			r[extraKey(i)], f[extraKey(i)] = stNil, stNil
		}
		return r, f
	case "mints":
		return map[int]any{0: v(0)}, nil
	case "anykey":
		r := ifaceMap{}
		for key, x := range m {
			r[key] = x
		}
		return r, nil
	case "struct":
		return st, full
	case "pstruct":
		return &st, full
	case "ppstruct":
		ps := &st
		return &ps, nil
	case "nilpstruct":
		return (*fixture)(nil), nil
	case "nilppstruct":
		return (**fixture)(nil), nil
	case "structnil":
		return stNil, empty
	case "pstructnil":
		return &stNil, empty
	case "onlyemb":
		return onlyEmb{st.EmbP}, map[string]any{"EmbP": st.EmbP, "F": st.EmbP.F, "Amb": "2", "Dp": (*Deep)(nil), "Deep": st.EmbP.Deep, "G": "g"}
	case "onlyembnil":
		return onlyEmb{&EmbP{F: v(0)}}, map[string]any{"EmbP": &EmbP{F: v(0)}, "F": v(0), "Amb": "", "Dp": (*Deep)(nil), "Deep": (*Deep)(nil)}
	case "levels", "plevels":
		l := levels{lv2: lv2{lv3: &lv3{}}}
		find = map[string]any{"A": "", "B": 0, "G": "", "J": 0, "Any": nil, "P": (*string)(nil), "D": map[string]any(nil), "H": ""}
		if len(s.Vals)%2 == 0 {
			l.A, l.B, l.G, l.J, l.Any, l.P, l.D, l.H = str(0), 3, str(1), 4, v(0), &p, m, str(2)
			find = map[string]any{"A": l.A, "B": 3, "G": l.G, "J": 4, "Any": l.Any, "P": l.P, "D": m, "H": l.H}
		}
		if s.Cargo == "plevels" {
			return &l, find
		}
		return l, find
	case "string":
		return str(0), nil
	case "pstring":
		return &p, nil
	case "int":
		return 5, nil
	case "func":
		return func() any { return 1 }, nil
	case "nilfunc":
		return (func() any)(nil), nil
	case "chan":
		return make(chan int), nil
	case "list":
		return []any{v(0)}, nil
	case "array":
		return [2]string{str(0)}, nil
	case "err":
		return &someErr{str(0)}, nil // the only field is not exported
	case "nilerr":
		return typedNilErr, nil
	case "stringer":
		return strer(str(0)), nil
	case "bytes":
		return []byte(str(0)), nil
	case "ifacep":
		var x any = m
		return &x, nil // a pointer to an interface is not a pointer to a map
	}
	return nil, nil
}

var lookupTypes = []string{"string", "int", "int64", "bool", "float64", "[]byte", "any", "Stringer", "error", "map", "list", "named", "*string", "nested", "*EmbP", "Emb", "func", "fixture"}
var lookupKeys = []string{"A", "B", "c", "Any", "Err", "S", "N", "P", "D", "Emb", "E", "Amb", "in", "EmbP", "F", "Dp", "Deep", "G", "emb", "H", "h", "embp", "J", "s", "a", "b", "", ".", "日本", "A.B", "n", "Meth", "Prom", "N.A", "Emb.E", "D.s", "aitch", "0"}

var fitting = [][2]string{{"A", "string"}, {"B", "int"}, {"Any", "any"}, {"Err", "error"}, {"S", "Stringer"}, {"N", "nested"}, {"P", "*string"}, {"D", "map"}, {"Emb", "Emb"}, {"E", "string"}, {"EmbP", "*EmbP"},
	{"F", "any"}, {"F", "string"}, {"G", "string"}, {"H", "string"}, {"J", "int"}, {"Amb", "string"}, {"c", "string"}, {"h", "string"}, {"in", "string"}, {"Dp", "any"}, {"Deep", "any"}, {"s", "string"}, {"emb", "any"}, {"embp", "any"}, {"Meth", "any"}, {"Meth", "string"}, {"Prom", "string"}, {"a", "string"}, {"b", "int"}, {"s", "string"}, {"N.A", "string"}, {"Emb.E", "string"}}

var typeOfKind = map[string]string{"str": "string", "bool": "bool", "int": "int", "int64": "int64", "f64": "float64", "bytes": "[]byte", "stringer": "Stringer", "pstringer": "Stringer", "err": "error", "map": "map", "list": "list", "named": "named", "fany": "func"}

func drawA11(t *rapid.T) *LookupSpec {
	g := newGen(t, opt{depth: 1, safeText: true})
	s := &LookupSpec{NoCtx: g.p(1), NoData: g.p(3), Data: map[string]V{}, Cargo: pick(g, cargoKinds)}
	s.Under = g.p(4)
	for k := g.i(1, 3); k > 0; k-- {
		s.Vals = append(s.Vals, g.plainV())
	}
	for k := g.i(1, 5); k > 0; k-- {
		s.Keys = append(s.Keys, Str(pick(g, lookupKeys)))
	}
	for k := g.i(0, 4); k > 0; k-- {
		s.Data[string(pick(g, s.Keys))] = g.plainV()
	}
	for i := range s.Keys {
		s.Types = append(s.Types, pick(g, lookupTypes))
		switch g.uni(4) {
		case 0: // a key and type that some fixture has (or almost has)
			p := pick(g, fitting)
			s.Keys[i], s.Types[i] = Str(p[0]), p[1]
		case 1: // the type of some value
			if t := typeOfKind[pick(g, s.Vals).K]; t != "" {
				s.Types[i] = t
			}
		case 2:
			if g.bool() {
				s.Types[i] = "any"
			} else {
				s.Types[i] = "string"
			}
		}
	}
	if g.p(2) {
		s.Extra = g.i(1, 200)
		for range 3 {
			s.Keys = append(s.Keys, Str(extraKey(g.uni(s.Extra+1))))
			s.Types = append(s.Types, pick(g, []string{"string", "any", "int"}))
		}
	}
	return s
}

// extraKey is the name of the i'th further entry: one of the characters, or a number
func extraKey(i int) string {
	if i%3 == 0 {
		c := allCharacters()
		return string(c[i/3%len(c)]) + fmt.Sprint(i)
	}
	return fmt.Sprint("x", i)
}

var allCharacters = sync.OnceValue(characters)

// fixedA11 are contexts with many entries
func fixedA11() (r []any) {
	for _, n := range []int{9, 40, 1000} {
		for _, k := range cargoKinds {
			s := &LookupSpec{Cargo: k, Extra: n, Vals: []V{{K: "str", S: "v"}}, Keys: []Str{"A"}, Types: []string{"string"}}
			for _, i := range []int{0, 1, 2, 3, 7, 8, n / 2, n - 2, n - 1, n} {
				s.Keys = append(s.Keys, Str(extraKey(i)))
				s.Types = append(s.Types, []string{"string", "any"}[i%2])
			}
			r = append(r, s)
		}
	}
	return
}

// lookup looks a key up for a type, and verifies the result
func lookup[T any](ctx *context.Context, key string, candidates []any) (found bool, err error) {
	var want T
	for _, c := range candidates {
		if x, ok := c.(T); ok {
			want, found = x, true
			break
		}
	}
	got, ok := context.Get[T](ctx, key)
	if ok != found {
		return found, fmt.Errorf("Get[%T](%q) reports %v, should be %v", want, key, ok, found)
	}
	if describe(got) != describe(want) {
		return found, fmt.Errorf("Get[%T](%q) is %s, should be %s", want, key, describe(got), describe(want))
	}
	panicked := false
	var must T
	func() {
		defer func() { panicked = recover() != nil }()
		must = context.MustGet[T](ctx, key)
	}()
	if panicked == found {
		return found, fmt.Errorf("MustGet[%T](%q) panics: %v, although present: %v", want, key, panicked, found)
	}
	if describe(must) != describe(want) {
		return found, fmt.Errorf("MustGet[%T](%q) is %s, should be %s", want, key, describe(must), describe(want))
	}
	return found, nil
}

func describe(x any) string {
	switch v := x.(type) {
	case func() any:
		return fmt.Sprintf("func %v", v == nil)
	case *string:
		if v == nil {
			return "nil string"
		}
		return "*" + *v
	case *EmbP:
		if v == nil {
			return "nil EmbP"
		}
		return "&" + sketch(v.F) + v.Amb
	case []byte, map[string]any, []any:
		return fmt.Sprintf("%t", v == nil) + sketch(v)
	case fixture:
		return v.A + fmt.Sprint(v.B)
	}
	return sketch(x)
}

func checkA11(s *LookupSpec, r *Rec) error {
	cargo, find := s.cargo()
	var ctx *context.Context
	if !s.NoCtx {
		data := Ctx{NoData: s.NoData, Data: s.Data}.data()
		if data != nil {
			for i := 0; i < s.Extra; i += 2 {
				data[extraKey(i)] = fmt.Sprint("data ", i)
			}
		}
		ctx = context.New(nil, data, cargo)
		if s.Under {
			// in which nothing is to be looked up
			ctx.Parent = context.New(nil, map[string]any{}, nil)
			for i, k := range s.Keys {
				ctx.Parent.Data[string(k)] = map[string]any{"int": 99, "int64": int64(99), "bool": true, "float64": 9.9, "[]byte": []byte("parent"), "Stringer": strer("parent"), "map": map[string]any{"x": 9}, "list": []any{9}}[s.Types[i]]
				if ctx.Parent.Data[string(k)] == nil {
					ctx.Parent.Data[string(k)] = "parent"
				}
			}
			ctx.Parent.Cargo = ctx.Parent.Data
		}
	}
	hits := 0
	for i, k := range s.Keys {
		key := string(k)
		var candidates []any
		if ctx != nil {
			if x, ok := ctx.Data[key]; ok {
				candidates = append(candidates, x)
			}
			if x, ok := find[key]; ok {
				candidates = append(candidates, x)
			}
		}
		var found bool
		var err error
		switch s.Types[i] {
		case "string":
			found, err = lookup[string](ctx, key, candidates)
		case "int":
			found, err = lookup[int](ctx, key, candidates)
		case "int64":
			found, err = lookup[int64](ctx, key, candidates)
		case "bool":
			found, err = lookup[bool](ctx, key, candidates)
		case "float64":
			found, err = lookup[float64](ctx, key, candidates)
		case "[]byte":
			found, err = lookup[[]byte](ctx, key, candidates)
		case "any":
			found, err = lookup[any](ctx, key, candidates)
		case "Stringer":
			found, err = lookup[fmt.Stringer](ctx, key, candidates)
		case "error":
			found, err = lookup[error](ctx, key, candidates)
		case "map":
			found, err = lookup[map[string]any](ctx, key, candidates)
		case "list":
			found, err = lookup[[]any](ctx, key, candidates)
		case "named":
			found, err = lookup[named](ctx, key, candidates)
		case "*string":
			found, err = lookup[*string](ctx, key, candidates)
		case "nested":
			found, err = lookup[fixNested](ctx, key, candidates)
		case "*EmbP":
			found, err = lookup[*EmbP](ctx, key, candidates)
		case "Emb":
			found, err = lookup[Emb](ctx, key, candidates)
		case "func":
			found, err = lookup[func() any](ctx, key, candidates)
		case "fixture":
			found, err = lookup[fixture](ctx, key, candidates)
		}
		if err != nil {
			return fmt.Errorf("Cargo %s: %w", s.Cargo, err)
		}
		if found {
			hits++
			r.Class("found " + s.Types[i])
		}
		if len(candidates) > 1 {
			r.Class("in Data and in Cargo")
		}
	}
	r.Class("cargo:" + s.Cargo)
	if hits > 0 {
		r.Class("found in " + s.Cargo)
	}
	r.Evals(len(s.Keys)*2 - 1)
	r.Sample(fmt.Sprintf("%d of %d keys found", hits, len(s.Keys)))
	r.NonTrivial(hits > 0 || s.Cargo != "nil")
	return nil
}

func init() {
	register("A11", "random Data and Cargo of 35 kinds looked up for random keys and 18 types, compared with a model that lists what each kind of Cargo holds without using reflection, and contexts with up to 1000 entries; non-trivial: something was found or there was a Cargo", 180000, 500000, drawA11, checkA11).fixed = fixedA11
}
