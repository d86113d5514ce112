package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-andiamo/aitch/context"
)

// Str is a string that survives JSON even when it is not valid UTF-8
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(s))})
}

func (s *Str) UnmarshalJSON(data []byte) error {
	if len(data) > 0 && data[0] == '{' {
		m := map[string]string{}
		if err := json.Unmarshal(data, &m); err != nil {
			return err
		}
		b, err := hex.DecodeString(m["hex"])
		*s = Str(b)
		return err
	}
	var v string
	err := json.Unmarshal(data, &v)
	*s = Str(v)
	return err
}

// V describes a value
//
// plain kinds (usable anywhere, also in Data, Cargo and items):
//
//	nil str bytes bool int int8..int64 uint uint8..uint64 f32 f64 (bits in U) stringer pstringer
//	named (string type that is not a Stringer) struct err cplx fany (func() any)
//	list ([]any) strs ([]string) nstrs (type based on []string) arr ([2]string) pslice (*[]string) strers ([]strer) pstr (*string; B: nil) ptrs ([]*string) ifcs ([]fmt.Stringer) structs ([]someStruct) msss ([]map[string]string) ints ([]int) bools ([]bool) f64s map (map[string]any) maps ([]map[string]any; B: a map is nil) mss (map[string]string)
//
// content kinds (usable as content and as attribute values):
//
//	key (DynamicValueKey) dfn (DynamicValueFunc) rfn (func(*Context) []byte) dval (func writing Data[S] as escaped text)
//	cargo (func writing a sketch of the Cargo) up (func writing Data[S] of the I'th parent) count (func with a side effect)
//	set (func that sets Data["set"] of the outermost context or, if B, the Cargo)
//	self (func that renders the whole template, in a context of its own, unless within such)
//	value (NewValue) concat (NewConcatValue) text, comm, attrv (nodes used for their values) ctext (Collection of text)
//	vref (shared value I) nref (shared node I, used for its values) elemv (element used as value) unit (css unit S) var (htmx.Var) efn (func that can be made to fail)
type V struct {
	K  string       `json:"k"`
	S  Str          `json:"s,omitempty"`
	I  int64        `json:"i,omitempty"`
	U  uint64       `json:"u,omitempty"`
	B  bool         `json:"b,omitempty"`
	ID int          `json:"id,omitempty"`
	Vs []V          `json:"vs,omitempty"`
	SR int          `json:"sr,omitempty"` // values are those of shared slice SR-1 ...
	SN int          `json:"sn,omitempty"` // ... up to this length
	M  map[string]V `json:"m,omitempty"`
}

// Cond describes the condition of a conditional
//
// kinds: true, false, key (Data[S] == true), has (S in Data), cargo (Cargo is string S), depth (has a Parent), nil (no condition)
type Cond struct {
	K  string `json:"k"`
	S  Str    `json:"s,omitempty"`
	ID int    `json:"id,omitempty"`
}

// Op is one call on an imperative context: start end endall str raw nodes ctx err (returned or, if Void, set in the context)
type Op struct {
	K    string `json:"k"`
	S    Str    `json:"s,omitempty"`
	Void bool   `json:"void,omitempty"`
	N    []N    `json:"n,omitempty"`
	ID   int    `json:"id,omitempty"`
}

// N describes a node (again: the node before it, once more; cust and custattr: not of a type of aitch's)
type N struct {
	K     string `json:"k"`
	Fn    string `json:"fn,omitempty"` // helper function used to build it (see registry.go)
	Chk   bool   `json:"chk,omitempty"`
	Name  Str    `json:"name,omitempty"`
	Delim Str    `json:"delim,omitempty"`
	Vals  []V    `json:"vals,omitempty"`
	Kids  []N    `json:"kids,omitempty"`
	Head  []N    `json:"head,omitempty"`
	C     *Cond  `json:"c,omitempty"`
	Items []V    `json:"items,omitempty"`
	Key   Str    `json:"key,omitempty"`
	Ops   []Op   `json:"ops,omitempty"`
	ID    int    `json:"id,omitempty"`
	Ref   int    `json:"ref,omitempty"`
	Form  int    `json:"form,omitempty"` // what sort of type (cust and custattr)
	SR    int    `json:"sr,omitempty"`   // values (or kids) are those of shared slice SR-1 ...
	SN    int    `json:"sn,omitempty"`   // ... up to this length
}

// Ctx describes a rendering context
type Ctx struct {
	NoData bool         `json:"nodata,omitempty"`
	Data   map[string]V `json:"data,omitempty"`
	Cargo  *V           `json:"cargo,omitempty"`
	Under  bool         `json:"under,omitempty"` // the caller's context has a Parent (which isn't what is being rendered with)
}

// outer is the Cargo of such a Parent
type outer struct{}

// outerWriter is its Writer, to which nothing is to be written
type outerWriter struct{}

func (outerWriter) Write([]byte) (int, error) {
	panic("written to the Parent of the context that is being rendered with")
}

// context creates a context for a render
func (c Ctx) context(w io.Writer, data map[string]any, cargo any) *context.Context {
	ctx := context.New(w, data, cargo)
	if c.Under {
		ctx.Parent = context.New(outerWriter{}, map[string]any{}, outer{})
		for _, k := range dataKeys {
			ctx.Parent.Data[k] = "outer"
		}
	}
	return ctx
}

// parentOf is the context's parent among those of this render
func parentOf(ctx *context.Context) *context.Context {
	if p := ctx.Parent; p != nil && p.Cargo != any(outer{}) {
		return p
	}
	return nil
}

type strer string

type anyList []any

type anyMap map[string]any

func (s strer) String() string { return string(s) }

type pstrer struct{ s string }

func (s *pstrer) String() string { return s.s }

// types that are Stringers
type (
	bytesStringer  []byte
	structStringer struct {
		A string
		n int
	}
	errStringer  struct{ s string }
	mapStringer  map[string]any
	listStringer []any
	arrStringer  [1]string
	fnStringer   func() string
	manyStringer struct{ s string }
)

func (s bytesStringer) String() string  { return string(s) }
func (s structStringer) String() string { return s.A }
func (s errStringer) String() string    { return s.s }
func (s errStringer) Error() string     { return "not this" }
func (s mapStringer) String() string    { return s["s"].(string) }
func (s listStringer) String() string   { return s[0].(string) }
func (s arrStringer) String() string    { return s[0] }
func (s fnStringer) String() string     { return s() }

// (not what is to be used of a Stringer)
func (s manyStringer) String() string                   { return s.s }
func (s manyStringer) GoString() string                 { return "not go's" }
func (s manyStringer) Format(f fmt.State, _ rune)       { _, _ = f.Write([]byte("not formatted")) }
func (s manyStringer) MarshalText() ([]byte, error)     { return []byte("not marshalled"), nil }
func (s manyStringer) MarshalJSON() ([]byte, error)     { return []byte("not json"), nil }
func (s manyStringer) Value() (any, error)              { return "not the value", nil }
func (s manyStringer) HTML() string                     { return "not html" }
func (s manyStringer) Bytes() []byte                    { return []byte("not bytes") }
func (s manyStringer) Read([]byte) (int, error)         { return 0, io.EOF }
func (s manyStringer) WriteTo(io.Writer) (int64, error) { return 0, io.EOF }

const stringers = 14

// stringerOf makes a Stringer of some type
func stringerOf(kind int, s string) any {
	switch kind {
	case 1:
		return json.Number(s)
	case 2:
		return bytesStringer(s)
	case 3:
		return structStringer{s, 1}
	case 4:
		return errStringer{s}
	case 5:
		return bytes.NewBufferString(s)
	case 6:
		sb := &strings.Builder{}
		sb.WriteString(s)
		return sb
	case 7:
		return mapStringer{"s": s}
	case 8:
		return listStringer{s}
	case 9:
		return arrStringer{s}
	case 10:
		return &errStringer{s}
	case 11:
		return structStringer{s, 2}
	case 12:
		return fnStringer(func() string { return s })
	case 13:
		return manyStringer{s}
	}
	return strer(s)
}

// types that are neither supported nor Stringers
type (
	namedBytes []byte
	namedBool  bool
	namedFunc  func() any
)

type (
	textMarshaler struct{ s string }
	jsonMarshaler struct{ s string }
	goStringer    struct{ s string }
	formatter     struct{ s string }
	valuer        struct{ s string }
	htmler        struct{ s string }
	byter         struct{ s string }
)

func (x textMarshaler) MarshalText() ([]byte, error) { return []byte(x.s), nil }
func (x jsonMarshaler) MarshalJSON() ([]byte, error) { return json.Marshal(x.s) }
func (x goStringer) GoString() string                { return x.s }
func (x formatter) Format(f fmt.State, _ rune)       { _, _ = f.Write([]byte(x.s)) }
func (x valuer) Value() (any, error)                 { return x.s, nil }
func (x htmler) HTML() string                        { return x.s }
func (x byter) Bytes() []byte                        { return []byte(x.s) }

type valid struct {
	String string
	Valid  bool
}

const nameds = 36

func namedOf(kind int, s string) any {
	switch kind {
	case 1:
		return template.HTML(s)
	case 2:
		return strings.Fields(s)
	case 3:
		return template.HTMLAttr(s)
	case 4:
		return template.JS(s)
	case 5:
		return &s
	case 6:
		return namedBytes(s)
	case 7:
		return []rune(s)
	case 8:
		return template.URL(s)
	case 9:
		return namedBool(true)
	case 10:
		b := []byte(s)
		return &b
	case 11:
		return strings.NewReader(s)
	case 12:
		return new(bool)
	case 13:
		return namedBool(false)
	case 14:
		return func() bool { return false }
	case 15:
		return (*someStruct)(nil)
	case 16:
		return namedInt(len(s))
	case 17:
		return func() string { return s }
	case 18:
		return [][]byte{[]byte(s)}
	case 19:
		return map[string]bool{s: false}
	case 20:
		return valid{s, false}
	case 21:
		return &valid{s, true}
	case 22:
		return (*bool)(nil)
	case 23:
		return []any(nil)
	case 24:
		return struct{}{}
	case 25:
		return map[string]string(nil)
	case 26:
		return textMarshaler{s}
	case 27:
		return jsonMarshaler{s}
	case 28:
		return goStringer{s}
	case 29:
		return formatter{s}
	case 30:
		return valuer{s}
	case 31:
		return htmler{s}
	case 32:
		return byter{s}
	case 33:
		return &bytes.Reader{}
	case 34:
		return namedFunc(func() any { return s })
	case 35:
		return template.HTML(s)
	}
	return named(s)
}

type named string

type namedSlice []string

type someStruct struct{ A, B string }

type someErr struct{ s string }

func (e *someErr) Error() string { return e.s }

// plain builds the actual value of a plain kind
func (v V) plain() any {
	switch v.K {
	case "nil":
		return nil
	case "str":
		return string(v.S)
	case "bytes":
		return []byte(v.S)
	case "bool":
		return v.B
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "f32":
		return math.Float32frombits(uint32(v.U))
	case "f64":
		return math.Float64frombits(v.U)
	case "stringer":
		return stringerOf(int(v.I), string(v.S))
	case "pstringer":
		return &pstrer{string(v.S)}
	case "named":
		return namedOf(int(v.I), string(v.S))
	case "struct":
		return someStruct{A: string(v.S)}
	case "err":
		return &someErr{string(v.S)}
	case "cplx":
		return complex(1, 2)
	case "fany":
		inner := v.Vs[0]
		return func() any { return inner.plain() }
	case "list":
		r := make([]any, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain()
		}
		return r
	case "strs":
		r := make([]string, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = string(x.S)
		}
		return r
	case "nstrs":
		return namedSlice(V{K: "strs", Vs: v.Vs}.plain().([]string))
	case "arr":
		var r [2]string
		for i := range v.Vs {
			r[i%2] = string(v.Vs[i].S)
		}
		return r
	case "pslice":
		r := V{K: "strs", Vs: v.Vs}.plain().([]string)
		return &r
	case "strers":
		r := make([]strer, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = strer(x.S)
		}
		return r
	case "pstr": // B: a nil pointer
		if v.B {
			return (*string)(nil)
		}
		s := string(v.S)
		return &s
	case "ptrs":
		r := make([]*string, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain().(*string)
		}
		return r
	case "ifcs":
		r := make([]fmt.Stringer, len(v.Vs))
		for i, x := range v.Vs {
			if x.K != "nil" {
				r[i] = x.plain().(fmt.Stringer)
			}
		}
		return r
	case "structs":
		r := make([]someStruct, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain().(someStruct)
		}
		return r
	case "msss":
		r := make([]map[string]string, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain().(map[string]string)
		}
		return r
	case "fanys":
		r := make([]func() any, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain().(func() any)
		}
		return r
	case "lists":
		r := make([][]any, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain().([]any)
		}
		return r
	case "nlist":
		return anyList(V{K: "list", Vs: v.Vs}.plain().([]any))
	case "u64s":
		r := make([]uint64, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.U
		}
		return r
	case "ints":
		r := make([]int, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = int(x.I)
		}
		return r
	case "bools":
		r := make([]bool, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.B
		}
		return r
	case "f64s":
		r := make([]float64, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = math.Float64frombits(x.U)
		}
		return r
	case "map":
		if v.B {
			return map[string]any(nil)
		}
		r := make(map[string]any, len(v.M))
		for k, x := range v.M {
			r[k] = x.plain()
		}
		return r
	case "pmap":
		r := V{K: "map", B: v.B, M: v.M}.plain().(map[string]any)
		return &r
	case "nmap":
		return anyMap(V{K: "map", B: v.B, M: v.M}.plain().(map[string]any))
	case "maps":
		r := make([]map[string]any, len(v.Vs))
		for i, x := range v.Vs {
			r[i] = x.plain().(map[string]any)
		}
		return r
	case "mss":
		r := make(map[string]string, len(v.M))
		for k, x := range v.M {
			r[k] = string(x.S)
		}
		return r
	}
	panic("harness: not a plain value: " + v.K)
}

func (c Ctx) data() map[string]any {
	if c.NoData {
		return nil
	}
	r := make(map[string]any, len(c.Data))
	for k, x := range c.Data {
		r[k] = x.plain()
	}
	return r
}

func (c Ctx) cargo() any {
	if c.Cargo == nil {
		return nil
	}
	return c.Cargo.plain()
}

// sketch describes a plain value in a comparable way (without addresses and independently of map order)
func sketch(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", v)
	case []byte:
		return fmt.Sprintf("b%q", v)
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32, float64, strer, named:
		return fmt.Sprintf("%T(%v)", v, v)
	case map[string]any:
		return "m" + sketchMap(v)
	case []map[string]any:
		r := make([]string, len(v))
		for i, e := range v {
			r[i] = sketchMap(e)
		}
		return "ms[" + strings.Join(r, " ") + "]"
	case []any:
		r := make([]string, len(v))
		for i, e := range v {
			r[i] = sketch(e)
		}
		return "[" + strings.Join(r, " ") + "]"
	case *pstrer:
		return "p" + v.s
	case *someErr:
		return "e" + v.s
	case func() any:
		return "func"
	case *string:
		if v == nil {
			return "&nil"
		}
		return fmt.Sprintf("&%q", *v)
	case []*string:
		r := make([]string, len(v))
		for i, e := range v {
			r[i] = sketch(e)
		}
		return "p[" + strings.Join(r, " ") + "]"
	case []fmt.Stringer:
		r := make([]string, len(v))
		for i, e := range v {
			r[i] = sketch(e)
		}
		return "i[" + strings.Join(r, " ") + "]"
	case []func() any:
		return fmt.Sprintf("f[%d]", len(v))
	case [][]any:
		r := make([]string, len(v))
		for i, e := range v {
			r[i] = sketch(e)
		}
		return "l[" + strings.Join(r, " ") + "]"
	case anyList:
		return "n" + sketch([]any(v))
	case *[]byte:
		return fmt.Sprintf("&%q", *v)
	case *strings.Reader:
		return "reader"
	case []string:
		return fmt.Sprintf("%q", v)
	case *[]string:
		return fmt.Sprintf("&%q", *v)
	case *bool:
		if v != nil {
			return fmt.Sprintf("&%v", *v)
		}
	case *map[string]any:
		return "&" + sketchMap(*v)
	case anyMap:
		return "n" + sketchMap(v)
	case manyStringer:
		return "many" + v.s
	case func() bool, func() string, namedFunc:
		return fmt.Sprintf("%T", v)
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

func sketchMap(m map[string]any) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := make([]string, 0, len(m))
	for _, k := range keys {
		r = append(r, fmt.Sprintf("%q:%s", k, sketch(m[k])))
	}
	return "{" + strings.Join(r, " ") + "}"
}

// expand replaces every use of the same node again by a copy of that node
func expand(n N) N {
	all := func(ns []N) []N {
		if len(ns) == 0 {
			return ns
		}
		r := make([]N, len(ns))
		for i, k := range ns {
			switch {
			case k.K == "again" && i > 0:
				r[i] = r[i-1]
			case k.K == "again":
				r[i] = N{K: "nil"}
			default:
				r[i] = expand(k)
			}
		}
		return r
	}
	n.Kids, n.Head = all(n.Kids), all(n.Head)
	if len(n.Ops) > 0 {
		ops := append([]Op(nil), n.Ops...)
		for i := range ops {
			ops[i].N = all(ops[i].N)
		}
		n.Ops = ops
	}
	return n
}

// walkN visits every node of a tree (ops, heads and kids included)
func walkN(n *N, f func(*N)) {
	f(n)
	for i := range n.Kids {
		walkN(&n.Kids[i], f)
	}
	for i := range n.Head {
		walkN(&n.Head[i], f)
	}
	for i := range n.Ops {
		for j := range n.Ops[i].N {
			walkN(&n.Ops[i].N[j], f)
		}
	}
}

// walkV visits every value of a tree (including values nested in values and items)
func walkV(n *N, f func(*V)) {
	walkN(n, func(n *N) {
		for i := range n.Vals {
			walkVV(&n.Vals[i], f)
		}
		for i := range n.Items {
			walkVV(&n.Items[i], f)
		}
	})
}

func walkVV(v *V, f func(*V)) {
	f(v)
	for i := range v.Vs {
		walkVV(&v.Vs[i], f)
	}
	if len(v.M) > 0 {
		keys := make([]string, 0, len(v.M))
		for k := range v.M {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			x := v.M[k]
			walkVV(&x, f)
			v.M[k] = x
		}
	}
}
