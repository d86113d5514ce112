package main

// An interpreter for the Go expressions that GenerateCode writes: it only knows the exported functions of the
// aitch packages, checks the arguments as a compiler would, and builds the actual nodes.

import (
	"fmt"
	"go/ast"
	goconst "go/constant"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

var goFuncs = func() map[string]reflect.Value {
	m := map[string]reflect.Value{}
	for _, h := range helpers {
		m[h.Pkg+"."+h.Func] = reflect.ValueOf(h.fn)
	}
	for name, fn := range map[string]any{
		"html.Text": html.Text, "html.Comment": html.Comment, "html.PI": html.PI, "html.Data": html.Data, "html.Aria": html.Aria,
		"html.Document": html.Document, "svg.Text": svg.Text, "svg.Comment": svg.Comment, "htmx.On": htmx.On, "css.Px": css.Px,
		"aitch.Text": aitch.Text, "aitch.Comment": aitch.Comment, "aitch.PI": aitch.PI, "aitch.DocType": aitch.DocType,
		"aitch.Collection": aitch.Collection, "aitch.Fragment": aitch.Fragment,
		"aitch.Element": aitch.Element, "aitch.NewElement": aitch.NewElement, "aitch.VoidElement": aitch.VoidElement,
		"aitch.NewVoidElement": aitch.NewVoidElement, "aitch.Attribute": aitch.Attribute, "aitch.NewAttribute": aitch.NewAttribute,
		"aitch.BooleanAttribute": aitch.BooleanAttribute, "aitch.NewBooleanAttribute": aitch.NewBooleanAttribute,
		"aitch.DelimitedAttribute": aitch.DelimitedAttribute, "aitch.NewDelimitedAttribute": aitch.NewDelimitedAttribute,
	} {
		m[name] = reflect.ValueOf(fn)
	}
	return m
}()

var (
	anyType = reflect.TypeOf((*any)(nil)).Elem()
)

// untyped is the value of an untyped constant
type untyped struct{ v any }

type goErr string

func (e goErr) Error() string { return string(e) }

func bad(f string, a ...any) { panic(goErr(fmt.Sprintf(f, a...))) }

// evalCode evaluates generated code: a declaration of one variable
func evalCode(code string, used map[string]bool) (node aitch.Node, err error) {
	defer func() {
		if x := recover(); x != nil {
			if ge, ok := x.(goErr); ok {
				err = fmt.Errorf("generated code does not compile: %s", string(ge))
				return
			}
			err = fmt.Errorf("generated code panics: %v", x)
		}
	}()
	f, perr := parser.ParseFile(token.NewFileSet(), "gen.go", "package gen\n\n"+code, parser.SkipObjectResolution)
	if perr != nil {
		return nil, fmt.Errorf("generated code is not valid Go: %v", perr)
	}
	if len(f.Decls) != 1 {
		return nil, fmt.Errorf("generated code has %d declarations", len(f.Decls))
	}
	gd, ok := f.Decls[0].(*ast.GenDecl)
	if !ok || gd.Tok != token.VAR || len(gd.Specs) != 1 {
		return nil, fmt.Errorf("generated code is not a variable declaration")
	}
	vs := gd.Specs[0].(*ast.ValueSpec)
	if len(vs.Values) != 1 {
		return nil, fmt.Errorf("generated code has %d values", len(vs.Values))
	}
	v := evalExpr(vs.Values[0], used)
	node, ok = v.(aitch.Node)
	if !ok {
		return nil, fmt.Errorf("generated code is not a node but %T", v)
	}
	return node, nil
}

func evalExpr(x ast.Expr, used map[string]bool) any {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return evalExpr(x.X, used)
	case *ast.BasicLit:
		switch x.Kind {
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				bad("string literal %s: %v", x.Value, err)
			}
			return untyped{s}
		case token.INT, token.FLOAT:
			c := goconst.MakeFromLiteral(x.Value, x.Kind, 0)
			if i, ok := goconst.Int64Val(goconst.ToInt(c)); ok {
				return untyped{int(i)}
			}
			fl, _ := goconst.Float64Val(c)
			return untyped{fl}
		}
	case *ast.BinaryExpr:
		a, ok1 := evalExpr(x.X, used).(untyped)
		b, ok2 := evalExpr(x.Y, used).(untyped)
		if ok1 && ok2 && x.Op == token.ADD {
			s1, ok1 := a.v.(string)
			s2, ok2 := b.v.(string)
			if ok1 && ok2 {
				return untyped{s1 + s2}
			}
		}
	case *ast.Ident:
		switch x.Name {
		case "nil":
			return nil
		case "true", "false":
			return untyped{x.Name == "true"}
		}
		bad("undefined: %s", x.Name)
	case *ast.CallExpr:
		if at, ok := x.Fun.(*ast.ArrayType); ok && at.Len == nil {
			if id, ok := at.Elt.(*ast.Ident); ok && id.Name == "byte" && len(x.Args) == 1 {
				if u, ok := evalExpr(x.Args[0], used).(untyped); ok {
					if s, ok := u.v.(string); ok {
						return []byte(s)
					}
				}
			}
			bad("bad conversion")
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "string" && len(x.Args) == 1 {
			switch v := evalExpr(x.Args[0], used).(type) {
			case untyped:
				if s, ok := v.v.(string); ok {
					return s
				}
			case []byte:
				return string(v)
			}
		}
		sel, ok := x.Fun.(*ast.SelectorExpr)
		if !ok {
			bad("call of %T", x.Fun)
		}
		pkg, ok := sel.X.(*ast.Ident)
		if !ok {
			bad("call of %T", sel.X)
		}
		name := pkg.Name + "." + sel.Sel.Name
		fn, ok := goFuncs[name]
		if !ok {
			bad("undefined: %s", name)
		}
		used[name] = true
		return callGo(name, fn, x, used)
	}
	bad("unexpected expression %T", x)
	return nil
}

func callGo(name string, fn reflect.Value, x *ast.CallExpr, used map[string]bool) any {
	ft := fn.Type()
	if x.Ellipsis.IsValid() {
		bad("spread arguments of %s", name)
	}
	fixed := ft.NumIn()
	if ft.IsVariadic() {
		fixed--
	}
	if len(x.Args) < fixed || (len(x.Args) > fixed && !ft.IsVariadic()) {
		bad("%d arguments in call to %s", len(x.Args), name)
	}
	in := make([]reflect.Value, len(x.Args))
	for i, a := range x.Args {
		t := anyType
		if i < fixed {
			t = ft.In(i)
		} else {
			t = ft.In(fixed).Elem()
		}
		v := evalExpr(a, used)
		if u, ok := v.(untyped); ok {
			rv := reflect.ValueOf(u.v)
			if !rv.Type().AssignableTo(t) && !(rv.Kind() == t.Kind() && rv.CanConvert(t)) {
				bad("cannot use constant %v as %s in argument to %s", u.v, t, name)
			}
			if rv.Type().AssignableTo(t) {
				in[i] = rv
			} else {
				in[i] = rv.Convert(t)
			}
			continue
		}
		if v == nil {
			if k := t.Kind(); k != reflect.Interface && k != reflect.Slice && k != reflect.Map && k != reflect.Func {
				bad("cannot use nil as %s in argument to %s", t, name)
			}
			in[i] = reflect.Zero(t)
			continue
		}
		rv := reflect.ValueOf(v)
		if _, isNode := v.(aitch.Node); isNode && t.Kind() != reflect.Interface {
			bad("cannot use node as %s in argument to %s", t, name)
		}
		if !rv.Type().AssignableTo(t) {
			bad("cannot use %s as %s in argument to %s", rv.Type(), t, name)
		}
		in[i] = rv
	}
	out := fn.Call(in)
	if len(out) != 1 {
		bad("%s returns %d values", name, len(out))
	}
	return out[0].Interface()
}
