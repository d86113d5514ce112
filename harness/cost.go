package main

import "reflect"

// maxCost limits (by estimate) the number of nodes and values rendered in one go times the size of the case, part of
// which callbacks show: iterations nested in iterations of long lists would take minutes
const maxCost = 1e8

// costOf estimates (upwards) the number of nodes and values rendered by one render of the templates of a spec
func costOf(spec any) float64 {
	c := &coster{lists: 1, ref: 1, self: 1}
	c.walk(reflect.ValueOf(spec))
	total := 0.0
	for pass := 0; pass < 3; pass++ {
		total, c.ref = 0, 1
		max := 1.0
		for _, n := range c.roots {
			x := c.node(*n)
			total += x
			if x > max {
				max = x
			}
		}
		if pass == 0 && !c.selfs && !c.refs {
			break
		}
		c.ref, c.self = max, max
	}
	return total
}

type coster struct {
	roots       []*N
	lists       float64 // length of the longest list in any data
	ref, self   float64
	refs, selfs bool
}

var typeN, typeV = reflect.TypeOf(N{}), reflect.TypeOf(V{})

func (c *coster) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			c.walk(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			c.walk(it.Value())
		}
	case reflect.Struct:
		switch v.Type() {
		case typeN:
			n := v.Interface().(N)
			c.roots = append(c.roots, &n)
			walkV(&n, c.value)
			walkN(&n, func(n *N) { c.refs = c.refs || n.K == "ref" })
		case typeV:
			x := v.Interface().(V)
			walkVV(&x, c.value)
		default:
			for i := 0; i < v.NumField(); i++ {
				c.walk(v.Field(i))
			}
		}
	}
}

func (c *coster) value(v *V) {
	n := float64(len(v.Vs))
	if v.K == "bytes" || v.K == "named" || v.K == "stringer" && v.I == 2 { // which are slices, too
		n = float64(len(v.S))
	}
	if n > c.lists {
		c.lists = n
	}
	c.selfs = c.selfs || v.K == "self"
}

func (c *coster) values(vs []V) (r float64) {
	for i := range vs {
		r++
		if vs[i].K == "self" {
			r += c.self
		}
		r += c.values(vs[i].Vs)
	}
	return r
}

func (c *coster) node(n N) float64 {
	if n.K == "ref" {
		return c.ref
	}
	r := c.values(n.Vals)
	kids := func(ns []N) (r float64) {
		last := 0.0
		for _, k := range ns {
			if k.K != "again" {
				last = c.node(k)
			}
			r += last
		}
		return r
	}
	inner := kids(n.Kids) + kids(n.Head)
	for _, op := range n.Ops {
		inner += kids(op.N) + 1
	}
	switch n.K {
	case "iter", "yield":
		inner *= float64(len(n.Items))
	case "iterkey":
		inner *= c.lists
	}
	return 1 + r + inner
}
