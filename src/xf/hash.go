package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/sonirico/visigoth/zz_verif/vs"
)

// canon writes a canonical form of everything reachable from v: pointers are
// numbered in order of first visit, slices carry length, capacity and the
// identity of their backing array, maps are sorted by key.
type canon struct {
	b     strings.Builder
	ptrs  map[[2]uintptr]int
	depth int
}

func deepState(x any) string {
	c := &canon{ptrs: map[[2]uintptr]int{}}
	c.walk(reflect.ValueOf(x))
	return c.b.String()
}

func (c *canon) id(p uintptr, t reflect.Type) (int, bool) {
	k := [2]uintptr{p, reflect.ValueOf(t).Pointer()}
	if n, ok := c.ptrs[k]; ok {
		return n, false
	}
	n := len(c.ptrs) + 1
	c.ptrs[k] = n
	return n, true
}

var objType = reflect.TypeOf(vs.Obj{})

func (c *canon) walk(v reflect.Value) {
	if !v.IsValid() {
		c.b.WriteString("nil")
		return
	}
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 60 {
		c.b.WriteString("deep")
		return
	}
	if v.Type() == objType {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(&c.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&c.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&c.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&c.b, v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(&c.b, v.Complex())
	case reflect.String:
		fmt.Fprintf(&c.b, "%q", v.String())
	case reflect.Pointer:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		n, fresh := c.id(v.Pointer(), v.Type())
		fmt.Fprintf(&c.b, "&%d", n)
		if fresh {
			c.walk(v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		c.b.WriteString(v.Elem().Type().String())
		c.walk(v.Elem())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.Kind() == reflect.Chan && !v.IsNil() {
			n, _ := c.id(v.Pointer(), v.Type())
			fmt.Fprintf(&c.b, "chan%d", n)
			return
		}
		if v.Kind() == reflect.Func {
			fmt.Fprintf(&c.b, "func%v", v.IsNil())
		}
	case reflect.Struct:
		c.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			c.walk(v.Field(i))
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
			c.b.WriteByte(',')
		}
	case reflect.Slice:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		n := 0
		if v.Cap() > 0 {
			n, _ = c.id(v.Pointer(), v.Type())
		}
		fmt.Fprintf(&c.b, "#%d:%d/%d[", n, v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
			c.b.WriteByte(',')
		}
		c.b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		n, fresh := c.id(v.Pointer(), v.Type())
		fmt.Fprintf(&c.b, "map%d", n)
		if !fresh {
			return
		}
		type kv struct {
			k string
			v reflect.Value
		}
		var l []kv
		it := v.MapRange()
		for it.Next() {
			kc := &canon{ptrs: map[[2]uintptr]int{}}
			kc.walk(it.Key())
			l = append(l, kv{kc.b.String(), it.Value()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		c.b.WriteByte('{')
		for _, e := range l {
			c.b.WriteString(e.k)
			c.b.WriteByte(':')
			c.walk(e.v)
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	}
}
